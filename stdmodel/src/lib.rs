//! Plain-loop models of standard library functions whose own MIR is specialised, pointer-based or
//! not available. The analysis inlines these bodies in place of the library functions.
//! `Trait__method` models the trait method, `Type__method` the inherent one; generic parameters
//! are those of the modelled function without lifetimes.
#![allow(non_snake_case, clippy::all)]

pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn Iterator__reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    Some(acc)
}
pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn Iterator__find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn Iterator__position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn Iterator__count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0;
    while let Some(_x) = it.next() {
        i += 1;
    }
    i
}
pub fn Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn Iterator__nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n {
        if it.next().is_none() {
            return None;
        }
        i += 1;
    }
    it.next()
}
pub fn Iterator__max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut acc = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        acc = std::cmp::max(acc, x);
    }
    Some(acc)
}
pub fn Iterator__min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut acc = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        acc = std::cmp::min(acc, x);
    }
    Some(acc)
}
pub fn Iterator__collect__Vec<I: Iterator<Item = T>, T>(mut it: I) -> Vec<T> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
/// the analysis keeps states with different known lengths of this list apart
#[inline(never)]
pub fn tok_list<T>(_v: &mut Vec<T>) {}
/// the list has four entries or more
#[inline(never)]
pub fn tok_long<T>(_v: &mut Vec<T>) {}
/// for the parts of a line: the first ones are taken one by one
pub fn Iterator__collect__TokVec<I: Iterator<Item = T>, T>(mut it: I) -> Vec<T> {
    let mut v = Vec::new();
    tok_list(&mut v);
    match it.next() {
        Some(x) => v.push(x),
        None => return v,
    }
    match it.next() {
        Some(x) => v.push(x),
        None => return v,
    }
    match it.next() {
        Some(x) => v.push(x),
        None => return v,
    }
    match it.next() {
        Some(x) => v.push(x),
        None => return v,
    }
    while let Some(x) = it.next() {
        v.push(x);
    }
    tok_long(&mut v);
    v
}
pub fn Iterator__collect__TokResult<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    tok_list(&mut v);
    match it.next() {
        Some(Ok(x)) => v.push(x),
        Some(Err(e)) => return Err(e),
        None => return Ok(v),
    }
    match it.next() {
        Some(Ok(x)) => v.push(x),
        Some(Err(e)) => return Err(e),
        None => return Ok(v),
    }
    match it.next() {
        Some(Ok(x)) => v.push(x),
        Some(Err(e)) => return Err(e),
        None => return Ok(v),
    }
    match it.next() {
        Some(Ok(x)) => v.push(x),
        Some(Err(e)) => return Err(e),
        None => return Ok(v),
    }
    while let Some(r) = it.next() {
        match r {
            Ok(x) => v.push(x),
            Err(e) => return Err(e),
        }
    }
    tok_long(&mut v);
    Ok(v)
}
pub fn Iterator__collect__ResultVec<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(r) = it.next() {
        match r {
            Ok(x) => v.push(x),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn FromIterator__from_iter__Vec<I: IntoIterator<Item = T>, T>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn Extend__extend__Vec<I: IntoIterator<Item = T>, T>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn Iterator__collect__BTreeSet<I: Iterator<Item = T>, T: Ord>(mut it: I) -> std::collections::BTreeSet<T> {
    let mut v = std::collections::BTreeSet::new();
    while let Some(x) = it.next() {
        v.insert(x);
    }
    v
}
pub fn Extend__extend__BTreeSet<I: IntoIterator<Item = T>, T: Ord>(v: &mut std::collections::BTreeSet<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.insert(x);
    }
}
pub fn Iterator__collect__BinaryHeap<I: Iterator<Item = T>, T: Ord>(mut it: I) -> std::collections::BinaryHeap<T> {
    let mut v = std::collections::BinaryHeap::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn Extend__extend__BinaryHeap<I: IntoIterator<Item = T>, T: Ord>(v: &mut std::collections::BinaryHeap<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn fn__swap<T>(a: &mut T, b: &mut T) {
    let t = fn__replace(a, proj_read(b));
    *b = t;
}
pub fn fn__replace<T>(a: &mut T, v: T) -> T {
    let old = proj_read(a);
    *a = v;
    old
}
/// Reads a place without moving out of it; interpreted by the analysis.
#[inline(never)]
pub fn proj_read<T>(_a: &T) -> T {
    loop {}
}
pub fn Zip__Iterator__next<A: Iterator, B: Iterator>(z: &mut std::iter::Zip<A, B>) -> Option<(A::Item, B::Item)> {
    let x = match zip_a(z).next() {
        Some(x) => x,
        None => return None,
    };
    match zip_b(z).next() {
        Some(y) => Some((x, y)),
        None => None,
    }
}
/// The two iterators of a zip; interpreted by the analysis.
#[inline(never)]
pub fn zip_a<A, B>(_z: &mut std::iter::Zip<A, B>) -> &mut A {
    loop {}
}
#[inline(never)]
pub fn zip_b<A, B>(_z: &mut std::iter::Zip<A, B>) -> &mut B {
    loop {}
}
pub fn Chain__Iterator__next<A: Iterator, B: Iterator<Item = A::Item>>(z: &mut std::iter::Chain<A, B>) -> Option<A::Item> {
    match chain_a(z).next() {
        Some(x) => Some(x),
        None => chain_b(z).next(),
    }
}
/// The two iterators of a chain; interpreted by the analysis (the iterators it knows are fused, so
/// it does not matter that an exhausted one is kept).
#[inline(never)]
pub fn chain_a<A, B>(_z: &mut std::iter::Chain<A, B>) -> &mut A {
    loop {}
}
#[inline(never)]
pub fn chain_b<A, B>(_z: &mut std::iter::Chain<A, B>) -> &mut B {
    loop {}
}
