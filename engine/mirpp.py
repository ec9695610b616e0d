import json,sys
def P(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s='(%s as %s)'%(s,e[1])
        else: s+=str(e)
    return s
def O(o,D):
    if o['k'] in('copy','move'): return o['k'][0]+' '+P(o['p'])
    if o['k']=='const':
        d={k:v for k,v in o.items() if k not in('k','t','callee','closure_inst')}
        return 'const '+(str(d.get('v',d.get('str',d))))+':'+D['tys'][o['t']]['s']
    return str(o)
def R(r,D):
    k=r['k']
    if k=='use': return O(r['o'],D)
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+P(r['p'])
    if k=='bin': return '%s(%s, %s)'%(r['op'],O(r['a'],D),O(r['b'],D))
    if k=='un': return '%s(%s)'%(r['op'],O(r['a'],D))
    if k=='discr': return 'discr(%s)'%P(r['p'])
    if k=='agg': return 'agg %s {%s}'%({x:y for x,y in r.items() if x not in('k','ops')},', '.join(O(x,D) for x in r['ops']))
    if k=='cast': return 'cast %s %s -> %s'%(r['ck'],O(r['o'],D),D['tys'][r['t']]['s'])
    return str(r)[:200]
def C(f,D):
    if f['k']=='const' and 'callee' in f:
        c=f['callee']; return '%s[%s]%s'%(c['fn']['path'],c.get('inst','-'),' M' if c.get('model') else '')
    return O(f,D)
def show(D,bid,cleanup=False):
    b=D['bodies'][str(bid)]
    print('== %s %s argc=%s'%(bid,b['fn']['path'],b['argc']))
    for i,l in enumerate(b['locals']): print('   _%d: %s'%(i,D['tys'][l]['s']),end=';')
    print()
    for i,bl in enumerate(b['blocks']):
        if bl['cleanup'] and not cleanup: continue
        print(' bb%d:'%i)
        for s in bl['s']: print('    %s = %s'%(P(s['p']),R(s['r'],D)))
        t=bl['t']; k=t['k']
        if k=='call': print('    %s = %s(%s) -> %s'%(P(t['d']),C(t['f'],D),', '.join(O(a,D) for a in t['a']),t['t']))
        elif k=='switch': print('    switch %s %s else %s'%(O(t['o'],D),t['ts'],t['else']))
        elif k=='goto': print('    goto',t['t'])
        else: print('   ',{x:(O(y,D) if x=='c' else P(y) if x=='p' else y) for x,y in t.items()})
if __name__=='__main__':
    D=json.load(open(sys.argv[1]))
    for b,v in D['bodies'].items():
        if sys.argv[2] in v['fn']['path']: show(D,b)
