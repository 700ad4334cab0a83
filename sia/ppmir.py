"""Readable dump of the extracted MIR facts (debugging aid)."""
import json,sys,glob,os
def ty(t):
    if t is None: return '?'
    k=t['k']
    if k in('bool','char','str','never'): return k
    if k in('int','float','param'): return t['n']
    if k=='adt':
        a=','.join(ty(x) for x in t['args']); return t['path'].split('::')[-1]+('<%s>'%a if a else '')
    if k=='ref': return '&'+('mut ' if t['mut'] else '')+ty(t['to'])
    if k=='ptr': return '*'+ty(t['to'])
    if k=='slice': return '[%s]'%ty(t['of'])
    if k=='array': return '[%s;%s]'%(ty(t['of']),t['n'])
    if k=='tuple': return '(%s)'%','.join(ty(x) for x in t['of'])
    if k=='closure': return 'closure(%s)'%t['def'].split('::')[-1]
    if k=='fndef': return 'fn '+t['def']
    return t.get('s','?')
def place(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='deref': s='(*%s)'%s
        elif e[0]=='field': s+='.%d'%e[1]
        elif e[0]=='index': s+='[_%d]'%e[1]
        elif e[0]=='cindex': s+='[%s%s]'%('-' if e[2] else '',e[1])
        elif e[0]=='downcast': s+=' as %s'%e[1]
        else: s+=str(e)
    return s
def callee(c):
    a=','.join(ty(x) for x in c.get('resargs',c['args'])) 
    r=c.get('res')
    return (r or c['path'])+('<%s>'%a if a else '')+('' if r else ' [UNRES]')
def const(c):
    if 'fn' in c: return callee(c['fn'])
    d={k:v for k,v in c.items() if k!='ty'}
    for k in('int','float'):
        if k in d: return '%s_%s'%(d[k],ty(c.get('ty')))
    if 'bool' in d or 'str' in d: return str(d)
    return str(d)[:120]+':'+ty(c.get('ty'))
def op(o):
    if o[0] in('copy','move'): return place(o[1])
    if o[0]=='const': return const(o[1])
    return str(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+place(r[2])
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return '%s as %s (%s)'%(op(r[2]),ty(r[3]),r[1])
    if k=='adt': return '%s::%s{%s}'%(r[1],r[2],', '.join(op(x) for x in r[6]))
    if k in('tuple',): return '(%s)'%', '.join(op(x) for x in r[1])
    if k=='array': return '[%s]'%', '.join(op(x) for x in r[2])
    if k=='closure': return 'closure %s{%s}'%(r[1],', '.join(op(x) for x in r[2]))
    if k=='discr': return 'discr(%s)'%place(r[1])
    return str(r)
def show(b,out=sys.stdout):
    w=out.write
    w('=== %s (%s) argc=%s %s\n'%(b['key'],b['kind'],b['argc'],b['span']))
    for n in b['names']: w('  name %s = %s\n'%(n[0],place(n[1])))
    w('  locals '+' '.join('_%d:%s'%(i,ty(t)) for i,t in enumerate(b['locals']))+'\n')
    for i,x in enumerate(b['blocks']):
        if x['cleanup']: continue
        w(' bb%d:\n'%i)
        for s in x['st']:
            if s[0]=='assign': w('    %s = %s\n'%(place(s[1]),rv(s[2])))
            else: w('    %s\n'%s)
        t=x['t']
        if t[0]=='call': w('    %s = call %s(%s) -> %s   // %s\n'%(place(t[3]),op(t[1]),', '.join(op(a) for a in t[2]),t[4],x['sp'].split('/')[-1]))
        elif t[0]=='switch': w('    switch %s %s else %s\n'%(op(t[1]),t[2],t[3]))
        elif t[0]=='assert': w('    assert %s==%s %s -> %s\n'%(op(t[1]),t[2],t[3],t[4]))
        elif t[0]=='drop': w('    drop %s -> %s\n'%(place(t[1]),t[2]))
        else: w('    %s\n'%t)
if __name__=='__main__':
    d=os.environ.get('SIA_FACTS_DIR','/verif/.work/facts')
    for f in sorted(glob.glob(d+'/*.json')):
        j=json.load(open(f))
        for b in j['bodies']:
            if len(sys.argv)<2 or any(a in b['key'] for a in sys.argv[1:]): show(b)
