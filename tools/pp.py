import sys; sys.path.insert(0,'/verif')
from dv import astload as A
def pp(n,ind=0,maxd=99):
    if not isinstance(n,dict): return
    k=n.get('kind')
    s=' '*ind+str(k)
    for f in ('name','opcode','value','castKind','valueCategory'):
        if f in n: s+=' %s=%s'%(f,n[f])
    if 'type' in n: s+=' T<%s|%s>'%(n['type'].get('qualType'),n['type'].get('desugaredQualType',''))
    for f in ('referencedDecl','referencedMemberDecl','decl','foundReferencedDecl','previousDecl','anyInit'):
        if f in n:
            v=n[f]; s+=' %s=%s'%(f, (v.get('kind'),v.get('name'),v.get('id')) if isinstance(v,dict) else v)
    ex=[k2 for k2 in n if k2 not in('id','kind','loc','range','inner','name','opcode','value','castKind','valueCategory','type','referencedDecl','referencedMemberDecl','decl','foundReferencedDecl')]
    if ex: s+=' +'+','.join('%s=%s'%(e,str(n[e])[:40]) for e in ex)
    print(s)
    for c in n.get('inner',()): pp(c,ind+1)
if __name__=='__main__':
    tu=A.TU(sys.argv[1],'/tmp/w/b2/include')
    for n in tu.funcs[sys.argv[2]]:
        if A.has_body(n): pp(n)
