from dv.spec import *
N=('size','n',0,2**31-1); n=sym('n','I'); m=sym('m','I')
HARNESS='C01.cc'; BACKENDS=['internal','blas']
def contracts():
    out=[]
    def C(fn,args,goals,al=None,cases=None,requires=(),**k):
        out.append(Contract(fn,args,cases or [Case(True,0,goals)],requires,**k))
    def vecfns(ty,pre,L,size,dyn):
        a,b,r=Arr('a',ty,L),Arr('b',ty,L),Arr('r',ty,L); s=Arr('s',ty,1)
        i=fresh('i'); B=[(i,I(0),L)]
        S=lambda x: all_('result element',B,x[0].new(i),x[1])
        f=lambda nm: (nm+'_'+ty if dyn else 's%d%s_%s'%(L.const(),nm,ty))
        z=size
        C(f('neg'),z+[a,r],S((r,-a[i]))+same(a)); C(f('neg_al'),z+[a],S((a,-a[i]))); C(f('opneg'),z+[a,r],S((r,-a[i]))+same(a))
        for op,g in (('add',lambda x,y:x+y),('sub',lambda x,y:x-y)):
            C(f(op),z+[a,b,r],S((r,g(a[i],b[i])))+same(a,b)); C(f(op+'_al1'),z+[a,b],S((a,g(a[i],b[i])))+same(b)); C(f(op+'_al2'),z+[a,b],S((b,g(a[i],b[i])))+same(a))
            if dyn: C(f(op+'_al3'),z+[a],S((a,g(a[i],a[i]))))
            C(f('op'+op),z+[a,b,r],S((r,g(a[i],b[i])))+same(a,b))
        C(f('axpy'),z+[s,a,b],S((b,s[0]*a[i]+b[i]))+same(a)); C(f('axpy_al'),z+[s,a],S((a,s[0]*a[i]+a[i]))); C(f('scale'),z+[s,a],S((a,s[0]*a[i])))
        for nm in('scaled','mull','mulr'): C(f(nm),z+[s,a,r],S((r,s[0]*a[i]))+same(a))
        if ty in 'df' or ty=='z' and dyn: 
            if dyn or L.const() in(3,45,4): C(f('div'),z+[s,a,r],S((r,a[i]*inv(s[0])))+same(a),requires=[nonzero(s)],gen=divgen)
    for ty in 'dfiz': vecfns(ty,'',n,[N],True)
    for ty,k in (('d',3),('d',15),('d',16),('d',45),('f',4),('i',17),('z',3)):
        L=I(k); vecfns(ty,'s%d'%k,L,[],False)
        a,b,r=Arr('a',ty,L),Arr('b',ty,m),Arr('r',ty,L); i=fresh('i'); B=[(i,I(0),L)]
        M=('size','m',0,2**31-1)
        def mix(fn,args,arr,val):
            others=[x for x in args if isinstance(x,Arr) and x is not arr]
            out.append(Contract(fn,args,[Case(f_eq(m,L),0,all_('result element',B,arr.new(i),val)+same(*others),'lengths agree'),Case(f_ne(m,L),1,same(*others,arr),'lengths differ')],sizes={'m':[k]}))
        for op,g in (('add',lambda x,y:x+y),('sub',lambda x,y:x-y)):
            mix('sd%s_%d_%s'%(op,k,ty),[M,a,b,r],r,g(a[i],b[i])); mix('sd%s_al_%d_%s'%(op,k,ty),[M,a,b],a,g(a[i],b[i])); mix('ds%s_%d_%s'%(op,k,ty),[M,a,b,r],r,g(b[i],a[i]))
    return out
def nonzero(s):
    v=parts(s[0])
    if len(v)==1: return f_not(T.f_req(v[0],R(0)))
    return f_not(T.f_req(v[0]*v[0]+v[1]*v[1],R(0)))
def divgen(rng,con,env):
    for a in con.arrs():
        if a.name=='s': env['s']=[rng.choice([1,2,-2,4,0.5,-0.25]) for _ in env['s']]
