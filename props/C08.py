from dv.spec import *
HARNESS='C08.cc'; BACKENDS=['internal','blas']
n,m=sym('n','I'),sym('m','I'); MX=2**20
def contracts():
    out=[]
    def C(fn,args,goals,**k): out.append(Contract(fn,args,[Case(True,0,goals)],**k))
    def fam(ty,r,c,dyn):
        L=r*c; a,b,R=Arr('a',ty,L),Arr('b',ty,L),Arr('r',ty,L); s=Arr('s',ty,1); i,j=fresh('i'),fresh('j')
        z=[('size','n',0,MX),('size','m',0,MX)] if dyn else []
        rq=[f_le(n*m,I(2**31-1))] if dyn else []
        f=lambda nm: (nm+'_'+ty if dyn else 's%d%d%s_%s'%(r.const(),c.const(),nm,ty))
        e=i*c+j; B=[(i,I(0),r),(j,I(0),c)]
        def S(arr,v): return all_('element [i,j]',B,arr.new(e),v)
        def D(nm,args,goals): C(f(nm),z+args,goals,requires=rq)
        D('scale',[s,a],S(a,s[0]*a[e])+same(s)); D('mull',[s,a,R],S(R,s[0]*a[e])+same(s,a))
        if ty in 'dfi': D('opneg',[a,R],S(R,-a[e])+same(a))
        for op,g in (('add',lambda x,y:x+y),('sub',lambda x,y:x-y)):
            v=g(a[e],b[e])
            for q in ([''] if dyn else ['','_sd','_ds']): D(op+q,[a,b,R],S(R,v)+same(a,b))
            D(op+'_al1',[a,b],S(a,v)+same(b)); D(op+'_al2',[a,b],S(b,v)+same(a)); D(op+'_al3',[a],S(a,g(a[e],a[e])))
            D('op'+op,[a,b,R],S(R,v)+same(a,b))
            if dyn: D('op'+op+'_self',[a,R],S(R,g(a[e],a[e]))+same(a))
            else: D(op+'_sd_al',[a,b],S(a,v)+same(b)); D(op+'_ds_al',[a,b],S(b,v)+same(a))
    for ty in 'dfizc': fam(ty,n,m,True)
    for ty,r,c in (('d',2,3),('d',5,4),('f',1,4),('z',2,2),('c',1,2),('i',3,2)): fam(ty,I(r),I(c),False)
    for ty in 'dfz':
        a,r,v=[Arr(x,ty,4) for x in 'arv']; det=a[0]*a[3]-a[1]*a[2]; w=inv(det)
        p=parts(det); rq=[f_not(T.f_req(p[0] if len(p)==1 else p[0]*p[0]+p[1]*p[1],R(0)))]
        def isinv(x):
            g=[]
            for k,val in enumerate((a[3]*w,-a[1]*w,-a[2]*w,a[0]*w)): g+=all_('inverse element %d'%k,[],x.new(k),val)
            one=[(0,0,1),(0,1,0),(1,0,0),(1,1,1)]
            for i,j,val in one:
                g+=all_('product[%d,%d]'%(i,j),[],a[2*i]*x.new(j)+a[2*i+1]*x.new(2+j),R(val))
                g+=all_('product from the left[%d,%d]'%(i,j),[],x.new(2*i)*a[j]+x.new(2*i+1)*a[2+j],R(val))
            return g
        def gen(rng,con,env,ty=ty):
            for _ in range(50):
                q=env['a'][:4] if ty!='z' else None
                if ty=='z':
                    x=[complex(env['a'][2*k],env['a'][2*k+1]) for k in range(4)]
                else: x=q
                if abs(x[0]*x[3]-x[1]*x[2])>1e-6: return
                env['a']=[rng.choice([1,2,-2,3,0.5,-1,4]) for _ in env['a']]
        kw=dict(requires=rq,gen=gen,tol=1e-3)
        C('inv_out_'+ty,[a,r,v],isinv(r)+isinv(v)+same(a),**kw); C('inv_self_'+ty,[a,v],isinv(a)+isinv(v),**kw); C('inv_in_'+ty,[a],isinv(a),**kw); C('inv_ret_'+ty,[a,v],isinv(v)+same(a),**kw)
    return out
