from dv.spec import *
HARNESS='C14.cc'; BACKENDS=['internal','lapack']
n,m=[sym(v,'I') for v in 'nm']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def gen(rng,con,env):
    """a diagonally dominant matrix: elimination then meets no zero denominator"""
    d,dl,du=env['d'],env['dl'],env['du']
    for i in range(len(d)):
        s=(abs(dl[i-1]) if i else 0)+(abs(du[i]) if i<len(d)-1 else 0)
        d[i]=rng.choice([-1,1])*(s+rng.choice([1,2,.5]))
    return True
def system(nm,n,m,dl,d,du,X,b):
    """A*X=b, row by row, for m columns"""
    r=fresh('r'); one=m.const()==1; k=I(0) if one else fresh('k')
    x=lambda i: X.new(i*m+k)
    def g(w,rb,cond,lhs): return all_(nm+' row '+w,rb+([] if one else [(k,I(0),m)]),lhs,b[(rb[0][0] if rb else I(0) if w!='last' else n-1)*m+k],cond)
    out=g('only',[],f_eq(n,I(1)),d[0]*x(I(0)))
    out+=g('first',[],f_ge(n,I(2)),d[0]*x(I(0))+du[0]*x(I(1)))
    out+=g('inner',[(r,I(1),n-1)],True,dl[r-1]*x(r-1)+d[r]*x(r)+du[r]*x(r+1))
    out+=g('last',[],f_ge(n,I(2)),dl[n-2]*x(n-2)+d[n-1]*x(n-1))
    return out
def contracts():
    out=[]
    K=dict(gen=gen,opts={'assume_div_nonzero':True})
    for t in 'df':
        def tri(n): return Arr('dl',t,T.ite(f_ge(n,I(1)),n-1,I(0)) if n.const() is None else max(0,int(n.const())-1)),Arr('d',t,n),Arr('du',t,T.ite(f_ge(n,I(1)),n-1,I(0)) if n.const() is None else max(0,int(n.const())-1))
        dl,d,du=tri(n)
        V=lambda nm,n=n: Arr(nm,t,n)
        one=I(1)
        # extents 0 and >=1 separately, so that the length of the off-diagonals is a polynomial
        for lo,hi,L in ((0,0,I(0)),(1,MX,n-1)):
            dl,d,du=Arr('dl',t,L),Arr('d',t,n),Arr('du',t,L); T3=[dl,d,du]
            tag='' if lo else '~empty'
            b,c,x,y=[V(q) for q in 'bcxy']
            out.append(Contract('vec_'+t+tag,[SZ('n',lo,hi),*T3,b,c,x,y],[Case(True,0,system('first solve',n,one,*T3,x,b)+system('second solve',n,one,*T3,y,c)+same(*T3,b,c))],**K))
            out.append(Contract('inp_'+t+tag,[SZ('n',lo,hi),*T3,b],[Case(True,0,system('solve in place',n,one,*T3,b,b)+same(*T3))],**K))
            B,X=V('b',n*m),V('x',n*m)
            out.append(Contract('mat_'+t+tag,[SZ('n',lo,hi),SZ('m'),*T3,B,c,X,y],[Case(True,0,system('columns',n,m,*T3,X,B)+system('second solve',n,one,*T3,y,c)+same(*T3,B,c))],**K))
            out.append(Contract('minp_'+t+tag,[SZ('n',lo,hi),SZ('m'),*T3,B],[Case(True,0,system('columns in place',n,m,*T3,B,B)+same(*T3))],**K))
    for t,N in (('d',1),('d',2),('d',3),('f',4)):
        T3=[Arr('dl',t,N-1),Arr('d',t,N),Arr('du',t,N-1)]; b,c,x,y=[Arr(q,t,N) for q in 'bcxy']; N_=I(N); one=I(1)
        out.append(Contract('svec_%s%d'%(t,N),[*T3,b,c,x,y],[Case(True,0,system('first solve',N_,one,*T3,x,b)+system('second solve',N_,one,*T3,y,c)+same(*T3,b,c))],**K))
        out.append(Contract('sinp_%s%d'%(t,N),[*T3,b],[Case(True,0,system('solve in place',N_,one,*T3,b,b)+same(*T3))],**K))
    for t,N,M in (('d',1,2),('d',2,3),('d',4,2),('f',3,3)):
        T3=[Arr('dl',t,N-1),Arr('d',t,N),Arr('du',t,N-1)]; b,x=Arr('b',t,N*M),Arr('x',t,N*M)
        out.append(Contract('smat_%s%d_%d'%(t,N,M),[*T3,b,x],[Case(True,0,system('columns',I(N),I(M),*T3,x,b)+same(*T3,b))],**K))
        out.append(Contract('sminp_%s%d_%d'%(t,N,M),[*T3,b],[Case(True,0,system('columns in place',I(N),I(M),*T3,b,b)+same(*T3))],**K))
    return out
