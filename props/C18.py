from dv.spec import *
HARNESS='C18.cc'; BACKENDS=['internal','blas']
m,n=[sym(v,'I') for v in 'mn']
LEMMAS=['gs.lean']     # the contract implies that the results are pairwise orthogonal
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def mkgen(m,n):
    val=lambda x,S: int(x.const()) if x.const() is not None else S[str(x)]
    def gen(rng,con,env):
        """well separated vectors (no more than there are elements)"""
        M,N=val(m,env['$']),val(n,env['$']); a=env['a']
        if M>max(N,1): return False
        for k in range(len(a)): a[k]=float(rng.randint(-3,3))
        for k in range(min(M,N)): a[k*N+k]+=8.
        return True
    return gen
def contracts():
    out=[]
    j,k,i,u=[fresh(q) for q in 'jkiu']
    def con(fn,t,args,m,n,**k):
        a=args[-1]
        dot=lambda f,g: Sum(I(0),n,lambda u: f(u)*g(u))
        new=lambda k: lambda i: a.new(k*n+i)
        old=lambda k: lambda i: a[k*n+i]
        # components and vectors of fixed number on their own
        comp=[([(i,I(0),n)],i)] if n.const() is None else [([],I(v)) for v in range(int(n.const()))]
        vecs=[([(j,I(0),m)],j)] if m.const() is None else [([],I(v)) for v in range(int(m.const()))]
        add=lambda j,f: Sum(I(0),j,f) if j.const() is None else sum((f(I(v)) for v in range(int(j.const()))),R(0))
        goals=[Goal('vector minus its projections',bj+bi,True,a.new(j*n+i),a[j*n+i]-add(j,lambda k: dot(new(k),old(j))*inv(dot(new(k),new(k)))*a.new(k*n+i))) for bi,i in comp for bj,j in vecs]
        out.append(Contract(fn+t,args,[Case(True,0,goals,'orthogonalized',0)],gen=mkgen(m,n),opts={'assume_div_nonzero':True,**({'fptrunc_id':True} if t=='f' else {})},sizes={'m':[0,1,2,3,4],'n':[0,1,2,3,4,5]},tol=5e-3 if t=='f' else 1e-7,**k))
    for t in 'df': con('view_',t,[SZ('m'),SZ('n'),Arr('a',t,m*n)],m,n,requires=[f_le(m,n)],backends=['internal'])
    for N,t in ((1,'d'),(2,'d'),(3,'d'),(3,'f')): con('siz%d_'%N,t,[SZ('m',1),Arr('a',t,m*N)],m,I(N),backends=['internal'])
    for M,t in ((0,'d'),(1,'d'),(2,'d'),(3,'d'),(2,'f')): con('dyn%d_'%M,t,[SZ('n'),Arr('a',t,n*M)],I(M),n)
    return out
