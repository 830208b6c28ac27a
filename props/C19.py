from dv.spec import *
HARNESS='C19.cc'; BACKENDS=['internal','blas']
LEVEL='exploration'     # bounded: convergence of a floating-point iteration is outside the verifier's reach
RULE='random matrices of dimension 0 to 12 (every 25th: 20 to 40) whose elimination on the pattern meets no pivot below 0.2 and whose condition (of the matrix and of the preconditioned matrix) is below 300, full, sparse, banded or tri-angular pattern, dense and compressed-row storage; right-hand sides zero, unit, in the range of a sparse vector or random, scaled from 1e-3 to 1e3; tolerances from 1e-8 (single precision: 1e-2) upwards; non-trivial = at least two unknowns and a right-hand side that is not zero'
n,e=sym('n','I'),sym('e','I')
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def nontrivial(S,A): return S['n']>1 and any(A['b'])
def gen_(t,sparse):
    import numpy as np
    k=[0]
    def ilu(M):
        M=M.copy(); N=len(M); P=M!=0
        for i in range(N):
            for j in range(N):
                if P[i,j]:
                    m=min(i,j); M[i,j]-=M[i,:m]@M[:m,j]
                    if j<i: M[i,j]/=M[j,j]
            if abs(M[i,i])<.2: return None
        return M
    def gen(rng,con,env):
        S=env['$']; q=k[0]; k[0]+=1
        N=S['n']=q if q<4 else rng.choice([1,2,3,3,4,4,5,6,7,8,9,10,12] if q%25 else [20,33,40])
        kind=rng.choice([1,3,5]) if N>12 else rng.randrange(6); M=np.zeros((N,N)); d=rng.choice([.15,.3,.5,.8])
        dom=rng.choice([1.,1.5,3.])*(N/8 if N>12 and kind!=3 else 1)
        for i in range(N):
            for j in range(N):
                if i!=j and (kind==0 or (kind in(1,2,5) and rng.random()<d) or (kind==3 and abs(i-j) in(1,2)) or (kind==4 and j>i) or (kind==5 and abs(i-j)==N-1)): M[i,j]=rng.choice([1.,-1.,2.,-2.,.5,-.5,3.])/dom
            M[i,i]=rng.choice([1.,-1.,2.,-3.,4.])
        if kind==2 and N: M=(M+M.T)/2
        if t=='f': M=M.astype(np.float32).astype(float)
        F=ilu(M)
        if F is None: return False
        if N:
            Lm=np.tril(F,-1)+np.eye(N); U=np.triu(F); P=np.linalg.solve(Lm@U,M)
            if np.linalg.cond(M)>300 or np.linalg.cond(P)>300 or np.linalg.cond(Lm@U)>300: return False
        def rhs():
            w=rng.randrange(5); s=rng.choice([1.,1.,1e-3,1e3])
            if w==0: return [0.]*N
            if w==1: return [s if i==(rng.randrange(N) if N else 0) else 0. for i in range(N)]
            if w==2 and N: return [float(v) for v in s*M@np.eye(N)[rng.randrange(N)]]
            return [s*rng.choice([1.,-1.,.5,2.,-3.,0.]) for i in range(N)]
        env['b'],env['d']=rhs(),rhs()
        z=max([abs(v) for v in env['b']+env['d']],default=0)
        env['t']=[max(rng.choice([1e-8,1e-6,1e-3,.5]) if t=='d' else 1e-2,z*(1e-9 if t=='d' else 1e-3))]
        env['a']=[float(v) for v in M.reshape(-1)]
        for v in 'xyp': env[v]=[0.]*(N*N if v=='p' else N)
        if sparse:
            ptr,col,val=[0],[],[]
            for i in range(N):
                js=[j for j in range(N) if M[i,j]]; col+=js; val+=[float(M[i,j]) for j in js]; ptr.append(len(col))
            env['ptr'],env['col'],env['v']=ptr,col,val; S['e']=len(val)
        return True
    return gen
def contracts():
    """p holds the preconditioner L and U (the contract of C17); r = b - A*x; s solves L*U*s = r: the squared norm of s is below the squared tolerance.
    s is given by its own recursion (forward, then backward), so no code of the repository computes it."""
    out=[]
    for t in 'df':
        a,x,y,p,b,d,tl=Arr('a',t,n*n),Arr('x',t,n),Arr('y',t,n),Arr('p',t,n*n),Arr('b',t,n),Arr('d',t,n),Arr('t',t,I(1))
        for sp in (0,1):
            L=[SZ('n')]+([SZ('e'),Arr('ptr','u',n+1),Arr('col','u',e),Arr('v',t,e)] if sp else [])+[a,tl,b,x,d,y,p]
            out.append(Contract(('sparse_' if sp else 'dense_')+t,L,[Case(True,0,[*same(a,tl,b,d,*(L[2:5] if sp else []))])],gen=gen_(t,sp),after=residual,sizes={'*':12},opts={},monitor_only=True,nmon=1500))
    return out
def residual(S,A,N):
    """None, or what is wrong with a solution"""
    n=S['n']; F=N['p']; a=A['a']; tol=A['t'][0]
    for rhs,sol in (('b','x'),('d','y')):
        x=N[sol]; r=[A[rhs][i]-sum(a[i*n+j]*x[j] for j in range(n)) for i in range(n)]
        for i in range(n): r[i]-=sum(F[i*n+j]*r[j] for j in range(i))
        for i in range(n-1,-1,-1): r[i]=(r[i]-sum(F[i*n+j]*r[j] for j in range(i+1,n)))/F[i*n+i]
        z=sum(v*v for v in r)**.5
        if not z<tol*1.01: return 'norm of the preconditioned residual of %s: %r is not below the tolerance %r'%(sol,z,tol)
    return None
