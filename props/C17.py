from dv.spec import *
from fractions import Fraction
HARNESS='C17.cc'; BACKENDS=['internal']
n,m=[sym(v,'I') for v in 'nm']
MX=2**20
from props import C10
ACC=[f+'_'+t for f in('get','none','set','shape') for t in 'df']     # the accessors of a compressed-row matrix
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def lu(N,a,ok):
    """exact ILU(0) on the pattern of a; None when a pivot vanishes"""
    M=[[Fraction(a[i*N+j]) for j in range(N)] for i in range(N)]; P=[[x!=0 for x in r] for r in M]
    for i in range(N):
        for j in range(N):
            if P[i][j]:
                M[i][j]-=sum(M[i][k]*M[k][j] for k in range(min(i,j)))
                if j<i: M[i][j]/=M[j][j]
        if not ok(i,M[i][i]): return None
    return M
def gen(rng,con,env):
    """small integers with zeros off the diagonal; sometimes a pivot that vanishes exactly"""
    N=env['$']['n']; a=env['a']
    if N>9: return False
    dens=rng.choice([.3,.6,1.]); exact=rng.random()<.5
    for i in range(N):
        for j in range(N): a[i*N+j]=float(rng.choice([1,-1,2,-2,3])) if rng.random()<dens else 0.
        a[i*N+i]=float(rng.choice([1,-1]) if exact else rng.choice([7,-9,8,11]))
        if i==0: continue
    z=rng.choice([0,N-1,rng.randrange(N)]) if N and rng.random()<.4 else None
    if z is not None:
        seen=[]
        lu(N,a,lambda i,p: seen.append(p) or p!=0)
        if len(seen)>z and seen[z].denominator==1: a[z*N+z]-=float(seen[z])
    return True
def sgen(rng,con,env):
    """the same matrices with their entries by rows; now and then an entry that is stored although it is zero"""
    if gen(rng,con,env) is False: return False
    S=env['$']; N=S['n']; a=env['a']; ptr,col,v=[0],[],[]
    for i in range(N):
        for j in range(N):
            if a[i*N+j]!=0 or i==j or rng.random()<.1: col.append(j); v.append(a[i*N+j])
        ptr.append(len(col))
    env['ptr'],env['col'],env['v']=ptr,col,v; S['e']=len(v)
    return True
def oracle(S,A):
    N=S['n']; a=A['a']
    if any(a[i*N+i]==0 for i in range(N)): return 2 if N and a[0]==0 else None
    ps=[]
    M=lu(N,a,lambda i,p: ps.append(p) or p!=0)
    if any(0<abs(p)<Fraction(1,1000) for p in ps): return None
    if M is None: return 2 if all(p.denominator&(p.denominator-1)==0 for p in ps) else None
    return 0
def contracts():
    out=[]
    i,j,e=[fresh(q) for q in 'ije']
    N=n*n
    for t in 'df':
        a,l=Arr('a',t,N),Arr('l',t,N)
        K=dict(opts={'fptrunc_id':True} if t=='f' else {},sizes={'n':[0,1,2,3,4,5]},gen=gen,oracle=oracle,tol=5e-3 if t=='f' else 1e-7)
        W=Arr('W',t,N)
        A=lambda i,j: a[i*n+j]
        pat=lambda i,j: T.f_not(T.f_req(A(i,j),R(0)))
        def rows(X,hi,lo=I(0),piv=True):
            L=lambda i,j: X.new(i*n+j)
            return [Goal('(L*U) = A below the diagonal',[(i,lo,hi),(j,I(0),i)],pat(i,j),Sum(I(0),j,lambda k: L(i,k)*L(k,j))+L(i,j)*L(j,j),A(i,j)),
              Goal('(L*U) = A from the diagonal on',[(i,lo,hi),(j,i,n)],pat(i,j),Sum(I(0),i,lambda k: L(i,k)*L(k,j))+L(i,j),A(i,j)),
              Goal('no entry outside the pattern',[(i,lo,hi),(j,I(0),n)],T.f_req(A(i,j),R(0)),L(i,j),A(i,j))]+([
              Goal('no pivot is zero',[(i,lo,hi)],True,L(i,i),R(0),'!=')] if piv else [])
        L=lambda i,j: l.new(i*n+j)
        cert=Exists('partial factorization with a pivot that is zero',W,(e,I(0),n),rows(W,e)+rows(W,e+1,e,False)+[Goal('pivot',[],True,W.new(e*n+e),R(0))])
        def con(fn,args,good):
            out.append(Contract(fn+t,args,[Case(True,0,rows(l,n)+good,'factored',0),Case(True,2,[cert],'rejected',2)],**K))
        con('dfac_',[SZ('n'),a,l],[])
        m=sym('e','I'); SP=[SZ('e'),Arr('ptr','u',n+1),Arr('col','u',m),Arr('v',t,m)]; K2={**K,'gen':sgen,'requires':[f_ge(m,n)],'sizes':{**K['sizes'],'e':[0]}}
        b,x=Arr('b',t,n),Arr('x',t,n)
        ux=lambda i: L(i,i)*x.new(i)+Sum(i+1,n,lambda k: L(i,k)*x.new(k))
        K1=K; K=K2
        con('sfac_',[SZ('n'),*SP,a,l],same(*SP[1:]))
        con('svec_',[SZ('n'),*SP,a,l,b,x],[Goal('L*(U*x) = b',[(i,I(0),n)],True,Sum(I(0),i,lambda k: L(i,k)*ux(k))+ux(i),b[i])]+same(b))
        K=K1
        con('dvec_',[SZ('n'),a,l,b,x],[Goal('L*(U*x) = b',[(i,I(0),n)],True,Sum(I(0),i,lambda k: L(i,k)*ux(k))+ux(i),b[i])]+same(b))
    out+=[c for c in C10.contracts() if c.fn in ACC]
    return out
