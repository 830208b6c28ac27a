from dv.spec import *
from fractions import Fraction
HARNESS='C16.cc'; BACKENDS=['internal']
n,m=[sym(v,'I') for v in 'nm']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
sq=lambda i,j: i*n+j
def gen(rng,con,env):
    """a matrix M*D^-1*M^T with small exact factors, or one with a pivot that vanishes; the strict upper triangle is arbitrary"""
    N=env['$']['n']; a=env['a']
    if N>9: return False
    D=[rng.choice([1.,-1.,2.,-2.,.5,-4.]) for _ in range(N)]
    z=rng.choice([0,N-1,rng.randrange(N)]) if N and rng.random()<.35 else None
    M=[[float(rng.randint(-2,2)) if j<i else D[i] for j in range(N)] for i in range(N)]
    for k in range(len(a)): a[k]=float(rng.randint(-9,9))
    for i in range(N):
        for j in range(i+1): a[i*N+j]=sum(M[i][k]*M[j][k]/D[k] for k in range(j+1))
    if z is not None: a[z*N+z]-=D[z]
    return True
def oracle(S,A):
    N=S['n']; M=[[Fraction(0)]*N for _ in range(N)]
    for i in range(N):
        for j in range(i+1): M[i][j]=Fraction(A['a'][i*N+j])-sum(M[i][k]*M[j][k]/M[k][k] for k in range(j))
        if M[i][i]==0: return 2 
        if abs(M[i][i])<Fraction(1,1000): return None
    return 0
def contracts():
    out=[]
    i,j,e,c=[fresh(q) for q in 'ijec']
    N=n*n
    for t in 'df':
        a,l,W=Arr('a',t,N),Arr('l',t,N),Arr('W',t,N)
        K=dict(opts={'fptrunc_id':True} if t=='f' else {},gen=gen,oracle=oracle,sizes={'n':[0,1,2,3,4,5],'m':[0,1,2,3]},tol=5e-3 if t=='f' else 1e-7)
        def rows(X,hi):
            L=lambda i,j: X.new(sq(i,j))
            return [Goal('M*D^-1*M^T = A',[(i,I(0),hi),(j,I(0),i+1)],True,Sum(I(0),j,lambda k: L(i,k)*L(j,k)*inv(L(k,k)))+L(i,j),a[sq(i,j)]),
                    Goal('no pivot is zero',[(i,I(0),hi)],True,L(i,i),R(0),'!=')]
        w=lambda i,j: W.new(sq(i,j))
        cert=Exists('partial factorization with a pivot that is zero',W,(e,I(0),n),rows(W,e)+[
            Goal('row of the pivot',[(j,I(0),e+1)],True,Sum(I(0),j,lambda k: w(e,k)*w(j,k)*inv(w(k,k)))+w(e,j),a[sq(e,j)]),
            Goal('pivot',[],True,w(e,e),R(0))])
        def con(fn,args,good,**k):
            out.append(Contract(fn+t,args,[Case(True,0,rows(l,n)+good,'factored',0),Case(True,2,[cert],'rejected',2)],**K,**k))
        con('fac_',[SZ('n'),a,l],[])
        def solved(x,b,m,c=None):
            L=lambda i,j: l.new(sq(i,j))
            y=lambda j: L(j,j)*x(j)+Sum(j+1,n,lambda k: L(k,j)*x(k))     # (M^T x)_j
            return [Goal('M*D^-1*(M^T*x) = b',[(i,I(0),n)]+([(c,I(0),m)] if c is not None else []),True,Sum(I(0),i,lambda j: L(i,j)*inv(L(j,j))*y(j))+y(i),b(i))]
        b,x=Arr('b',t,n),Arr('x',t,n); B,X=Arr('b',t,n*m),Arr('x',t,n*m)
        con('vec_',[SZ('n'),a,l,b,x],solved(lambda i: x.new(i),lambda i: b[i],1)+same(b))
        con('inp_',[SZ('n'),a,l,b],solved(lambda i: b.new(i),lambda i: b[i],1))
        con('mat_',[SZ('n'),SZ('m'),a,l,B,X],solved(lambda i: X.new(i*m+c),lambda i: B[i*m+c],m,c)+same(B))
        con('minp_',[SZ('n'),SZ('m'),a,l,B],solved(lambda i: B.new(i*m+c),lambda i: B[i*m+c],m,c))
    return out
