from dv.spec import *
from dv.blas import NOTPD
from fractions import Fraction
HARNESS='C15.cc'; BACKENDS=['internal','lapack']
n,m=[sym(v,'I') for v in 'nm']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def tri(x): return T.idiv(x*x+x,2)
sq=lambda i,j: i*n+j
pk=lambda i,j: tri(i)+j
def at(packed,N,i,j): return i*(i+1)//2+j if packed else i*N+j
def gen(packed):
    def g(rng,con,env):
        """a positive definite matrix L*L^T, or one with its last pivots changed"""
        N=env['$']['n']; a=env['a']
        if N>9: return False
        G=[[float(rng.randint(-2,2)) if j<i else rng.choice([1.,2.,.5]) if j==i else 0. for j in range(N)] for i in range(N)]
        if not packed: 
            for k in range(len(a)): a[k]=float(rng.randint(-9,9))    # the strict upper triangle is arbitrary
        for i in range(N):
            for j in range(i+1): a[at(packed,N,i,j)]=sum(G[i][k]*G[j][k] for k in range(N))
        if N and rng.random()<.4:
            i=rng.choice([0,N-1,rng.randrange(N)]); k=at(packed,N,i,i); s=sum(G[i][q]**2 for q in range(i))
            a[k]=s-rng.choice([0.,0.,1.,4.])
        return True
    return g
def oracle(packed):
    def f(S,A):
        """0 if all the pivots are clearly positive, 2 if one is clearly not, None if rounding may decide"""
        N=S['n']; L=[[Fraction(0)]*N for _ in range(N)]; D=[]
        a=lambda i,j: Fraction(A['a'][at(packed,N,i,j)])
        for i in range(N):
            for j in range(i): L[i][j]=(a(i,j)-sum(L[i][k]*L[j][k]*D[k] for k in range(j)))/D[j]
            d=a(i,i)-sum(L[i][k]**2*D[k] for k in range(i))
            if d<=0: return 2 if d<-Fraction(1,1000) or (d==0 and (i==0 or all(L[i][k]==0 for k in range(i)))) else None
            if d<Fraction(1,1000): return None
            D.append(d)
        return 0
    return f
def contracts():
    out=[]
    i,j,e=fresh('i'),fresh('j'),fresh('e')
    for t in 'df':
        for nm,N,ix in (('',n*n,sq),('t',tri(n),pk)):
            a,l=Arr('a',t,N),Arr('l',t,N); W=Arr('W',t,N)
            K=dict(opts={'fptrunc_id':True} if t=='f' else {},gen=gen(bool(nm)),oracle=oracle(bool(nm)),sizes={'n':[0,1,2,3,4,5],'m':[0,1,2,3]},tol=2e-3 if t=='f' else 1e-7)
            def rows(X,hi,diag=True):
                L=lambda i,j: X.new(ix(i,j))
                g=[Goal('L*L^T = A below the diagonal',[(j,I(0),hi),(i,j+1,hi)],True,Sum(I(0),j,lambda k: L(i,k)*L(j,k))+L(i,j)*L(j,j),a[ix(i,j)])]
                g+=[Goal('L*L^T = A on the diagonal',[(i,I(0),hi)],True,Sum(I(0),i,lambda k: L(i,k)*L(i,k))+L(i,i)*L(i,i),a[ix(i,i)])]
                return g+[Goal('positive diagonal',[(i,I(0),hi)],True,R(0),L(i,i),'<')]
            w=lambda i,j: W.new(ix(i,j))
            cert=Exists('partial factorization with a pivot that is not positive',W,(e,I(0),n),rows(W,e)+[
                Goal('row of the pivot',[(j,I(0),e)],True,Sum(I(0),j,lambda k: w(e,k)*w(j,k))+w(e,j)*w(j,j),a[ix(e,j)]),
                Goal('pivot',[],True,a[ix(e,e)]-Sum(I(0),e,lambda k: w(e,k)*w(e,k)),R(0),'<=')])
            cert.only='internal' if not nm else None
            known=Known('rejected only on account of a non-zero status of the factorization routine',('bs',NOTPD)); known.only='lapack' if not nm else 'none'
            def con(fn,args,good,**k):
                out.append(Contract(nm+fn+t,args,[Case(True,0,rows(l,n)+good,'factored',0),Case(True,2,[cert,known],'rejected',2)],**K,**k))
            con('fac_',[SZ('n'),a,l],[])
            def solved(x,b,m,c=None):
                L=lambda i,j: l.new(ix(i,j))
                y=lambda j: L(j,j)*x(j)+Sum(j+1,n,lambda k: L(k,j)*x(k))
                return [Goal('L*(L^T*x) = b',[(i,I(0),n)]+([(c,I(0),m)] if c is not None else []),True,Sum(I(0),i,lambda j: L(i,j)*y(j))+L(i,i)*y(i),b(i))]
            b,x=Arr('b',t,n),Arr('x',t,n); B,X=Arr('b',t,n*m),Arr('x',t,n*m); c=fresh('c')
            con('vec_',[SZ('n'),a,l,b,x],solved(lambda i: x.new(i),lambda i: b[i],1)+same(b))
            con('inp_',[SZ('n'),a,l,b],solved(lambda i: b.new(i),lambda i: b[i],1))
            con('mat_',[SZ('n'),SZ('m'),a,l,B,X],solved(lambda i: X.new(i*m+c),lambda i: B[i*m+c],m,c)+same(B))
            con('minp_',[SZ('n'),SZ('m'),a,l,B],solved(lambda i: B.new(i*m+c),lambda i: B[i*m+c],m,c))
    return out
