from dv.spec import *
from dv.smt import Forall
HARNESS='C13.cc'; BACKENDS=['internal']
n,m=[sym(v,'I') for v in 'nm']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def tri(x): return T.idiv(x*x+x,2)
def nz(rng,con,env):
    w=con.opts['w']; a=env['a']; N=env['$']['n']
    if N>12: return False
    for j in range(N):
        k=j*(j+1)//2+j
        while a[k*w]==0.: a[k*w]=rng.choice([1.,2.,-1.,.5,-3.])
    if 'm' in env['$'] and con.fn.startswith('take') and env['$']['m']<N: return False
    return True
def contracts():
    out=[]
    for t in 'dfz':
        a,y=Arr('a',t,tri(n)),Arr('y',t,n); ym=Arr('y',t,m); r=fresh('r'); v=fresh('?v'); w=fresh('w')
        o={'w':2 if t=='z' else 1,'assume_div_nonzero':True}
        U=lambda i,j: a[tri(j)+i]
        def eqs(y): return all_('equation',[(r,I(0),n)],U(r,r)*y.new(r)+Sum(r+1,n,lambda j: U(r,j)*y.new(j)),y[r])+same(a)
        K=dict(gen=nz,opts=o,sizes={'n':[0,1,2,3,4,5]})
        out.append(Contract('vec_'+t,[SZ('n'),a,y],[Case(True,0,eqs(y))],**K))
        out.append(Contract('span_'+t,[SZ('n'),a,y],[Case(True,0,eqs(y))],**K))
        out.append(Contract('take_'+t,[SZ('n'),SZ('m'),a,ym],[Case(True,0,eqs(ym)+all_('element beyond the range',[(w,n,m)],ym.new(w),ym[w]))],[f_ge(m,n)],**K))
        out.append(Contract('len_'+t,[SZ('n'),SZ('m'),a,ym],[Case(True,2,same(a,ym))],[f_ne(m,n)],**K))
    return out
