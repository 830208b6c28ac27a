from dv.spec import *
from dv.smt import Forall
HARNESS='C12.cc'; BACKENDS=['internal','blas']
n,e,m=[sym(v,'I') for v in 'nem']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def csr(ptr,col):
    """well-formed compressed arrays: ptr runs from 0 to e without decreasing, columns below m"""
    h,k=fresh('?h'),fresh('?k')
    return [f_eq(ptr[I(0)],I(0)),f_eq(ptr[n],e),
      Forall(h,'ptr',h,T.f_imp(f_and(f_ge(h,I(0)),f_lt(h,n)),f_le(ptr[h],ptr[h+1]))),
      Forall(k,'ptr',k,T.f_imp(f_and(f_ge(k,I(0)),f_le(k,n)),f_le(ptr[k],e))),
      Forall(k,'col',k,T.f_imp(f_and(f_ge(k,I(0)),f_lt(k,e)),f_lt(col[k],m)))]
def gen(rng,con,env):
    S=env['$']; N,M=S['n'],S['m']; ptr=[0]; col=[]
    for i in range(N):
        w=rng.choice([0,0,1,2,3,M]); cs=rng.sample(range(M),min(w,M)); col+=cs; ptr.append(len(col))
    S['e']=len(col); env['ptr']=ptr; env['col']=col
    env['a']=[(env['a']+env['x']+[1.,2.,-3.])[0] if not env['a'] else rng.choice(env['a']) for _ in range(S['e']*con.opts.get('w',1))]

    return True
def contracts():
    out=[]
    for t in 'dfzc':
        ptr,col,a,x,y=Arr('ptr','u',n+1),Arr('col','u',e),Arr('a',t,e),Arr('x',t,m),Arr('y',t,n); s,tt=Arr('s',t,1),Arr('t',t,1)
        r=fresh('r'); val=Sum(ptr[r],ptr[r+1],lambda k: a[k]*x[col[k]])
        o={'w':2 if t in'zc' else 1,'ty':t}
        out.append(Contract('mul_'+t,[SZ('n'),SZ('e'),SZ('m'),s,tt,ptr,col,a,x,y],[Case(True,0,all_('row',[(r,I(0),n)],y.new(r),tt[0]*y[r]+s[0]*val)+same(ptr,col,a,x,s,tt))],csr(ptr,col),gen=gen,opts=o,sizes={'*':8}))
        out.append(Contract('times_'+t,[SZ('n'),SZ('e'),SZ('m'),ptr,col,a,x,y],[Case(True,0,all_('row',[(r,I(0),n)],y.new(r),val)+same(ptr,col,a,x))],csr(ptr,col),gen=gen,opts=o,sizes={'*':8}))
    return out
