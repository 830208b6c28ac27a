from dv.spec import *
from dv.smt import Forall
HARNESS='C09.cc'; BACKENDS=['internal','blas']
e,i,j,k,h,b,g,f=[sym(v,'I') for v in 'eijkhbgf']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def each(arr,c):
    v=fresh('?v'); return Forall(v,arr,v,c(v))
def mkgen(what):
    def gen(rng,con,env):
        S=env['$']; M=rng.choice([1,2,3,5]); N=rng.choice([1,2,4,6])
        far=rng.random()<.2    # columns far apart
        C=sorted(rng.sample(range(1,400000),M)) if far else list(range(M))
        ps=[(r,c) for r in range(N) for c in C]; rng.shuffle(ps); ps=ps[:rng.choice([0,1,2,3,len(ps),len(ps)//2])]
        E=S['e']=len(ps)
        env['row']=[p[0] for p in ps]; env['col']=[p[1] for p in ps]
        if what=='bad':
            S['f'],S['g']=rng.choice([(E,E+1),(E+1,E),(0,E),(E,0),(E+2,E+2),(1,2)])
            if S['f']==E and S['g']==E: return False
            env['row']=[rng.randrange(N) for _ in range(S['f'])]; env['col']=[rng.choice(C) for _ in range(S['g'])]
        env['a']=[rng.choice([1.,2.,-3.,.5,7.]) for _ in range(E*con.opts.get('w',1))]
        if what=='at':
            if not ps: return False
            S['k']=rng.randrange(E); S['h']=rng.randrange(E)
        if what=='none':
            S['i'],S['j']=rng.choice([q for q in [(r,c) for r in range(N+1) for c in C+[C[-1]+1]] if q not in ps])
        if what=='shape': 
            S['b']=max(env['row'],default=-1)+1+rng.choice([0,0,2]); S['g']=max(env['col'],default=-1)+1+rng.choice([0,0,2])
        return True
    return gen
def contracts():
    out=[]
    for t in 'dfzc': out+=stated(t)
    return out
def stated(t):
    out=[]
    row,col,a=Arr('row','u',e),Arr('col','u',e),Arr('a',t,e); o,o1,s,sh=Arr('o',t,2),Arr('o',t,1),Arr('s',t,1),Arr('o','u',3)
    q=fresh('q'); inn=lambda q: f_and(f_ge(q,I(0)),f_lt(q,e))
    def other(k): return [each('row',lambda h: T.f_imp(f_and(inn(h),f_ne(h,k)),f_not(f_and(f_eq(row[h],row[k]),f_eq(col[h],col[k])))))]
    absent=[each('row',lambda h: T.f_imp(inn(h),f_not(f_and(f_eq(row[h],i),f_eq(col[h],j)))))]
    at=[f_ge(k,I(0)),f_lt(k,e)]+other(k); D=[SZ('e')]; IN=[row,col,a]
    def con(fn,args,cases,req,what,**kw): out.append(Contract(fn+'_'+t,args,cases,req,gen=mkgen(what),sizes={'*':8},opts={'w':2 if t in'zc' else 1},backends=None if fn in('scale','neg') else ['internal'],**kw))
    ordered=Goal('ordered by row, then by column',[(q,I(0),e-1)],f_not(f_lt(row.new(q),row.new(q+1))),row.new(q),row.new(q+1),'<=')
    con('store',D+IN,[Case(True,0,[Goal('rows in order',[(q,I(0),e-1)],True,row.new(q),row.new(q+1),'<='),
       Goal('columns in order within a row',[(q,I(0),e-1)],f_eq(row.new(q),row.new(q+1)),col.new(q),col.new(q+1),'<=')])],[],'at')
    for fn in('get','getc'): con(fn,D+[SZ('k')]+IN+[o],[Case(True,0,all_('element',[],o.new(0),a[k])+all_('element, at()',[],o.new(1),a[k])+same(row,col,a))],at,'at')
    con('none',D+[SZ('i'),SZ('j')]+IN+[o],[Case(True,0,all_('zero',[],o.new(0),o.zero)+all_('zero, at()',[],o.new(1),o.zero))],absent,'none')
    con('set',D+[SZ('k'),SZ('h')]+IN+[s,o],[Case(f_eq(h,k),0,all_('written',[],o.new(0),s[0])+all_('same position',[],o.new(1),s[0])),
       Case(f_ne(h,k),0,all_('written',[],o.new(0),s[0])+all_('other position',[],o.new(1),a[h]))],at+[f_ge(h,I(0)),f_lt(h,e)]+other(h),'at')
    con('setno',D+[SZ('i'),SZ('j')]+IN+[s],[Case(True,4,same(row,col,a,s))],absent,'none')
    bel=lambda arr,x,b: each(arr,lambda h: T.f_imp(inn(h),f_lt(x[h],b)))
    con('shape',D+[SZ('b'),SZ('g')]+IN+[sh],[Case(True,0,[Goal('rows beyond every entry',[(q,I(0),e)],True,row[q],sh.new(0),'<'),Goal('columns beyond every entry',[(q,I(0),e)],True,col[q],sh.new(1),'<'),
       Goal('rows within every bound of the entries',[],True,sh.new(0),b,'<='),Goal('columns within every bound of the entries',[],True,sh.new(1),g,'<=')]+all_('entries',[],sh.new(2),e))],[bel('row',row,b),bel('col',col,g)],'shape')
    row2,col2=Arr('row','u',f),Arr('col','u',g)
    for fn in('bad','badc'): con(fn,D+[SZ('f'),SZ('g'),row2,col2,a],[Case(True,2,same(row2,col2,a))],[f_not(f_and(f_eq(e,f),f_eq(e,g)))],'bad')
    con('scale',D+[SZ('k')]+IN+[s,o],[Case(True,0,all_('scaled in place',[],o.new(0),a[k]*s[0])+all_('scaled copy',[],o.new(1),a[k]*s[0]*s[0]))],at,'at')
    if t in'df': con('neg',D+[SZ('k')]+IN+[o],[Case(True,0,all_('negated',[],o.new(0),-a[k])+all_('operand kept',[],o.new(1),a[k]))],at,'at')
    return out
