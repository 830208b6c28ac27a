from dv.spec import *
from dv.smt import Forall
HARNESS='C10.cc'; BACKENDS=['internal']
n,e,i,j,k,b,g=[sym(v,'I') for v in 'neijkbg']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def each(arr,c): 
    v=fresh('?v'); return Forall(v,arr,v,c(v))
def csr(ptr,col,i):
    """well-formed row pointers (0 to e without decreasing), each position of row i listed once"""
    return [f_eq(ptr[I(0)],I(0)),f_eq(ptr[n],e),
      each('ptr',lambda h: T.f_imp(f_and(f_ge(h,I(0)),f_lt(h,n)),f_le(ptr[h],ptr[h+1]))),
      each('ptr',lambda h: T.f_imp(f_and(f_ge(h,I(0)),f_le(h,n)),f_le(ptr[h],e)))]
def mkgen(what):
    def gen(rng,con,env):
        S=env['$']; N=S['n']; M=rng.choice([1,2,4,7]); ptr=[0]; col=[]
        C=sorted(rng.sample(range(1,400000),M)) if rng.random()<.2 else list(range(M))    # columns close together or far apart
        for r in range(N):
            w=rng.choice([0,0,1,2,3,M]); cs=rng.sample(C,min(w,M)); col+=cs; ptr.append(len(col))
        S['e']=len(col); env['ptr']=ptr
        if what=='bad':
            S['g']=rng.choice([x for x in (0,1,len(col)-1,len(col)+1,len(col)+3) if x>=0 and x!=len(col)])
            col=[rng.choice(C) for _ in range(S['g'])]
        env['col']=col; env['a']=[rng.choice([1.,2.,-3.,.5,7.]) for _ in range(S['e']*con.opts.get('w',1))]
        if what in('at','none') and N==0: return False
        if what=='at':
            if not col: return False
            S['k']=rng.randrange(len(col)); S['i']=next(r for r in range(N) if ptr[r]<=S['k']<ptr[r+1])
        if what=='none':
            S['i']=rng.randrange(N); row=col[ptr[S['i']]:ptr[S['i']+1]]
            S['j']=rng.choice([x for x in C+[C[-1]+1,C[-1]+2] if x not in row])
        if what=='shape': S['b']=max(col,default=-1)+1+rng.choice([0,0,2])
        return True
    return gen
def cgen(what):
    def gen(rng,con,env):
        S=env['$']; M=rng.choice([1,2,3,5]); N=rng.choice([1,2,4,6])
        C=sorted(rng.sample(range(1,400000),M)) if rng.random()<.2 else list(range(M))
        ps=[(r,c) for r in range(N) for c in C]; rng.shuffle(ps); ps=ps[:rng.choice([0,1,2,3,len(ps),len(ps)//2])]
        E=S['e']=len(ps); env['row']=[p[0] for p in ps]; env['col']=[p[1] for p in ps]
        env['a']=[rng.choice([1.,2.,-3.,.5,7.]) for _ in range(E*con.opts.get('w',1))]
        if what!='shape' and not ps: return False
        if what=='at': S['k']=rng.randrange(E)
        if 'h' in S: S['h']=rng.randrange(E)
        if what=='none':
            q=[(r,c) for r in range(env['row'][S['h']]+1) for c in C+[C[-1]+1] if (r,c) not in ps]
            if not q: return False
            S['i'],S['j']=rng.choice(q)
        return True
    return gen
def contracts():
    out=[]
    for t in 'dfzc': out+=stated(t)
    return out
CONV='dfzc'
def stated(t):
    out=[]
    ptr,col,a,o,s=Arr('ptr','u',n+1),Arr('col','u',e),Arr('a',t,e),Arr('o',t,2),Arr('s',t,1)
    sh=Arr('o','u',3)
    q=fresh('q')
    once=each('col',lambda h: T.f_imp(f_and(f_ge(h,ptr[i]),f_lt(h,ptr[i+1]),f_ne(h,k)),f_ne(col[h],col[k])))
    absent=each('col',lambda h: T.f_imp(f_and(f_ge(h,ptr[i]),f_lt(h,ptr[i+1])),f_ne(col[h],j)))
    at=csr(ptr,col,i)+[f_ge(i,I(0)),f_lt(i,n),f_le(ptr[i],k),f_lt(k,ptr[i+1]),once]
    nowhere=csr(ptr,col,i)+[f_ge(i,I(0)),f_lt(i,n),absent]
    D=[SZ('n'),SZ('e')]
    def con(fn,args,cases,req,what,**kw): out.append(Contract(fn+'_'+t,args,cases,req,gen=mkgen(what),sizes={'*':8},opts={'w':2 if t in'zc' else 1},**kw))
    for fn in('get','getc'):
        con(fn,D+[SZ('i'),SZ('k'),ptr,col,a,o],[Case(True,0,all_('element',[],o.new(0),a[k])+all_('element, at()',[],o.new(1),a[k])+same(ptr,col,a))],at,'at')
    con('none',D+[SZ('i'),SZ('j'),ptr,col,a,o],[Case(True,0,all_('zero',[],o.new(0),o.zero)+all_('zero, at()',[],o.new(1),o.zero))],nowhere,'none')
    con('set',D+[SZ('i'),SZ('k'),ptr,col,a,s],[Case(True,0,all_('written',[],a.new(k),s[0])+all_('other entries',[(q,I(0),e)],a.new(q),a[q],f_ne(q,k))+same(ptr,col,s))],at,'at')
    con('setno',D+[SZ('i'),SZ('j'),ptr,col,a,s],[Case(True,4,same(ptr,col,a,s))],nowhere,'none')
    below=each('col',lambda h: T.f_imp(f_and(f_ge(h,I(0)),f_lt(h,e)),f_lt(col[h],b)))
    con('shape',D+[SZ('b'),ptr,col,a,sh],[Case(True,0,all_('rows',[],sh.new(0),n)+[Goal('columns beyond every entry',[(q,I(0),e)],True,col[q],sh.new(1),'<'),Goal('columns within every bound of the entries',[],True,sh.new(1),b,'<=')]+all_('entries',[],sh.new(2),e))],csr(ptr,col,i)+[below],'shape')
    col2=Arr('col','u',g)
    for fn in('bad','badc'):
        con(fn,D+[SZ('g'),ptr,col2,a],[Case(True,2,same(ptr,col2,a))],[f_ne(e,g)],'bad')
    o1=Arr('o',t,1)
    out.append(Contract('unit_'+t,[SZ('n'),SZ('i'),SZ('j'),o1],[Case(f_eq(i,j),0,all_('one',[],o1.new(0),o1.one)),Case(f_ne(i,j),0,all_('zero',[],o1.new(0),o1.zero))],[f_lt(i,n),f_lt(j,n)],sizes={'*':8}))
    # compressed from a coordinate-format matrix
    row,col=Arr('row','u',e),Arr('col','u',e); o5=Arr('o','u',5); inn=lambda q: f_and(f_ge(q,I(0)),f_lt(q,e)); IN=[row,col,a]
    def other(k): return [each('row',lambda h: T.f_imp(f_and(inn(h),f_ne(h,k)),f_not(f_and(f_eq(row[h],row[k]),f_eq(col[h],col[k])))))]
    absent=[each('row',lambda h: T.f_imp(inn(h),f_not(f_and(f_eq(row[h],i),f_eq(col[h],j)))))]
    at=[f_ge(k,I(0)),f_lt(k,e)]+other(k); E1=[SZ('e')]; h=sym('h','I')
    few=[each('row',lambda h: T.f_imp(inn(h),f_lt(row[h],I(MX))))]     # there is room for every row
    def conv(fn,args,cases,req,what): out.append(Contract(fn+'_'+t,args,cases,req+few,gen=cgen(what),sizes={'*':8},opts={'w':2 if t in'zc' else 1},nmon=300))
    if t in CONV:
        conv('cget',E1+[SZ('k')]+IN+[o],[Case(True,0,all_('element',[],o.new(0),a[k])+all_('source',[],o.new(1),a[k])+same(row,col,a))],at,'at')
        conv('mget',E1+[SZ('k')]+IN+[o1],[Case(True,0,all_('element',[],o1.new(0),a[k]))],at,'at')
        conv('cnone',E1+[SZ('i'),SZ('j'),SZ('h')]+IN+[o1],[Case(True,0,all_('zero',[],o1.new(0),o.zero))],absent+[f_lt(h,e),f_le(i,row[h])],'none')
        conv('cset',E1+[SZ('k'),SZ('h')]+IN+[s,o],[Case(f_eq(h,k),0,all_('written',[],o.new(0),s[0])+all_('source kept',[],o.new(1),a[h])),Case(f_ne(h,k),0,all_('other entry',[],o.new(0),a[h])+all_('source kept',[],o.new(1),a[h]))],at+[f_lt(h,e)]+other(h),'at')
        conv('cshape',E1+IN+[o5],[Case(True,0,all_('rows as the source',[],o5.new(0),o5.new(3))+all_('columns as the source',[],o5.new(1),o5.new(4))+all_('entries',[],o5.new(2),e))],[],'shape')
    return out
