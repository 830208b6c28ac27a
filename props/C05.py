from dv.spec import *
HARNESS='C05.cc'; BACKENDS=['internal']
n,i,j,p,q,c=[sym(x,'I') for x in 'nijpqc']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def tri(x): return T.idiv(x*x+x,2)
def inside(rng,con,env):
    S=env['$']
    N=S.get('n',con.opts.get('N',4))+con.opts.get('plus',0)
    for v in 'ijpq':
        if v in S:
            if N==0: return False
            S[v]%=N
    if 'j' in S and rng.random()<.7:
        S['i']=max(0,min(N-1,S['j']+rng.choice([-1,0,1])))
    if 'p' in S and rng.random()<.5: S['p'],S['q']=rng.choice([(S['i'],S['j']),(S['j'],S['i'])])
    return True
def contracts():
    out=[]
    def C(fn,args,goals=(),requires=(),cases=None,**kw):
        if cases and kw.get('opts',{}).get('N')==2: cases=cases[:-1]   # a 2x2 matrix has no position outside the band
        out.append(Contract(fn,args,cases or [Case(True,0,list(goals))],requires,gen=kw.pop('gen',inside),**kw))
    def put(arr,ix,val): return all_('element',[],arr.new(I(ix) if isinstance(ix,int) else ix),val)
    def only(arr,ix,val,L):
        w=fresh('w'); return all_('written cell',[],arr.new(ix),val)+all_('other cells',[(w,I(0),L)],arr.new(w),arr[w],f_ne(w,ix))
    # ---- tri-diagonal: cell of (i,j)
    def trid(pre,dim,szs):
        l,d,u,s,r=Arr('l','d',dim-1),Arr('d','d',dim),Arr('u','d',dim-1),Arr('s','d',1),Arr('r','d',2)
        N=dim.const(); N=int(N) if N is not None else None; ij=[SZ('i',0,N-1 if N else MX),SZ('j',0,N-1 if N else MX)]; pq=[SZ('p',0,N-1 if N else MX),SZ('q',0,N-1 if N else MX)]
        req=[f_lt(i,dim),f_lt(j,dim)]; o={'N':N} if N else {}
        D,U,L=f_eq(i,j),f_eq(i+1,j),f_eq(i,j+1); Z=f_and(f_not(D),f_not(U),f_not(L))
        def rcases(st0): 
            cs=[]
            for cd,v in((D,d[i]),(U,u[i]),(L,l[j])): cs.append(Case(cd,0,put(r,0,v)+put(r,1,v)+same(l,d,u)))
            cs.append(Case(Z,0,put(r,0,R(0))+put(r,1,R(0))+same(l,d,u)) if st0==0 else Case(Z,2,same(l,d,u,r)))
            return cs
        C(pre+'get',szs+ij+[l,d,u,r],cases=rcases(0),requires=req,opts=o); C(pre+'mget',szs+ij+[l,d,u,r],cases=rcases(2),requires=req,opts=o)
        if not N: C('trid_lv',szs+ij+[l,d,u,r],cases=rcases(0),requires=req,opts=o)
        for f in('set','mut'):
            C(pre+f,szs+ij+[s,l,d,u],cases=[Case(D,0,only(d,i,s[0],d.len)+same(l,u)),Case(U,0,only(u,i,s[0],u.len)+same(l,d)),Case(L,0,only(l,j,s[0],l.len)+same(d,u)),Case(Z,2,same(l,d,u))],requires=req,opts=o)
        E=f_and(f_eq(p,i),f_eq(q,j))
        C(pre+'two',szs+ij+pq+[s,l,d,u,r],cases=[Case(f_and(f_not(Z),E),0,put(r,1,s[0])),Case(f_and(f_not(Z),f_not(E)),0,all_('other position unchanged',[],r.new(I(1)),r.new(I(0)))),Case(Z,2,same(l,d,u))],requires=req+[f_lt(p,dim),f_lt(q,dim)],opts=o)
    trid('trid_',n,[SZ('n',1)]); trid('tris4_',I(4),[]); trid('tris2_',I(2),[])
    # ---- packed by columns: Hessenberg, upper triangular
    def packed(pre,cnt,inside_,cell,one,lo):
        L=cnt(n); a,s,r=Arr('a','d',L),Arr('s','d',1),Arr('r','d',2); szs=[SZ('n',lo)]; ij=[SZ('i'),SZ('j')]; pq=[SZ('p'),SZ('q')]
        req=[f_lt(i,n),f_lt(j,n)]; In=inside_(i,j); k=cell(i,j)
        C(pre+'get',szs+ij+[a,r],cases=[Case(In,0,put(r,0,a[k])+put(r,1,a[k])+same(a)),Case(f_not(In),0,put(r,0,R(0))+put(r,1,R(0))+same(a))],requires=req)
        C(pre+'mget',szs+ij+[a,r],cases=[Case(In,0,put(r,0,a[k])+put(r,1,a[k])+same(a)),Case(f_not(In),2,same(a,r))],requires=req)
        for f in('set','mut'): C(pre+f,szs+ij+[s,a],cases=[Case(In,0,only(a,k,s[0],L)),Case(f_not(In),2,same(a))],requires=req)
        E=f_and(f_eq(p,i),f_eq(q,j))
        C(pre+'two',szs+ij+pq+[s,a,r],cases=[Case(f_and(In,E),0,put(r,1,s[0])),Case(f_and(In,f_not(E)),0,all_('other position unchanged',[],r.new(I(1)),r.new(I(0)))),Case(f_not(In),2,same(a))],requires=req+[f_lt(p,n),f_lt(q,n)])
        # counts: c cells are accepted exactly when they fill the structure of some dimension
        ac=Arr('a','d',c)
        def cgen(rng,con,env):
            S=env['$']; lo_,hi_=cv_(S['n']-1),cv_(S['n'])
            S['c']=hi_ if rng.random()<.6 or hi_-lo_<2 or S['n']<1 else rng.randint(lo_+1,hi_-1); env['a']=[float(x) for x in range(S['c'])]; return S['c']>=0
        cv_=lambda x: (x*(x+1)//2+(x-1 if one==2 else 0)) if x>0 else 0
        full=f_eq(c,cnt(n)); btw=f_and(f_lt(cnt(n-1) if one==1 else cnt(n-1),c),f_lt(c,cnt(n)))
        C(pre+'make',[SZ('n',1),SZ('c',0,2**50),ac],cases=[Case(full,0,same(ac),'fills dimension n'),Case(f_and(btw,f_ge(c,I(1))),2,same(ac),'between two dimensions')],requires=[f_or(full,f_and(btw,f_ge(c,I(1))))],gen=cgen)
        r1=Arr('r','d',1); sc=Arr('s','d',c)
        C(pre+'empty',[SZ('c'),r1],put(r1,0,R(0)))
        C(pre+'empty1',[SZ('c'),sc,r1],cases=[Case(f_eq(c,I(1)),0,put(r1,0,sc[0])),Case(f_ne(c,I(1)),2,same(r1))],sizes={'c':[1]})
        # extension to n+1
        b=Arr('b','d',n+one); req1=[f_le(i,n),f_le(j,n)]
        old=f_and(In,f_lt(i,n),f_lt(j,n)); new=f_and(In,f_or(f_eq(i,n),f_eq(j,n)))
        nb=[Case(old,0,put(r1,0,a[k])+same(a)),Case(f_not(In),0,put(r1,0,R(0)))]
        C(pre+'ext0',szs+ij+[a,r1],cases=nb+[Case(new,0,put(r1,0,R(0)))],requires=req1,opts={'plus':1})
        if one==2: nc=[Case(f_and(In,f_eq(j,n)),0,put(r1,0,b[i+1])),Case(f_and(In,f_eq(i,n),f_lt(j,n)),0,put(r1,0,b[0]))]
        else: nc=[Case(f_and(In,f_eq(j,n)),0,put(r1,0,b[i]))]
        C(pre+'ext',szs+ij+[a,b,r1],cases=nb+nc,requires=req1,opts={'plus':1})
        ra=Arr('r','d',L+n+one); w=fresh('w'); w2=fresh('w')
        C(pre+'ext_all',szs+[a,b,ra],all_('existing cells',[(w,I(0),L)],ra.new(w),a[w])+all_('new cells',[(w2,I(0),n+one)],ra.new(L+w2),b[w2]))
        C(pre+'ext0_all',szs+[a,ra],all_('existing cells',[(w,I(0),L)],ra.new(w),a[w])+all_('new cells',[(w2,I(0),n+one)],ra.new(L+w2),R(0)))
        bc=Arr('b','d',c)
        C(pre+'ext_bad',szs+[SZ('c'),a,bc],cases=[Case(f_ne(c,n+one),2,same(a))],requires=[f_ne(c,n+one)])
    packed('hess_',lambda x:tri(x)+x-1,lambda x,y:f_le(x,y+1),lambda x,y:tri(y)+y+x,2,1)
    packed('upp_',tri,lambda x,y:f_le(x,y),lambda x,y:tri(y)+x,1,0)
    a,r1=Arr('a','d',tri(n)+n-1),Arr('r','d',1)
    C('hess_col',[SZ('n',1),SZ('i'),SZ('j'),a,r1],put(r1,0,a[tri(j)+j+i]),[f_lt(i,n),f_lt(j,n),f_le(i,j+1)],gen=lambda rng,con,env: inside(rng,con,env) and env['$']['i']<=env['$']['j']+1)
    C('upp_default',[r1],put(r1,0,R(0)))
    # ---- lower triangular, Hermitian
    def lower(pre,dim,szs,sym_):
        N=dim.const(); N=int(N) if N is not None else None; L=tri(dim); a,s,r,r2,r1=Arr('a','d',L),Arr('s','d',1),Arr('r','d',3),Arr('r','d',2),Arr('r','d',1); hi=N-1 if N else MX
        ij=[SZ('i',0,hi),SZ('j',0,hi)]; pq=[SZ('p',0,hi),SZ('q',0,hi)]; o={'N':N} if N else {}
        req=[f_lt(i,dim),f_lt(j,dim)]; lo=f_ge(i,j); cells=[(lo,tri(i)+j)]+([(f_lt(i,j),tri(j)+i)] if sym_ else [])
        if not sym_: req=req+[lo]
        g=(lambda rng,con,env: inside(rng,con,env) and ('i' not in env['$'] or env['$']['i']>=env['$']['j'])) if not sym_ else inside
        for f in('get','mget'): C(pre+f,szs+ij+[a,r],cases=[Case(cd,0,put(r,0,a[k])+put(r,1,a[k])+put(r,2,a[k])+same(a)) for cd,k in cells],requires=req,opts=o,gen=g)
        for f in('set','mut'): C(pre+f,szs+ij+[s,a],cases=[Case(cd,0,only(a,k,s[0],L)) for cd,k in cells],requires=req,opts=o,gen=g)
        E=f_and(f_eq(p,i),f_eq(q,j)); M=f_and(f_eq(p,j),f_eq(q,i)) if sym_ else False
        rq=req+[f_lt(p,dim),f_lt(q,dim)]+([] if sym_ else [f_ge(p,q)])
        C(pre+'two',szs+ij+pq+[s,a,r2],cases=[Case(f_or(E,M),0,put(r2,1,s[0])),Case(f_and(f_not(E),f_not(M)),0,all_('other position unchanged',[],r2.new(I(1)),r2.new(I(0))))],requires=rq,opts=o,gen=inside)
        if sym_: C(pre+'into',szs+ij+[a,r1],put(r1,0,a[tri(i)+j])+same(a),req+[lo],opts=o)
    lower('low_',n,[SZ('n',1)],False); lower('her_',n,[SZ('n',1)],True); lower('slow3_',I(3),[],False); lower('sher3_',I(3),[],True)
    return out
