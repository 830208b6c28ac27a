from dv.spec import *
HARNESS='C20.cc'; BACKENDS=['internal']
n,m,c,e,p,q,w,x=[sym(v,'I') for v in 'nmcepqwx']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def tri(k): return T.idiv(k*k+k,2)
def contracts():
    out=[]
    def C(fn,args,goals,requires,cases=None,**kw): out.append(Contract(fn,args,cases or [Case(True,0,goals)],requires,**kw))
    def put(r,ix,val): return all_('element',[],r.new(I(ix)),val)
    def kind(pre,ty,szs,szs2,pos,la,lb,req,req2,cell,same_,dims,struct=None):
        """cell: index of position (p,q) in the array, same_: both positions denote the same element"""
        a,b,s,t=Arr('a',ty,la),Arr('b',ty,lb),Arr('s',ty,1),Arr('t',ty,1); r=Arr('r',ty,6); r1=Arr('r',ty,1)
        P=[SZ(v) for v in ('pqwx' if len(pos)==4 else 'pw')]
        def gen(rng,con,env):
            S=env['$']; D=dims(S)
            if any(d<=0 for d in D): return False
            for k,v in enumerate('pqwx' if len(D)==4 else 'pw'):
                if v in S: S[v]%=D[k]
            if struct: struct(rng,S,D)
            elif rng.random()<.4:
                if len(D)==4 and 'w' in S: S['w'],S['x']=S['p'],S['q']
                elif 'w' in S: S['w']=S['p']
            return True
        el=a[cell]
        def cs():
            o=[]
            for cd,ss,tt in((same_,s[0],t[0]),(f_not(same_),el,el)):
                if cd is False: continue
                o.append(Case(cd,0,put(r,0,el)+put(r,1,el)+put(r,2,el)+put(r,3,ss)+put(r,4,tt)+put(r,5,ss)+same(a)))
            return o
        half=P[:len(P)//2]; kw={'gen':gen}; rq=req
        C(pre+'_copy',szs+P+[s,t,a,r],None,req,cs(),**kw)
        C(pre+'_assign',szs+szs2+P+[s,t,a,b,r],None,req+req2,cs(),**kw)
        C(pre+'_self',szs+P+[a,r1],put(r1,0,el)+same(a),req,**kw)
        C(pre+'_move',szs+P+[a,r1],put(r1,0,el)+same(a),req,**kw)
        C(pre+'_massign',szs+szs2+P+[a,b,r1],put(r1,0,el)+same(a),req+req2,**kw)
    lt=lambda *ps: [f_lt(u,I(v) if isinstance(v,int) else v) for u,v in ps]
    for t in 'dz':
        kind('dv_'+t,t,[SZ('n',1)],[SZ('c')],[p,w],n,c,lt((p,n),(w,n)),[],p,f_eq(p,w),lambda S:(S['n'],S['n']))
        kind('sv5_'+t,t,[],[],[p,w],I(5),I(5),lt((p,5),(w,5)),[],p,f_eq(p,w),lambda S:(5,5))
        kind('dm_'+t,t,[SZ('n',1),SZ('m',1)],[SZ('c'),SZ('e')],[p,q,w,x],n*m,c*e,lt((p,n),(q,m),(w,n),(x,m)),[],p*m+q,f_and(f_eq(p,w),f_eq(q,x)),lambda S:(S['n'],S['m'],S['n'],S['m']))
    sq=f_and(f_eq(p,w),f_eq(q,x)); sy=f_or(sq,f_and(f_eq(p,x),f_eq(q,w)))
    kind('sm23_d','d',[],[],[p,q,w,x],I(6),I(6),lt((p,2),(q,3),(w,2),(x,3)),[],p.scale(3)+q,sq,lambda S:(2,3,2,3))
    def lower(rng,S,D):
        for u,v in(('p','q'),('w','x')):
            if S[u]<S[v]: S[u],S[v]=S[v],S[u]
        if rng.random()<.4: S['w'],S['x']=S['p'],S['q']
    def upper(rng,S,D):
        for u,v in(('p','q'),('w','x')):
            if S[u]>S[v]: S[u],S[v]=S[v],S[u]
        if rng.random()<.4: S['w'],S['x']=S['p'],S['q']
    def diag(rng,S,D):
        S['q'],S['x']=S['p'],S['w']
        if rng.random()<.4: S['w'],S['x']=S['p'],S['q']
    N3=lambda S:(3,3,3,3); NN=lambda S:(S['n'],)*4
    def four(d): return lt((p,d),(q,d),(w,d),(x,d))
    low=[f_ge(p,q),f_ge(w,x)]; up=[f_le(p,q),f_le(w,x)]; dg=[f_eq(p,q),f_eq(w,x)]
    n1,c1,c0=[SZ('n',1)],[SZ('c',1)],[SZ('c')]
    kind('slow3_d','d',[],[],[p,q,w,x],I(6),I(6),four(3)+low,[],tri(p)+q,sq,N3,lower)
    kind('low_d','d',n1,c0,[p,q,w,x],tri(n),tri(c),four(n)+low,[],tri(p)+q,sq,NN,lower)
    kind('sher3_d','d',[],[],[p,q,w,x],I(6),I(6),four(3)+[f_ge(p,q)],[],tri(p)+q,sy,N3,lower)
    kind('her_d','d',n1,c0,[p,q,w,x],tri(n),tri(c),four(n)+[f_ge(p,q)],[],tri(p)+q,sy,NN,lower)
    kind('upp_d','d',n1,c0,[p,q,w,x],tri(n),tri(c),four(n)+up,[],tri(q)+p,sq,NN,upper)
    kind('hess_d','d',n1,c1,[p,q,w,x],tri(n)+n-1,tri(c)+c-1,four(n)+[f_le(p,q+1),f_le(w,x+1)],[],tri(q)+q+p,sq,NN,upper)
    # tri-diagonal: one contract per band of the read position
    kind('tri_d','d',n1,c1,[p,q,w,x],n.scale(3)-2,c.scale(3)-2,four(n)+dg,[],n-1+p,sq,NN,diag)
    kind('stri3_d','d',[],[],[p,q,w,x],I(7),I(7),four(3)+dg,[],p+2,sq,N3,diag)
    sparse(out)
    return out
def sparse(out):
    from dv.smt import Forall
    e,i,k,h,n3,e3=[sym(v,'I') for v in('e','i','k','h','n3','e3')]
    def each(arr,c):
        v=fresh('?v'); return Forall(v,arr,v,c(v))
    def other(row,col,k): return [each('row',lambda h: T.f_imp(f_and(f_ge(h,I(0)),f_lt(h,e),f_ne(h,k)),f_not(f_and(f_eq(row[h],row[k]),f_eq(col[h],col[k])))))]
    for t in 'dz':
        W=2 if t=='z' else 1; vals=lambda rng,n: [rng.choice([1.,2.,-3.,.5,7.]) for _ in range(n*W)]
        ptr,col,a,s,t_,ptr2,col2,a2,r=Arr('ptr','u',n+1),Arr('col','u',e),Arr('a',t,e),Arr('s',t,1),Arr('t',t,1),Arr('ptr2','u',n+1),Arr('col2','u',e),Arr('a2',t,e),Arr('r',t,2)
        ptr3,col3,a3=Arr('ptr3','u',n3+1),Arr('col3','u',e3),Arr('a3',t,e3); b=fresh('b')
        wf=[f_eq(ptr[I(0)],I(0)),f_eq(ptr[n],e),each('ptr',lambda h: T.f_imp(f_and(f_ge(h,I(0)),f_lt(h,n)),f_le(ptr[h],ptr[h+1]))),each('ptr',lambda h: T.f_imp(f_and(f_ge(h,I(0)),f_le(h,n)),f_le(ptr[h],e))),
            f_ge(i,I(0)),f_lt(i,n),f_le(ptr[i],k),f_lt(k,ptr[i+1]),each('col',lambda h: T.f_imp(f_and(f_ge(h,ptr[i]),f_lt(h,ptr[i+1]),f_ne(h,k)),f_ne(col[h],col[k])))]
        eqs=[*all_('values',[(b,I(0),e)],a2.new(b),a[b]),*all_('row pointers',[(b,I(0),n+1)],ptr2.new(b),ptr[b]),*all_('columns',[(b,I(0),e)],col2.new(b),col[b])]
        def gcsr(rng,con,env):
            S=env['$']; N=S['n']=rng.choice([1,2,3,5]); M=rng.choice([1,2,4]); p=[0]; c=[]
            for _ in range(N): c+=rng.sample(range(M),rng.randint(0,M)); p.append(len(c))
            if not c: return False
            E=S['e']=len(c); S['k']=rng.randrange(E); S['i']=next(q for q in range(N) if p[q]<=S['k']<p[q+1])
            env['ptr'],env['col'],env['a']=p,c,vals(rng,E); env['ptr2'],env['col2'],env['a2']=[0]*(N+1),[0]*E,vals(rng,E)
            if 'n3' in S:
                S['n3']=rng.choice([0,1,N,4]); S['e3']=rng.choice([0,1,E,5]); env['ptr3']=[0]+[S['e3']]*S['n3']; env['col3']=list(range(S['e3'])); env['a3']=vals(rng,S['e3'])
            return True
        A=[SZ('n'),SZ('e'),SZ('i'),SZ('k'),ptr,col,a,s,t_,ptr2,col2,a2,r]; B=[SZ('n3'),SZ('e3'),ptr3,col3,a3]
        w0=all_('entry written',[],r.new(0),s[0])
        for op in('copy','assign','self','move','massign'):
            two=op in('copy','assign')
            out.append(Contract('csr_%s_%s'%(t,op),A+(B if 'assign' in op else []),[Case(True,0,eqs+w0+all_('other',[],r.new(1),t_[0])+same(ptr,col,a))],wf,gen=gcsr,sizes={'*':8}))
        row=Arr('row','u',e); r3=Arr('r',t,3); row3=Arr('row3','u',e3)
        def gcoo(rng,con,env):
            S=env['$']; ps=[(x,y) for x in range(rng.choice([1,2,4])) for y in range(rng.choice([1,2,3]))]; ps=rng.sample(ps,rng.randint(1,len(ps))); E=S['e']=len(ps)
            env['row'],env['col'],env['a']=[x for x,_ in ps],[y for _,y in ps],vals(rng,E); S['k'],S['h']=rng.randrange(E),rng.randrange(E)
            if 'e3' in S: S['e3']=rng.choice([0,1,E,5]); env['row3']=[rng.randrange(4) for _ in range(S['e3'])]; env['col3']=list(range(S['e3'])); env['a3']=vals(rng,S['e3'])
            return True
        A=[SZ('e'),SZ('k'),SZ('h'),row,col,a,s,t_,r3]; B=[SZ('e3'),row3,col3,a3]
        req=[f_ge(k,I(0)),f_lt(k,e),f_lt(h,e)]+other(row,col,k)+other(row,col,h)
        for op in('copy','assign','self','move','massign'):
            two=op in('copy','assign')
            mid=all_('other operand',[],r3.new(1),a[k] if two else t_[0])
            out.append(Contract('coo_%s_%s'%(t,op),A+(B if 'assign' in op else []),[Case(f_eq(h,k),0,all_('entry',[],r3.new(0),a[k])+mid+all_('after the write',[],r3.new(2),s[0])+same(row,col,a)),
               Case(f_ne(h,k),0,all_('entry',[],r3.new(0),a[k])+mid+all_('after a write elsewhere',[],r3.new(2),a[k])+same(row,col,a))],req,gen=gcoo,sizes={'*':8}))
