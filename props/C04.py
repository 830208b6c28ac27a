from dv.spec import *
HARNESS='C04.cc'; BACKENDS=['internal']
n,m,i,j,k=[sym(x,'I') for x in 'nmijk']
def SZ(v,hi=2**31-1): return ('size',v,0,hi)
MX=2**20
def contracts():
    out=[]
    def C(fn,args,goals=(),requires=(),cases=None,**kw): out.append(Contract(fn,args,cases or [Case(True,0,list(goals))],requires,**kw))
    def eq(arr,ix,val): return all_('element',[],arr.new(I(ix)),val)
    def only(arr,ix,val,L):
        q=fresh('q'); B=[(q,I(0),L)]
        return all_('written element',[],arr.new(ix),val)+all_('other elements',B,arr.new(q),arr[q],f_ne(q,ix))
    def full(arr,L,val):
        q=fresh('q'); return all_('element',[(q,I(0),L)],arr.new(q),val(q))
    def diag(arr,N,val):
        # a'[p*N+q] = val(p) on the diagonal, 0 elsewhere
        p,q=fresh('p'),fresh('q'); B=[(p,I(0),N),(q,I(0),N)]
        return all_('diagonal',[(p,I(0),N)],arr.new(p*N+p),val(p))+all_('off-diagonal zero',B,arr.new(p*N+q),arr.zero,f_ne(p,q))
    for ty in 'diz':
        a,s=Arr('a',ty,n),Arr('s',ty,1); r4=Arr('r',ty,4); r,q,p=Arr('r',ty,n),Arr('q',ty,n),Arr('p',ty,n); kn=f_lt(k,n)
        for f in('vec_get','vec_get2'): C('%s_%s'%(f,ty),[SZ('n'),SZ('k'),a,r4],sum([eq(r4,x,a[k]) for x in range(4)],[])+same(a),[kn])
        for f in('set','setd','seti'): C('vec_%s_%s'%(f,ty),[SZ('n'),SZ('k'),s,a],only(a,k,s[0],n),[kn])
        C('vec_iter_'+ty,[SZ('n'),a,r,q,p],full(r,n,lambda x:a[x])+full(q,n,lambda x:a[x])+full(p,n,lambda x:a[x]))
        a3,r3=Arr('a',ty,3),Arr('r',ty,3); C('vec_list_'+ty,[a3,r3],full(r3,I(3),lambda x:a3[x]))
        C('vec_empty_'+ty,[]); C('vec_uninit_'+ty,[SZ('n')]); C('vec_filled_'+ty,[SZ('n'),s,r],full(r,n,lambda x:s[0]))
    for ty,N in(('d',1),('d',3),('d',20),('i',4),('z',3)):
        L=I(N); a,s,r4=Arr('a',ty,L),Arr('s',ty,1),Arr('r',ty,4); r,q,p=Arr('r',ty,L),Arr('q',ty,L),Arr('p',ty,L); K=SZ('k',N-1); f=lambda x:'svec%d_%s_%s'%(N,x,ty)
        C(f('get'),[K,a,r4],sum([eq(r4,x,a[k]) for x in range(4)],[])+same(a))
        for g in('set','setd'):
            if N>1 or g=='set': C(f(g),[K,s,a],only(a,k,s[0],L))
        C(f('iter'),[a,r,q,p],full(r,L,lambda x:a[x])+full(q,L,lambda x:a[x])+full(p,L,lambda x:a[x]))
        av=Arr('a',ty,m); C(f('from'),[SZ('m'),av,r],cases=[Case(f_eq(m,L),0,full(r,L,lambda x:av[x]),'right length'),Case(f_ne(m,L),2,same(r),'wrong length')],sizes={'m':[N,N+1]})
        C(f('filled'),[s,r],full(r,L,lambda x:s[0])); C(f('uninit'),[])
    ij=[f_lt(i,n),f_lt(j,m)]
    for ty in 'diz':
        nm=n*m; a,s,r4=Arr('a',ty,nm),Arr('s',ty,1),Arr('r',ty,4); r,q,p=Arr('r',ty,nm),Arr('q',ty,nm),Arr('p',ty,nm); D=[SZ(x,MX) for x in 'nmij']; ix=i*m+j
        for f in('get','get2'): C('mat_%s_%s'%(f,ty),D+[a,r4],sum([eq(r4,x,a[ix]) for x in range(4)],[])+same(a),ij,gen=inside)
        for f in('set','mut','setd'): C('mat_%s_%s'%(f,ty),D+[s,a],only(a,ix,s[0],nm),ij,gen=inside)
        D=D[:2]
        C('mat_iter_'+ty,D+[a,r,q,p],full(r,nm,lambda x:a[x])+full(q,nm,lambda x:a[x])+full(p,nm,lambda x:a[x]))
        a6,r6=Arr('a',ty,6),Arr('r',ty,6); C('mat_list_'+ty,[a6,r6],full(r6,I(6),lambda x:a6[x]))
        P,Q=fresh('p'),fresh('q')
        C('mat_filled_'+ty,D+[s,r],all_('element',[(P,I(0),n),(Q,I(0),m)],r.new(P*m+Q),s[0])); C('mat_uninit_'+ty,D)
        nn=n*n; d,r=Arr('a',ty,n),Arr('r',ty,nn)
        C('mat_diagv_'+ty,D[:1]+[d,r],diag(r,n,lambda x:d[x]),sizes={'*':20}); C('mat_diag_'+ty,D[:1]+[s,r],diag(r,n,lambda x:s[0]),sizes={'*':20})
        if ty!='i': C('mat_identity_'+ty,D[:1]+[r],diag(r,n,lambda x:r.one),sizes={'*':20})
    for ty,N,M in(('d',2,3),('d',4,2),('d',3,3),('i',2,3),('z',2,3)):
        L=I(N*M); a,s,r4=Arr('a',ty,L),Arr('s',ty,1),Arr('r',ty,4); r=Arr('r',ty,L); D=[SZ('i',N-1),SZ('j',M-1)]; ix=i*M+j; f=lambda x:'smat%dx%d_%s_%s'%(N,M,x,ty)
        C(f('get'),D+[a,r4],sum([eq(r4,x,a[ix]) for x in range(4)],[])+same(a))
        for g in('set','mut','setd'): C(f(g),D+[s,a],only(a,ix,s[0],L))
        av=Arr('a',ty,k); C(f('from'),[SZ('k'),av,r],cases=[Case(f_eq(k,L),0,full(r,L,lambda x:av[x]),'right length'),Case(f_ne(k,L),2,same(r),'wrong length')],sizes={'k':[N*M,N*M+1]})
        C(f('filled'),[s,r],full(r,L,lambda x:s[0])); C(f('uninit'),[])
    for ty,N in(('d',1),('d',3),('z',2)):
        L=I(N*N); d,s,r=Arr('a',ty,N),Arr('s',ty,1),Arr('r',ty,L); f=lambda x:'smat%d_%s_%s'%(N,x,ty)
        C(f('diagv'),[d,r],diag(r,I(N),lambda x:d[x])); C(f('diag'),[s,r],diag(r,I(N),lambda x:s[0])); C(f('identity'),[r],diag(r,I(N),lambda x:r.one))
    a3,r3,a6,r6,a5=Arr('a','d',3),Arr('r','d',3),Arr('a','d',6),Arr('r','d',6),Arr('a','d',5)
    C('svec_list',[a3,r3],full(r3,I(3),lambda x:a3[x])); C('smat_list',[a6,r6],full(r6,I(6),lambda x:a6[x]))
    for f in('svec_list_short','svec_list_long','smat_list_short','smat_list_long'): C(f,[a5],cases=[Case(True,2,same(a5),'wrong length')])
    return out
def inside(rng,con,env):
    S=env['$']
    if S['n']==0 or S['m']==0: return False
    S['i']%=S['n']; S['j']%=S['m']; return True
