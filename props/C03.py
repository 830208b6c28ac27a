from dv.spec import *
n,m,k=sym('n','I'),sym('m','I'),sym('k','I')
SZ=lambda v:('size',v,0,2**31-1)
HARNESS='C03.cc'; BACKENDS=['internal','blas']
def match(rng,con,env): return True
def contracts():
    out=[]
    def C(fn,szs,args,agree,arrs,ro=(),res=None,tail=(),**kw):
        # agree: all lengths agree.  On a mismatch nothing changes; when they agree no error is raised and operands keep their values
        out.append(Contract(fn,[SZ(s) for s in szs]+args,[Case(agree,0,same(*ro)+(res or []),'lengths agree'),Case(f_not(agree),1,same(*arrs),'lengths differ')],**kw))
    for ty in 'dfiz':
        a,b,r,r1,s,r2=Arr('a',ty,n),Arr('b',ty,m),Arr('r',ty,k),Arr('r',ty,1),Arr('s',ty,1),Arr('r',ty,2)
        i=fresh('i'); B=[(i,I(0),n)]
        C('neg_'+ty,'nk',[a,r],f_eq(n,k),[a,r],[a],all_('result',B,r.new(i),-a[i]))
        three=f_and(f_eq(n,m),f_eq(n,k))
        C('add_'+ty,'nmk',[a,b,r],three,[a,b,r],[a,b],all_('result',B,r.new(i),a[i]+b[i]))
        C('sub_'+ty,'nmk',[a,b,r],three,[a,b,r],[a,b],all_('result',B,r.new(i),a[i]-b[i]))
        two=f_eq(n,m)
        C('add_al1_'+ty,'nm',[a,b],two,[a,b],[b],all_('result',B,a.new(i),a[i]+b[i])); C('sub_al2_'+ty,'nm',[a,b],two,[a,b],[a],all_('result',B,b.new(i),a[i]-b[i]))
        C('opadd_'+ty,'nm',[a,b,r2],two,[a,b,r2],[a,b]); C('opsub_'+ty,'nm',[a,b,r2],two,[a,b,r2],[a,b])
        C('axpy_'+ty,'nm',[s,a,b],two,[a,b],[a,s],all_('result',B,b.new(i),s[0]*a[i]+b[i]))
        C('dot_'+ty,'nm',[a,b,r1],two,[a,b,r1],[a,b]); C('mdot_'+ty,'nm',[a,b,r1],two,[a,b,r1],[a,b])
    for ty,K in (('d',1),('d',3),('d',45),('f',4),('i',17),('z',3)):
        L=I(K); a,b,r,r1=Arr('a',ty,L),Arr('b',ty,m),Arr('r',ty,L),Arr('r',ty,1); two=f_eq(m,L)
        for f in('sdadd','dsadd','sdsub','dssub'): C('%s%d_%s'%(f,K,ty),'m',[a,b,r],two,[a,b,r],[a,b],sizes={'m':[K,K+1,K-1]})
        for f in('sddot','dsdot'): C('%s%d_%s'%(f,K,ty),'m',[a,b,r1],two,[a,b,r1],[a,b],sizes={'m':[K,K+1,K-1]})
    return out
