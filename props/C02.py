from dv.spec import *
N=('size','n',0,2**31-1); n=sym('n','I'); m=sym('m','I'); M=('size','m',0,2**31-1)
HARNESS='C02.cc'; BACKENDS=['internal','blas']
def det(a,b): return [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
def contracts():
    out=[]
    def C(fn,args,goals,cases=None,**k): out.append(Contract(fn,args,cases or [Case(True,0,goals)],**k))
    def eq(name,arr,i,val): return all_(name,[],arr.new(I(i)),val)
    for ty in 'dfiz':
        a,b,r=Arr('a',ty,n),Arr('b',ty,n),Arr('r',ty,1)
        p=lambda L,x,y: Sum(0,L,lambda k:x[k]*y[k])
        C('dot_'+ty,[N,a,b,r],eq('inner product',r,0,p(n,a,b))+same(a,b))
        C('mdot_'+ty,[N,a,b,r],eq('inner product',r,0,p(n,a,b))+same(a,b))
        C('dotself_'+ty,[N,a,r],eq('inner product',r,0,p(n,a,a))+same(a))
        if ty in 'df': C('norm2_'+ty,[N,a,r],eq('norm',r,0,T.sqrt_(p(n,a,a)))+same(a))
    for ty,k in (('d',1),('d',4),('d',33),('f',5),('i',17),('z',3)):
        L=I(k); a,b,r=Arr('a',ty,L),Arr('b',ty,L),Arr('r',ty,1)
        g=eq('inner product',r,0,p(L,a,b))
        C('sdot%d_%s'%(k,ty),[a,b,r],g+same(a,b)); C('smdot%d_%s'%(k,ty),[a,b,r],g+same(a,b))
        b=Arr('b',ty,m)
        for f in('sddot','dsdot'):
            C('%s%d_%s'%(f,k,ty),[M,a,b,r],None,[Case(f_eq(m,L),0,eq('inner product',r,0,p(L,a,b))+same(a,b),'lengths agree'),Case(f_ne(m,L),1,same(a,b,r),'lengths differ')],sizes={'m':[k]})
        if ty in 'df': C('snorm2%d_%s'%(k,ty),[a,r],eq('norm',r,0,T.sqrt_(p(L,a,a)))+same(a))
    for ty in 'dlz':
        a2,b2,r1=Arr('a',ty,2),Arr('b',ty,2),Arr('r',ty,1); a,b,r=Arr('a',ty,3),Arr('b',ty,3),Arr('r',ty,3)
        d=det(a,b)
        for X in 'sd':
            for Y in 'sd':
                if X+Y!='dd':
                    C('cross2%s%s_%s'%(X,Y,ty),[a2,b2,r1],eq('cross',r1,0,a2[0]*b2[1]-a2[1]*b2[0])+same(a2,b2))
                    C('crossv%s%s_%s'%(X,Y,ty),[a,b,r],sum([eq('cross',r,i,d[i]) for i in range(3)],[])+same(a,b))
                for Z in 'sd':
                    C('cross3%s%s%s_%s'%(X,Y,Z,ty),[a,b,r],sum([eq('cross',r,i,d[i]) for i in range(3)],[])+same(a,b))
                    C('acc3%s%s%s_%s'%(X,Y,Z,ty),[a,b,r],sum([eq('accumulated cross',r,i,r[i]+d[i]) for i in range(3)],[])+same(a,b))
                C('crossal1%s%s_%s'%(X,Y,ty),[a,b],sum([eq('cross',a,i,d[i]) for i in range(3)],[])+same(b))
                C('crossal2%s%s_%s'%(X,Y,ty),[a,b],sum([eq('cross',b,i,d[i]) for i in range(3)],[])+same(a))
                C('accal1%s%s_%s'%(X,Y,ty),[a,b],sum([eq('accumulated cross',a,i,a[i]+d[i]) for i in range(3)],[])+same(b))
                C('accal2%s%s_%s'%(X,Y,ty),[a,b],sum([eq('accumulated cross',b,i,b[i]+d[i]) for i in range(3)],[])+same(a))
    return out
