from dv.spec import *
HARNESS='C07.cc'; BACKENDS=['internal','blas']
n,m,l=sym('n','I'),sym('m','I'),sym('l','I'); MX=2**20
def contracts():
    out=[]
    def C(fn,args,goals,**k): out.append(Contract(fn,args,[Case(True,0,goals)],**k))
    def mm(fn,ty,r,c,k,general=True,al=''):
        szs=[('size',x.show() if False else nm,0,MX) for nm,x in (('n',n),('m',m),('l',l)) if any(y is x for y in (r,c,k))]
        A,B,Cm=Arr('a',ty,r*k),Arr('b',ty,k*c),Arr('c',ty,r*c); p,q=Arr('al',ty,1),Arr('be',ty,1); i,j=fresh('i'),fresh('j')
        SA=Cm if 'a' in al else A; SB=Cm if 'b' in al else B
        prod=Sum(0,k,lambda x: SA[i*k+x]*SB[x*c+j])
        val=p[0]*prod+q[0]*Cm[i*c+j] if general else prod
        ops=[x for x in ((A,'a'),(B,'b')) if x[1] not in al]; ops=[x[0] for x in ops]
        C(fn,szs+([p,q] if general else [])+ops+[Cm],all_('c[i,j]',[(i,I(0),r),(j,I(0),c)],Cm.new(i*c+j),val)+same(*ops))
    for ty in 'dfiz':
        mm('ddd_'+ty,ty,n,m,l); mm('ddd_ca_'+ty,ty,n,l,l,al='a'); mm('ddd_cb_'+ty,ty,l,m,l,al='b'); mm('ddd_cab_'+ty,ty,n,n,n,al='ab'); mm('opdd_'+ty,ty,n,m,l,False)
    for ty,r,c,k in (('d',2,3,2),('d',3,1,2),('f',1,2,3),('i',2,2,1),('z',2,1,2)):
        u='%d%d%d_%s'%(r,c,k,ty); r,c,k=I(r),I(c),I(k)
        for q in('sss','dss','sds','ssd'): mm(q+u,ty,r,c,k)
        mm('dds'+u,ty,r,c,l); mm('dsd'+u,ty,n,c,k); mm('sdd'+u,ty,r,m,k); mm('opss'+u,ty,r,c,k,False)
    for ty,N in (('d',2),('f',2),('z',2),('i',1)):
        u=str(N); K=I(N)
        for al in('a','b','ab'): mm('ss%s_c%s_%s'%(u,al,ty),ty,K,K,K,al=al)
        mm('ds%s_cb_%s'%(u,ty),ty,K,m,K,al='b'); mm('ds%s_ca_%s'%(u,ty),ty,n,K,K,al='a')
        for al in 'ab': mm('sd%s_c%s_%s'%(u,al,ty),ty,K,K,K,al=al)
    return out
