from dv.spec import *
HARNESS='C06.cc'; BACKENDS=['internal','blas']
n,m=sym('n','I'),sym('m','I'); MX=2**20
N=('size','n',0,MX); M=('size','m',0,MX)
def contracts():
    out=[]
    def C(fn,args,goals,**k): out.append(Contract(fn,args,[Case(True,0,goals)],**k))
    def mv(ty,rows,cols,szs,fn,general,alias=False):
        A,x,y=Arr('a',ty,rows*cols),Arr('x',ty,cols),Arr('y',ty,rows); al,be=Arr('al',ty,1),Arr('be',ty,1); i=fresh('i')
        src=y if alias else x
        prod=Sum(0,cols,lambda k: A[i*cols+k]*src[k])
        val=al[0]*prod+be[0]*y[i] if general else prod
        C(fn,szs+([al,be] if general else [])+[A]+([] if alias else [x])+[y],all_('y[i]',[(i,I(0),rows)],y.new(i),val)+same(A,*([] if alias else [x])))
    for ty in 'dfiz':
        mv(ty,n,m,[N,M],'dd_'+ty,True); mv(ty,n,n,[N],'dd_al_'+ty,True,True); mv(ty,n,m,[N,M],'opdd_'+ty,False)
    for ty,r,c in (('d',2,3),('d',3,2),('d',1,5),('d',17,2),('f',3,4),('i',2,2),('z',2,3)):
        u='%d%d_%s'%(r,c,ty); r,c=I(r),I(c)
        for q in('ss','sd'): mv(ty,r,c,[],q+u,True); mv(ty,r,c,[],'op'+q+u,False)
        mv(ty,n,c,[N],'ds'+u,True); mv(ty,n,c,[N],'opds'+u,False)
    for ty,k in (('d',3),('f',2),('i',4),('z',2)): mv(ty,I(k),I(k),[],'ss_al%d_%s'%(k,ty),True,True)
    return out
