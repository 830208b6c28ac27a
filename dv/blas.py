"""Assumed contracts of the CBLAS / LAPACKE routines lalib calls (row-major, unit stride), with their preconditions as obligations."""
from . import terms as T, smt
from .terms import Poly,I,R,fresh,f_and,f_or,f_not,f_le,f_lt,f_ge,f_gt,f_eq,f_ne,f_rlt,subst,mk_sum
from .exec import *
from .exec import Clause,Fam,Base,Store,read_arr,Hdr
from .realeq import NeedSplit

def need(ex,st,g,what,loc): ex.c.oblige(st,g,'precondition of '+what,loc)
def unit(ex,st,v,what,loc): need(ex,st,f_eq(v,I(1)),what+' (unit stride)',loc)
def const(ex,st,v,k,what,loc):
    if v.const()!=k: ex.c.fail(st,'precondition of '+what,'layout/transpose argument is %s, contract covers %s'%(v,k),loc)
def cnt(ex,st,v,what,loc):
    v=ex.cs(st,v,32,loc); need(ex,st,f_ge(v,I(0)),what+' (dimension >= 0)',loc)
    return v
def rng(ex,st,p,n,es,loc,what):
    """n elements of es bytes at p are accessible (n>0 known)"""
    if isinstance(p,Opaque): raise Unsupported('BLAS on unknown pointer')
    return ex.chk(st,p,n.scale(es),loc,what)
def pos(ex,st,n):
    if smt.prove(st.facts,f_ge(n,I(1))): return True
    if smt.prove(st.facts,f_le(n,I(0))): return False
    raise Split(f_ge(n,I(1)))
def typed(ex,st,p,es):
    o=ex.c.objs[p.obj]
    if o.kind=='raw': ex.typed(st,p,('double',) if es==8 else ('float',))
    if o.kind not in('arr','raw') or o.esz!=es: raise Unsupported('BLAS operand %s is not an array of %d-byte numbers'%(p.obj,es))
    return T.idiv_exact(p.off,es)
def rd(ex,st,p,es):
    """reader for elements relative to p"""
    if ex.c.objs[p.obj].kind=='cells':
        c0=dict(ex.content(st,p.obj))
        def g(st2,i,loc):
            k=i.const()
            if k is None:
                k=next((q for q in range(4) if smt.prove(st2.facts,f_eq(i,I(q)))),None)
                if k is None: raise Unsupported('symbolic index into a struct member')
            st3=st2.cp(); st3.mem[p.obj]=c0
            return ex.load(st3,Ptr(p.obj,p.off+I(int(k)*es)),('double',) if es==8 else ('float',),loc)
        return g,None
    b=typed(ex,st,p,es); c=ex.content(st,p.obj)
    def f(st2,i,loc): return read_arr(ex.c,st2,c,b+i,loc)
    return f,b
def apart(ex,st,p,n,q,m,es,what,loc):
    if p.obj!=q.obj: return
    need(ex,st,f_or(f_le(p.off+n.scale(es),q.off),f_le(q.off+m.scale(es),p.off)),what+' (operands do not overlap)',loc)
def pieces(ex,st,cond,fn,depth=0):
    s2=st.cp(); s2.add(cond)
    if not smt.consistent(s2.facts): return []
    try: return [(cond,fn(s2))]
    except Split as e:
        if depth>9: raise Unsupported('BLAS operand too fragmented')
        return pieces(ex,st,f_and(cond,e.f),fn,depth+1)+pieces(ex,st,f_and(cond,f_not(e.f)),fn,depth+1)
def wr(ex,st,p,es,n,fn,loc,name):
    """elements p[0..n) become fn(st,i)"""
    o=ex.c.objs[p.obj]
    if o.kind=='cells' and n.const() is not None:
        vs=[fn(st,I(k)) for k in range(int(n.const()))]
        for k,v in enumerate(vs): ex.store(st,Ptr(p.obj,p.off+I(k*es)),v,('double',) if es==8 else ('float',),loc)
        return
    if o.ro: ex.c.fail(st,'writable','%s writes read-only %s'%(name,p.obj),loc)
    if st.par and not o.local: ex.c.fail(st,'race freedom','%s inside a parallel region'%name,loc)
    b0=typed(ex,st,p,es); old=ex.content(st,p.obj)
    b=fresh('c'); cond=f_and(f_ge(b,I(0)),f_lt(b,n))
    v=pieces(ex,st,cond,lambda s2: fn(s2,b))
    st.mem[p.obj]=Fam(old,name,(),[Clause((b,),c,b0+b,x) for c,x in v],False)
def par(ex,st,name,loc):
    if st.par: raise Unsupported('BLAS call in a parallel region')
def axpy(es):
    def h(ex,st,name,a,i,loc,f,regs):
        n,al,x,ix,y,iy=a; unit(ex,st,ix,name,loc); unit(ex,st,iy,name,loc); n=cnt(ex,st,n,name,loc)
        if not pos(ex,st,n): return [('ok',st,None)]
        rng(ex,st,x,n,es,loc,name+' x'); rng(ex,st,y,n,es,loc,name+' y'); apart(ex,st,x,n,y,n,es,name,loc)
        rx,_=rd(ex,st,x,es); ry,_=rd(ex,st,y,es)
        wr(ex,st,y,es,n,lambda s2,k: al*rx(s2,k,loc)+ry(s2,k,loc),loc,name)
        return [('ok',st,None)]
    return h
def zaxpy(es):
    def h(ex,st,name,a,i,loc,f,regs):
        n,pal,x,ix,y,iy=a; unit(ex,st,ix,name,loc); unit(ex,st,iy,name,loc); n=cnt(ex,st,n,name,loc)
        if not pos(ex,st,n): return [('ok',st,None)]
        rng(ex,st,pal,I(2),es,loc,name+' alpha')
        ty=('double',) if es==8 else ('float',)
        are=ex.load(st,pal,ty,loc); aim=ex.load(st,Ptr(pal.obj,pal.off+es),ty,loc)
        rng(ex,st,x,n.scale(2),es,loc,name+' x'); rng(ex,st,y,n.scale(2),es,loc,name+' y'); apart(ex,st,x,n.scale(2),y,n.scale(2),es,name,loc)
        o=ex.c.objs[y.obj]
        rx,_=rd(ex,st,x,es); ry,b0=rd(ex,st,y,es); old=ex.content(st,y.obj)
        b=fresh('c'); cond=f_and(f_ge(b,I(0)),f_lt(b,n)); cl=[]
        re=lambda s2: are*rx(s2,b.scale(2),loc)-aim*rx(s2,b.scale(2)+1,loc)+ry(s2,b.scale(2),loc)
        im=lambda s2: are*rx(s2,b.scale(2)+1,loc)+aim*rx(s2,b.scale(2),loc)+ry(s2,b.scale(2)+1,loc)
        for off,fn in ((0,re),(1,im)):
            for c,v in pieces(ex,st,cond,fn): cl.append(Clause((b,),c,b0+b.scale(2)+off,v))
        st.mem[y.obj]=Fam(old,name,(),cl,False)
        return [('ok',st,None)]
    return h
def scal(es):
    def h(ex,st,name,a,i,loc,f,regs):
        n,al,x,ix=a; unit(ex,st,ix,name,loc); n=cnt(ex,st,n,name,loc)
        if not pos(ex,st,n): return [('ok',st,None)]
        rng(ex,st,x,n,es,loc,name+' x'); rx,_=rd(ex,st,x,es)
        wr(ex,st,x,es,n,lambda s2,k: al*rx(s2,k,loc),loc,name)
        return [('ok',st,None)]
    return h
def zscal(es):
    def h(ex,st,name,a,i,loc,f,regs):
        n,pal,x,ix=a; unit(ex,st,ix,name,loc); n=cnt(ex,st,n,name,loc)
        if not pos(ex,st,n): return [('ok',st,None)]
        rng(ex,st,pal,I(2),es,loc,name+' alpha')
        ty=('double',) if es==8 else ('float',)
        are=ex.load(st,pal,ty,loc); aim=ex.load(st,Ptr(pal.obj,pal.off+es),ty,loc)
        rng(ex,st,x,n.scale(2),es,loc,name+' x'); rx,b0=rd(ex,st,x,es); old=ex.content(st,x.obj)
        b=fresh('c'); cond=f_and(f_ge(b,I(0)),f_lt(b,n)); cl=[]
        for off,fn in ((0,lambda s2: are*rx(s2,b.scale(2),loc)-aim*rx(s2,b.scale(2)+1,loc)),(1,lambda s2: are*rx(s2,b.scale(2)+1,loc)+aim*rx(s2,b.scale(2),loc))):
            for c,v in pieces(ex,st,cond,fn): cl.append(Clause((b,),c,b0+b.scale(2)+off,v))
        st.mem[x.obj]=Fam(old,name,(),cl,False)
        return [('ok',st,None)]
    return h
def summed(ex,st,n,fn):
    c=n.const()
    if c is None:
        if n.single() is not None and n.single().kind=='sym':
            m=smt.model(st.facts); v=(m or {}).get('sizes',{}).get(n.single().args[0]) if m else None
            if v is not None and 0<=v<=64 and smt.prove(st.facts,f_eq(n,I(v))): c=v
    if c is not None and c<=64:
        r=None
        for j in range(int(c)):
            v=fn(st,I(j)); r=v if r is None else r+v
        return r if r is not None else R(0)
    k=fresh('k'); s2=st.cp(); s2.add(f_ge(k,I(0)),f_lt(k,n))
    try: v=fn(s2,k)
    except Split as e: 
        if k.single().id in T.f_fv(e.f): raise Unsupported('BLAS operand too fragmented in a sum')
        raise
    return mk_sum(k,I(0),n,v)
def dot(es):
    def h(ex,st,name,a,i,loc,f,regs):
        n,x,ix,y,iy=a; unit(ex,st,ix,name,loc); unit(ex,st,iy,name,loc); n=cnt(ex,st,n,name,loc)
        if not pos(ex,st,n): return [('ok',st,R(0))]
        rng(ex,st,x,n,es,loc,name+' x'); rng(ex,st,y,n,es,loc,name+' y')
        rx,_=rd(ex,st,x,es); ry,_=rd(ex,st,y,es)
        return [('ok',st,summed(ex,st,n,lambda s2,k: rx(s2,k,loc)*ry(s2,k,loc)))]
    return h
def nrm2(es):
    def h(ex,st,name,a,i,loc,f,regs):
        n,x,ix=a; unit(ex,st,ix,name,loc); n=cnt(ex,st,n,name,loc)
        if not pos(ex,st,n): return [('ok',st,R(0))]
        rng(ex,st,x,n,es,loc,name+' x'); rx,_=rd(ex,st,x,es)
        return [('ok',st,T.sqrt_(summed(ex,st,n,lambda s2,k: rx(s2,k,loc)*rx(s2,k,loc))))]
    return h
def gemv(es):
    def h(ex,st,name,a,i,loc,f,regs):
        lay,tr,m,n,al,A,lda,x,ix,be,y,iy=a
        const(ex,st,lay,101,name,loc); const(ex,st,tr,111,name,loc); unit(ex,st,ix,name,loc); unit(ex,st,iy,name,loc)
        m=cnt(ex,st,m,name,loc); n=cnt(ex,st,n,name,loc); lda=ex.cs(st,lda,32,loc)
        need(ex,st,f_and(f_ge(lda,I(1)),f_ge(lda,n)),name+' (lda >= max(1,n))',loc)
        if not pos(ex,st,m): return [('ok',st,None)]
        if not pos(ex,st,n): 
            # reference BLAS returns at once when m or n is zero, leaving y unscaled
            return [('ok',st,None)]
        rng(ex,st,A,(m-1)*lda+n,es,loc,name+' A'); rng(ex,st,x,n,es,loc,name+' x'); rng(ex,st,y,m,es,loc,name+' y')
        apart(ex,st,A,(m-1)*lda+n,y,m,es,name,loc); apart(ex,st,x,n,y,m,es,name,loc)
        rA,_=rd(ex,st,A,es); rx,_=rd(ex,st,x,es); ry,_=rd(ex,st,y,es)
        def val(s2,r):
            s=al*summed(ex,s2,n,lambda s3,k: rA(s3,r*lda+k,loc)*rx(s3,k,loc))
            if be.const()==0: return s
            return s+be*ry(s2,r,loc)
        wr(ex,st,y,es,m,val,loc,name)
        return [('ok',st,None)]
    return h
def gemm(es):
    def h(ex,st,name,a,i,loc,f,regs):
        lay,ta,tb,m,n,k,al,A,lda,B,ldb,be,C,ldc=a
        const(ex,st,lay,101,name,loc); const(ex,st,ta,111,name,loc); const(ex,st,tb,111,name,loc)
        m=cnt(ex,st,m,name,loc); n=cnt(ex,st,n,name,loc); k=cnt(ex,st,k,name,loc)
        lda=ex.cs(st,lda,32,loc); ldb=ex.cs(st,ldb,32,loc); ldc=ex.cs(st,ldc,32,loc)
        for ld,w,nm in ((lda,k,'lda'),(ldb,n,'ldb'),(ldc,n,'ldc')): need(ex,st,f_and(f_ge(ld,I(1)),f_ge(ld,w)),'%s (%s >= max(1,columns))'%(name,nm),loc)
        if not pos(ex,st,m) or not pos(ex,st,n): return [('ok',st,None)]
        kp=pos(ex,st,k)
        nC=(m-1)*ldc+n
        rng(ex,st,C,nC,es,loc,name+' C'); rC,b0=rd(ex,st,C,es); old=ex.content(st,C.obj)
        if kp:
            rng(ex,st,A,(m-1)*lda+k,es,loc,name+' A'); rng(ex,st,B,(k-1)*ldb+n,es,loc,name+' B')
            apart(ex,st,A,(m-1)*lda+k,C,nC,es,name,loc); apart(ex,st,B,(k-1)*ldb+n,C,nC,es,name,loc)
            rA,_=rd(ex,st,A,es); rB,_=rd(ex,st,B,es)
        r,c=fresh('c'),fresh('c'); cond=f_and(f_ge(r,I(0)),f_lt(r,m),f_ge(c,I(0)),f_lt(c,n))
        def val(s2):
            s=al*summed(ex,s2,k,lambda s3,q: rA(s3,r*lda+q,loc)*rB(s3,q*ldb+c,loc)) if kp else R(0)
            if be.const()==0: return s
            return s+be*rC(s2,r*ldc+c,loc)
        o=ex.c.objs[C.obj]
        if o.ro: ex.c.fail(st,'writable','%s writes read-only %s'%(name,C.obj),loc)
        v=pieces(ex,st,cond,val)
        st.mem[C.obj]=Fam(old,name,(),[Clause((r,c),cc,b0+r*ldc+c,x) for cc,x in v],False)
        return [('ok',st,None)]
    return h
def havoc(ex,st,p,es,n,loc,name):
    """elements p[0..n) become unspecified numbers"""
    X='%s%s'%(name,fresh('o').single().args[0].replace('#',''))
    wr(ex,st,p,es,n,lambda s2,k: T.load(X,(),k,'R'),loc,name)
def equation(ex,st,X,binders,cond,lhs,rhs):
    """fact about the fresh array X: for all binders with cond, lhs(st)=rhs(st)"""
    s2=st.cp()
    rg=f_and(*[f for v,lo,hi in binders for f in (f_ge(v,lo),f_lt(v,hi))],cond)
    for c,(l,r) in pieces(ex,st,rg,lambda s2: (lhs(s2),rhs(s2))): ex.c.eqs.append((X,binders,c,l,r))
def gtsv(es):
    # solves A*X=B by elimination with pivoting; dl, d and du are overwritten, B is replaced by X
    def h(ex,st,name,a,i,loc,f,regs):
        lay,n,m,dl,d,du,b,ldb=a
        const(ex,st,lay,101,name,loc); n=cnt(ex,st,n,name,loc); m=cnt(ex,st,m,name,loc); ldb=ex.cs(st,ldb,32,loc)
        need(ex,st,f_ge(ldb,m),name+' (ldb >= columns)',loc)
        ex.c.assumed.add('the tri-diagonal matrix is non-singular (implied by the property: elimination meets no zero denominator), so gtsv finds a solution')
        if not pos(ex,st,n): return [('ok',st,I(0))]
        rng(ex,st,d,n,es,loc,name+' d'); big=pos(ex,st,n-1); mm=pos(ex,st,m)
        rD,_=rd(ex,st,d,es)
        if big:
            rng(ex,st,dl,n-1,es,loc,name+' dl'); rng(ex,st,du,n-1,es,loc,name+' du'); rL,_=rd(ex,st,dl,es); rU,_=rd(ex,st,du,es)
            for x,k in((dl,n-1),(du,n-1)): apart(ex,st,x,k,d,n,es,name,loc)
            apart(ex,st,dl,n-1,du,n-1,es,name,loc)
        if mm:
            nb=(n-1)*ldb+m; rng(ex,st,b,nb,es,loc,name+' b'); rB,b0=rd(ex,st,b,es); old=ex.content(st,b.obj)
            for x,k in [(d,n)]+([(dl,n-1),(du,n-1)] if big else []): apart(ex,st,x,k,b,nb,es,name,loc)
            X='gtsv%s'%fresh('o').single().args[0].replace('#','')
            x=lambda r,c: T.load(X,(r,),c,'R')
            r,c=fresh('r'),fresh('c'); C=(c,I(0),m)
            bb=lambda q: (lambda s2: rB(s2,q*ldb+c,loc))
            if not big: equation(ex,st,X,[C],True,lambda s2: rD(s2,I(0),loc)*x(I(0),c),bb(I(0)))
            else:
                equation(ex,st,X,[C],True,lambda s2: rD(s2,I(0),loc)*x(I(0),c)+rU(s2,I(0),loc)*x(I(1),c),bb(I(0)))
                equation(ex,st,X,[(r,I(1),n-1),C],True,lambda s2: rL(s2,r-1,loc)*x(r-1,c)+rD(s2,r,loc)*x(r,c)+rU(s2,r,loc)*x(r+1,c),bb(r))
                equation(ex,st,X,[C],True,lambda s2: rL(s2,n-2,loc)*x(n-2,c)+rD(s2,n-1,loc)*x(n-1,c),bb(n-1))
            if ex.c.objs[b.obj].ro: ex.c.fail(st,'writable','%s writes read-only %s'%(name,b.obj),loc)
            st.mem[b.obj]=Fam(old,name,(),[Clause((r,c),f_and(f_ge(r,I(0)),f_lt(r,n),f_ge(c,I(0)),f_lt(c,m)),b0+r*ldb+c,x(r,c))],False)
        havoc(ex,st,d,es,n,loc,name)
        if big: havoc(ex,st,dl,es,n-1,loc,name); havoc(ex,st,du,es,n-1,loc,name)
        return [('ok',st,I(0))]
    return h
def potrf(es):
    # row-major, lower: the lower triangle of A becomes L with A=L*L^T and a positive diagonal, the rest keeps its content;
    # a positive result says that A is not positive definite
    def h(ex,st,name,a,i,loc,f,regs):
        lay,up,n,A,lda=a
        const(ex,st,lay,101,name,loc); const(ex,st,up,76,name,loc); n=cnt(ex,st,n,name,loc); lda=ex.cs(st,lda,32,loc)
        need(ex,st,f_ge(lda,n),name+' (lda >= n)',loc)
        if not pos(ex,st,n): return [('ok',st,I(0))]
        rng(ex,st,A,(n-1)*lda+n,es,loc,name+' A'); rA,b0=rd(ex,st,A,es); old=ex.content(st,A.obj)
        if ex.c.objs[A.obj].ro: ex.c.fail(st,'writable','%s writes read-only %s'%(name,A.obj),loc)
        X='potrf%s'%fresh('o').single().args[0].replace('#','')
        L=lambda r,c: T.load(X,(r,),c,'R')
        r,c=fresh('r'),fresh('c')
        bad=st.cp(); info=fresh('info'); bad.add(f_ge(info,I(1)),f_le(info,n)); bad.add(('bs',NOTPD))
        equation(ex,st,X,[(r,I(0),n),(c,I(0),n)],f_lt(c,r),lambda s2: mk_sum(K,I(0),c,L(r,K)*L(c,K))+L(r,c)*L(c,c),lambda s2: rA(s2,r*lda+c,loc))
        equation(ex,st,X,[(r,I(0),n)],True,lambda s2: mk_sum(K,I(0),r,L(r,K)*L(r,K))+L(r,r)*L(r,r),lambda s2: rA(s2,r*lda+r,loc))
        v,p=fresh('?v'),fresh('?p'); st.add(smt.Forall(v,X,v,f_or(f_ne(p,v),f_rlt(R(0),L(p,v))),(p,)))
        low=f_and(f_ge(r,I(0)),f_lt(r,n),f_ge(c,I(0)),f_le(c,r))
        st.mem[A.obj]=Fam(old,name,(),[Clause((r,c),low,b0+r*lda+c,L(r,c))],False)
        Y='potrf%s'%fresh('o').single().args[0].replace('#','')
        bad.mem[A.obj]=Fam(old,name,(),[Clause((r,c),low,b0+r*lda+c,T.load(Y,(r,),c,'R'))],False)
        return [('ok',st,I(0)),('ok',bad,info)]
    return h
NOTPD='the matrix is not positive definite'
K=T.sym('$K','I')
def potrs(es):
    # row-major, lower: B is replaced by X with L*(L^T*X)=B
    def h(ex,st,name,a,i,loc,f,regs):
        lay,up,n,m,A,lda,b,ldb=a
        const(ex,st,lay,101,name,loc); const(ex,st,up,76,name,loc); n=cnt(ex,st,n,name,loc); m=cnt(ex,st,m,name,loc); lda=ex.cs(st,lda,32,loc); ldb=ex.cs(st,ldb,32,loc)
        need(ex,st,f_ge(lda,n),name+' (lda >= n)',loc); need(ex,st,f_ge(ldb,m),name+' (ldb >= columns)',loc)
        if not pos(ex,st,n) or not pos(ex,st,m): return [('ok',st,I(0))]
        nb=(n-1)*ldb+m; na=(n-1)*lda+n
        rng(ex,st,A,na,es,loc,name+' A'); rng(ex,st,b,nb,es,loc,name+' B'); apart(ex,st,A,na,b,nb,es,name,loc)
        rA,_=rd(ex,st,A,es); rB,b0=rd(ex,st,b,es); old=ex.content(st,b.obj)
        if ex.c.objs[b.obj].ro: ex.c.fail(st,'writable','%s writes read-only %s'%(name,b.obj),loc)
        X='potrs%s'%fresh('o').single().args[0].replace('#','')
        x=lambda r,c: T.load(X,(r,),c,'R')
        r,c,q=fresh('r'),fresh('c'),fresh('q'); s2=st.cp(); s2.add(f_ge(q,I(0)),f_lt(q,n))
        if not smt.prove(s2.facts,f_not(T.f_req(rA(s2,q*lda+q,loc),R(0)))): ex.c.fail(st,'precondition of '+name,'the diagonal of the factor is non-zero',loc)
        def A_(s2,i,j):
            return rA(s2,i*lda+j,loc)
        def lt(s2,j):
            """(L^T*X)(j)"""
            k=fresh('k'); s3=s2.cp(); s3.add(f_gt(k,j),f_lt(k,n))
            return A_(s2,j,j)*x(j,c)+mk_sum(k,j+1,n,A_(s3,k,j)*x(k,c))
        def lhs(s2):
            j=fresh('j'); s3=s2.cp(); s3.add(f_ge(j,I(0)),f_lt(j,r))
            return mk_sum(j,I(0),r,A_(s3,r,j)*lt(s3,j))+A_(s2,r,r)*lt(s2,r)
        equation(ex,st,X,[(r,I(0),n),(c,I(0),m)],True,lhs,lambda s2: rB(s2,r*ldb+c,loc))
        st.mem[b.obj]=Fam(old,name,(),[Clause((r,c),f_and(f_ge(r,I(0)),f_lt(r,n),f_ge(c,I(0)),f_lt(c,m)),b0+r*ldb+c,x(r,c))],False)
        return [('ok',st,I(0))]
    return h
TABLE={}
for p,es in (('s',4),('d',8)):
    TABLE['cblas_%saxpy'%p]=axpy(es); TABLE['cblas_%sscal'%p]=scal(es); TABLE['cblas_%sdot'%p]=dot(es); TABLE['cblas_%snrm2'%p]=nrm2(es)
    TABLE['cblas_%sgemv'%p]=gemv(es); TABLE['cblas_%sgemm'%p]=gemm(es)
TABLE['cblas_zaxpy']=zaxpy(8); TABLE['cblas_caxpy']=zaxpy(4)
TABLE['cblas_zscal']=zscal(8); TABLE['cblas_cscal']=zscal(4)
for p,es in (('s',4),('d',8)): TABLE['LAPACKE_%sgtsv'%p]=gtsv(es)

for p,es in (('s',4),('d',8)): TABLE['LAPACKE_%spotrf'%p]=potrf(es); TABLE['LAPACKE_%spotrs'%p]=potrs(es)
