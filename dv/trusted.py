"""Contracts assumed of functions outside the repository (compiler intrinsics, allocation, exceptions, OpenMP)."""
from . import terms as T, smt
from .terms import Poly,I,R,fresh,f_and,f_or,f_not,f_le,f_lt,f_ge,f_gt,f_eq,f_ne,f_rlt,subst
from .exec import *
from .exec import Clause,Fam,Base,Store,read_arr,Hdr,Copy

import re
from .build import COMP,VECGROW
def noop(ex,st,name,a,i,loc,f,regs): return [('ok',st,Opaque(i.ty))]
def ident(ex,st,name,a,i,loc,f,regs): return [('ok',st,a[0])]
def umin(ex,st,name,a,i,loc,f,regs):
    w=i.ty[1]; sg=name.split('.')[1]
    g=ex.cu if sg[0]=='u' else ex.cs
    x,y=g(st,a[0],w,loc),g(st,a[1],w,loc)
    c=f_le(x,y)
    if not ex.c.prove(st,c):
        if not ex.c.prove(st,f_not(c)): raise Split(c)
        x,y=y,x
    return [('ok',st,x if sg[1:]=='min' else y)]
def usubsat(ex,st,name,a,i,loc,f,regs):
    w=i.ty[1]; x,y=ex.cu(st,a[0],w,loc),ex.cu(st,a[1],w,loc); c=f_ge(x,y)
    if ex.c.prove(st,c): return [('ok',st,x-y)]
    if ex.c.prove(st,f_not(c)): return [('ok',st,I(0))]
    raise Split(c)
def iabs(ex,st,name,a,i,loc,f,regs):
    x=ex.cs(st,a[0],i.ty[1],loc)
    if ex.c.prove(st,f_ge(x,I(0))): return [('ok',st,x)]
    if ex.c.prove(st,f_le(x,I(0))): return [('ok',st,-x)]
    raise Split(f_ge(x,I(0)))
def fabs(ex,st,name,a,i,loc,f,regs):
    x=a[0]; return [('ok',st,T.ite(f_rlt(x,R(0)),-x,x))]
def fmuladd(ex,st,name,a,i,loc,f,regs): return [('ok',st,a[0]*a[1]+a[2])]
def sqrt(ex,st,name,a,i,loc,f,regs): return [('ok',st,T.sqrt_(a[0]))]
def pow_(ex,st,name,a,i,loc,f,regs):
    e=a[1]; k=e.const() if isinstance(e,Poly) else None
    if k is None: 
        if 'powi' in name: raise Unsupported('powi')
        raise Unsupported('pow with variable exponent')
    if k.denominator!=1 or abs(k)>8: raise Unsupported('pow exponent %s'%k)
    k=int(k); p=T.powp(a[0],abs(k))
    return [('ok',st,p if k>=0 else ex.fdiv(st,R(1),p,loc))]
def new(ex,st,name,a,i,loc,f,regs):
    size=ex.cu(st,a[0],64,loc)
    n=ex.c.newobj('heap','raw',size,heap=True)
    ex.c.objs[n].local=st.par
    st.mem[n]=None
    return [('ok',st,Ptr(n,I(0)))]
def delete(ex,st,name,a,i,loc,f,regs):
    p=a[0]
    if isinstance(p,Opaque): return [('ok',st,None)]
    if isinstance(p,Poly): p=ex.to_ptr(p)
    if p.obj=='null': return [('ok',st,None)]
    o=ex.c.objs[p.obj]
    if p.obj in st.dead: ex.c.fail(st,'valid pointer','double free of '+p.obj,loc)
    elif not o.heap or p.off.const()!=0:
        ex.c.fail(st,'valid pointer','free of non-heap memory '+p.obj,loc)
    st.dead=st.dead|{p.obj}
    return [('ok',st,None)]
def throw(ex,st,name,a,i,loc,f,regs):
    v=i.a[1][1][1] if name=='__cxa_throw' else None
    ty=v[1][1:] if v and v[0]=='glob' else name
    st.exc=ty
    return [('throw',st,ty)]
def muldc3(ex,st,name,a,i,loc,f,regs):
    return [('ok',st,Agg((a[0]*a[2]-a[1]*a[3],a[0]*a[3]+a[1]*a[2])))]
def divdc3(ex,st,name,a,i,loc,f,regs):
    d=a[2]*a[2]+a[3]*a[3]
    nz=f_not(T.f_req(d,R(0)))
    if nz is not True:
        if ex.c.opts.get('assume_div_nonzero'):
            ex.c.assumed.add('every divisor met during the computation is non-zero (the property is conditional on this)'); (ex.c.nzlits.add(nz) if nz not in st.facts else None); st.add(nz)
        else: ex.c.oblige(st,nz,'divisor non-zero',loc)
    r=T.recip(d)
    return [('ok',st,Agg(((a[0]*a[2]+a[1]*a[3])*r,(a[1]*a[2]-a[0]*a[3])*r)))]
def terminate(ex,st,name,a,i,loc,f,regs): return [('term',st,st.exc)]
def alloc_exc(ex,st,name,a,i,loc,f,regs):
    n=ex.c.newobj('exc','opaque',None); return [('ok',st,Ptr(n,I(0)))]
def memset(ex,st,name,a,i,loc,f,regs):
    p,v,n=a[0],a[1],a[2]
    if isinstance(p,Opaque): return [('ok',st,None)]
    n=ex.cu(st,n,64,loc)
    if n.const()==0: return [('ok',st,p)]
    if not smt.prove(st.facts,f_ge(n,I(1))):
        if smt.prove(st.facts,f_le(n,I(0))): return [('ok',st,p)]
        raise Split(f_ge(n,I(1)))
    k=v.const()
    o=ex.chk(st,p,n,loc,'memset')
    if o.kind=='opaque': return [('ok',st,p)]
    if o.ro: ex.c.fail(st,'writable','memset of read-only %s'%p.obj,loc)
    if k!=0: raise Unsupported('memset value')
    if o.kind=='raw':
        if p.off.const()!=0 or st.mem.get(p.obj) is not None: raise Unsupported('memset in raw memory')
        st.mem[p.obj]=('rawzero',n); return [('ok',st,p)]
    if o.kind=='arr':
        c=ex.content(st,p.obj); b=fresh('z'); lo=T.idiv_exact(p.off,o.esz)
        st.mem[p.obj]=Fam(c,'zero',(),[Clause((b,),f_and(f_ge(b,I(0)),f_lt(b.scale(o.esz),n)),lo+b,T.lift(0,o.sort))],False)
        return [('ok',st,p)]
    kk=n.const(); b0=p.off.const()
    if kk is None or b0 is None: raise Unsupported('memset')
    c=dict(ex.content(st,p.obj))
    for q in list(c):
        if b0<=q<b0+kk: del c[q]
    for q in range(int(b0),int(b0+kk),8): c[q]=(min(8,int(b0+kk)-q),I(0))
    st.mem[p.obj]=c
    return [('ok',st,p)]
def memcpy(ex,st,name,a,i,loc,f,regs):
    d,s,n=a[0],a[1],a[2]
    if isinstance(d,Opaque) or isinstance(s,Opaque): raise Unsupported('memcpy opaque')
    n=ex.cu(st,n,64,loc)
    if n.const()==0: return [('ok',st,d)]
    if not smt.prove(st.facts,f_ge(n,I(1))):
        if smt.prove(st.facts,f_le(n,I(0))): return [('ok',st,d)]
        raise Split(f_ge(n,I(1)))
    if s.obj.startswith('G@'):
        return globcopy(ex,st,d,s,n,loc)
    so=ex.chk(st,s,n,loc,'memcpy source'); do=ex.chk(st,d,n,loc,'memcpy destination')
    if do.kind=='opaque' or so.kind=='opaque': return [('ok',st,d)]
    if do.ro: ex.c.fail(st,'writable','copy into read-only %s'%d.obj,loc)
    if so.kind=='raw':
        z=st.mem.get(s.obj)
        if z is None or do.kind=='raw': raise Unsupported('memcpy from untyped memory')
        if do.kind=='arr': so.kind='arr'; so.esz=do.esz; so.sort=do.sort
        else: so.kind='cells'
    if do.kind=='raw':
        do.kind=so.kind; do.esz=so.esz; do.sort=so.sort
    k=n.const()
    if so.kind=='arr' and do.kind=='arr':
        if so.esz!=do.esz or so.sort!=do.sort: raise Unsupported('memcpy between different element types')
        es=so.esz; sc=ex.content(st,s.obj); dc=ex.content(st,d.obj)
        si=T.idiv_exact(s.off,es); di=T.idiv_exact(d.off,es); cnt=T.idiv_exact(n,es)
        if k is not None and k/es<=8:
            vals=[read_arr(ex.c,st,sc,si+j,loc) for j in range(int(k)//es)]
            for j,v in enumerate(vals): dc=Store(dc,di+j,v)
            st.mem[d.obj]=dc
            return [('ok',st,d)]
        if s.obj==d.obj:
            if not (ex.c.prove(st,f_le(si+cnt,di)) or ex.c.prove(st,f_le(di+cnt,si))):
                if s.off==d.off: return [('ok',st,d)]
                raise Unsupported('overlapping copy')
        if not ex.c.params and not ex.c.discover:
            st.mem[d.obj]=Copy(dc,sc,di,si,cnt); return [('ok',st,d)]
        b=fresh('c'); cond=f_and(f_ge(b,I(0)),f_lt(b,cnt))
        v=read_range(ex,st,sc,si,b,cond,loc)
        st.mem[d.obj]=Fam(dc,'copy',(),[Clause(( b,),cc,di+b,vv) for cc,vv in v],False)
        return [('ok',st,d)]
    if k is None or k>512: raise Unsupported('memcpy of struct memory')
    so0=s.off.const(); do0=d.off.const()
    if so0 is None or do0 is None: raise Unsupported('memcpy offset')
    k=int(k); so0=int(so0); do0=int(do0)
    items=[]
    if so.kind=='cells':
        for q,(sz,v) in ex.content(st,s.obj).items():
            if so0<=q and q+sz<=so0+k: items.append((q-so0,sz,v))
    else:
        sc=ex.content(st,s.obj)
        for q in range(0,k,so.esz): items.append((q,so.esz,read_arr(ex.c,st,sc,I((so0+q)//so.esz),loc)))
    if do.kind=='cells':
        c=dict(ex.content(st,d.obj))
        for q in list(c):
            if do0<=q<do0+k: del c[q]
        for q,sz,v in items: c[do0+q]=(sz,v)
        st.mem[d.obj]=c
    else:
        c=ex.content(st,d.obj)
        for q,sz,v in items:
            if sz!=do.esz: raise Unsupported('memcpy element size')
            c=Store(c,I((do0+q)//do.esz),v)
        st.mem[d.obj]=c
    return [('ok',st,d)]
def globcopy(ex,st,d,s,n,loc):
    k=n.const(); do=ex.chk(st,d,n,loc,'memcpy destination')
    if k is None: raise Unsupported('memcpy from global')
    if do.kind=='raw': do.kind='arr'; do.esz=8; do.sort='R'
    if do.kind!='arr': raise Unsupported('memcpy from global to struct')
    ty=('double',) if do.sort=='R' and do.esz==8 else ('float',) if do.sort=='R' else ('int',do.esz*8)
    c=ex.content(st,d.obj); di=T.idiv_exact(d.off,do.esz)
    for j in range(int(k)//do.esz):
        v=ex.gload(st,Ptr(s.obj,s.off+j*do.esz),ty,loc)
        if isinstance(v,Opaque): raise Unsupported('global initialiser')
        c=Store(c,di+j,v)
    st.mem[d.obj]=c
    return [('ok',st,d)]
def read_range(ex,st,c,si,b,cond,loc,depth=0):
    """value of content c at si+b for all b with cond, as [(cond,val)]; forks on splits"""
    s2=st.cp(); s2.add(cond)
    if not smt.consistent(s2.facts): return []
    try: return [(cond,read_arr(ex.c,s2,c,si+b,loc))]
    except Split as e:
        if depth>9: raise Unsupported('copy source too fragmented')
        return read_range(ex,st,c,si,b,f_and(cond,e.f),loc,depth+1)+read_range(ex,st,c,si,b,f_and(cond,f_not(e.f)),loc,depth+1)
def fork_call(ex,st,name,a,i,loc,f,regs):
    fn=i.a[1][2][1][1][1:]
    g=ex.c.newobj('gtid','cells',I(4),local=True); st.mem[g]={0:(4,I(0))}
    out=[]
    st2=st.cp(); st2.par=True; st2.ws=False
    for e in ex.call_function(fn,[Ptr(g,I(0)),Ptr(g,I(0))]+a[3:],st2):
        e.st.par=False; e.st.ws=False
        if e.kind=='ret': out.append(('ok',e.st,None))
        else: out.append((e.kind,e.st,e.val))
    return out
def static_init(ex,st,name,a,i,loc,f,regs):
    # (ident, gtid, sched, plast, plower, pupper, pstride, incr, chunk): the whole range in one call
    p=a[3]; c=dict(ex.content(st,p.obj)); c[int(p.off.const())]=(4,I(1)); st.mem[p.obj]=c
    st.ws=True
    return [('ok',st,None)]
def static_fini(ex,st,name,a,i,loc,f,regs):
    st.ws=False; return [('ok',st,None)]
def bs_call(ex,st,name,a,i,loc,f,regs): return [('ok',st,Opaque(i.ty))]
def length_error(ex,st,name,a,i,loc,f,regs):
    ty=next((t for k,t in (('length_error','_ZTISt12length_error'),('out_of_range','_ZTISt12out_of_range'),('bad_alloc','_ZTISt9bad_alloc'),('bad_array_new','_ZTISt20bad_array_new_length'),
        ('logic_error','_ZTISt11logic_error'),('invalid_argument','_ZTISt16invalid_argument'),('runtime_error','_ZTISt13runtime_error')) if k in name),name)
    st.exc=ty; return [('throw',st,ty)]
def typeid_for(ex,st,name,a,i,loc,f,regs):
    v=i.a[1][0][1]
    return [('ok',st,I(ex.c.typeid(v[1][1:])))]
def end_catch(ex,st,name,a,i,loc,f,regs):
    st.exc=None; return [('ok',st,None)]

def same_range(ex,st,b,e):
    """(object, first element, count) of an iterator range of 8-byte elements; None if empty"""
    if isinstance(b,Opaque) or isinstance(e,Opaque): raise Unsupported('range of unknown pointers')
    if b.obj!=e.obj: raise Unsupported('range over two objects')
    d=e.off-b.off; z=f_eq(d,I(0))
    if not ex.c.prove(st,z):
        if not ex.c.prove(st,f_not(z)): raise Split(z)
    else: return None
    ex.c.oblige(st,f_ge(d,I(0)),'valid range','')
    if b.obj=='null': raise Unsupported('range at null')
    return b.obj,T.idiv_exact(b.off,8),T.idiv_exact(d,8)
def rd(ex,st,obj,k,loc):
    return ex.load(st,Ptr(obj,k.scale(8)),('int',64),loc)
def forall_elem(ex,st,obj,lo,n,cond,loc):
    """assume: for every k in [0,n): cond(element lo+k), triggered by reads of the array the element comes from"""
    v=fresh('?v'); s2=st.cp(); s2.add(f_ge(v,I(0)),f_lt(v,n))
    try: x=rd(ex,s2,obj,lo+v,loc)
    except Split: return
    a=x.single()
    if a is None or a.kind!='load' or v.single().id not in a.args[2].fv(): return
    w=a.args[2].single()
    if w is not None and w.kind=='load' and not w.args[1] and v.single().id in w.args[2].fv(): a=w     # the element is read through an index array
    pp=[q for q in a.args[1]]
    st.add(smt.Forall(v,a.args[0],a.args[2],T.f_imp(f_and(f_ge(v,I(0)),f_lt(v,n)),cond(x,v)),tuple(pp) or None))
def max_element(ex,st,name,a,i,loc,f,regs):
    # std::ranges::max_element(first, last): an iterator to an element which no element exceeds; last if the range is empty
    b,e=a[1],a[2]
    r=same_range(ex,st,b,e)
    if r is None: return [('ok',st,e)]
    obj,lo,n=r
    k=fresh('k'); st.add(f_ge(k,I(0)),f_lt(k,n))
    m=rd(ex,st,obj,lo+k,loc)
    forall_elem(ex,st,obj,lo,n,lambda x,v: f_le(x,m),loc)
    return [('ok',st,Ptr(obj,b.off+k.scale(8)))]

def comparator(mod,name):
    """the call operator of the closure type that names the ordering in an instance of a sorting function"""
    for g in mod.funcs:
        m=COMP.match(g)
        if m and 'Z%sE%s'%(m.group(1),m.group(2)) in name: return g
    raise Unsupported('ordering of %s'%name[:40])
def relation(ex,st,fn,clo,u,v):
    """the truth of fn(u,v) as a condition; fn must not change memory"""
    base=len(st.facts); alts=[]
    for e in ex.call_function(fn,[clo,u,v],st.cp()):
        if e.kind!='ret': raise Unsupported('ordering does not return')
        if any(e.st.mem.get(k) is not w for k,w in st.mem.items() if k in ex.c.objs and ex.c.objs[k].kind=='arr'): raise Unsupported('ordering writes memory')
        c=e.val
        if isinstance(c,Poly): c=f_ne(c,I(0))
        if not(isinstance(c,tuple) or c is True or c is False): raise Unsupported('truth value of an ordering')
        alts.append(f_and(*[x for x in e.st.facts[base:] if not isinstance(x,smt.Forall)],c))
    return f_or(*alts)
def sorted_range(ex,st,name,a,loc,f,i,b,e,k0):
    # sort(first, last, less): rearranges the elements so that none is less than one before it; less must be a strict weak ordering
    r=same_range(ex,st,b,e)
    if r is None: return e
    obj,lo,n=r
    fn=comparator(ex.c.mod,name)
    att=i.a[1][k0][2] if len(i.a[1][k0])>2 else ''
    g=ex.c.newobj('closure','cells',I(8*(len(a)-k0)),local=True); st.mem[g]={8*q:(8,v) for q,v in enumerate(a[k0:])}; clo=Ptr(g,I(0))
    old=ex.content(st,obj); s2=st.cp(); x,y,z=[fresh('k') for _ in range(3)]
    for q in (x,y,z): s2.add(f_ge(q,I(0)),f_lt(q,n))
    el=lambda q: read_arr(ex.c,s2,old,lo+q,loc)
    C=relation(ex,s2,fn,clo,el(x),el(y)); sx=[x.single().id,y.single().id]
    L=lambda p,q: subst(C,{sx[0]:p,sx[1]:q})
    nL=lambda p,q: f_not(L(p,q))
    ex.c.oblige(s2,nL(x,x),'ordering irreflexive',loc)
    ex.c.oblige(s2,T.f_imp(f_and(L(x,y),L(y,z)),L(x,z)),'ordering transitive',loc)
    ex.c.oblige(s2,T.f_imp(f_and(nL(x,y),nL(y,x),nL(y,z),nL(z,y)),f_and(nL(x,z),nL(z,x))),'incomparability transitive',loc)
    P,Q=[next(iter(fresh(w).single().args)) for w in('perm','inv')]
    perm=lambda q: T.load(P,(),q,'I')
    inv=lambda q: T.load(Q,(),q,'I')
    v=fresh('?v'); rg=lambda q: f_and(f_ge(q,I(0)),f_lt(q,n))
    st.add(smt.Forall(v,P,v,T.f_imp(rg(v),f_and(rg(perm(v)),f_eq(inv(perm(v)),v)))))
    onto=T.f_imp(rg(v),f_and(rg(inv(v)),f_eq(perm(inv(v)),v)))
    st.add(smt.Forall(v,Q,v,onto,None,(P,)))
    for q in smt.walk_atoms([C]) if isinstance(C,tuple) else ():
        if q.kind=='load' and q.args[2]==x: st.add(smt.Forall(v,q.args[0],v,onto,q.args[1],(P,)))
    w=fresh('?v'); st.add(smt.Forall2([(v,P,v,None),(w,P,w,None)],T.f_imp(f_and(f_ge(v,I(0)),f_lt(v,w),f_lt(w,n)),nL(perm(w),perm(v))),once=True))
    bb=fresh('c'); s3=st.cp(); s3.add(rg(bb))
    val=read_arr(ex.c,s3,old,lo+perm(bb),loc)
    st.mem[obj]=Fam(old,'sorted',(),[Clause((bb,),rg(bb),lo+bb,val)],False)
    return e
def sort_vec(ex,st,name,a,i,loc,f,regs):
    pt=lambda k: ex.load(st,Ptr(a[1].obj,a[1].off+k),('ptr',),loc)
    return [('ok',st,sorted_range(ex,st,name,a,loc,f,i,pt(0),pt(8),2))]
def sort_it(ex,st,name,a,i,loc,f,regs): return [('ok',st,sorted_range(ex,st,name,a,loc,f,i,a[1],a[2],3))]
def sort_std(ex,st,name,a,i,loc,f,regs): sorted_range(ex,st,name,a,loc,f,i,a[0],a[1],2); return [('ok',st,None)]

def elem_trigger(ex,st,obj,lo,v,loc):
    """the element lo+v and the read that stands for it in assumptions"""
    x=rd(ex,st,obj,lo+v,loc); a=x.single()
    if a is None or a.kind!='load' or v.single().id not in a.args[2].fv(): raise Unsupported('elements of %s'%obj)
    w=a.args[2].single()
    if w is not None and w.kind=='load' and v.single().id in w.args[2].fv(): a=w
    return x,(v,a.args[0],a.args[2],tuple(a.args[1]) or None)
def upper_bound(ex,st,name,a,i,loc,f,regs):
    # std::upper_bound(first, last, value): the first position whose element exceeds value; the range is partitioned by that
    b,e=a[0],a[1]; val=ex.load(st,a[2],('int',64),loc)
    if b.obj!=e.obj: raise Unsupported('range over two objects')
    if b.obj=='null': return [('ok',st,b)]
    obj=b.obj; lo,hi=T.idiv_exact(b.off,8),T.idiv_exact(e.off,8)
    z=f_and(f_ge(lo,I(0)),f_le(lo,hi)); ex.c.oblige(st,z,'valid range',loc); st.add(z)
    def el(s,q,d=0):
        try: return rd(ex,s,obj,q,loc)
        except Split as e:
            if d>6: raise Unsupported('elements of %s'%obj)
            r=[]
            for g in (e.f,f_not(e.f)):
                b=s.cp(); b.add(g)
                if smt.consistent(b.facts): r.append((g,el(b,q,d+1)))
            return r[0][1] if len(r)==1 else T.ite(e.f,r[0][1],r[1][1])
    s2=st.cp(); x,y=fresh('k'),fresh('k'); s2.add(f_le(lo,x),f_lt(x,y),f_lt(y,hi))
    if smt.consistent(s2.facts):
        ex.c.oblige(s2,T.f_imp(f_lt(val,el(s2,x)),f_lt(val,el(s2,y))),'range partitioned',loc)
    ps=ex.c.params
    if ps:
        # named after the loop and the call (more than once in an iteration: apart)
        for rep in range(9):
            U='first%d:%d.%d'%(ps[-1].single().id if ps[-1].single() is not None else ex.c.tick(),ex.c.callno(i),rep); p=T.load(U,tuple(ps[:-1]),ps[-1],'I')
            if not any(q.single() is p.single() for f in st.facts if not isinstance(f,smt.Forall) for q in [apoly(z) for z in smt.walk_atoms([f])]): break
        else: raise Unsupported('upper_bound repeated')
    else: p=fresh('ub')
    st.add(f_ge(p,lo),f_le(p,hi))
    v=fresh('?v'); s2=st.cp(); s2.add(f_ge(v,lo),f_lt(v,hi))
    if not smt.consistent(s2.facts): return [('ok',st,Ptr(obj,p.scale(8)))]
    try: xv,tr=elem_trigger(ex,s2,obj,I(0),v,loc)
    except (Split,Unsupported):
        # few elements: one by one
        n=hi.const()
        if n is None or n>4: raise Unsupported('elements of %s'%obj)
        for q in range(int(n)):
            q=I(q); s3=st.cp(); s3.add(f_le(lo,q))
            if not smt.consistent(s3.facts): continue
            xq=el(s3,q); st.add(T.f_imp(f_le(lo,q),f_and(T.f_imp(f_lt(q,p),f_le(xq,val)),T.f_imp(f_ge(q,p),f_lt(val,xq)))))
        if ps and ps[-1].single() is not None:
            els=[(I(q),el(st,I(q))) for q in range(int(n))]
            ex.c.looplemma[ps[-1].single().id,U]=(ps[-1],p,None,None,f_and(*[f_and(T.f_imp(f_lt(q,p),f_le(xq,val)),T.f_imp(f_ge(q,p),f_lt(val,xq))) for q,xq in els]))
        return [('ok',st,Ptr(obj,p.scale(8)))]
    st.add(smt.Forall(v,tr[1],tr[2],T.f_imp(f_and(f_ge(v,lo),f_lt(v,hi)),f_and(T.f_imp(f_lt(v,p),f_le(xv,val)),T.f_imp(f_ge(v,p),f_lt(val,xv)))),tr[3]))
    s3=st.cp(); s3.add(f_lt(p,hi))
    if smt.consistent(s3.facts): st.add(T.f_imp(f_lt(p,hi),f_lt(val,el(s3,p))))
    if ps and ps[-1].single() is not None:
        # invariant proposed for the enclosing loop: everything before the position found by an iteration is at most the value it looked for
        t=ps[-1]; w=fresh('?t'); mp={t.single().id:w}
        body=T.f_imp(f_and(f_ge(v,I(0)),f_lt(v,hi)),f_and(T.f_imp(f_lt(v,p),f_le(xv,val)),T.f_imp(f_ge(v,p),f_lt(val,xv))))
        ex.c.looplemma[t.single().id,U]=(t,p,v,tr,body)
    return [('ok',st,Ptr(obj,p.scale(8)))]
GROWN=2**48
def vec_elem(name):
    m=re.match(r'_ZNSt6vectorI(m|l|d|f|St7complexI[df]E)Sa',name)
    if not m: raise Unsupported('growth of this vector')
    return {'m':(8,'I',('int',64)),'l':(8,'I',('int',64)),'d':(8,'R',('double',)),'f':(4,'R',('float',))}.get(m.group(1)) or (4 if 'f' in m.group(1) else 8,'R',None)
def grown(ex,st,vec,name,loc):
    """gives the vector room for every element to come: from here on its elements do not move"""
    L=lambda k: ex.load(st,Ptr(vec.obj,vec.off+k),('ptr',),loc)
    b,e=L(0),L(8)
    if isinstance(b,Opaque): raise Unsupported('unknown vector')
    if b.obj in ex.c.roomy: return e
    es,so,_=vec_elem(name)
    g=ex.c.newobj('grow','arr',I(GROWN),esz=es,sort=so,heap=True); ex.c.roomy.add(g)
    c=Base(g,(),'uninit',so)
    if b.obj!='null':
        n=T.idiv_exact(e.off-b.off,es)
        if not(n.const()==0):
            z=f_ge(n,I(1))
            if ex.c.prove(st,z): c=Copy(c,ex.content(st,b.obj),I(0),T.idiv_exact(b.off,es),n)
            elif not ex.c.prove(st,f_not(z)): raise Split(z)
        st.dead=st.dead|{b.obj}
    else: n=I(0)
    st.mem[g]=c; ex.c.assumed.add('growing a vector moves its elements at most once, at the first reserve or append (iterators kept across later appends are taken as valid)')
    k=vec.off.const(); m=dict(ex.content(st,vec.obj)); k=int(k)
    m[k]=(8,Ptr(g,I(0))); m[k+8]=(8,Ptr(g,n.scale(es))); m[k+16]=(8,Ptr(g,I(GROWN))); st.mem[vec.obj]=m
    return m[k+8][1]
def reserve(ex,st,name,a,i,loc,f,regs):
    grown(ex,st,a[0],name,loc); return [('ok',st,None)]
def append(ex,st,name,a,i,loc,f,regs):
    es,so,ty=vec_elem(name); e=grown(ex,st,a[0],name,loc)
    if ty is None:
        src=[ex.load(st,Ptr(a[1].obj,a[1].off+q*es),('double',) if es==8 else ('float',),loc) for q in(0,1)]
        for q in (0,1): ex.store(st,Ptr(e.obj,e.off+q*es),src[q],('double',) if es==8 else ('float',),loc)
        w=2*es
    else:
        k=re.search(r'emplace_backIJR?K?([a-z])EE',name)
        src={'i':('int',32),'j':('int',32)}.get(k.group(1),ty) if k else ty
        v=ex.load(st,a[1],src,loc)
        if src!=ty: ex.c.oblige(st,f_ge(v,I(0)),'appended value not negative',loc)
        ex.store(st,e,v,ty,loc); w=es
    m=dict(ex.content(st,a[0].obj)); m[int(a[0].off.const())+8]=(8,Ptr(e.obj,e.off+w)); st.mem[a[0].obj]=m
    return [('ok',st,e)]

# A compressed-row matrix seen through the contracts of its accessors (proved as get/none/set/shape over the arrays it is made of):
# its elements are kept as a dense n x n array; operator() and at() refer to element (i,j), mut_at() to an element that is stored.
def vec_objs(ex,st,p):
    for q in (0,24,48):
        try: v=ex.load(st,Ptr(p.obj,p.off+q),('ptr',),'')
        except Unsupported: continue
        if isinstance(v,Ptr) and v.obj!='null' and v.obj in ex.c.objs: yield v
def dv_view(ex,st,name,a,i,loc,f,regs):
    src=a[1]; n=ex.cu(st,a[2],64,loc); views=ex.c.__dict__.setdefault('views',{})
    so=ex.c.objs[src.obj]; es=so.esz
    vals=[v for v in vec_objs(ex,st,a[0]) if ex.c.objs[v.obj].sort=='R']
    if not vals: return [('ok',st,None)]           # no elements: the accessors themselves are executed
    if len(vals)!=1 or src.off.const()!=0: raise Unsupported('view of this matrix')
    k=('view',vals[0].obj)
    g=views.get(vals[0].obj,(None,))[0]
    if g is None: g=ex.c.newobj('view','arr',(n*n).scale(es),esz=es,sort='R')
    views[vals[0].obj]=(g,n,ex.content(st,src.obj),es)
    st.mem[g]=ex.content(st,src.obj)
    st.mem[vals[0].obj]=Base(ex.c.newobj('hidden','arr',ex.c.objs[vals[0].obj].size,esz=es,sort='R'),(),'init','R')
    ex.c.assumed.add('the array a is the dense view of the compressed-row matrix; its accessors obey their contracts (get, none, set, shape: proved separately)')
    return [('ok',st,None)]
def view_of(ex,st,p):
    vs=ex.c.__dict__.get('views')
    if not vs or not isinstance(p,Ptr): return None
    for v in vec_objs(ex,st,p):
        if v.obj in vs and v.obj not in st.dead: return vs[v.obj]
    return None
def accessor(ex,st,name,a,i,loc,f,regs):
    r=view_of(ex,st,a[0])
    if r is None:
        ex.c.used_trusted.discard(name)
        return [('ok' if e.kind=='ret' else e.kind,e.st,e.val) for e in ex.call_function(name,a,st)]
    g,n,a0,es=r
    if name.endswith('shapeEv'): return [('ok',st,Agg((n,n)))]
    x,y=ex.cu(st,a[1],64,loc),ex.cu(st,a[2],64,loc)
    z=f_and(f_ge(x,I(0)),f_lt(x,n),f_ge(y,I(0)),f_lt(y,n)); ex.c.oblige(st,z,'row and column of the matrix',loc); st.add(z)
    if 'mut_at' in name:
        v=read_arr(ex.c,st,a0,x*n+y,loc); z=f_not(T.f_req(v,R(0)))
        ex.c.oblige(st,z,'element stored',loc)
    return [('ok',st,Ptr(g,(x*n+y).scale(es)))]

PREF=[
 ('dv_view',dv_view),
 ('_ZSt11upper_boundIN9__gnu_cxx17__normal_iteratorIPKmSt6vectorImSaImEEEEmSt4lessImE',upper_bound),('_ZSt11upper_boundIN9__gnu_cxx17__normal_iteratorIPKmSt6vectorImSaImEEEEmET_',upper_bound),
 ('_ZSt11upper_boundIN9__gnu_cxx17__normal_iteratorIPmSt6vectorImSaImEEEEmSt4lessImE',upper_bound),('_ZSt11upper_boundIN9__gnu_cxx17__normal_iteratorIPmSt6vectorImSaImEEEEmET_',upper_bound),
 ('_ZNKSt6ranges9__sort_fnclITkNS_19random_access_range',sort_vec),('_ZNKSt6ranges9__sort_fnclITkSt22random_access_iterator',sort_it),
 ('_ZNKSt6ranges16__stable_sort_fnclITkNS_19random_access_range',sort_vec),('_ZNKSt6ranges16__stable_sort_fnclITkSt22random_access_iterator',sort_it),
 ('_ZSt4sortIN9__gnu_cxx17__normal_iteratorIPmSt6vectorImSaImEEEEZ',sort_std),('_ZSt11stable_sortIN9__gnu_cxx17__normal_iteratorIPmSt6vectorImSaImEEEEZ',sort_std),
 ('_ZNKSt6ranges16__max_element_fnclITkSt16forward_iterator',max_element),
 ('llvm.lifetime',noop),('llvm.experimental.noalias',noop),('llvm.assume',noop),('llvm.dbg',noop),('llvm.expect',ident),
 ('llvm.usub.sat',usubsat),('llvm.umin',umin),('llvm.umax',umin),('llvm.smin',umin),('llvm.smax',umin),('llvm.abs',iabs),('llvm.fabs',fabs),
 ('llvm.fmuladd',fmuladd),('llvm.fma',fmuladd),('llvm.sqrt',sqrt),('llvm.pow',pow_),('llvm.memset',memset),('llvm.memcpy',memcpy),('llvm.memmove',memcpy),
 ('llvm.eh.typeid.for',typeid_for),('llvm.stacksave',noop),('llvm.stackrestore',noop),('llvm.is.constant',lambda ex,st,name,a,i,loc,f,regs: [('ok',st,False)]),
]
EXACT={'__muldc3':muldc3,'__divdc3':divdc3,'sqrt':sqrt,'sqrtf':sqrt,'pow':pow_,'powf':pow_,'fabs':fabs,'_Znwm':new,'_Znam':new,'_ZdlPv':delete,'_ZdaPv':delete,'_ZdlPvm':delete,'_ZdaPvm':delete,
 '__cxa_throw':throw,'__cxa_rethrow':throw,'__cxa_allocate_exception':alloc_exc,'__cxa_free_exception':noop,'__cxa_begin_catch':noop,'__cxa_end_catch':end_catch,
 '__clang_call_terminate':terminate,'_ZSt9terminatev':terminate,
 '__kmpc_fork_call':fork_call,'__kmpc_for_static_init_4u':static_init,'__kmpc_for_static_init_8u':static_init,'__kmpc_for_static_init_4':static_init,'__kmpc_for_static_init_8':static_init,
 '__kmpc_for_static_fini':static_fini,'__kmpc_global_thread_num':noop,'__kmpc_barrier':noop,'__kmpc_push_num_threads':noop,
 'memset':memset,'memcpy':memcpy,'memmove':memcpy,
}
def find(name):
    if name in EXACT: return EXACT[name]
    for p,h in PREF:
        if name.startswith(p): return h
    if re.match(r'_ZNK?5lalib5SpMatI[df]E(clEmm|2atEmm|6mut_atEmm|5shapeEv)$',name): return accessor
    m=VECGROW.match(name)
    if m: return reserve if m.group(1)=='7reserve' else append
    if 'basic_string' in name or '12SizeMismatchedC' in name or 'SizeMismatchedC' in name: return bs_call
    if name.startswith('_ZNSt') and ('runtime_errorC' in name or 'invalid_argumentC' in name or 'out_of_rangeC' in name or 'errorC' in name or 'runtime_errorD' in name): return bs_call
    if name.startswith('_ZSt') and '__throw_' in name: return length_error
    if 'to_string' in name or 'to_chars' in name: return bs_call
    return None
