"""Contracts on the harness functions and their checking against the symbolic executions."""
import itertools, time
from . import terms as T, smt, realeq, llparse
from .terms import Poly,I,R,apoly,sym,fresh,load,subst,_byid,f_and,f_or,f_not,f_le,f_lt,f_ge,f_gt,f_eq,f_ne,mk_sum
from .exec import *
from .exec import Base,Obj,Ctx,Exec,St,Ptr,Split,Unsupported,Abort,read_arr
from .realeq import NeedSplit

TYPES={'d':(8,'R',1),'f':(4,'R',1),'i':(4,'I',1),'z':(8,'R',2),'u':(8,'I',1),'l':(8,'I',1),'c':(4,'R',2)}

class CV:
    """complex value"""
    def __init__(s,re,im): s.re=re; s.im=im
    def __add__(s,o): o=cv(o); return CV(s.re+o.re,s.im+o.im)
    __radd__=__add__
    def __sub__(s,o): o=cv(o); return CV(s.re-o.re,s.im-o.im)
    def __neg__(s): return CV(-s.re,-s.im)
    def __mul__(s,o): o=cv(o); return CV(s.re*o.re-s.im*o.im,s.re*o.im+s.im*o.re)
    __rmul__=__mul__
    def inv(s):
        d=T.recip(s.re*s.re+s.im*s.im); return CV(s.re*d,-s.im*d)
    def parts(s): return [s.re,s.im]
def cv(x): return x if isinstance(x,CV) else CV(x,T.lift(0,x.sort) if isinstance(x,Poly) else R(0))
def parts(x): return x.parts() if isinstance(x,CV) else [x]
def inv(x): return x.inv() if isinstance(x,CV) else T.recip(x)
def Sum(lo,hi,f):
    """sum of f(k) for lo<=k<hi"""
    v=fresh('s'); b=f(v)
    if isinstance(b,CV): return CV(mk_sum(v,lo if isinstance(lo,Poly) else I(lo),hi,b.re),mk_sum(v,lo if isinstance(lo,Poly) else I(lo),hi,b.im))
    return mk_sum(v,lo if isinstance(lo,Poly) else I(lo),hi if isinstance(hi,Poly) else I(hi),b)

class Arr:
    def __init__(s,name,ty,length): s.name=name; s.ty=ty; s.len=length if isinstance(length,Poly) else I(length)
    def at(s,i,primed=False):
        es,so,c=TYPES[s.ty]; i=i if isinstance(i,Poly) else I(i)
        nm=s.name+("'" if primed else '')
        if c==1: return load(nm,(),i,so)
        return CV(load(nm,(),i.scale(2),so),load(nm,(),i.scale(2)+1,so))
    def __getitem__(s,i): return s.at(i)          # value before the call
    def new(s,i): return s.at(i,True)             # value after the call
    @property
    def zero(s):
        es,so,c=TYPES[s.ty]; z=T.lift(0,so); return z if c==1 else CV(z,z)
    @property
    def one(s):
        es,so,c=TYPES[s.ty]; z=T.lift(1,so); return z if c==1 else CV(z,T.lift(0,so))

class Goal:
    def __init__(s,name,binders,cond,lhs,rhs,rel='='): s.name=name; s.binders=binders; s.cond=cond; s.lhs=lhs; s.rhs=rhs; s.rel=rel
class Case:
    """cond: on the inputs; when: on the returned status (None: any)"""
    def __init__(s,cond,ret,goals,name='',when=None): s.cond=cond; s.ret=ret; s.goals=goals; s.name=name; s.when=when

class Known:
    """a named condition which an assumed contract established on this path"""
    def __init__(s,name,mark): s.name=name; s.mark=mark
    def check(s,ctx,st,log): return s.mark in st.facts
class Exists:
    """certificate: some array W and index e (lo<=e<hi) satisfy all the goals; candidates are what the code computed"""
    def __init__(s,name,W,e,goals): s.name=name; s.W=W; s.e=e; s.goals=goals
    def check(s,ctx,st,log):
        b=s.W; es,so,c=TYPES[b.ty]; size=b.len.scale(es*c)
        bufs=[o for o in st.mem if o in ctx.objs and ctx.objs[o].kind in('arr','raw') and ctx.objs[o].esz==es and ctx.objs[o].size is not None and smt.prove(st.facts,f_eq(ctx.objs[o].size,size))]
        ev,lo,hi=s.e; cands=[]
        for q in smt.walk_atoms([f for f in st.facts if not isinstance(f,smt.Forall)]):
            if q.kind=='sym' and q.sort=='I' and apoly(q) not in cands: cands.append(apoly(q))
        cands=sorted([x for x in cands if smt.prove(st.facts,f_and(f_ge(x,lo),f_lt(x,hi)))],key=lambda x:-x.single().id)+[I(0)]
        for o in bufs:
            for x in cands[:8]:
                if not smt.prove(st.facts,f_and(f_ge(x,lo),f_lt(x,hi))): continue
                s2=st.cp(); s2.mem[b.name]=st.mem[o]; mp={ev.single().id:x}
                sb=lambda y: subst(y,mp) if isinstance(y,(Poly,tuple)) else y
                ok=True
                for g in s.goals:
                    g2=Goal(g.name,[(v,sb(l),sb(h)) for v,l,h in g.binders],sb(g.cond),sb(g.lhs),sb(g.rhs),g.rel)
                    if not check_goal(ctx,s2,g2,log): ok=False; break
                if ok: return True
        return False
class Contract:
    """fn: harness function; args: list of ('size',name,lo,hi) / Arr; ret: expected return code per case"""
    def __init__(s,fn,args,cases,requires=(),gen=None,opts=None,title='',sizes=None,tol=None,monitor_only=False,nmon=None,backends=None,oracle=None,after=None):
        s.fn=fn; s.sym=fn.split("~")[0]; s.args=args; s.cases=cases; s.requires=list(requires); s.gen=gen; s.opts=opts or {}; s.title=title
        s.sizes=sizes; s.tol=tol; s.monitor_only=monitor_only; s.nmon=nmon; s.backends=backends; s.oracle=oracle; s.after=after
    def arrs(s): return [a for a in s.args if isinstance(a,Arr)]

def all_(name,binders,lhs,rhs,cond=True):
    return [Goal(name+('' if len(parts(lhs))==1 else ('.re','.im')[k]),binders,cond,l,r) for k,(l,r) in enumerate(zip(parts(lhs),parts(cv(rhs) if isinstance(lhs,CV) else rhs)))]
def same(*arrs):
    out=[]
    for a in arrs:
        v=fresh('q'); c=TYPES[a.ty][2]
        out.append(Goal(a.name+' unchanged',[(v,I(0),a.len.scale(c))],True,load(a.name+"'",(),v,TYPES[a.ty][1]),load(a.name,(),v,TYPES[a.ty][1])))
    return out

class Result:
    def __init__(s,fn): s.fn=fn; s.obs=[]; s.unsupported=None; s.wall=0; s.paths=0; s.trusted=set(); s.inlined=set(); s.assumed=set(); s.loops=0; s.failfacts=[]; s.backend=''; s.vacuous=None; s.nwrap=0
    @property
    def failed(s): return [o for o in s.obs if not o[2]]

def prime(ctx,st,p,extra=()):
    """replace loads of a' by the final content of a"""
    if not isinstance(p,Poly): return p
    if not any(x.endswith("'") for x in p.arrs()): return p
    def A(a):
        if not any(x.endswith("'") for x in a.arrs): return None
        if a.kind=='load':
            ps=[prime(ctx,st,x,extra) for x in a.args[1]]; idx=prime(ctx,st,a.args[2],extra)
            if a.args[0].endswith("'"):
                s2=st.cp(); s2.add(*[x for x in extra if x is not True])
                try: return read_arr(ctx,s2,st.mem[a.args[0][:-1]],idx,'goal')
                except Split as e: raise NeedSplit(e.f)
            return load(a.args[0],ps,idx,a.sort)
        if a.kind=='sum':
            v,n,b=T.open_sum(a); n=prime(ctx,st,n,extra)
            return prime_sum(ctx,st,v,I(0),n,b,extra)
        return T.rebuild_atom(a,lambda x: prime(ctx,st,x,extra) if isinstance(x,Poly) else x)
    return T.rebuild(p,A)
def prime_sum(ctx,st,v,lo,hi,b,extra,depth=0):
    ex=tuple(extra)+tuple(x for x in (f_ge(v,lo),f_lt(v,hi)) if x is not True)
    if smt.prove(st.facts+tuple(extra),f_le(hi,lo)): return T.lift(0,b.sort)
    try: return mk_sum(v,lo,hi,prime(ctx,st,b,ex))
    except NeedSplit as e:
        f=e.f; vid=v.single().id
        if vid not in T.f_fv(f) or depth>4: raise
        g=f if f[0]!='not' else f[1]
        if g[0]=='and':
            left=[c for c in g[1] if not smt.prove(st.facts+ex,c)]
            for c in left:
                if vid not in T.f_fv(c): raise NeedSplit(c)
            if left: g=left[0] if left[0][0]!='not' else left[0][1]
        if g[0]=='le':
            r=g[1].coeff(v.single()); k=r[0].const() if r else None
            if k in(1,-1):
                # v*k + rest <= 0 : k=1: v<=-rest ; k=-1: v>=rest
                cut=-r[1]+1 if k==1 else r[1]
                facts=st.facts+tuple(extra)
                for q,w in ((f_le(lo,cut),lo),(f_le(cut,hi),hi)):
                    if not smt.prove(facts,q): raise NeedSplit(q)
                return prime_sum(ctx,st,v,lo,cut,b,extra,depth+1)+prime_sum(ctx,st,v,cut,hi,b,extra,depth+1)
        if g[0]=='eq':
            r=g[1].coeff(v.single()); k=r[0].const() if r else None
            if k in(1,-1):
                cut=r[1].scale(-1/k); facts=st.facts+tuple(extra)
                for q in (f_le(lo,cut),f_lt(cut,hi)):
                    if not smt.prove(facts,q): raise NeedSplit(q)
                return prime_sum(ctx,st,v,lo,cut,b,extra,depth+1)+prime(ctx,st,subst(b,{vid:cut}),extra)+prime_sum(ctx,st,v,cut+1,hi,b,extra,depth+1)
        raise Unsupported('sum over a piecewise array (%s)'%T.showf(f))

def check_goal(ctx,st,g,log):
    """goal holds at a final state (after opening the binders)"""
    facts=list(st.facts)
    s2=st.cp()
    mp={}
    for v,lo,hi in g.binders:
        s2.add(*[x for x in (f_ge(v,lo),f_lt(v,hi)) if x is not True])
    late=g.cond if isinstance(g.cond,tuple) and any(x.endswith("'") for p in T.f_polys(g.cond) for x in p.arrs()) else True   # speaks of final contents
    if g.cond is not True and late is True: s2.add(g.cond)
    if not smt.consistent(s2.facts): return True
    def go(s3,depth):
        try:
            if late is not True:
                s3=s3.cp(); c=T.f_map(late,lambda p: prime(ctx,s3,p)); s3.add(*([c] if c is not True else []))
                if c is False or not smt.consistent(s3.facts): return True
            l=prime(ctx,s3,g.lhs); r=prime(ctx,s3,g.rhs)
        except NeedSplit as e:
            if depth>10: return False
            for f in (e.f,f_not(e.f)):
                s4=s3.cp(); s4.add(f)
                if smt.consistent(s4.facts) and not go(s4,depth+1): return False
            return True
        if g.rel=='!=': return realeq.prove_nonzero(ctx,s3.facts,l-r)
        if g.rel!='=': return realeq.prove_less(ctx,s3.facts,l-r,g.rel=='<')
        if T.EDIV[0]: l,r=smt.norm_ediv(s3.facts,l),smt.norm_ediv(s3.facts,r)
        if realeq.prove_eq(ctx,s3.facts,l,r,log): return True
        if ctx.eqs and by_equation(ctx,s3.facts,l,r,[v for v,_,_ in g.binders]): return True
        if len((l-r).t)<5 and smt.prove(s3.facts,T.f_req(l,r) if l.sort=='R' else f_eq(l,r)): return True
        mp=pinned(s3.facts,l,r)
        if mp and realeq.prove_eq(ctx,s3.facts,subst(l,mp),subst(r,mp),log): return True
        ones={o.name for o in ctx.objs.values() if o.kind=='arr' and o.size is not None and o.esz and smt.prove(s3.facts,f_eq(o.size,I(o.esz)))}
        if not ones: return False
        l2,r2=[norm_ones(s3.facts,q,ones) for q in (l,r)]
        return (l2,r2)!=(l,r) and realeq.prove_eq(ctx,s3.facts,subst(l2,mp),subst(r2,mp),log)
    return go(s2,0)

def by_equation(ctx,facts,l,r,cands):
    """l-r is an instance of an equation known from the contract of a called function"""
    names=(l-r).arrs(); cands=list(cands)
    for q in smt.walk_atoms([l,r]):
        if q.kind=='load' and q.args[0] in {e[0] for e in ctx.eqs}:
            for x in q.args[1]+(q.args[2],):
                if x not in cands and len(cands)<10: cands.append(x)
    for X,binders,cond,a,b in ctx.eqs:
        if X not in names: continue
        for pick in itertools.product(cands,repeat=len(binders)):
            mp={v.single().id:x for (v,_,_),x in zip(binders,pick)}
            if not smt.prove(facts,subst(cond,mp) if isinstance(cond,tuple) else cond): continue
            if realeq.prove_eq(ctx,facts,l-r,subst(a,mp)-subst(b,mp)): return True
    return False

def norm_ones(facts,p,ones):
    """reads of arrays which have one element are reads of that element (if the index is provably 0)"""
    if not isinstance(p,Poly): return p
    def A(a):
        if a.kind=='load' and a.args[0] in ones and not a.args[1]:
            ix=norm_ones(facts,a.args[2],ones)
            if ix.const() is None and smt.prove(facts,f_eq(ix,I(0))): ix=I(0)
            return load(a.args[0],[],ix,a.sort)
        if a.kind=='sum':
            v,n,b=T.open_sum(a); n=norm_ones(facts,n,ones)
            return mk_sum(v,I(0),n,norm_ones(tuple(facts)+tuple(x for x in (f_ge(v,I(0)),f_lt(v,n)) if x is not True),b,ones))
        return T.rebuild_atom(a,lambda x: norm_ones(facts,x,ones) if isinstance(x,Poly) else x)
    return T.rebuild(p,A)
def pinned(facts,*ps):
    """integer symbols which the path fixes to a small constant"""
    ids=set()
    for p in ps: ids|=p.fv()
    mp={}
    for i in ids:
        a=T._byid[i]
        if a.kind!='sym' or a.sort!='I': continue
        for k in (0,1,2,3):
            if smt.prove(facts,f_eq(T.apoly(a),I(k))): mp[i]=I(k); break
    return mp

def verify(mod,con,backend,trusted=None,trace=False):
    res=Result(con.fn); t0=time.time(); res.backend=backend
    opts=dict(con.opts)
    ctx=Ctx(mod,trusted=trusted,opts=opts); ctx.trace=trace; ctx.fn=con.sym
    st=St(); args=[]
    for a in con.args:
        if isinstance(a,Arr):
            es,so,c=TYPES[a.ty]
            ctx.objs[a.name]=Obj(a.name,'arr',a.len.scale(es*c),es,so,heap=True)
            st.mem[a.name]=Base(a.name,(),'init',so)
            args.append(Ptr(a.name,I(0)))
            if a.ty=='u': v=fresh('?u'); st.add(Forall(v,a.name,v,f_and(f_ge(T.load(a.name,(),v,'I'),I(0)),f_le(T.load(a.name,(),v,'I'),I(2**64-1)))))
        else:
            _,n,lo,hi=a; v=sym(n,'I'); st.add(f_ge(v,I(lo)),f_le(v,I(hi))); args.append(v)
    st.add(*con.requires)
    res.vacuous=not smt.consistent(st.facts)
    if res.vacuous: res.obs.append(('precondition satisfiable',con.fn,False,'the precondition is contradictory','')); return res
    ex=Exec(ctx)
    try:
        ends=ex.call_function(con.sym,args,st)
        hit=[0]*len(con.cases)
        for e in ends:
            if not smt.consistent(e.st.facts): continue
            res.paths+=1
            if e.kind!='ret':
                res.obs.append(('ends by returning','%s'%con.fn,False,{'throw':'an exception %s escapes','term':'the program terminates (%s)'}.get(e.kind,e.kind+' %s')%(e.st.exc,),''))
                res.failfacts.append(e.st.facts); continue
            covered=False
            for ci,c in enumerate(con.cases):
                s2=e.st.cp(); s2.add(c.cond)
                if c.when is not None and not smt.prove(s2.facts,f_eq(e.val,I(c.when))): continue
                covered=True
                if not smt.consistent(s2.facts): continue
                hit[ci]+=1
                if c.ret is not None:
                    rv=e.val
                    ok=False
                    if isinstance(rv,Poly):
                        if rv.sort=='I': ok=smt.prove(s2.facts,f_eq(rv,c.ret if isinstance(c.ret,Poly) else I(c.ret)))
                    res.obs.append(('return value',c.name,ok,'' if ok else 'returned %s, expected %s when %s'%(rv,c.ret,T.showf(c.cond)),''))
                    if not ok: res.failfacts.append(s2.facts)
                for g in c.goals:
                    if isinstance(g,(Exists,Known)) and getattr(g,'only',None) not in(None,backend): continue
                    log=[]
                    ok=g.check(ctx,s2,log) if isinstance(g,(Exists,Known)) else check_goal(ctx,s2,g,log)
                    d=''
                    if not ok:
                        d='on the path %s: %s == %s not established'%([T.showf(x) for x in s2.facts if not isinstance(x,Forall)],getattr(g,'lhs',g.name),getattr(g,'rhs','')) 
                        if log: d+='; residue %s'%(log[-1][1],)
                        res.failfacts.append(log[-1][2] if log else s2.facts)
                    res.obs.append(('postcondition '+g.name,c.name,ok,d,''))
            if not covered:
                res.obs.append(('return value','',False,'returned %s, which no case of the contract allows'%e.val,'')); res.failfacts.append(e.st.facts)
        for ci,c in enumerate(con.cases):
            if not hit[ci]:
                s2=St(); s2.facts=st.facts; s2.add(c.cond)
                res.obs.append(('case reachable',c.name,False,'no path of the function reaches the case %s'%T.showf(c.cond),''))
        # every path must fall into a case
        allc=f_or(*[c.cond for c in con.cases])
        if allc is not True:
            ok=smt.prove(st.facts,allc)
            res.obs.append(('cases exhaustive','',ok,'' if ok else T.showf(allc),''))
    except Unsupported as e: res.unsupported=str(e)
    except RecursionError as e: res.unsupported='recursion limit'
    for o in ctx.obs: res.obs.append((o.kind,'',o.ok,o.detail,o.loc))
    res.nwrap=len(ctx.obs); res.trusted=set(ctx.used_trusted); res.inlined=set(ctx.inlined); res.assumed=set(ctx.assumed); res.loops=ctx.loopcount
    res.wall=time.time()-t0
    return res
