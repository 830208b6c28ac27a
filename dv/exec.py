"""Symbolic executor over LLVM IR with loop summarisation (inferred loop invariants that are
re-checked: the generic iteration is re-executed with obligations recorded)."""
import re, struct
from collections import namedtuple
from . import terms as T, smt
from .terms import Poly,I,R,apoly,sym,fresh,f_and,f_or,f_not,f_le,f_lt,f_ge,f_gt,f_eq,f_ne,f_rlt,f_req,load,subst,_byid
from .smt import Forall
from .llparse import get_func

class Split(Exception):
    def __init__(s,f): s.f=f
class Unsupported(Exception): pass
class Abort(Exception): pass

Ptr=namedtuple('Ptr','obj off')
NULL=Ptr('null',I(0))
class Opaque:
    _n=0
    def __init__(s,ty): Opaque._n+=1; s.id=Opaque._n; s.ty=ty
    def __repr__(s): return 'opaque%d'%s.id
Agg=namedtuple('Agg','v')

# ---- array contents -------------------------------------------------------------------
STDBASES={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],'_ZTISt12out_of_range':['_ZTISt11logic_error'],
 '_ZTISt16invalid_argument':['_ZTISt11logic_error'],'_ZTISt12length_error':['_ZTISt11logic_error'],'_ZTISt12domain_error':['_ZTISt11logic_error'],
 '_ZTISt9bad_alloc':['_ZTISt9exception'],'_ZTISt20bad_array_new_length':['_ZTISt9bad_alloc'],'_ZTISt11range_error':['_ZTISt13runtime_error']}
Clause=namedtuple('Clause','binders cond addr val')
class Base:
    __slots__=('name','params','kind','val','sort')
    def __init__(s,name,params,kind,sort,val=None): s.name=name;s.params=tuple(params);s.kind=kind;s.val=val;s.sort=sort
class Store:
    __slots__=('prev','idx','val','sort')
    def __init__(s,prev,idx,val): s.prev=prev;s.idx=idx;s.val=val;s.sort=prev.sort
class Fam:
    """X[addr(b)] = val(b) for all b with cond; rec: reads give load(X,params,r)"""
    __slots__=('prev','X','params','clauses','rec','sort')
    def __init__(s,prev,X,params,clauses,rec): s.prev=prev;s.X=X;s.params=tuple(params);s.clauses=clauses;s.rec=rec;s.sort=prev.sort
class Copy:
    """X[di+b] = src[si+b] for 0<=b<cnt, resolved when read"""
    __slots__=('prev','src','di','si','cnt','sort')
    def __init__(s,prev,src,di,si,cnt): s.prev=prev;s.src=src;s.di=di;s.si=si;s.cnt=cnt;s.sort=prev.sort
class Hdr:
    """content of an array at the loop header, iteration tt"""
    __slots__=('prev','info','tt','sort')
    def __init__(s,prev,info,tt): s.prev=prev;s.info=info;s.tt=tt;s.sort=prev.sort

class Obj:
    __slots__=('name','kind','size','esz','sort','local','heap','ro','cplx')
    def __init__(s,name,kind,size,esz=None,sort=None,local=False,heap=False,ro=False):
        s.name=name;s.kind=kind;s.size=size;s.esz=esz;s.sort=sort;s.local=local;s.heap=heap;s.ro=ro

class St:
    __slots__=('facts','mem','dead','exc','par','ws')
    def __init__(s): s.facts=();s.mem={};s.dead=frozenset();s.exc=None;s.par=False;s.ws=False
    def cp(s):
        n=St(); n.facts=s.facts;n.mem=dict(s.mem);n.dead=s.dead;n.exc=s.exc;n.par=s.par;n.ws=s.ws
        return n
    def add(s,*fs):
        for f in fs:
            if f is True: continue
            if f is False: f=False
            if isinstance(f,tuple) and f and f[0]=='and':
                s.add(*f[1]); continue
            if f not in s.facts: s.facts=s.facts+(f,)
        return s

class Ob:
    __slots__=('name','kind','ok','detail','loc')
    def __init__(s,name,kind,ok,detail,loc): s.name=name;s.kind=kind;s.ok=ok;s.detail=detail;s.loc=loc

class Def:
    """defining equations of a recursive family"""
    __slots__=('X','params','clauses','facts')
    def __init__(s,X,params,clauses,facts): s.X=X;s.params=params;s.clauses=clauses;s.facts=facts

class Ctx:
    def __init__(s,mod,trusted=None,opts=None):
        s.mod=mod; s.objs={}; s.obs=[]; s.discover=0; s.params=[]; s.defs={}; s.nobj=0
        s.trusted=trusted or {}; s.opts=opts or {}; s.loops={}; s.used_trusted=set(); s.assumed=set(); s.nzlits=set(); s.eqs=[]
        s.fn='?'; s.trace=False; s.tids={}; s.steps=0; s.maxsteps=s.opts.get('maxsteps',400000)
        s.inlined=set(); s.loopcount=0; s.looplemma={}; s.roomy=set(); s.calls=[]; s.ticks=0
    def bases(s,ty):
        txt=s.mod.globals.get(ty)
        if txt:
            b=re.findall(r'@(_ZTI[A-Za-z0-9_]+)',txt)
            b=[x for x in b if x!=ty]
            if b: return b
        return STDBASES.get(ty,[])
    def catches(s,ty,exc):
        if ty is None: return True
        st=[exc]; seen=set()
        while st:
            x=st.pop()
            if x==ty: return True
            if x in seen: continue
            seen.add(x); st+=s.bases(x)
        return False
    def typeid(s,ty):
        if ty is None: return 1
        return s.tids.setdefault(ty,len(s.tids)+2)
    def callno(s,i):
        for k,x in enumerate(s.calls):
            if x is i: return k
        s.calls.append(i); return len(s.calls)-1
    def tick(s): s.ticks+=1; return s.ticks
    def newobj(s,base,kind,size,**k):
        s.nobj+=1; n='%s@%d'%(base,s.nobj)
        s.objs[n]=Obj(n,kind,size,**k); return n
    def prove(s,st,g): return smt.prove(st.facts,g)
    def oblige(s,st,g,kind,loc):
        """record a proof obligation; assume it afterwards"""
        if s.discover: return True
        ok=s.prove(st,g)
        if not ok and not smt.consistent(st.facts): return True
        s.obs.append(Ob(s.fn,kind,ok,'' if ok else T.showf(g) if isinstance(g,tuple) else str(g),loc))
        if not ok and s.trace: print('OBLIGATION FAILED',kind,loc,T.showf(g) if isinstance(g,tuple) else g,[T.showf(x) for x in st.facts if not isinstance(x,Forall)])
        if not ok: st.add(g)
        return ok
    def fail(s,st,kind,detail,loc,hint=None):
        if s.discover: return
        if hint is not None and smt.prove(st.facts,f_and(f_le(hint,I(-1)),f_ge(hint,I(1)))): return   # contradictory facts (instances for the terms of hint)
        if not smt.consistent(st.facts): return
        s.obs.append(Ob(s.fn,kind,False,detail,loc))
        if s.trace: print('FAIL',kind,detail,loc)

# ---- membership -----------------------------------------------------------------------
def solve_addr(addr,unk,r,depth=0):
    """candidate assignments (list of dict id->Poly) of the unknown syms with addr==r"""
    unk=[u for u in unk if u.single().id in addr.fv()]
    if not unk: return [{}] if (addr-r).const() in (0,None) else []
    if depth>6: return []
    ids={u.single().id for u in unk}
    if len(unk)==1:
        u=unk[0].single(); ru=addr.coeff(u)
        if ru is not None and len(ru[0].t)>1 and u.id not in ru[0].fv()|ru[1].fv():
            q=smt.polydiv(r-ru[1],ru[0])
            if q is not None: return [{u.id:q}]
    # triangular atoms containing unknowns
    for m,c in addr.t.items():
        if len(m)==1 and m[0][1]==1 and c in(1,-1):
            a=_byid[m[0][0]]
            if a.kind=='fn' and a.args[0]=='tri' and a.fv&ids:
                P=a.args[1]; out=[]
                cands=[]
                for m2,c2 in r.t.items():
                    if len(m2)==1 and m2[0][1]==1 and c2==c and _byid[m2[0][0]].kind=='fn' and _byid[m2[0][0]].args[0]=='tri':
                        b=_byid[m2[0][0]]; cands.append((b.args[1],apoly(b).scale(c))); cands.append((-b.args[1]-1,apoly(b).scale(c)))
                for k in(0,1): cands.append((I(k),I(k*(k+1)//2).scale(c)))
                rest=addr-apoly(a).scale(c)
                for Q,tq in cands:
                    for mp in solve_addr(P,unk,Q,depth+1):
                        ra=subst(rest,mp); rr=r-tq
                        left=[u for u in unk if u.single().id not in mp]
                        for mp2 in solve_addr(ra,left,rr,depth+1):
                            d=dict(mp); d.update(mp2); out.append(d)
                return out
    # symbolic multiplier
    for m,c in addr.t.items():
        if sum(e for _,e in m)>=2 and any(i in ids for i,_ in m):
            oth=[i for i,e in m if i not in ids]
            for o in oth:
                a=_byid[o]
                ca=addr.coeff(a); cr=r.coeff(a)
                if ca is None: continue
                out=[]; dlts=(0,)
                if cr is None:
                    q={}; rm={}
                    for m2,c2 in r.t.items():
                        e2=dict(m2)
                        if o not in e2: rm[m2]=c2; continue
                        e2[o]-=1; q[tuple(sorted((i,e) for i,e in e2.items() if e))]=c2
                    cr=(Poly(q,'I'),Poly(rm,'I')); dlts=(0,-1)
                    if a.kind!='sym': continue
                for dlt in dlts:
                    for mp in solve_addr(ca[0],unk,cr[0]+dlt,depth+1):
                        left=[u for u in unk if u.single().id not in mp]
                        ra=subst(ca[1],mp); rr=cr[1]-apoly(a).scale(dlt)
                        for mp2 in solve_addr(ra,left,rr,depth+1):
                            d=dict(mp); d.update(mp2); out.append(d)
                if out: return out
            break
    # linear constant coefficients
    lin=[]
    for u in unk:
        r1=addr.coeff(u.single())
        if r1 is None: return []
        k=r1[0].const()
        if k is None: return []
        lin.append((abs(k),k,u,r1[1]))
    lin.sort(key=lambda x:(-x[0],))
    ak,k,u,rest=lin[0]
    others=[x[2] for x in lin[1:]]
    if not others:
        d=(r-rest).scale(1/k)
        if any(c.denominator!=1 for c in d.t.values()): return []
        return [{u.single().id:d}]
    rest0=rest
    for o in others: rest0=subst(rest0,{o.single().id:I(0)})
    d=(r-rest0)
    divp=Poly({m:c/k for m,c in d.t.items() if m!=() and (c/k).denominator==1},'I')
    k0=d.t.get((),0)
    out=[]
    base=(k0/k).__floor__()
    for off in (0,1,-1):
        cand=divp+base+off
        mp={u.single().id:cand}
        for mp2 in solve_addr(subst(addr,mp),others,r,depth+1):
            dd=dict(mp); dd.update(mp2); out.append(dd)
    return out

def member(facts,cl,r,pm=None):
    """('in',mp) | ('out',) | ('cond',mp,cond) | ('?',)"""
    pm=pm or {}
    cond=subst(cl.cond,pm) if isinstance(cl.cond,tuple) and pm else cl.cond
    addr=subst(cl.addr,pm) if pm else cl.addr
    got=None; refuted=False
    for mp in solve_addr(addr,cl.binders,r):
        if len(mp)<len(cl.binders): continue
        d=subst(addr,mp)-r
        eq=f_eq(d,I(0))
        if eq is False: continue
        if eq is not True and not smt.prove(facts,eq): continue
        c=subst(cond,mp) if isinstance(cond,tuple) else cond
        if smt.prove(facts,c): return ('in',mp)
        if smt.prove(facts,f_not(c)): refuted=True; continue
        if got is None: got=('cond',mp,c)
    # a refuted solution excludes membership only when the solution is unique
    uniq=not cl.binders
    if len(cl.binders)==1:
        rr=addr.coeff(cl.binders[0].single()); k=rr[0] if rr else None
        uniq=k is not None and (k.const() not in(None,0) or (k.const() is None and (refuted or got) and smt.prove(facts,f_ne(k,I(0)))))
    if refuted and uniq: return ('out',)
    if got:
        if uniq: return got
        rn={b.single().id:fresh('w') for b in cl.binders}
        c=subst(cond,rn) if isinstance(cond,tuple) else cond; e=f_eq(subst(addr,rn),r)
        if e is False or smt.prove(tuple(facts)+tuple(x for x in (c,e) if x is not True),False): return ('out',)
        return got
    if len(cl.binders)==1 and cl.binders[0].single().id in addr.fv():
        rr=addr.coeff(cl.binders[0].single()); k=rr[0].const() if rr else None
        if k is not None and k.denominator==1 and abs(k)>1:
            k=int(k); d=T.idiv((r-rr[1]).scale(1 if k>0 else -1),abs(k))
            mp={cl.binders[0].single().id:d}
            c=f_and(f_eq(subst(addr,mp),r),subst(cond,mp) if isinstance(cond,tuple) else cond)
            if c is True or smt.prove(facts,c): return ('in',mp)
            if c is False or smt.prove(facts,f_not(c)): return ('out',)
            return ('cond',mp,c)
    # non-membership
    rn={b.single().id:fresh('w') for b in cl.binders}
    c=subst(cond,rn) if isinstance(cond,tuple) and rn else cond
    a=subst(addr,rn) if rn else addr
    e=f_eq(a,r)
    if e is False: return ('out',)
    if smt.prove(tuple(facts)+((c,) if c is not True else ())+((e,) if e is not True else ()),False): return ('out',)
    if not cl.binders:
        return ('cond',{},f_and(c,e))
    # diagonal position: addr = M*s+s; the row of r is the only candidate for s
    if len(cl.binders)==1:
        b=cl.binders[0]; ra=addr.coeff(b.single()); w=rn[b.single().id]
        if ra is not None and ra[0].const() is None:
            for q in ra[0].atoms():
                if q.kind!='sym': continue
                k=ra[0].coeff(q); rr=r.coeff(q)
                if k is None or rr is None or k[0].const() not in(1,-1): continue
                ad=ra[1].coeff(q); v=(rr[0]-(ad[0] if ad else I(0))).scale(1/k[0].const())
                if q.id in v.fv(): continue
                if not smt.prove(tuple(facts)+((c,) if c is not True else ())+(e,),f_eq(w,v)): continue
                mp={b.single().id:v}
                c2=f_and(f_eq(subst(addr,mp),r),subst(cond,mp) if isinstance(cond,tuple) else cond)
                if c2 is True or smt.prove(facts,c2): return ('in',mp)
                if c2 is False or smt.prove(facts,f_not(c2)): return ('out',)
                return ('cond',mp,c2)
    # row-major position: addr = K*(M*x+y)+k with 0<=y<M
    if len(cl.binders)==2:
        for x,y in (cl.binders,cl.binders[::-1]):
            rx=addr.coeff(x.single()); 
            if rx is None: continue
            ry=rx[1].coeff(y.single())
            if ry is None or y.single().id in rx[0].fv() or rx[0].const() is not None: continue
            K=ry[0].const()
            if K is None or K.denominator!=1 or K<1: continue
            M=rx[0].scale(1/K); d=(r-ry[1]).scale(1/K)
            if any(v.denominator!=1 for v in M.t.values()) or any(v.denominator!=1 for v in d.t.values()): continue
            if x.single().id in ry[1].fv() or y.single().id in ry[1].fv(): continue
            w=rn[y.single().id]
            if not smt.prove(tuple(facts)+((c,) if c is not True else ()),f_and(f_ge(w,I(0)),f_lt(w,M))): continue
            if not smt.prove(facts,f_ge(M,I(1))): continue
            q=T.ediv(d,M); mp={x.single().id:q,y.single().id:d-M*q}
            c2=subst(cond,mp) if isinstance(cond,tuple) else cond
            if c2 is True or smt.prove(facts,c2): return ('in',mp)
            if c2 is False or smt.prove(facts,f_not(c2)): return ('out',)
            return ('cond',mp,c2)
    return ('?',)

def canon(facts,c):
    """a non-linear condition that is equivalent to the equality of two symbols, as that equality"""
    ps=[p for p in T.f_polys(c) if p.sort=='I']
    for p in ps:
        by={}
        for m,k in p.t.items():
            if len(m)==2 and all(e==1 for _,e in m):
                for (i,_),(j,_) in (m,m[::-1]): by.setdefault(i,[]).append((j,k))
        for i,js in by.items():
            if len(js)!=2 or js[0][1]!=-js[1][1]: continue
            e=f_eq(apoly(_byid[js[0][0]]),apoly(_byid[js[1][0]]))
            if not isinstance(e,tuple): continue
            if smt.prove(tuple(facts)+(e,),c) and smt.prove(tuple(facts)+(c,),e): return e
    return c

def read_arr(ctx,st,c,r,loc):
    while True:
        if isinstance(c,Store):
            d=(c.idx-r).const()
            if d is not None:
                if d==0: return c.val
                c=c.prev; continue
            e=f_eq(c.idx,r)
            if smt.prove(st.facts,e): return c.val
            if smt.prove(st.facts,f_not(e)): c=c.prev; continue
            raise Split(e)
        elif isinstance(c,Fam):
            res=None
            for cl in reversed(c.clauses):
                m=member(st.facts,cl,r)
                if m[0]=='in': res=(cl,m[1]); break
                if m[0]=='cond': raise Split(canon(st.facts,m[2]))
                if m[0]=='?':
                    if ctx.discover: return load('?unres',(),r,c.sort)
                    raise Unsupported('cannot decide membership of %s in family %s (addr %s cond %s)'%(r,c.X,cl.addr,T.showf(cl.cond)))
            if res:
                if c.rec: return load(c.X,c.params,r,c.sort)
                v=res[0].val
                return subst(v,res[1]) if isinstance(v,Poly) else v
            c=c.prev; continue
        elif isinstance(c,Copy):
            lo=f_ge(r,c.di); hi=f_lt(r,c.di+c.cnt); a=smt.prove(st.facts,lo); b=smt.prove(st.facts,hi)
            if a and b: r=r-c.di+c.si; c=c.src; continue
            if smt.prove(st.facts,f_not(lo)) or smt.prove(st.facts,f_not(hi)): c=c.prev; continue
            raise Split(lo if not a else hi)
        elif isinstance(c,Hdr):
            v=c.info.read(ctx,st,c,r,loc)
            if v is not None: return v
            c=c.prev; continue
        else:
            if c.kind=='init': return load(c.name,c.params,r,c.sort)
            if c.kind=='const': return c.val
            if c.kind=='fn': return c.val(r)
            ctx.fail(st,'initialised read','read of uninitialised %s[%s]'%(c.name,r),loc)
            return load('?uninit:'+c.name,c.params,r,c.sort)

def flatten(c,stop):
    out=[]
    while c is not stop:
        if isinstance(c,(Store,Fam)): out.append(c); c=c.prev
        else: raise Unsupported('content chain does not reach loop header')
    out.reverse()
    return out

# ---- CFG ------------------------------------------------------------------------------
def succs(instrs):
    t=instrs[-1]
    if t.op=='br': return [t.a[1]] if t.a[0] is None else [t.a[1],t.a[2]]
    if t.op=='switch': return [t.a[1]]+[x[1] for x in t.a[2]]
    if t.op=='invoke': return [t.a[2],t.a[3]]
    return []
def find_loops(f):
    order=[];seen=set()
    def dfs(b):
        st=[(b,iter(succs(f.blocks[b])))]; seen.add(b)
        while st:
            x,it=st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y,iter(succs(f.blocks[y])))); break
            else:
                order.append(x); st.pop()
    dfs(f.entry); rpo=order[::-1]
    preds={b:[] for b in rpo}
    for b in rpo:
        for y in succs(f.blocks[b]): preds[y].append(b)
    dom={b:set(rpo) for b in rpo}; dom[f.entry]={f.entry}
    ch=True
    while ch:
        ch=False
        for b in rpo:
            if b==f.entry: continue
            n=set.intersection(*[dom[p] for p in preds[b]])|{b} if preds[b] else {b}
            if n!=dom[b]: dom[b]=n; ch=True
    loops={}
    for b in rpo:
        for h in succs(f.blocks[b]):
            if h in dom[b]:
                body=loops.setdefault(h,{h}); st=[b]
                while st:
                    x=st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    return loops

End=namedtuple('End','kind st regs frm to val')   # kind: back exit ret throw term unreachable

class Frame:
    def __init__(s,f): s.f=f
def typesort(mod,t):
    u=mod.resolve(t)
    return {'double':'R','float':'R','int':'I'}.get(u[0])

class Exec:
    def __init__(s,ctx): s.c=ctx; s.mod=ctx.mod
    # -- values
    def val(s,regs,v,ty=None):
        k=v[0]
        if k=='reg': return regs[v[1]]
        if k=='int':
            if ty and ty==('int',1): return bool(v[1]&1)
            return I(v[1])
        if k=='fp': return R(v[1])
        if k=='null': return NULL
        if k=='glob': return s.glob(v[1])
        if k in('undef','poison'): return Opaque(ty)
        if k in('zero','zeroinitializer'): return s.zero(ty)
        if k=='agg': return Agg(tuple(s.val(regs,x[1],x[0]) for x in v[1]))
        if k=='true': return True
        if k=='false': return False
        return s.constexpr(regs,v)
    def constexpr(s,regs,v):
        if v[0]=='gepc' or v[0]=='gep':
            pass
        raise Unsupported('constant %r'%(v,))
    def zero(s,ty):
        u=s.mod.resolve(ty)
        if u==('int',1): return False
        if u[0]=='int': return I(0)
        if u[0] in('double','float'): return R(0)
        if u[0]=='ptr': return NULL
        if u[0]=='struct': return Agg(tuple(s.zero(x) for x in u[1]))
        if u[0] in('array','vec'): return Agg(tuple(s.zero(u[2]) for _ in range(u[1])))
        raise Unsupported('zero of %r'%(u,))
    def glob(s,name):
        n='G'+name
        if n not in s.c.objs:
            s.c.objs[n]=Obj(n,'global',None,ro=True)
        return Ptr(n,I(0))
    def to_int(s,v):
        if isinstance(v,Ptr):
            return v.off if v.obj=='null' else sym('&'+v.obj,'I')+v.off
        return v
    def to_ptr(s,p):
        if not isinstance(p,Poly): return p
        for a in p.atoms():
            if a.kind=='sym' and a.args[0].startswith('&'):
                r=p.coeff(a)
                if r and r[0].const()==1: return Ptr(a.args[0][1:],r[1])
        if p.const()==0: return NULL
        raise Unsupported('inttoptr %s'%p)
    # canonical representative of an integer mod 2^w
    def cu(s,st,p,w,loc):
        if not isinstance(p,Poly): return p
        k=p.const()
        if k is not None: return I(int(k)%(1<<w))
        if s.isaddr(p): return p
        if s.c.discover and s.c.opts.get('relaxwrap',False): return p
        lo=f_ge(p,I(0)); hi=f_le(p,I((1<<w)-1))
        if not s.c.prove(st,lo):
            if s.c.prove(st,f_not(lo)):
                q=p+(1<<w)
                return s.cu2(st,q,w,loc)
            raise Split(lo)
        return s.cu2(st,p,w,loc)
    def cu2(s,st,p,w,loc):
        hi=f_le(p,I((1<<w)-1))
        if s.c.prove(st,hi): return p
        s.c.oblige(st,hi,'no unsigned wrap (%d bit)'%w,loc)
        return p
    def cs(s,st,p,w,loc):
        if not isinstance(p,Poly): return p
        k=p.const()
        if k is not None:
            k=int(k)%(1<<w)
            return I(k-(1<<w) if k>>(w-1) else k)
        if s.isaddr(p): return p
        hi=f_le(p,I((1<<(w-1))-1)); lo=f_ge(p,I(-(1<<(w-1))))
        if s.c.prove(st,hi):
            if s.c.prove(st,lo): return p
            s.c.oblige(st,lo,'no signed wrap (%d bit)'%w,loc); return p
        q=p-(1<<w)
        if s.c.prove(st,f_not(hi)) and s.c.prove(st,f_le(q,I(-1))): return q
        s.c.oblige(st,hi,'no signed wrap (%d bit)'%w,loc)
        return p
    def isaddr(s,p): return any(a.kind=='sym' and a.args[0].startswith('&') for a in p.atoms())
    # -- memory
    def chk(s,st,p,size,loc,what):
        if isinstance(p,Opaque): raise Unsupported('access through unknown pointer at '+loc)
        if p.obj=='null':
            s.c.fail(st,'valid pointer','%s through a null pointer (offset %s)'%(what,p.off),loc,p.off); raise Abort('null')
        if p.obj in st.dead:
            s.c.fail(st,'valid pointer','%s of freed object %s'%(what,p.obj),loc); raise Abort('dead')
        o=s.c.objs[p.obj]
        if o.size is not None:
            s.c.oblige(st,f_ge(p.off,I(0)),'in bounds (lower) '+what,loc)
            s.c.oblige(st,f_le(p.off+size,o.size),'in bounds (upper) '+what,loc)
        return o
    def typed(s,st,p,ty):
        """give an untyped heap object an element type"""
        o=s.c.objs[p.obj]
        if o.kind!='raw': return o
        u=s.mod.resolve(ty)
        esz=s.mod.size_align(ty)[0]
        if u[0] in('double','float') or (u[0]=='int' and u[1]>=8):
            o.kind='arr'; o.esz=esz; o.sort=typesort(s.mod,ty)
        elif u[0]=='ptr': o.kind='cells'; o.esz=8
        else: raise Unsupported('heap access with type %r'%(u,))
        return o
    def content(s,st,obj):
        o=s.c.objs[obj]; c=st.mem.get(obj)
        if c is None or (isinstance(c,tuple) and c[0]=='rawzero'):
            if o.kind=='arr':
                if c is not None:
                    n=c[1]
                    pp=Base(obj,(),'undef',o.sort)
                    b=fresh('z')
                    c=Fam(pp,'zero',(),[Clause((b,),f_and(f_ge(b,I(0)),f_lt(b.scale(o.esz),n)),b,T.lift(0,o.sort))],False)
                else: c=Base(obj,tuple(s.c.params),'undef',o.sort)
            else: c={}
            st.mem[obj]=c
        return c
    def load(s,st,p,ty,loc):
        u=s.mod.resolve(ty)
        size=s.mod.size_align(ty)[0]
        if isinstance(p,Ptr) and p.obj.startswith('G@'): return s.gload(st,p,ty,loc)
        if isinstance(p,Ptr) and p.obj in s.c.objs and s.c.objs[p.obj].kind=='opaque': return Opaque(ty)
        o=s.chk(st,p,size,loc,'load')
        if o.kind=='raw': o=s.typed(st,p,ty)
        if o.kind=='arr':
            c=s.content(st,p.obj)
            if u[0]=='ptr' : raise Unsupported('pointer load from number array')
            if size!=o.esz:
                if size%o.esz or size//o.esz>16: raise Unsupported('load of size %d from array of %d-byte elements'%(size,o.esz))
                b=T.idiv_exact(p.off,o.esz)
                return Agg(tuple(read_arr(s.c,st,c,b+j,loc) for j in range(size//o.esz)))
            if typesort(s.mod,ty)!=o.sort and not (o.sort=='R' and u[0]=='int'): raise Unsupported('load sort')   # an integer-typed load of a number is a bit copy
            return read_arr(s.c,st,c,T.idiv_exact(p.off,o.esz),loc)
        c=s.content(st,p.obj)
        k=p.off.const()
        if k is None: k=s.pickoff(st,p,sorted(c),loc)
        k=int(k)
        if u[0]=='vec' and k in c and c[k][0]==size//u[1]: return Agg(tuple(s.load(st,Ptr(p.obj,I(k+j*(size//u[1]))),u[2],loc) for j in range(u[1])))
        if k not in c:
            s.c.fail(st,'initialised read','read of uninitialised %s+%d'%(p.obj,k),loc)
            return Opaque(ty) if u[0]=='ptr' else fresh('uninit',typesort(s.mod,ty)) if u!=('int',1) else Opaque(ty)
        sz,v=c[k]
        if sz!=size:
            if size==2*sz and k+sz in c and c[k+sz][0]==sz and all(isinstance(x,Poly) and x.sort=='R' for x in (v,c[k+sz][1])): return Agg((v,c[k+sz][1]))
            raise Unsupported('load size mismatch at %s'%loc)
        if u[0]=='ptr' and isinstance(v,Poly): v=s.to_ptr(v)
        if u[0]=='int' and isinstance(v,Ptr): v=s.to_int(v)
        return v
    def pickoff(s,st,p,ks,loc):
        for k in ks:
            e=f_eq(p.off,I(k))
            if s.c.prove(st,e): return k
        for k in ks:
            e=f_eq(p.off,I(k))
            if not s.c.prove(st,f_not(e)): raise Split(e)
        raise Unsupported('symbolic offset into %s'%p.obj)
    def gload(s,st,p,ty,loc):
        txt=s.mod.globals.get(p.obj[1:])
        u=s.mod.resolve(ty)
        if txt and 'constant' in txt:
            m=re.search(r'constant (?:i64|i32) (-?\d+)',txt)
            if m and u[0]=='int' and p.off.const()==0: return I(int(m.group(1)))
            m=re.search(r'constant \[\d+ x (double|i64|i32|float)\] \[(.*)\]',txt)
            if m:
                items=[x.strip().split()[-1] for x in m.group(2).split(',')]
                es=s.mod.size_align(ty)[0]; k=p.off.const()
                if k is None:
                    k=s.pickoff(st,p,[es*i for i in range(len(items))],loc)
                x=items[int(k)//es]
                from .llparse import tokenize
                if m.group(1) in('double','float'):
                    import struct
                    if x.startswith('0x'): return R(T.Fraction(struct.unpack('>d',bytes.fromhex(x[2:].zfill(16)))[0]))
                    return R(T.Fraction(x) if 'e' not in x else T.Fraction(float(x)))
                return I(int(x))
        return Opaque(ty)
    def store(s,st,p,v,ty,loc):
        u=s.mod.resolve(ty)
        size=s.mod.size_align(ty)[0]
        if isinstance(p,Ptr) and p.obj in s.c.objs and s.c.objs[p.obj].kind=='opaque': return
        o=s.chk(st,p,size,loc,'store')
        if o.ro or o.kind=='global': s.c.fail(st,'writable','store to read-only %s'%p.obj,loc); return
        if st.par and not st.ws and not o.local: 
            s.c.fail(st,'race freedom','store to shared %s by every thread'%p.obj,loc)
        if o.kind=='raw':
            if u[0]=='int' and isinstance(v,Poly) and v.const()==0 and st.mem.get(p.obj) is None and p.off.const()==0 and o.size.const()==size:
                st.mem[p.obj]=('rawzero',I(size)); return
            t=u[2] if u[0]=='vec' else ty
            if isinstance(v,Agg) and u[0]=='int' and all(isinstance(q,Poly) for q in v.v):
                es=size//len(v.v); t=({8:('double',),4:('float',)}[es] if v.v[0].sort=='R' else ('int',es*8))
            if isinstance(v,Poly) and v.sort=='R' and u[0]=='int' and size in(4,8): t=('double',) if size==8 else ('float',)
            o=s.typed(st,p,t)
        if isinstance(v,Agg) or u[0]=='vec':
            if o.kind=='cells' and u[0]=='vec' and isinstance(v,Agg):
                es=size//len(v.v)
                for j,x in enumerate(v.v): s.store(st,Ptr(p.obj,p.off+j*es),x,u[2],loc)
                return
            if o.kind=='cells' and u[0]=='int' and isinstance(v,Agg) and len(v.v)==2 and all(isinstance(x,Poly) and x.sort=='R' for x in v.v):
                for j,x in enumerate(v.v): s.store(st,Ptr(p.obj,p.off+j*(size//2)),x,('double',) if size==16 else ('float',),loc)
                return
            if o.kind!='arr' or size%o.esz: raise Unsupported('aggregate store')
            k=size//o.esz; vs=v.v if isinstance(v,Agg) else (Opaque(None),)*k
            if len(vs)!=k: raise Unsupported('aggregate store')
            et={('R',8):('double',),('R',4):('float',)}.get((o.sort,o.esz),('int',o.esz*8))
            for j,x in enumerate(vs): s.store(st,Ptr(p.obj,p.off+j*o.esz),x,et,loc)
            return
        if o.kind=='arr':
            c=s.content(st,p.obj)
            if size>o.esz and size%o.esz==0 and isinstance(v,Poly) and v.sort=='I' and v.const() is not None:   # packed constant
                w=8*o.esz; k=int(v.const())%(1<<(8*size))
                for j in range(size//o.esz):
                    x=(k>>(w*j))%(1<<w)
                    s.store(st,Ptr(p.obj,p.off+j*o.esz),I(x-(1<<w) if o.sort=='I' and x>>(w-1) else x),('int',w),loc)
                return
            if size!=o.esz: raise Unsupported('store of size %d to array of %d-byte elements'%(size,o.esz))
            if isinstance(v,Opaque): v=fresh('undef',o.sort)
            if isinstance(v,Poly) and v.sort=='I' and o.sort=='R' and v.const() is not None:   # bit pattern of a number
                k=int(v.const())%(1<<(8*size)); v=R(T.Fraction(struct.unpack('>d' if size==8 else '>f',k.to_bytes(size,'big'))[0]))
            if not isinstance(v,Poly) or v.sort!=o.sort: raise Unsupported('store sort %r to %s'%(v,p.obj))
            idx=T.idiv_exact(p.off,o.esz)
            while isinstance(c,Store) and (c.idx-idx).const()==0: c=c.prev
            st.mem[p.obj]=Store(c,idx,v)
            return
        c=dict(s.content(st,p.obj)); k=p.off.const()
        if k is None: k=s.pickoff(st,p,sorted(c),loc)
        k=int(k)
        for q in [q for q in c if q!=k and q<k+size and k<q+c[q][0]]:
            del c[q]
        c[k]=(size,v); st.mem[p.obj]=c
    def enters(s,f,blk,exc):
        for i in f.blocks[blk]:
            if i.op=='landingpad':
                for k,*cl in i.a:
                    if k=='cleanup': return True
                    if k=='filter': raise Unsupported('exception filter')
                    if k=='catch' and (cl[0][0]=='null' or s.c.catches(cl[0][1][1:],exc)): return True
                return False
        raise Unsupported('invoke without landing pad')
    # -- run a function
    def call_function(s,name,args,st):
        f=get_func(s.mod,name)
        if name not in s.c.loops: s.c.loops[name]=find_loops(f)
        s.c.inlined.add(name)
        regs={r if r else '%%%d'%i:a for i,((r,t),a) in enumerate(zip(f.params,args))}
        return s.explore(f,st,regs,f.entry,None,None)
    def explore(s,f,st,regs,block,prev,region,first_direct=False):
        """all path ends from block; region=(header,blocks) or None"""
        loops=s.c.loops[f.name]; ends=[]
        work=[(st,regs,block,prev,0,frozenset(),first_direct)]
        while work:
            st,regs,b,prev,idx,unr,direct=work.pop()
            try:
                if idx==0 and not direct:
                    if region is not None:
                        if b==region[0] and prev is not None: ends.append(End('back',st,regs,prev,b,None)); continue
                        if b not in region[1]: ends.append(End('exit',st,regs,prev,b,None)); continue
                    if b in loops:
                        inside=prev in loops[b]
                        if not (inside and b in unr):
                            try: r=s.summarise(f,st,regs,b,prev)
                            except Split as e:
                                for g in (e.f,f_not(e.f)):
                                    a=st.cp(); a.add(g)
                                    if smt.consistent(a.facts): work.append((a,dict(regs),b,prev,0,unr,False))
                                continue
                            if r=='unroll':
                                unr=unr|{b}
                            else:
                                for e in r:
                                    if e.kind=='exit': work.append((e.st,e.regs,e.to,e.frm,0,unr-{b},False))
                                    else: ends.append(e)
                                continue
                s.block(f,st,regs,b,prev,idx,unr,region,work,ends,direct)
            except Abort: continue
        return ends
    def phis(s,f,regs,b,prev):
        ins=f.blocks[b]; new={}; n=0
        for i in ins:
            if i.op!='phi': break
            n+=1
            for v,l in i.a:
                if l==prev: new[i.res]=s.val(regs,v,i.ty); break
            else: raise Unsupported('phi without edge')
        return new,n
    def block(s,f,st,regs,b,prev,idx,unr,region,work,ends,direct):
        ins=f.blocks[b]
        if idx==0:
            if direct:
                idx=len([1 for i in ins if i.op=='phi'])
            else:
                new,idx=s.phis(f,regs,b,prev)
                if new: regs=dict(regs); regs.update(new)
        regs=dict(regs); st=st.cp()
        k=idx
        while k<len(ins):
            i=ins[k]; s.c.steps+=1
            if s.c.steps>s.c.maxsteps: raise Unsupported('step limit')
            loc='%s: %s'%(f.name,i.line.strip()[:110])
            try:
                op=i.op
                if op=='br':
                    if i.a[0] is None: work.append((st,regs,i.a[1],b,0,unr,False)); return
                    c=s.val(regs,i.a[0],('int',1))
                    s.branch(st,regs,c,i.a[1],i.a[2],b,unr,work); return
                if op=='switch':
                    v,d,cs=i.a; x=s.cu(st,s.val(regs,v,i.ty),64,loc); rest=[]
                    for cv,l in cs:
                        e=f_eq(x,I(cv[1]))
                        if s.c.prove(st,f_not(e)): rest.append(f_not(e)); continue
                        n=st.cp(); n.add(*rest,e); rest.append(f_not(e))
                        if smt.consistent(n.facts): work.append((n,dict(regs),l,b,0,unr,False))
                    n=st.cp(); n.add(*rest)
                    if smt.consistent(n.facts): work.append((n,regs,d,b,0,unr,False))
                    return
                if op=='ret':
                    v=s.val(regs,i.a[0],i.ty) if i.a else None
                    ends.append(End('ret',st,regs,b,None,v)); return
                if op=='unreachable':
                    if s.c.discover==0 and not (st.exc) and smt.consistent(st.facts): s.c.fail(st,'unreachable','reached unreachable',loc)
                    return
                if op=='resume':
                    ends.append(End('throw',st,regs,b,None,st.exc)); return
                if op in('call','invoke'):
                    r=s.call(f,st,regs,i,loc)
                    # r: list of (kind, st, value)
                    for kind,st2,v in r:
                        rg=dict(regs)
                        if kind=='ok':
                            if i.res: rg[i.res]=v
                            if op=='invoke': work.append((st2,rg,i.a[2],b,0,unr,False))
                            else: work.append((st2,rg,b,prev,k+1,unr,False))
                        elif kind=='throw':
                            st2.exc=v
                            if op=='invoke' and s.enters(f,i.a[3],v): work.append((st2,rg,i.a[3],b,0,unr,False))
                            else: ends.append(End('throw',st2,rg,b,None,v))
                        else: ends.append(End(kind,st2,rg,b,None,v))
                    return
                s.instr(f,st,regs,i,loc)
            except Split as e:
                a=st.cp(); a.add(e.f); n=st.cp(); n.add(f_not(e.f))
                ca=smt.consistent(a.facts); cn=smt.consistent(n.facts)
                if ca: work.append((a,dict(regs),b,prev,k,unr,direct)) if k>0 else work.append((a,dict(regs),b,prev,k,unr,True))
                if cn: work.append((n,dict(regs),b,prev,k,unr,direct)) if k>0 else work.append((n,dict(regs),b,prev,k,unr,True))
                return
            k+=1
        raise Unsupported('block without terminator')
    def branch(s,st,regs,c,l1,l2,b,unr,work):
        if isinstance(c,Opaque): c=('bs','opq%d'%c.id)
        if c is True or (c is not False and s.c.prove(st,c)): work.append((st,regs,l1,b,0,unr,False)); return
        if c is False or s.c.prove(st,f_not(c)): work.append((st,regs,l2,b,0,unr,False)); return
        a=st.cp(); a.add(c); n=st.cp(); n.add(f_not(c))
        work.append((n,dict(regs),l2,b,0,unr,False)); work.append((a,regs,l1,b,0,unr,False))
    # -- plain instructions
    def instr(s,f,st,regs,i,loc):
        op=i.op; V=lambda v,ty=None: s.val(regs,v,ty or i.ty)
        if op in BINI:
            x,y,fl=i.a
            if any(isinstance(q,Poly) and q.sort=='R' for q in (V(x),V(y))): raise Unsupported('integer operation on the bits of a number')
            regs[i.res]=s.binint(st,op,V(x),V(y),i.ty,fl,loc); return
        if op in('fadd','fsub','fmul','fdiv'):
            x,y=V(i.a[0]),V(i.a[1])
            if isinstance(x,Agg) and isinstance(y,Agg):
                g={'fadd':lambda p,q:p+q,'fsub':lambda p,q:p-q,'fmul':lambda p,q:p*q,'fdiv':lambda p,q:s.fdiv(st,p,q,loc)}[op]
                if not all(isinstance(q,Poly) for q in x.v+y.v): raise Unsupported('fp op on partly undefined vector')
                regs[i.res]=Agg(tuple(g(p,q) for p,q in zip(x.v,y.v))); return
            if not(isinstance(x,Poly) and isinstance(y,Poly)): raise Unsupported('fp op on %r %r'%(x,y))
            if op=='fadd': r=x+y
            elif op=='fsub': r=x-y
            elif op=='fmul': r=x*y
            else: r=s.fdiv(st,x,y,loc)
            regs[i.res]=r; return
        if op=='fneg':
            x=V(i.a[0]); regs[i.res]=Agg(tuple(-q for q in x.v)) if isinstance(x,Agg) else -x; return
        if op=='extractelement':
            v,ix=s.val(regs,i.a[0],i.ty),s.val(regs,i.a[1],('int',64)); k=ix.const()
            if isinstance(v,Opaque): regs[i.res]=fresh('undef','R'); return
            if k is None: raise Unsupported('extractelement')
            regs[i.res]=v.v[int(k)]; return
        if op=='insertelement':
            v,e,ix=s.val(regs,i.a[0],i.ty),s.val(regs,i.a[1]),s.val(regs,i.a[2],('int',64)); n=s.mod.resolve(i.ty)[1]
            l=list(v.v) if isinstance(v,Agg) else [Opaque(None)]*n
            l[int(ix.const())]=e; regs[i.res]=Agg(tuple(l)); return
        if op=='shufflevector':
            a,b=s.val(regs,i.a[0],i.ty),s.val(regs,i.a[1],i.ty); n=s.mod.resolve(i.ty)[1]
            l=list(a.v if isinstance(a,Agg) else [Opaque(None)]*n)+list(b.v if isinstance(b,Agg) else [Opaque(None)]*n)
            mt=s.mod.resolve(i.a[2])
            if i.a[3][0]=='zero': ix=[0]*mt[1]
            elif i.a[3][0]=='agg': ix=[int(x[1][1]) if x[1][0]=='int' else None for x in i.a[3][1]]
            else: raise Unsupported('shufflevector mask')
            regs[i.res]=Agg(tuple(Opaque(None) if k is None else l[k] for k in ix)); return
        if op=='icmp': regs[i.res]=s.icmp(st,*i.a,regs,loc); return
        if op=='fcmp':
            pred,ty,a,b=i.a; a=V(a,ty); b=V(b,ty)
            regs[i.res]=fcmp(pred,a,b); return
        if op=='load': regs[i.res]=s.load(st,V(i.a[0],('ptr',)),i.ty,loc); return
        if op=='store': s.store(st,V(i.a[1],('ptr',)),V(i.a[0]),i.ty,loc); return
        if op=='alloca': regs[i.res]=s.alloca(st,i); return
        if op=='getelementptr': regs[i.res]=s.gep(st,regs,i,loc); return
        if op=='select':
            c=s.val(regs,i.a[0],('int',1)); a=V(i.a[1]); b=V(i.a[2])
            if c is True: r=a
            elif c is False: r=b
            elif isinstance(c,Opaque): raise Unsupported('select on opaque')
            elif isinstance(a,(bool,tuple)) and not isinstance(a,(Ptr,Agg)):
                r=f_or(f_and(c,a),f_and(f_not(c),b))
            elif a==b: r=a
            elif s.c.prove(st,c): r=a
            elif s.c.prove(st,f_not(c)): r=b
            elif isinstance(a,Poly) and isinstance(b,Poly): r=T.ite(c,a,b) if a.sort=='R' else None
            else: r=None
            if r is None: raise Split(c)
            regs[i.res]=r; return
        if op in CASTS: regs[i.res]=s.cast(st,op,i.a[0],s.val(regs,i.a[1],i.a[0]),i.ty,loc); return
        if op=='landingpad':
            sel=0
            for k,*cl in i.a:
                if k=='catch':
                    v=cl[0]
                    if v[0]=='null' or s.c.catches(v[1][1:] if v[0]=='glob' else None,st.exc):
                        sel=s.c.typeid(v[1][1:] if v[0]=='glob' else None); break
                elif k=='filter': raise Unsupported('exception filter')
            regs[i.res]=Agg((Opaque(('ptr',)),I(sel))) 
            return
        if op=='extractvalue':
            v=s.val(regs,i.a[0],i.ty)
            for k in i.a[1]:
                if isinstance(v,Opaque): return regs.__setitem__(i.res,Opaque(None))
                v=v.v[k]
            regs[i.res]=v; return
        if op=='insertvalue':
            v=s.val(regs,i.a[0],i.ty); e=s.val(regs,i.a[2],i.a[1]); ix=i.a[3]
            regs[i.res]=s.insert(v,e,ix,i.ty); return
        if op=='freeze': regs[i.res]=V(i.a[0]); return
        raise Unsupported('instruction %s'%i.line.strip()[:100])
    def insert(s,v,e,ix,ty):
        u=s.mod.resolve(ty)
        n=len(u[1]) if u[0]=='struct' else u[1]
        l=list(v.v) if isinstance(v,Agg) else [Opaque(None)]*n
        if len(ix)==1: l[ix[0]]=e
        else: l[ix[0]]=s.insert(l[ix[0]],e,ix[1:],u[1][ix[0]] if u[0]=='struct' else u[2])
        return Agg(tuple(l))
    def fdiv(s,st,x,y,loc):
        nz=f_not(f_req(y,R(0)))
        if nz is not True:
            if s.c.opts.get('assume_div_nonzero'):
                s.c.assumed.add('every divisor met during the computation is non-zero (the property is conditional on this)')
                if nz is False: raise Abort('div0')
                if nz not in st.facts: s.c.nzlits.add(nz)
                st.add(nz)
            else: 
                if nz is False: s.c.fail(st,'divisor non-zero','division by literal zero',loc); raise Abort('div0')
                s.oblige_nz(st,y,nz,loc)
        return x*T.recip(y)
    def oblige_nz(s,st,y,nz,loc):
        if not s.c.discover and nz is not False and not smt.prove(st.facts,nz):
            from . import realeq
            if realeq.prove_nonzero(s.c,st.facts,y): st.add(nz)
        s.c.oblige(st,nz,'divisor non-zero',loc)
    def binint(s,st,op,x,y,ty,fl,loc):
        w=ty[1] if ty[0]=='int' else 64
        if w==1:
            if isinstance(x,Opaque) or isinstance(y,Opaque): return Opaque(ty)
            if op=='and': return f_and(x,y)
            if op=='or': return f_or(x,y)
            if op=='xor':
                if y is True: return f_not(x)
                if y is False: return x
                return f_or(f_and(x,f_not(y)),f_and(f_not(x),y))
            raise Unsupported('i1 '+op)
        x=s.to_int(x); y=s.to_int(y)
        if isinstance(x,Opaque) or isinstance(y,Opaque): return Opaque(ty)
        if op=='add': r=x+y
        elif op=='sub': r=x-y
        elif op=='mul': r=x*y
        elif op=='shl':
            k=y.const()
            if k is None: raise Unsupported('shl by variable')
            r=x.scale(1<<int(k))
        elif op in('lshr','udiv'):
            k=y.const()
            if k is None: 
                if op=='udiv': return s.udivvar(st,x,y,w,loc)
                raise Unsupported(op+' by variable')
            d=(1<<int(k)) if op=='lshr' else int(k)
            e=exact_div(x,d)
            x=s.cu(st,x,w,loc); r=T.idiv(x,d)
        elif op in('ashr','sdiv'):
            k=y.const()
            if k is None: raise Unsupported(op+' by variable')
            d=(1<<int(k)) if op=='ashr' else int(k)
            if d<=0: raise Unsupported('sdiv negative')
            e=exact_div(x,d)
            if e is not None: return e
            x=s.cs(st,x,w,loc)
            if op=='sdiv' and not s.c.prove(st,f_ge(x,I(0))):
                if s.c.prove(st,f_le(x,I(0))): return -T.idiv(-x,d)
                raise Split(f_ge(x,I(0)))
            r=T.idiv(x,d)
        elif op in('urem','and'):
            k=y.const()
            if k is None: 
                if op=='and' and x.const() is not None: x,y=y,x; k=y.const()
                elif op=='and': return s.bits('band',st,x,y,w,loc)
                else: x=s.cu(st,x,w,loc); y=s.cu(st,y,w,loc); return x-y*s.udivvar(st,x,y,w,loc)
            k=int(k)
            if op=='and':
                k%=(1<<w)
                if k&(k+1): 
                    if k==(1<<w)-2: x=s.cu(st,x,w,loc); return x-T.imod(x,2)
                    if (k^((1<<w)-1))&((k^((1<<w)-1))+1)==0:
                        x=s.cu(st,x,w,loc); return x-T.imod(x,(k^((1<<w)-1))+1)
                    lo=(k&-k); hi=k+lo
                    if hi&(hi-1)==0:   # contiguous ones
                        x=s.cu(st,x,w,loc)
                        if not s.c.prove(st,f_lt(x,I(hi))): x=T.imod(x,hi)
                        return x-T.imod(x,lo)
                    return s.bits('band',st,x,I(k),w,loc)
                k+=1
            x=s.cu(st,x,w,loc); r=T.imod(x,k)
        elif op=='or' and 'disjoint' in fl: r=x+y
        elif op=='xor' and y.const() is not None and int(y.const())%(1<<w)==(1<<w)-1: r=-x-1
        elif op=='xor':
            if x.const() is not None: x,y=y,x
            k=y.const()
            if k is None: return s.bits('bxor',st,x,y,w,loc)
            k=int(k)%(1<<w); x=s.cu(st,x,w,loc)
            if k&(k+1)==0 and s.c.prove(st,f_le(x,I(k))): return I(k)-x
            return s.bits('bxor',st,x,I(k),w,loc)
        elif op=='or':
            # x*2 | 1 patterns
            k=y.const()
            if k==1:
                x=s.cu(st,x,w,loc); r=x+1-T.imod(x,2)
            elif x.const()==0: r=y
            elif k==0: r=x
            else: return s.bits('bor',st,x,y,w,loc)
        else: raise Unsupported(op)
        k=r.const()
        if k is not None:
            k=int(k)%(1<<w)
            if k>>(w-1): k-=1<<w
            return I(k)
        return r
    def udivvar(s,st,x,y,w,loc):
        x=s.cu(st,x,w,loc); y=s.cu(st,y,w,loc)
        s.oblige_nz(st,y,f_ge(y,I(1)),loc)
        return T.ediv(x,y)
    def bits(s,n,st,x,y,w,loc):
        """bitwise operation on non-constant operands: an uninterpreted function with its bounds (smt.lemmas)"""
        x=s.cu(st,x,w,loc); y=s.cu(st,y,w,loc)
        if str(y)<str(x): x,y=y,x
        return T.fn(n,x,y,sort='I')
    def icmp(s,st,pred,ty,a,b,regs,loc):
        a=s.val(regs,a,ty); b=s.val(regs,b,ty)
        u=s.mod.resolve(ty)
        if isinstance(a,Opaque) or isinstance(b,Opaque): return Opaque(('int',1))
        if u==('int',1):
            e=f_or(f_and(a,b),f_and(f_not(a),f_not(b)))
            if pred=='eq': return e
            if pred=='ne': return f_not(e)
            raise Unsupported('icmp i1')
        if any(isinstance(q,Poly) and q.sort=='R' for q in (a,b)): raise Unsupported('comparison of the bits of a number')
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            a=a if isinstance(a,Ptr) else s.to_ptr(a); b=b if isinstance(b,Ptr) else s.to_ptr(b)
            if a.obj==b.obj:
                x,y=a.off,b.off
                return {'eq':f_eq,'ne':f_ne,'ult':f_lt,'ule':f_le,'ugt':f_gt,'uge':f_ge,'slt':f_lt,'sle':f_le,'sgt':f_gt,'sge':f_ge}[pred](x,y)
            if pred=='eq': return False
            if pred=='ne': return True
            s.c.fail(st,'pointer comparison','relational comparison of unrelated pointers',loc); raise Abort('ptrcmp')
        w=u[1]
        if s.isaddr(a) or s.isaddr(b):
            d=a-b
            if not s.isaddr(d):
                pass
            else:
                if pred=='eq': return False
                if pred=='ne': return True
                pa,pb=s.to_ptr(a),s.to_ptr(b)
                raise Unsupported('address comparison')
        if pred in('eq','ne'):
            d=a-b; k=d.const()
            if k is not None: r=(int(k)%(1<<w)==0)
            else:
                # equal modulo 2^w: need both in the same range
                x,y=s.cu(st,a,w,loc),s.cu(st,b,w,loc)
                r=f_eq(x,y)
            return r if pred=='eq' else f_not(r)
        if pred[0]=='u': x,y=s.cu(st,a,w,loc),s.cu(st,b,w,loc)
        else: x,y=s.cs(st,a,w,loc),s.cs(st,b,w,loc)
        return {'lt':f_lt,'le':f_le,'gt':f_gt,'ge':f_ge}[pred[1:]](x,y)
    def cast(s,st,op,sty,v,ty,loc):
        if isinstance(v,Opaque): return Opaque(ty)
        if op=='ptrtoint': return s.to_int(v)
        if op=='inttoptr': return s.to_ptr(v)
        if op in('zext','sext','trunc','uitofp','sitofp') and isinstance(v,Poly) and v.sort=='R': raise Unsupported('integer cast of the bits of a number')
        if op=='bitcast': return v
        if op=='zext':
            if sty==('int',1):
                if v is True: return I(1)
                if v is False: return I(0)
                return T.ite(v,I(1),I(0))
            return s.cu(st,v,sty[1],loc)
        if op=='sext':
            if sty==('int',1):
                if v in(True,False): return I(-1 if v else 0)
                return T.ite(v,I(-1),I(0))
            return s.cs(st,v,sty[1],loc)
        if op=='trunc':
            if ty==('int',1):
                v=s.cu(st,v,sty[1],loc)
                return f_ne(T.imod(v,2),I(0)) 
            return v
        if op in('fpext',): return v
        if op=='fptrunc': return v if s.c.opts.get('fptrunc_id') else T.fn('fptrunc',v)
        if op=='uitofp': return i2r(s.cu(st,v,sty[1],loc))
        if op=='sitofp': return i2r(s.cs(st,v,sty[1],loc))
        if op in('fptoui','fptosi'):
            a=v.single()
            if a is not None and a.kind=='fn' and a.args[0]=='sqrt':
                b=a.args[1].single()
                if b is not None and b.kind=='fn' and b.args[0]=='i2r': 
                    s.c.oblige(st,f_and(f_ge(b.args[1],I(0)),f_lt(b.args[1],I(1<<52))),'sqrt argument exactly representable',loc)
                    X=T.rebuild(b.args[1],lambda q: q.args[1]*q.args[1].scale(T.Fraction(1,2))+q.args[1].scale(T.Fraction(1,2)) if q.kind=='fn' and q.args[0]=='tri' else None)
                    # the argument is (2W+1)^2
                    W=T.tri_arg((X-1).scale(T.Fraction(1,4)))
                    if W is not None:
                        if s.c.prove(st,f_ge(W,I(0))): return W.scale(2)+1
                        if s.c.prove(st,f_le(W,I(-1))): return -W.scale(2)-1
                    return T.fn('isqrt',b.args[1],sort='I')
            k=v.const()
            if k is not None: return I(int(k))
            if a is not None and a.kind=='fn' and a.args[0]=='i2r': return a.args[1]
            raise Unsupported('fptoui of %s'%v)
        raise Unsupported(op)
    def alloca(s,st,i):
        ty=i.ty; 
        if i.a[0] is not None: raise Unsupported('variable alloca')
        size=s.mod.size_align(ty)[0]
        lv=leaves(s.mod,ty)
        if 'basic_string' in str(ty): k=dict(kind='opaque')
        elif lv and len(lv)>0 and all(x==lv[0] for x in lv) and lv[0][0] in('double','float') and (len(lv)>1 or s.mod.resolve(ty)[0] in('struct','array')) or (len(lv)>(1 if hasarray(s.mod,ty) else 2) and all(x==lv[0] for x in lv) and lv[0][0]=='int' and lv[0][1]>8):
            k=dict(kind='arr',esz=s.mod.size_align(lv[0])[0],sort=typesort(s.mod,lv[0]))
        else: k=dict(kind='cells')
        kind=k.pop('kind')
        n=s.c.newobj('loc'+(i.res or '').replace('%','_'),kind,I(size),local=True,**k)
        return Ptr(n,I(0))
    def gep(s,st,regs,i,loc):
        b=s.val(regs,i.a[0],('ptr',)); t=i.ty
        if isinstance(b,Opaque): return Opaque(('ptr',))
        if isinstance(b,Poly): b=s.to_ptr(b)
        off=b.off; first=True
        for ty,v in i.a[1]:
            x=s.val(regs,v,ty)
            if isinstance(x,Opaque): return Opaque(('ptr',))
            if first:
                x=s.gepidx(st,x,ty,loc)
                off=off+x.scale(s.mod.size_align(t)[0]); first=False; continue
            u=s.mod.resolve(t)
            if u[0]=='struct':
                o,t=s.mod.field_off(t,int(x.const())); off=off+o
            elif u[0]=='array':
                x=s.gepidx(st,x,ty,loc)
                t=u[2]; off=off+x.scale(s.mod.size_align(t)[0])
            else: raise Unsupported('gep')
        return Ptr(b.obj,off)
    def gepidx(s,st,x,ty,loc):
        # pointer arithmetic is modulo 2^64; a 64-bit index needs no canonicalisation
        if ty[1]==64: return x
        return s.cs(st,x,ty[1],loc)
    # -- calls
    def call(s,f,st,regs,i,loc):
        callee,args,nl,ul=i.a
        if callee[0]!='glob': raise Unsupported('indirect call')
        name=callee[1][1:]
        from . import trusted
        av=[s.val(regs,v,ty) if v!=('meta',) else None for ty,v in args]
        h=trusted.find(name)
        if h:
            if not name.startswith('llvm.'): s.c.used_trusted.add(name)
            r=h(s,st,name,av,i,loc,f,regs)
            return r
        if name in s.c.trusted:
            s.c.used_trusted.add(name)
            return s.c.trusted[name](s,st,name,av,i,loc,f,regs)
        if name in s.mod.funcs:
            out=[]
            for e in s.call_function(name,av,st):
                if e.kind=='ret': out.append(('ok',e.st,e.val))
                elif e.kind=='throw': out.append(('throw',e.st,e.val))
                else: out.append((e.kind,e.st,e.val))
            return out
        raise Unsupported('call of unknown function '+name)
    def summarise(s,f,st,regs,hdr,prev):
        from .loops import Summary
        return Summary(s,f,st,regs,hdr,prev).run()

def hasarray(mod,ty):
    u=mod.resolve(ty)
    if u[0]=='array': return True
    return u[0]=='struct' and any(hasarray(mod,t) for t in u[1])
BINI={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
CASTS={'zext','sext','trunc','fpext','fptrunc','sitofp','uitofp','fptoui','fptosi','ptrtoint','inttoptr','bitcast'}
def exact_div(x,d):
    if all((c/d).denominator==1 for c in x.t.values()): return x.scale(T.Fraction(1,d))
    return None
def i2r(p):
    k=p.const()
    if k is not None: return R(k)
    return T.fn('i2r',p)
def fcmp(pred,a,b):
    if isinstance(a,Opaque) or isinstance(b,Opaque): return Opaque(('int',1))
    if pred=='ord': return True
    if pred=='uno': return False
    p=pred[1:]
    if pred in('true','false'): return pred=='true'
    if p=='eq': return f_req(a,b)
    if p=='ne': return f_not(f_req(a,b))
    if p=='lt': return f_rlt(a,b)
    if p=='gt': return f_rlt(b,a)
    if p=='le': return f_not(f_rlt(b,a))
    if p=='ge': return f_not(f_rlt(a,b))
    raise Unsupported('fcmp '+pred)
def leaves(mod,ty,limit=100000):
    u=mod.resolve(ty)
    if u[0]=='struct':
        out=[]
        for x in u[1]: out+=leaves(mod,x)
        return out
    if u[0]=='array':
        if u[1]*1>limit: return []
        return leaves(mod,u[2])*u[1]
    return [u]
