"""Prover for equalities between (real or integer) terms with sums, recursively defined arrays,
conditional terms and quotients.  Everything reduces to polynomial identity plus integer side
conditions discharged by smt.prove."""
from . import terms as T, smt
from .terms import Poly,I,R,apoly,fresh,load,subst,_byid,f_and,f_or,f_not,f_le,f_lt,f_ge,f_eq
from .exec import member,read_arr,Split,Unsupported,St

class NeedSplit(Exception):
    def __init__(s,f): s.f=f
STATS={'eq':0,'splits':0}
MAXSPLIT=12

def _neg_exps(p):
    d={}
    for m in p.t:
        for i,e in m:
            if e<0: d[i]=max(d.get(i,0),-e)
    return d
def clear_denoms(p):
    for _ in range(6):
        d=_neg_exps(p)
        if d:
            mul=Poly({tuple(sorted(d.items())):T.Fraction(1)},p.sort)
            p=p*mul
        q=T.expand_ids(p)
        if q==p and not _neg_exps(p): return p
        p=q
    return p

class Eq:
    def __init__(s,ctx,facts,budget=None):
        s.ctx=ctx; s.facts=tuple(facts); s.log=[]; s.budget=budget if budget is not None else [400]; s.order=False
    def pr(s,f,extra=()):
        return smt.prove(s.facts+tuple(x for x in extra if x is not True),f)
    # unify loads of the same array at provably equal indices
    def unify(s,p,extra=()):
        loads={}
        for a in p.atoms():
            if a.kind=='load': loads.setdefault((a.args[0],len(a.args[1]),a.sort),[]).append(a)
        mp={}
        for k,ls in loads.items():
            if len(ls)<2: continue
            reps=[]
            for a in sorted(ls,key=lambda a:a.id):
                for b in reps:
                    g=f_and(*[f_eq(x,y) for x,y in zip(a.args[1]+(a.args[2],),b.args[1]+(b.args[2],))])
                    if g is False: continue
                    if g is True or s.pr(g,extra): mp[a.id]=apoly(b); break
                else: reps.append(a)
        for k in ('tri','div','isqrt','fn'):
            pass
        if not mp: return p
        return T.rebuild(p,lambda a: mp.get(a.id))
    def iszero_light(s,p,extra=()):
        if not p.t: return True
        p=s.sums(p,extra)
        if not p.t: return True
        p=s.unify(p,extra)
        if not p.t: return True
        p=clear_denoms(p)
        return not p.t
    # ---- sums
    def sums(s,p,extra=()):
        sa=[a for a in p.atoms() if a.kind=='sum']
        if not sa: return p
        mp={}
        for a in sa:
            n=a.args[0]
            if s.pr(f_le(n,I(0)),extra): mp[a.id]=Poly({},a.sort)
        if mp:
            p=T.rebuild(p,lambda a: mp.get(a.id)); sa=[a for a in p.atoms() if a.kind=='sum']
        # simplify sum bodies (unfold nothing; unify inside)
        if len(sa)<1: return p
        groups=[]  # each: rep (var,body), list of (atom,lo,hi) in rep's frame
        for a in sorted(sa,key=lambda a:a.id):
            v,n,b=T.open_sum(a)
            done=False
            for g in groups:
                d=s.match(g['var'],g['body'],v,b,extra,n)
                if d is not None:
                    sh,neg=d
                    # b(v)=G(v+sh) -> range in G's frame [sh, sh+n)   ; reversed: b(v)=G(sh-v) -> [sh-n+1, sh+1)
                    lo,hi=(sh,sh+n) if not neg else (sh-n+1,sh+1)
                    g['it'].append((a,lo,hi)); done=True; break
            if not done: groups.append({'var':v,'body':b,'it':[(a,I(0),n)]})
        mp={}
        for g in groups:
            it=g['it']
            pts=[]
            def addpt(x):
                for q in pts:
                    if q==x or s.pr(f_eq(q,x),extra): return q
                pts.append(x); return x
            rng=[]
            for a,lo,hi in it:
                l=addpt(lo); h=addpt(hi)
                if len(it)>1 and l is not h and not s.pr(f_le(lo,hi),extra):
                    raise NeedSplit(f_le(lo,hi))
                rng.append((a,l,h))
            if len(it)==1:
                a,l,h=rng[0]
                if l is h: mp[a.id]=Poly({},a.sort); continue
                k=s.smallconst(hi-lo if False else it[0][2]-it[0][1],extra)
                if k is not None:
                    mp[a.id]=s.expand(g,it[0][1],k); 
                continue
            # order
            order=[]
            for q in pts:
                i=0
                while i<len(order):
                    if s.pr(f_le(q,order[i]),extra): break
                    if s.pr(f_le(order[i],q),extra): i+=1; continue
                    raise NeedSplit(f_le(q,order[i]))
                order.insert(i,q)
            segs={}
            def seg(j):
                if j not in segs:
                    lo,hi=order[j],order[j+1]
                    k=s.smallconst(hi-lo,extra)
                    if k is not None: segs[j]=s.expand(g,lo,k)
                    else:
                        segs[j]=T.mk_sum(g['var'],lo,hi,g['body'])
                return segs[j]
            for a,l,h in rng:
                i,j=[k for k,q in enumerate(order) if q is l][0],[k for k,q in enumerate(order) if q is h][0]
                tot=Poly({},a.sort)
                for k in range(i,j): tot=tot+seg(k)
                mp[a.id]=tot
        mp={k:v for k,v in mp.items() if v!=apoly(_byid[k])}
        if mp: p=T.rebuild(p,lambda a: mp.get(a.id))
        return p
    def smallconst(s,n,extra):
        c=n.const()
        if c is not None: return int(c) if c<=8 else None
        for k in (1,2,0):
            if s.pr(f_eq(n,I(k)),extra): return k
        return None
    def expand(s,g,lo,k):
        out=Poly({},g['body'].sort); vid=g['var'].single().id
        for j in range(k): out=out+subst(g['body'],{vid:lo+j})
        return out
    def bloads(s,v,b):
        vid=v.single().id
        return [a for a in smt.walk_atoms([b]) if a.kind=='load' and vid in a.fv]
    def match(s,v1,b1,v2,b2,extra,n):
        """shift with b2(v2)=b1(v2+sh) or b2(v2)=b1(sh-v2)"""
        if b1.sort!=b2.sort: return None
        l1=s.bloads(v1,b1); l2=s.bloads(v2,b2)
        if {a.args[0] for a in l1}!={a.args[0] for a in l2}: return None
        i1=v1.single(); i2=v2.single(); cands=[]
        for a in l1:
            for b in l2:
                if a.args[0]!=b.args[0]: continue
                r1=a.args[2].coeff(i1); r2=b.args[2].coeff(i2)
                if r1 is None or r2 is None or not r1[0].t or not r2[0].t: 
                    if a.args[2]==b.args[2]: pass
                    continue
                for neg in (False,True):
                    c2=-r2[0] if neg else r2[0]
                    if r1[0]!=c2: continue
                    diff=r2[1]-r1[1]
                    k=r1[0].const()
                    if k is None:
                        # symbolic stride: diff must be a multiple
                        sh=T_div(diff,r1[0])
                        if sh is None: sh=None
                    else:
                        sh=diff.scale(1/k)
                        if any(c.denominator!=1 for c in sh.t.values()): sh=None
                    if sh is not None and (sh,neg) not in cands: cands.append((sh,neg))
        if not l1 and not l2: cands.append((I(0),False))
        if (I(0),False) not in cands: cands.append((I(0),False))
        rng=tuple(extra)+(f_ge(v2,I(0)),f_lt(v2,n))
        for sh,neg in cands[:8]:
            q=subst(b1,{i1.id:(sh-v2) if neg else (v2+sh)})
            d=b2-q
            if not d.t: return sh,neg
        for sh,neg in cands[:4]:
            q=subst(b1,{i1.id:(sh-v2) if neg else (v2+sh)})
            d=b2-q
            try:
                if s.iszero_light(d,rng): return sh,neg
            except NeedSplit: pass
        return None
    # ---- definitions
    def unfold_atom(s,a,extra=()):
        """value of load atom a by its defining equation, or None"""
        if a.kind!='load': return None
        d=s.ctx.defs.get(a.args[0])
        if d is None: return None
        ps,idx=a.args[1],a.args[2]
        if isinstance(d,tuple) and d[0]=='seq':
            _,params,t,init,f=d
            pm={x.single().id:y for x,y in zip(params,ps)}
            if s.pr(f_ge(idx,I(1)),extra):
                pm[t.single().id]=idx-1
                return _sub(f,pm)
            if s.pr(f_le(idx,I(0)),extra): return _sub(init,pm)
            raise NeedSplit(f_ge(idx,I(1)))
        if isinstance(d,tuple) and d[0]=='hist':
            _,params,t,clauses,A0=d
            tt=ps[-1]
            pm={x.single().id:y for x,y in zip(params,ps)}
            if s.pr(f_le(tt,I(0)),extra):
                if pm and any(k.single().id!=0 and _sub(k,pm)!=k for k in params): raise Unsupported('hist base under substitution '+str((a,params,t,[c.addr for c in clauses])))
                return s.read(A0,idx,extra)
            if not s.pr(f_ge(tt,I(1)),extra): raise NeedSplit(f_ge(tt,I(1)))
            pm[t.single().id]=tt-1
            for cl in reversed(clauses):
                m=member(s.facts+tuple(extra),cl,idx,pm)
                if m[0]=='in': return subst(subst(cl.val,pm),m[1])
                if m[0]=='out': continue
                if m[0]=='cond': raise NeedSplit(m[2])
                return None
            return load(a.args[0],tuple(ps[:-1])+(tt-1,),idx,a.sort)
        pm={x.single().id:y for x,y in zip(d.params,ps) if x.single() is not None}
        for cl in reversed(d.clauses):
            m=member(s.facts+tuple(extra),cl,idx,pm)
            if m[0]=='in':
                v=subst(cl.val,pm) if pm else cl.val
                return subst(v,m[1])
            if m[0]=='out': continue
            if m[0]=='cond': raise NeedSplit(m[2])
            return None
        return None
    def read(s,c,idx,extra=()):
        st=St(); st.facts=s.facts+tuple(extra)
        try: return read_arr(s.ctx,st,c,idx,'goal')
        except Split as e: raise NeedSplit(e.f)
    def closed_step(s,p,cand):
        """unfolding of one recursively defined atom whose definition mentions no recursive atom that is not already there"""
        D=s.ctx.defs; pos={k:i for i,k in enumerate(D)}
        isrec=lambda q: q.kind=='load' and q.args[0] in D
        have={q.id for q in smt.walk_atoms([p]) if isrec(q)}
        def there(q):
            if q.id in have: return True
            for i in have:
                b=_byid[i]
                if b.args[0]==q.args[0] and s.pr(f_and(*[f_eq(x,y) for x,y in zip(b.args[1]+(b.args[2],),q.args[1]+(q.args[2],))])): return True
            return False
        best=None
        for a in sorted(cand,key=lambda a:-pos[a.args[0]]):
            if best and (not s.order or pos[a.args[0]]!=best[2]): break
            d=D[a.args[0]]; mine=pos[a.args[0]]
            if isinstance(d,tuple) and d[0]=='hist': continue
            try: v=s.unfold_atom(a)
            except (NeedSplit,Unsupported): continue
            if v is None or v==apoly(a): continue
            need=None
            try: v=s.ites(v)
            except NeedSplit as e: need=e
            new=[q for q in smt.walk_atoms([v]) if isrec(q) and pos[q.args[0]]>=mine]
            if all(there(q) and q is not a for q in new):
                # the one built on most of what is there first
                if best is None or s.order and len(new)>best[0]: best=(len(new),need,mine,{a.id:v})
        if best is None: return None
        if best[1]: raise best[1]
        return best[3]
    # ---- main
    def split(s,f,p,depth,rounds):
        STATS['splits']+=1
        s.budget[0]-=1
        if depth>MAXSPLIT or s.budget[0]<0: return False
        for g in (f,f_not(f)):
            e=Eq(s.ctx,s.facts+((g,) if g is not True else ()),s.budget); e.log=s.log; e.order=s.order
            if not smt.consistent(e.facts): continue
            if not e.zero(p,depth+1,rounds): return False
        return True
    def zero(s,p,depth=0,rounds=4):
        try:
            r=-1; extra=100
            while r<rounds:
                r+=1
                if not p.t: return True
                p=s.ites(p)
                p=s.sums(p)
                p=s.squares(s.unify(p))
                if not p.t: return True
                q=clear_denoms(p)
                if not q.t: return True
                q=s.unify(s.sums(q))
                if not q.t: return True
                # unfold definitions: newest definition first
                cand=[a for a in p.atoms() if a.kind=='load' and a.args[0] in s.ctx.defs]
                if not cand: break
                mp=s.closed_step(p,cand)
                if mp and extra>0:
                    r-=1; extra-=1
                    p=T.rebuild(p,lambda a: mp.get(a.id)); continue
                mp={}
                order=sorted({a.args[0] for a in cand},key=lambda n:-list(s.ctx.defs).index(n))
                for nm in order:
                    for a in cand:
                        if a.args[0]!=nm: continue
                        v=s.unfold_atom(a)
                        if v is not None and v!=apoly(a): mp[a.id]=v
                    if mp: break
                if not mp: break
                if extra>0 and all(_byid[i].args[2].const() is not None for i in mp): r-=1; extra-=1
                if r==rounds: break
                p=T.rebuild(p,lambda a: mp.get(a.id))
            q=s.combine(p,depth)
            if q is not None: return not q.t or s.zero(q,depth+1,rounds)
            q=s.cuts(p)
            if q is not None: return not q.t or s.zero(q,depth+1,rounds)
            q=s.pin(p)
            if q is not None and q!=p: return not q.t or s.zero(q,depth+1,rounds)
            s.log.append(('residue',p,s.facts))
            return False
        except NeedSplit as e:
            return s.split(e.f,p,depth,rounds)
    def cuts(s,p):
        """resolves conditions inside sums; a sum over a range on which a condition changes becomes two sums"""
        todo=[]
        def simp(p,ex):
            if not any(a.kind in('ite','sum') for a in smt.walk_atoms([p])): return p
            def A(a):
                if a.kind=='ite':
                    c,x,y=a.args
                    if s.pr(c,ex): return simp(x,ex)
                    if s.pr(f_not(c),ex): return simp(y,ex)
                    todo.append((c,ex)); return None
                if a.kind=='sum':
                    v,n,b=T.open_sum(a)
                    b2=simp(b,ex+tuple(x for x in (f_ge(v,I(0)),f_lt(v,n)) if x is not True))
                    return None if b2==b else T.mk_sum(v,I(0),n,b2)
                if a.kind=='fn' and a.args[0]=='id':
                    q=simp(a.args[1],ex); return None if q==a.args[1] else q
                return None
            return T.rebuild(p,A)
        mp={}
        for a in p.atoms():
            if a.kind!='sum': continue
            v,n,b=T.open_sum(a); vid=v.single().id
            rng=tuple(x for x in (f_ge(v,I(0)),f_lt(v,n)) if x is not True)
            del todo[:]
            b2=simp(b,rng)
            if b2!=b: mp[a.id]=T.mk_sum(v,I(0),n,b2); continue
            cut=None
            for c,ex in todo:
                left=[x for x in (c[1] if c[0]=='and' else (c,)) if not s.pr(x,ex)]
                for x in left:
                    g=x if x[0]!='not' else x[1]
                    if vid not in T.f_fv(g):
                        if not any(T.f_fv(y)&T.f_fv(g) for y in ex[2:]): raise NeedSplit(g)
                        continue
                    if g[0]!='le': continue
                    r=g[1].coeff(v.single()); k=r[0].const() if r else None
                    if k not in(1,-1): continue
                    q=-r[1]+1 if k==1 else r[1]
                    if q.fv()<=a.fv: cut=q; break
                if cut is not None: break
            if cut is None: continue
            for q in (f_le(I(0),cut),f_le(cut,n)):
                if not s.pr(q): raise NeedSplit(q)
            mp[a.id]=T.mk_sum(v,I(0),cut,b)+T.mk_sum(v,cut,n,b)
        if not mp: return None
        q=T.rebuild(p,lambda a: mp.get(a.id))
        return q if q!=p else None
    def combine(s,p,depth):
        """sums over the same range whose bodies add up to zero"""
        if depth>3: return None
        groups=[]; rest=Poly({},p.sort)
        for m,c in p.t.items():
            sm=[(i,e) for i,e in m if _byid[i].kind=='sum']
            t=Poly({m:c},p.sort)
            if len(sm)!=1 or sm[0][1]!=1: rest=rest+t; continue
            v,n,b=T.open_sum(_byid[sm[0][0]])
            k=Poly({tuple(x for x in m if x!=sm[0]):c},p.sort)
            for g in groups:
                if g[1]==n or s.pr(f_eq(g[1],n)): g[2]=g[2]+k*subst(b,{v.single().id:g[0]}); g[3]=g[3]+t; g[4]+=1; break
            else: groups.append([v,n,k*b,t,1])
        hit=False
        for v,n,b,t,c in groups:
            if c>1:
                e=Eq(s.ctx,s.facts+tuple(x for x in (f_ge(v,I(0)),f_lt(v,n)) if x is not True),s.budget); e.order=s.order
                if e.zero(b,depth+1,4): hit=True; continue
            rest=rest+t
        return rest if hit else None
    def squares(s,p):
        """sqrt(x)^2 = x where x is not negative"""
        ids={}
        for m in p.t:
            for i,e in m:
                a=_byid[i]
                if abs(e)>=2 and a.kind=='fn' and a.args[0]=='sqrt' and i not in ids: ids[i]=prove_less(s.ctx,s.facts,-a.args[1],False)
        ids={i for i,ok in ids.items() if ok}
        if not ids: return p
        out=Poly({},p.sort)
        for m,c in p.t.items():
            t=Poly({tuple((i,e) for i,e in m if i not in ids):c},p.sort)
            for i,e in m:
                if i not in ids: continue
                x=_byid[i].args[1]; k,r=divmod(abs(e),2)
                if e<0: x=T.recip(x)
                for _ in range(k): t=t*x
                if r: t=t*(apoly(_byid[i]) if e>0 else T.recip(apoly(_byid[i])))
            out=out+t
        return out
    def pin(s,p):
        """replace integer symbols the facts force to a constant"""
        syms=[a for a in smt.walk_atoms([p]) if a.kind=='sym' and a.sort=='I']
        if not syms: return None
        m=smt.model(s.facts)
        if not m: return None
        mp={}
        for a in syms:
            v=m['sizes'].get(a.args[0])
            if v is not None and abs(v)<=64 and s.pr(f_eq(apoly(a),I(v))): mp[a.id]=I(v)
        if not mp: return None
        return subst(p,mp)
    def ites(s,p,extra=()):
        while True:
            its=[a for a in p.atoms() if a.kind=='ite']
            todo=[a for a in p.atoms() if a.kind=='fn' and a.args[0]=='id']
            while todo and not its:
                for b in todo.pop().args[1].atoms():
                    if b.kind=='ite': its.append(b)
                    elif b.kind=='fn' and b.args[0]=='id': todo.append(b)
            if not its: return p
            a=its[0]; c=a.args[0]
            if s.pr(c,extra): v=a.args[1]
            elif s.pr(f_not(c),extra): v=a.args[2]
            else: raise NeedSplit(c)
            def f(x):
                if x is a: return v
                if x.kind=='fn' and x.args[0]=='id':
                    q=T.rebuild(x.args[1],f)
                    return None if q==x.args[1] else q
            p=T.rebuild(p,f)
def T_div(p,c):
    """p = q*c for a single-monomial c"""
    if len(c.t)!=1: 
        return I(0) if not p.t else None
    (m,k),=c.t.items(); d=dict(m); out={}
    for mm,v in p.t.items():
        e=dict(mm)
        for i,x in d.items():
            if e.get(i,0)<x: return None
            e[i]-=x
            if not e[i]: del e[i]
        if (v/k).denominator!=1: return None
        out[tuple(sorted(e.items()))]=v/k
    return Poly(out,p.sort)
def _sub(x,pm): return subst(x,pm) if isinstance(x,Poly) else x
def prove_eq(ctx,facts,l,r,log=None):
    STATS['eq']+=1
    e=Eq(ctx,facts)
    if log is not None: e.log=log
    if not smt.consistent(tuple(facts)): return True
    if e.zero(l-r): return True
    if not any(a in ctx.defs for a in (l-r).arrs()): return False
    e=Eq(ctx,facts); e.order=True
    if log is not None: e.log=log
    return e.zero(l-r)

def prove_less(ctx,facts,d,strict,depth=0,rounds=6):
    """d<0 (or d<=0): from the facts after unfolding definitions, or because a fact says so of an equal term"""
    facts=tuple(facts); e=Eq(ctx,facts)
    if not smt.consistent(facts): return True
    try:
        for _ in range(rounds):
            g=T.f_rlt(d,T.R(0)) if strict else f_not(T.f_rlt(T.R(0),d))
            if smt.prove(facts,g): return True
            for x in lits(facts,d):
                # x: (p,strictly) meaning p<0 or p<=0
                if x[1]!='nz' and (x[1] or not strict) and Eq(ctx,facts,[40]).zero(d-x[0]): return True
            cand=[a for a in d.atoms() if a.kind=='load' and a.args[0] in ctx.defs]
            mp=e.closed_step(d,cand) if cand else None
            if not mp:
                mp={}
                for a in cand:
                    v=e.unfold_atom(a)
                    if v is not None and v!=apoly(a): mp[a.id]=v
            if not mp: break
            d=e.ites(e.sums(T.rebuild(d,lambda a: mp.get(a.id))))
    except NeedSplit as x:
        if depth>6: return False
        for g in (x.f,f_not(x.f)):
            if not smt.consistent(facts+(g,)): continue
            if not prove_less(ctx,facts+(g,),d,strict,depth+1,rounds): return False
        return True
    return False
def prove_nonzero(ctx,facts,d,depth=0,rounds=6):
    facts=tuple(facts); e=Eq(ctx,facts)
    if not smt.consistent(facts): return True
    try:
        for _ in range(rounds):
            g=f_not(T.f_req(d,T.R(0)))
            if smt.prove(facts,g): return True
            for x in lits(facts,d):
                if x[1] is not False and (Eq(ctx,facts,[40]).zero(d-x[0]) or x[1]=='nz' and Eq(ctx,facts,[40]).zero(d+x[0])): return True
            cand=[a for a in d.atoms() if a.kind=='load' and a.args[0] in ctx.defs]
            if not cand: break
            mp=e.closed_step(d,cand)
            if not mp:
                mp={}
                for a in cand:
                    v=e.unfold_atom(a)
                    if v is not None and v!=apoly(a): mp[a.id]=v
            if not mp: break
            d=e.ites(e.sums(T.rebuild(d,lambda a: mp.get(a.id))))
    except NeedSplit as x:
        if depth>6: return False
        for g in (x.f,f_not(x.f)):
            if not smt.consistent(facts+(g,)): continue
            if not prove_nonzero(ctx,facts+(g,),d,depth+1,rounds): return False
        return True
    return False
def lits(facts,d):
    base,insts=smt.gather(facts,T.f_rlt(d,T.R(0)))
    out=[]; work=list(base[:-1])+list(insts)
    while work:
        f=work.pop()
        if not isinstance(f,tuple): continue
        if f[0]=='and': work+=f[1]
        elif f[0]=='rlt': out.append((f[1],True))
        elif f[0]=='not' and f[1][0]=='rlt': out.append((-f[1][1],False))
        elif f[0]=='not' and f[1][0]=='req': out.append((f[1][1],'nz'))
        elif f[0]=='req': out+=[(f[1],False),(-f[1],False)]
    return out
