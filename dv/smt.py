"""Prover for the side conditions: linear integer/real arithmetic in z3 over the monomials of terms,
plus explicitly instantiated lemmas (product monotonicity, triangular numbers, integer square root,
array congruence, quantified facts instantiated by trigger)."""
import z3, time
from . import terms as T
from .terms import Poly,I,R,apoly,_byid

STATS={'queries':0,'time':0.0,'cachehits':0,'unknown':0}
DUMP=None          # optional list collecting SMT-LIB text of proved queries
TIMEOUT=4000

def solve_index(idx,va,actual):
    """v with idx[va:=v]=actual, or None"""
    r=idx.coeff(va)
    if r is not None and va.id not in r[1].fv():
        c,rest=r; k=c.const()
        if k in(1,-1): return (actual-rest).scale(1/k)
        return None if k is not None else polydiv(actual-rest,c)
    # triangular numbers
    for a in idx.atoms():
        if a.kind!='fn' or a.args[0]!='tri': continue
        r=a.args[1].coeff(va)
        if r is None or r[0].const()!=1: continue
        for b in actual.atoms():
            if b.kind=='fn' and b.args[0]=='tri':
                v=b.args[1]-r[1]
                if T.subst(idx,{va.id:v})==actual: return v
    return None
def polydiv(p,c):
    """q with q*c=p (c linear in some atom with constant 1 as its last term), or None"""
    q=Poly({},p.sort); lead=max(c.t,key=lambda m:(sum(e for _,e in m),m))
    for _ in range(12):
        if not p.t: return q
        m=max(p.t,key=lambda m:(sum(e for _,e in m),m)); d=dict(m)
        for i,e in lead:
            if d.get(i,0)<e: return None
            d[i]-=e
            if not d[i]: del d[i]
        k=p.t[m]/c.t[lead]
        if k.denominator!=1: return None
        t=Poly({tuple(sorted(d.items())):k},p.sort); q=q+t; p=p-t*c
    return None
class Forall:
    """for all var: body, instantiated where load(arr,params?,idx) occurs"""
    __slots__=('var','arr','idx','body','params','skip','once','memo')
    def __init__(s,var,arr,idx,body,params=None,skip=(),once=False): s.memo={}; s.once=once; s.var=var; s.arr=arr; s.idx=idx; s.body=body; s.params=params; s.skip=skip
    def __hash__(s): return hash((s.arr,s.idx,s.body))
    def __eq__(s,o): return isinstance(o,Forall) and (s.var,s.arr,s.idx,s.body,s.params)==(o.var,o.arr,o.idx,o.body,o.params)
    def instances(s,a):
        r=s.memo.get(a.id)
        if r is None: r=s.memo[a.id]=tuple(s.instances_(a))
        return r
    def instances_(s,a):
        if s.params is not None:
            if len(s.params)!=len(a.args[1]) : return
            mp={}
            for x,y in zip(s.params,a.args[1]):
                xa=x.single()
                if xa is None: 
                    if x!=y: return
                elif xa.kind=='sym' and xa.args[0].startswith('?'): mp[xa.id]=y
                elif x!=y: return
        else: mp={}
        va=s.var.single()
        idx=T.subst(s.idx,mp) if mp else s.idx
        v=solve_index(idx,va,a.args[2])
        if v is None: return
        if s.skip:
            q=v.single()
            if q is not None and q.kind=='load' and q.args[0] in s.skip: return
        mp=dict(mp); mp[va.id]=v
        yield T.subst(s.body,mp)

class Forall2(Forall):
    """for all v,w: body, instantiated for every pair of reads of the two arrays"""
    __slots__=('trig',)
    def __init__(s,trig,body,once=False):
        Forall.__init__(s,trig[0][0],trig[0][1],trig[0][2],body,None,(),once); s.trig=tuple(trig)
    def __hash__(s): return hash((s.arr,s.body))
    def __eq__(s,o): return isinstance(o,Forall2) and (s.trig,s.body)==(o.trig,o.body)
    def instances(s,a): return ()
    def pairs(s,a,seen):
        """new instances once a is read; seen: the solutions found so far per trigger"""
        for k,(var,arr,idx,params) in enumerate(s.trig):
            if arr!=a.args[0] or tuple(params or ())!=tuple(a.args[1]): continue
            v=solve_index(idx,var.single(),a.args[2])
            if v is None: continue
            mine,other=seen[k],seen[1-k]
            if v in mine: continue
            mine.append(v); w=s.trig[1-k][0].single().id
            for u in list(other):
                key=(k,v,u); r=s.memo.get(key)
                if r is None: r=s.memo[key]=T.subst(s.body,{var.single().id:v,w:u})
                yield r

def walk_atoms(polys):
    """all atoms reachable without entering sum binders"""
    seen=set(); st=list(polys)
    out=[]
    while st:
        p=st.pop()
        if isinstance(p,tuple):
            st.extend(T.f_polys(p)); continue
        for m in p.t:
            for i,_ in m:
                if i in seen: continue
                seen.add(i); a=_byid[i]; out.append(a)
                if a.kind=='sum': st.append(a.args[0]); continue
                def push(x):
                    if isinstance(x,Poly): st.append(x)
                    elif isinstance(x,tuple):
                        if x and isinstance(x[0],str): st.extend(T.f_polys(x))
                        else:
                            for y in x: push(y)
                for x in a.args: push(x)
    return out

_zv={}; _zf={}; _zp={}
class Enc:
    """formula -> z3 (memoised: the same monomial is the same z3 constant everywhere)"""
    def __init__(s):
        s.s=z3.SimpleSolver(); s.s.set('arith.solver',2); s.s.set('timeout',TIMEOUT)
        s.v=_zv
    def mono(s,m,sort):
        k=(m,sort); v=s.v.get(k)
        if v is None:
            nm='*'.join('a%d'%i+('^%d'%e if e!=1 else '') for i,e in m)
            v=z3.Int(nm) if sort=='I' else z3.Real(nm+'r')
            s.v[k]=v
        return v
    def poly(s,p):
        if p.sort=='I':
            # scale to integer coefficients is not always possible; use ToReal-free form
            e=[]
            for m,c in p.t.items():
                if c.denominator!=1: raise NonInt(p)
                e.append((c.numerator if m==() else c.numerator*s.mono(m,'I')))
            return z3.Sum(e) if len(e)>1 else (e[0] if e else z3.IntVal(0)) if not (e and isinstance(e[0],int)) else z3.IntVal(e[0])
        e=[]
        for m,c in p.t.items():
            q=z3.Q(c.numerator,c.denominator)
            e.append(q if m==() else q*s.mono(m,'R'))
        return z3.Sum(e) if len(e)>1 else e[0] if e else z3.RealVal(0)
    def form(s,f):
        if f is True: return z3.BoolVal(True)
        if f is False: return z3.BoolVal(False)
        r=_zf.get(f)
        if r is None:
            if len(_zf)>400000: _zf.clear()
            r=_zf[f]=s.form_(f)
        return r
    def form_(s,f):
        k=f[0]
        if k=='not': return z3.Not(s.form(f[1]))
        if k=='and': return z3.And([s.form(x) for x in f[1]])
        if k=='or': return z3.Or([s.form(x) for x in f[1]])
        if k=='bs': return z3.Bool(f[1])
        p=f[1]
        if p.sort=='I':
            d=1
            for c in p.t.values(): d=d*c.denominator
            if d!=1: p=p.scale(d)
        z=s.poly(p)
        if k=='le': return z<=0
        if k=='eq': return z==0
        if k=='rlt': return z<0
        if k=='req': return z==0
        raise Exception(k)
class NonInt(Exception): pass

_ground={}
def ground(q):
    """reads which the body of an assumption makes independently of its bound variables"""
    r=_ground.get(q)
    if r is None:
        bound={x[0].single().id for x in getattr(q,'trig',())}|{q.var.single().id}|{i for x in q.params or () for i in x.fv() if T._byid[i].kind=='sym' and T._byid[i].args[0].startswith('?')}
        r=_ground[q]=[a for a in walk_atoms([q.body]) if a.kind=='load' and not apoly(a).fv()&bound] if isinstance(q.body,tuple) else []
    return r
def gather(facts,goal):
    base=[f for f in facts if not isinstance(f,Forall)]
    qs=[f for f in facts if isinstance(f,Forall)]
    if goal is not None: base=base+[goal]
    done=set(); insts=[]; seen2={i:([],[]) for i,q in enumerate(qs) if isinstance(q,Forall2)}
    if qs:
        work=base; seenl=set()
        for rnd in range(4):
            atoms=[a for a in walk_atoms([x for x in work if x is not True and x is not False]) if a.kind=='load']
            if rnd==0: atoms+=[a for q in qs for a in ground(q)]
            new=[]
            for a in atoms:
                if a.id in seenl: continue
                seenl.add(a.id)
                for i in seen2:
                    if qs[i].once and rnd: continue
                    for ins in qs[i].pairs(a,seen2[i]):
                        if ins is True or ins in done: continue
                        done.add(ins); new.append(ins)
                for q in qs:
                    if q.arr==a.args[0] and not(q.once and rnd):
                        for ins in q.instances(a):
                            if ins is True or ins in done: continue
                            done.add(ins); new.append(ins)
            if not new or len(insts)>150: break
            insts+=new; work=new
    return base,insts

def content(c):
    from math import gcd
    g=0
    for v in c.t.values():
        if v.denominator!=1: return 1
        g=gcd(g,v.numerator)
    return g or 1

_prod={}
def lemmas(forms):
    """definitional axioms and product lemmas for the atoms in forms"""
    out=[]; polys=[]
    for f in forms: polys+=list(T.f_polys(f))
    atoms=walk_atoms(list(forms) if forms else [])
    tris=[]; loads={}; isq=[]
    for a in atoms:
        if a.kind=='fn':
            n=a.args[0]
            if n=='tri': tris.append(a)
            elif n=='isqrt':
                r=apoly(a); x=a.args[1]; isq.append((r,x))
                out+= [T.f_ge(r,I(0)),T.f_or(T.f_lt(x,I(0)),T.f_le(r*r,x)),T.f_or(T.f_lt(x,I(0)),T.f_lt(x,r*r+r.scale(2)+1))]
            elif n=='ediv':
                q=apoly(a); P,M=a.args[1],a.args[2]; pos=T.f_lt(M,I(1))
                out+= [T.f_or(pos,T.f_le(M*q,P)),T.f_or(pos,T.f_lt(P,M*q+M))]
            elif n in('band','bor','bxor'):
                r=apoly(a); x,y=a.args[1],a.args[2]; neg=T.f_or(T.f_lt(x,I(0)),T.f_lt(y,I(0)))
                out+= [T.f_or(neg,f) for f in ([T.f_ge(r,I(0)),T.f_le(r,x),T.f_le(r,y)] if n=='band' else [T.f_ge(r,x),T.f_ge(r,y),T.f_le(r,x+y)] if n=='bor' else [T.f_ge(r,I(0)),T.f_le(r,x+y)])]
            elif n=='sqrt':
                r=apoly(a); x=a.args[1]
                out+= [T.f_not(T.f_rlt(r,R(0))),T.f_or(T.f_not(T.f_rlt(R(0),x)),T.f_rlt(R(0),r))]
        elif a.kind=='div':
            q=apoly(a); p,c=a.args
            out+= [T.f_le(q.scale(c),p),T.f_le(p,q.scale(c)+(c-1))]
        elif a.kind=='load': loads.setdefault((a.args[0],len(a.args[1])),[]).append(a)
        elif a.kind=='ite' and isinstance(a.args[0],tuple):
            c,x,y=a.args; z=apoly(a)
            E=T.f_eq if a.sort=='I' else T.f_req
            out+= [T.f_or(T.f_not(c),E(z,x)),T.f_or(c,E(z,y))]
    for a in tris:
        P=a.args[1]; t=apoly(a)
        out.append(T.f_ge(t,I(0)))
        out.append(T.f_or(T.f_lt(P,I(0)),T.f_ge(t,P)))
        out.append(T.f_or(T.f_lt(P,I(2)),T.f_ge(t,P+1)))
        # relation with squares if present
        sq=(P*P)
        if any(m in p.t for p in polys for m in sq.t if sum(e for _,e in m)>=2):
            out.append(T.f_eq(t.scale(2),sq+P))
    for i,a in enumerate(tris):
        P=a.args[1]; t=apoly(a)
        for K in (0,1,2,3,4):
            out.append(T.f_or(T.f_lt(P,I(0)),T.f_gt(P,I(K)),T.f_le(t,I(K*(K+1)//2))))
            out.append(T.f_or(T.f_lt(P,I(K)),T.f_ge(t,I(K*(K+1)//2))))
        for K in (2**10,2**20+8):
            out.append(T.f_or(T.f_lt(P,I(0)),T.f_gt(P,I(K)),T.f_le(t,I(K*(K+1)//2))))
        for r,x in isq:
            # (2P+k)^2 = 8 tri(P)+1 (+8P+8 | -8P): compare the integer square root of x with it
            for L,L2 in ((P.scale(2)+1,t.scale(8)+1),(P.scale(2)+3,t.scale(8)+P.scale(8)+9),(P.scale(2)-1,t.scale(8)-P.scale(8)+1)):
                out.append(T.f_or(T.f_lt(L,I(0)),T.f_lt(x,L2),T.f_ge(r,L)))
                out.append(T.f_or(T.f_lt(L,I(0)),T.f_ge(x,L2),T.f_lt(r,L)))
                out.append(T.f_or(T.f_lt(L,I(0)),T.f_le(x,L2),T.f_not(T.f_eq(r*r,x)),T.f_gt(r,L)))
                out.append(T.f_or(T.f_lt(L,I(0)),T.f_not(T.f_eq(x,L2)),T.f_and(T.f_eq(r,L),T.f_eq(r*r,x))))
        for b in tris[i+1:]:
            P,Q=a.args[1],b.args[1]; ta,tb=apoly(a),apoly(b)
            for (X,Y,tx,ty) in((P,Q,ta,tb),(Q,P,tb,ta)):
                out.append(T.f_or(T.f_lt(X,I(-1)),T.f_not(T.f_lt(X,Y)),T.f_le(tx+X+1,ty)))
                out.append(T.f_or(T.f_lt(X,I(-1)),T.f_not(T.f_eq(X+1,Y)),T.f_eq(tx+X+1,ty)))
                # next after next: Y>=X+2 -> tri(Y) >= tri(X)+2X+3
                out.append(T.f_or(T.f_lt(X,I(-1)),T.f_not(T.f_le(X+2,Y)),T.f_le(tx+X.scale(2)+3,ty)))
            out.append(T.f_or(T.f_not(T.f_eq(P,Q)),T.f_eq(ta,tb)))
            d=(P-Q).const()
            if d is not None and 0<abs(d)<=4:
                # tri(Q+d)=tri(Q)+sum
                d=int(d)
                lo,hi,tl,th=(Q,d,tb,ta) if d>0 else (P,-d,ta,tb)
                out.append(T.f_eq(th,tl+lo.scale(hi)+hi*(hi+1)//2))
    for r,x in isq:
        # an exact square root of an odd number is odd
        if x.t.get((),0)%2==1 and all(c.denominator==1 and c%2==0 for m,c in x.t.items() if m):
            h=T.idiv(r,2)
            out+= [T.f_le(h.scale(2),r),T.f_le(r,h.scale(2)+1),T.f_or(T.f_not(T.f_eq(r*r,x)),T.f_eq(r,h.scale(2)+1))]
    for k,ls in loads.items():
        if len(ls)>10: ls=ls[:10]
        for i,a in enumerate(ls):
            for b in ls[i+1:]:
                if a.sort!=b.sort: continue
                c=T.f_and(*[T.f_eq(x,y) for x,y in zip(a.args[1]+(a.args[2],),b.args[1]+(b.args[2],))])
                if c is False: continue
                E=T.f_eq if a.sort=='I' else T.f_req
                out.append(T.f_or(T.f_not(c),E(apoly(a),apoly(b))))
    # product lemmas
    seen=set()
    def prod(c,x):
        g=content(c)
        if g>1: c=c.scale(T.Fraction(1,g))
        if sum(1 for v in c.t.values() if v>0)*2<len(c.t): c=-c
        if (c,x) in seen or (-c,x) in seen: return
        seen.add((c,x))
        r=_prod.get((c,x))
        if r is None:
            if len(_prod)>200000: _prod.clear()
            cx=c*x
            nx=T.f_lt(x,I(0))
            r=_prod[(c,x)]=(T.f_or(nx,T.f_lt(c,I(1)),T.f_ge(cx,x)),
              T.f_or(nx,T.f_gt(c,I(-1)),T.f_le(cx,-x)),
              T.f_or(T.f_not(T.f_eq(c,I(0))),T.f_eq(cx,I(0))),
              T.f_or(T.f_not(T.f_eq(c,I(1))),T.f_eq(cx,x)),T.f_or(T.f_not(T.f_eq(c,I(-1))),T.f_eq(cx,-x)))
        out.extend(r)
    cof={}
    allp=polys+[p for f in out for p in T.f_polys(f)]
    for p in allp:
        if p.sort!='I': continue
        nl={i for m in p.t if sum(e for _,e in m)>=2 for i,_ in m}
        for i in nl:
            a=_byid[i]
            r=p.coeff(a)
            if r is None:
                # square: treat one factor
                c={}
                for m,v in p.t.items():
                    d=dict(m)
                    if d.get(i,0)>=1:
                        d[i]-=1
                        if not d[i]: del d[i]
                        c[tuple(sorted(d.items()))]=v
                c=Poly(c,'I'); prod(c,apoly(a)); prod(c-1,apoly(a)); prod(c+1,apoly(a)); continue
            c=r[0]
            if c.const() is None:
                if c.degree()<=1: prod(c,apoly(a))
                else: prod(c,apoly(a))
                cof.setdefault(i,[])
                if c not in cof[i] and len(cof[i])<7: cof[i].append(c)
    # squares of small integers
    for i in {q[0][0] for p in allp if p.sort=='I' for q in p.t if len(q)==1 and q[0][1]==2}:
        x=apoly(_byid[i]); x2=x*x
        for K in (0,1,2): out.append(T.f_ge(x2,x.scale(2*K+1)-K*(K+1)))     # (x-K)(x-K-1) >= 0
        for K in (0,1,2,3): out.append(T.f_or(T.f_lt(x,I(0)),T.f_gt(x,I(K)),T.f_le(x2,x.scale(K))))
    # squares of linear forms
    sqs=set()
    for f in forms:
        for p in T.f_polys(f):
            if p.sort!='I' or p.degree()!=2: continue
            L=square_root(p)
            if L is None or L in sqs: continue
            sqs.add(L); L2=L*L
            out+= [T.f_ge(L2,L),T.f_ge(L2,-L)]+[T.f_or(T.f_lt(L,I(0)),T.f_gt(L,I(1<<k)),T.f_le(L2,L.scale(1<<k))) for k in (20,21)]
    # products of bounded quantities
    ub={}
    for f in forms:
        if f[0]=='le':
            p=f[1]
            if len(p.t)==2 and () in p.t:
                (mm,v),=[(q,w) for q,w in p.t.items() if q]
                if v==1 and len(mm)==1 and mm[0][1]==1: ub[mm[0][0]]=min(ub.get(mm[0][0],-p.t[()]),-p.t[()])
    if ub:
        rel=[]
        for f in forms:
            if f[0]=='le' and len(f[1].t)<=3:
                ms=[(q,w) for q,w in f[1].t.items() if q]
                if len(ms)==2 and all(len(q)==1 and q[0][1]==1 for q,_ in ms) and {w for _,w in ms}=={1,-1}:
                    x,=[q[0][0] for q,w in ms if w==1]; y,=[q[0][0] for q,w in ms if w==-1]; rel.append((x,y,f[1].t.get((),0)))
        for _ in range(3):
            for x,y,k in rel:
                if y in ub and ub.get(x,1<<200)>ub[y]-k: ub[x]=ub[y]-k
        sq={q for p in allp if p.sort=='I' for q in p.t if sum(e for _,e in q)==2}
        for q in sq:
            ids=[i for i,e in q for _ in range(e)]
            if len(ids)==2 and all(i in ub for i in ids):
                x,y=[apoly(_byid[i]) for i in ids]; X,Y=[I(ub[i]) for i in ids]
                out.append(T.f_or(T.f_lt(x,I(0)),T.f_lt(y,I(0)),T.f_gt(x,X),T.f_gt(y,Y),T.f_le(x*y,X*Y)))
    for i,cs in cof.items():
        x=apoly(_byid[i])
        for j,c in enumerate(cs):
            for d in cs[j+1:]:
                e=c-d
                if e.const() is None and e.degree()<=1: prod(e,x)
    return out

def congruences(forms):
    """equal index, equal element: for the arrays of which more reads occur than lemmas() looks at"""
    by={}; out=[]
    for a in walk_atoms(list(forms)):
        if a.kind=='load' and a.sort=='I': by.setdefault((a.args[0],len(a.args[1])),[]).append(a)
    for ls in by.values():
        if len(ls)<=10: continue
        ls=ls[:48]
        for i,a in enumerate(ls):
            for b in ls[max(i+1,10 if i<10 else 0):]:
                c=T.f_and(*[T.f_eq(x,y) for x,y in zip(a.args[1]+(a.args[2],),b.args[1]+(b.args[2],))])
                if c is not False: out.append(T.f_or(T.f_not(c),T.f_eq(apoly(a),apoly(b))))
    return out

def square_root(p):
    """L (linear, two or more terms) with the quadratic part of p equal to L*L or -L*L"""
    q={m:c for m,c in p.t.items() if sum(e for _,e in m)==2}
    if len(q)<3: return None
    sg=1 if all(c>0 for m,c in q.items() if len(m)==1) else -1
    t={}; a0=None
    for m,c in sorted(q.items()):
        if len(m)==1:
            r=T._isq(c*sg)
            if r is None: return None
            if a0 is None: a0=m[0][0]; t[((a0,1),)]=r
            else:
                x=q.get(tuple(sorted([(a0,1),(m[0][0],1)])),0)*sg
                t[((m[0][0],1),)]=r if x>0 else -r
    if a0 is None: return None
    L=Poly(t,'I'); L2=L*L
    return L if {m:c*sg for m,c in q.items()}==L2.t else None

def norm_ediv(facts,p):
    """drop quotients which the facts determine to be zero"""
    if not T.EDIV[0] or not isinstance(p,Poly): return p
    def A(a):
        if a.kind=='fn' and a.args[0]=='ediv':
            P,M=norm_ediv(facts,a.args[1]),norm_ediv(facts,a.args[2])
            if prove(facts,T.f_and(T.f_ge(P,I(0)),T.f_lt(P,M))): return I(0)
            return T.ediv(P,M)
        return T.rebuild_atom(a,lambda q: norm_ediv(facts,q) if isinstance(q,Poly) else q)
    return T.rebuild(p,A)

_cache={}
import itertools
def _relevant(base,goal):
    return base
def check_unsat(facts,extra,want_model=False):
    """True if facts & extra is unsat"""
    base,insts=gather(facts,extra)
    forms=[f for f in base+insts if f is not True]
    if any(f is False for f in forms): return True
    e=Enc(); ctx=e.s.ctx.ref(); sv=e.s.solver
    for f in forms: z3.Z3_solver_assert(ctx,sv,e.form(f).ast)
    t=time.time()
    r=e.s.check() if not want_model else None
    STATS['queries']+=1
    if r!=z3.unsat:
        STATS['full']=STATS.get('full',0)+1
        for f in lemmas(forms):
            if f is True: continue
            z3.Z3_solver_assert(ctx,sv,e.form(f).ast)
        r=e.s.check()
        if r==z3.sat and not want_model:
            more=congruences(forms)
            if more:
                for f in more: z3.Z3_solver_assert(ctx,sv,e.form(f).ast)
                r=e.s.check()
    STATS['time']+=time.time()-t
    if r==z3.unsat:
        if DUMP is not None: DUMP.append(e.s.to_smt2())
        return True
    if r==z3.unknown: STATS['unknown']+=1
    if want_model and r==z3.sat: return e.s.model()
    return False

def prove(facts,goal):
    if goal is True: return True
    if goal is False: neg=True
    else: neg=T.f_not(goal)
    if neg in facts and goal is not False: return False if len(facts)<2 else _p(facts,neg)
    if goal in facts: return True
    if isinstance(goal,tuple) and goal[0]=='and': return all(prove(facts,g) for g in goal[1])
    return _p(facts,neg)
def _p(facts,neg):
    k=(frozenset(facts),neg)
    r=_cache.get(k)
    if r is not None: STATS['cachehits']+=1; return r
    r=check_unsat(facts,neg)
    _cache[k]=r
    return r
def consistent(facts):
    """not provably contradictory"""
    return not prove(facts,False)

def model(facts,want=None):
    """integer/real values of symbols and array cells consistent with the facts (best effort), or None"""
    base,insts=gather(facts,None)
    forms=[f for f in base+insts if f is not True]
    if any(f is False for f in forms): return None
    e=Enc()
    try:
        for f in forms+lemmas(forms):
            if f is not True: e.s.add(e.form(f))
        atoms=walk_atoms(forms)
        syms=[a for a in atoms if a.kind=='sym' and a.sort=='I']
        for a in syms: e.mono(((a.id,1),),'I')
        # prefer small sizes
        for lim in (40,300,None):
            e.s.push()
            if lim is not None:
                for a in syms:
                    v=e.mono(((a.id,1),),'I'); e.s.add(v<=lim,v>=-lim)
            r=e.s.check()
            if r==z3.sat: break
            e.s.pop()
        else: return None
        m=e.s.model(); out={'sizes':{},'cells':[]}
        for a in syms:
            v=m.eval(e.mono(((a.id,1),),'I'),model_completion=True); out['sizes'][a.args[0]]=v.as_long()
        for a in atoms:
            if a.kind=='load' and not a.args[1]:
                try:
                    ix=m.eval(e.poly(a.args[2]),model_completion=True).as_long()
                    v=m.eval(e.mono(((a.id,1),),a.sort),model_completion=True)
                    v=v.as_long() if a.sort=='I' else float(v.as_fraction()) if z3.is_rational_value(v) else None
                    if v is not None: out['cells'].append((a.args[0],ix,v))
                except Exception: pass
        return out
    except (NonInt,z3.Z3Exception): return None
