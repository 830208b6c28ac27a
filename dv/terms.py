"""Terms: polynomials with rational coefficients over hash-consed atoms, and formulas over them.
Sorts: 'I' (mathematical integers) and 'R' (mathematical reals)."""
from fractions import Fraction
import itertools, sys
sys.setrecursionlimit(100000)

_atoms={}      # key -> Atom
_byid=[]
_ctr=itertools.count()

class Atom:
    __slots__=('kind','args','sort','id','fv','depth','arrs','key')
    def __repr__(s): return show_atom(s)

def _mk(kind,args,sort,key):
    k=(kind,sort)+key
    a=_atoms.get(k)
    if a is not None: return a
    a=Atom(); a.kind=kind; a.args=args; a.sort=sort; a.key=k; a.id=len(_byid)
    fv=set(); depth=0; arrs=set()
    if kind=='sym': fv.add(a.id)
    def rec(x):
        nonlocal depth
        if isinstance(x,Poly):
            fv.update(x.fv()); depth=max(depth,x.depth()); arrs.update(x.arrs())
        elif isinstance(x,tuple):
            for y in x: rec(y)
    for x in args: rec(x)
    if kind=='load': arrs.add(args[0])
    if kind=='sum':
        d=args[2]
        fv.discard(bsym(d).id); depth=max(depth,d+1)
    a.fv=frozenset(fv); a.depth=depth; a.arrs=frozenset(arrs)
    _atoms[k]=a; _byid.append(a)
    return a

class Poly:
    __slots__=('t','sort','_h','_fv','_d','_ar')
    def __init__(s,t,sort): s.t=t; s.sort=sort; s._h=None; s._fv=None; s._d=None; s._ar=None
    def __hash__(s):
        if s._h is None: s._h=hash((s.sort,frozenset(s.t.items())))
        return s._h
    def __eq__(s,o): return s is o or (isinstance(o,Poly) and s.sort==o.sort and hash(s)==hash(o) and s.t==o.t)
    def __ne__(s,o): return not s==o
    def fv(s):
        if s._fv is None:
            r=set()
            for m in s.t:
                for i,_ in m: r|=_byid[i].fv
            s._fv=frozenset(r)
        return s._fv
    def depth(s):
        if s._d is None: s._d=max([_byid[i].depth for m in s.t for i,_ in m],default=0)
        return s._d
    def arrs(s):
        if s._ar is None:
            r=set()
            for m in s.t:
                for i,_ in m: r|=_byid[i].arrs
            s._ar=frozenset(r)
        return s._ar
    def const(s):
        """value if constant else None"""
        if not s.t: return Fraction(0)
        if len(s.t)==1 and () in s.t: return s.t[()]
        return None
    def atoms(s): return [_byid[i] for i in sorted({i for m in s.t for i,_ in m})]
    def __add__(s,o):
        o=lift(o,s.sort)
        if len(s.t)<len(o.t): s,o=o,s
        t=dict(s.t)
        for m,c in o.t.items():
            v=t.get(m,0)+c
            if v: t[m]=v
            else: t.pop(m,None)
        return Poly(t,s.sort)
    __radd__=__add__
    def __neg__(s): return Poly({m:-c for m,c in s.t.items()},s.sort)
    def __sub__(s,o): return s+(-lift(o,s.sort))
    def __rsub__(s,o): return (-s)+o
    def __mul__(s,o):
        o=lift(o,s.sort)
        c=o.const()
        if c is not None: return s.scale(c)
        c=s.const()
        if c is not None: return o.scale(c)
        t={}
        fix=False
        for m1,c1 in s.t.items():
            for m2,c2 in o.t.items():
                m,special=mulmono(m1,m2)
                fix=fix or special
                v=t.get(m,0)+c1*c2
                if v: t[m]=v
                else: t.pop(m,None)
        r=Poly(t,s.sort)
        return fixspecial(r) if fix else r
    __rmul__=__mul__
    def scale(s,c):
        if c==0: return Poly({},s.sort)
        if c==1: return s
        return Poly({m:v*c for m,v in s.t.items()},s.sort)
    def __repr__(s): return show(s)
    def single(s):
        """the atom if the poly is exactly one atom"""
        if len(s.t)==1:
            (m,c),=s.t.items()
            if c==1 and len(m)==1 and m[0][1]==1: return _byid[m[0][0]]
        return None
    def coeff(s,atom):
        """(c, rest) with s = c*atom + rest; c free of atom to first degree; None if degree>1"""
        c={};r={}
        for m,v in s.t.items():
            e=dict(m).get(atom.id,0)
            if e==0: r[m]=v
            elif e==1: c[tuple(x for x in m if x[0]!=atom.id)]=v
            else: return None
        return Poly(c,s.sort),Poly(r,s.sort)
    def degree(s): return max([sum(abs(e) for _,e in m) for m in s.t],default=0)

def mulmono(m1,m2):
    if not m1: return m2,False
    if not m2: return m1,False
    d=dict(m1); sp=False
    for i,e in m2:
        v=d.get(i,0)+e
        if v: d[i]=v
        else: d.pop(i,None)
        if abs(v)>=2 and _byid[i].kind=='fn' and _byid[i].args[0]=='sqrt': sp=True
        if v>0 and _byid[i].kind=='inv': sp=True
    return tuple(sorted(d.items())),sp

def fixspecial(p):
    """reduce sqrt(x)^2 -> x"""
    out=Poly({},p.sort)
    for m,c in p.t.items():
        r=None; mm=[]
        for i,e in m:
            a=_byid[i]
            if a.kind=='fn' and a.args[0]=='sqrt' and abs(e)>=2:
                k=int(e/2) # toward zero
                base=a.args[1]
                f=powp(base,k) if k>0 else powp(recip(base),-k)
                r=f if r is None else r*f
                if e-2*k: mm.append((i,e-2*k))
            else: mm.append((i,e))
        q=Poly({tuple(mm):c},p.sort)
        if r is not None: q=q*r
        out=out+q
    return out

def powp(p,k):
    r=lift(1,p.sort)
    for _ in range(k): r=r*p
    return r

def lift(x,sort):
    if isinstance(x,Poly): return x
    if x==0: return Poly({},sort)
    return Poly({():Fraction(x)},sort)
def I(x): return lift(x,'I')
def R(x): return lift(x,'R')
def apoly(a): return Poly({((a.id,1),):Fraction(1)},a.sort)

def sym(name,sort): return apoly(_mk('sym',(name,),sort,(name,)))
_fresh=itertools.count()
def fresh(name,sort='I'): return sym('%s#%d'%(name,next(_fresh)),sort)
def bsym(d): return _mk('sym',('$b%d'%d,),'I',('$b%d'%d,))
def fn(name,*args,sort='R'): return apoly(_mk('fn',(name,)+args,sort,(name,)+args))
def sqrt_(p):
    c=p.const()
    if c is not None:
        import math
        if c>=0:
            a=math.isqrt(c.numerator); b=math.isqrt(c.denominator)
            if a*a==c.numerator and b*b==c.denominator: return R(Fraction(a,b))
    return fn('sqrt',p)
def load(arr,params,idx,sort):
    params=tuple(params)
    return apoly(_mk('load',(arr,params,idx),sort,(arr,params,idx)))
def recip(p):
    c=p.const()
    if c is not None and c!=0: return lift(1/c,p.sort)
    if len(p.t)==1:
        (m,c),=p.t.items()
        return Poly({tuple((i,-e) for i,e in m):1/c},p.sort) if m else lift(1/c,p.sort)
    # canonical scaling: leading coefficient (smallest monomial) 1
    m0=min(p.t); c0=p.t[m0]
    q=p.scale(1/c0)
    a=_mk('fn',('id',q),p.sort,('id',q))   # compound denominator atom: exponent -1 means 1/q
    return Poly({((a.id,-1),):1/c0},p.sort)
def expand_ids(p):
    """replace positive powers of compound-denominator atoms by their value (done on demand)"""
    out=Poly({},p.sort); ch=False
    for m,c in p.t.items():
        q=None; mm=[]
        for i,e in m:
            a=_byid[i]
            if e>0 and a.kind=='fn' and a.args[0]=='id':
                f=powp(a.args[1],e); q=f if q is None else q*f; ch=True
            else: mm.append((i,e))
        r=Poly({tuple(mm):c},p.sort)
        out=out+(r if q is None else r*q)
    return out if ch else p

# integer helpers -------------------------------------------------
def idiv(p,c):
    """floor division by positive constant c"""
    if c==1: return p
    if all((v/c).denominator==1 for v in p.t.values()): return p.scale(Fraction(1,c))
    k=p.const()
    if k is not None: return I(k.numerator//c if k.denominator==1 else (k/c).__floor__())
    # pull out divisible part
    div={m:v/c for m,v in p.t.items() if (v/c).denominator==1}
    rest=Poly({m:v for m,v in p.t.items() if m not in div},'I')
    if c%2==0 and c>2 and rest.t and not div:
        g=c
        while g>1 and not all((v/g).denominator==1 for v in rest.t.values()): g//=2
        if g>1: return idiv(rest.scale(Fraction(1,g)),c//g)
    if c==2:
        P=tri_arg(p)
        if P is not None: return tri(P)
        if div:
            P=tri_arg(rest)
            if P is not None: return Poly(div,'I')+tri(P)
        for q,d in ((p,{}),(rest,div)):
            P=tri_arg(q,True)
            if P is not None:
                left=q-P*P-P
                if all((v/2).denominator==1 for v in left.t.values()): return Poly(d,'I')+tri(P)+left.scale(Fraction(1,2))
    return Poly(div,'I')+apoly(_mk('div',(rest,c),'I',(rest,c)))
def imod(p,c):
    return p-idiv(p,c).scale(c)
def tri_arg(q,near=False):
    """P with q == P*P+P, or None (P linear)"""
    sq=[(m,v) for m,v in q.t.items() if sum(e for _,e in m)==2]
    lin=[]
    for m,v in sq:
        if len(m)==1 and m[0][1]==2:
            r=_isq(v)
            if r is None: return None
            lin.append((m[0][0],r))
    if not lin: return None
    lin.sort()
    a0,r0=lin[0]
    # signs from cross terms with first
    t={((a0,1),):r0}
    for a,r in lin[1:]:
        m=tuple(sorted([(a0,1),(a,1)])); v=q.t.get(m,0)
        if v==2*r0*r: t[((a,1),)]=r
        elif v==-2*r0*r: t[((a,1),)]=-r
        else: return None
    # constant: linear coefficient of a0: 2*r0*k + r0
    k=(q.t.get(((a0,1),),Fraction(0))-r0)/(2*r0)
    if k.denominator!=1: return None
    P=Poly(t,'I')+k
    if near: return P
    if P*P+P==q: return canon_tri(P)
    return None
def _isq(v):
    import math
    if v<=0 or v.denominator!=1: return None
    r=math.isqrt(v.numerator)
    return Fraction(r) if r*r==v else None
def canon_tri(P):
    Q=-P-1
    # choose representative with positive leading coefficient
    m=min(k for k in P.t if k!=())
    return P if P.t[m]>0 else Q
def tri(P): 
    c=P.const()
    if c is not None: return I(c*(c+1)/2)
    return fn('tri',P,sort='I')

def ite(c,a,b):
    if c is True: return a
    if c is False: return b
    if a==b: return a
    if isinstance(c,tuple) and c[0]=='not': c,a,b=c[1],b,a
    return apoly(_mk('ite',(c,a,b),a.sort,(c,a,b)))

def mk_sum(var,lo,hi,body):
    """Sum_{lo<=var<hi} body; var is a sym Poly"""
    va=var.single(); sort=body.sort
    out=Poly({},sort)
    n=hi-lo
    k=n.const()
    if k is not None and k<=64:
        for s in range(int(max(k,0))): out=out+subst(body,{va.id:lo+s})
        return out
    groups={}
    for m,c in body.t.items():
        ind=[];dep=[]
        for i,e in m: (dep if va.id in _byid[i].fv else ind).append((i,e))
        groups.setdefault(tuple(dep),[]).append((tuple(ind),c))
    for dep,lst in groups.items():
        b=Poly({dep:Fraction(1)},sort)
        s=_sumatom(va,lo,n,b)
        out=out+s*Poly({},sort).__add__(_sumpoly(lst,sort))
    return out
def _sumpoly(lst,sort):
    p=Poly({},sort)
    for m,c in lst: p=p+Poly({m:c},sort)
    return p
def _orient(body,va):
    """sign of the bound variable in the first index expression that contains it"""
    def walk(p):
        for m in p.t:
            for i,e in m:
                a=_byid[i]
                if va.id in a.fv:
                    if a.kind=='load':
                        for q in tuple(a.args[1])+(a.args[2],):
                            if va.id in q.fv():
                                c=q.coeff(va)
                                if c is not None and c[0].t:
                                    lead=c[0].t[min(c[0].t)]
                                    return 1 if lead>0 else -1
                    elif a.kind=='sum':
                        r=walk(a.args[1])
                        if r: return r
                    elif a.kind=='fn' or a.kind=='ite':
                        for q in a.args:
                            if isinstance(q,Poly):
                                r=walk(q)
                                if r: return r
        return 0
    return walk(body)
def _sumatom(va,lo,n,body):
    d=body.depth()
    b=apoly(bsym(d))
    body1=subst(body,{va.id:lo+b})
    if _orient(body1,bsym(d))<0:
        body1=subst(body,{va.id:lo+n-1-b})
    if not body1.t: return Poly({},body.sort)
    if len(body1.t)==1 and body1.const() is None:
        (m,c),=body1.t.items()
        ind=[x for x in m if bsym(d).id not in _byid[x[0]].fv]
        if c!=1 or (ind and len(ind)<len(m)):
            dep=tuple(x for x in m if bsym(d).id in _byid[x[0]].fv)
            return Poly({tuple(ind):c},body.sort)*_sumatom_raw(d,n,Poly({dep:Fraction(1)},body.sort))
        return _sumatom_raw(d,n,body1)
    if len(body1.t)>1:   # normal form changed under substitution: distribute again
        v=fresh('s'); return mk_sum(v,I(0),n,subst(body1,{bsym(d).id:v}))
    return _sumatom_raw(d,n,body1)
def _sumatom_raw(d,n,body):
    d2=body.depth()
    if d2!=d: body=subst(body,{bsym(d).id:apoly(bsym(d2))}); d=d2
    return apoly(_mk('sum',(n,body,d),body.sort,(n,body,d)))
def open_sum(a):
    """(var poly, n, body) with fresh variable"""
    n,body,d=a.args
    v=fresh('k')
    return v,n,subst(body,{bsym(d).id:v})

# ---- substitution / rewriting ----------------------------------------
def subst(x,mp,memo=None):
    if memo is None: memo={}
    keys=mp.keys()
    def S(p):
        if isinstance(p,Poly):
            if not (p.fv() & keys): return p
            r=memo.get(p)
            if r is None:
                r=rebuild(p,A); memo[p]=r
            return r
        if isinstance(p,tuple): return mkform(p,S)
        return p
    ks=frozenset(keys)
    keys=ks
    def A(a):
        if not (a.fv & ks): return None
        k=a.kind
        if k=='sym': return mp[a.id]
        return rebuild_atom(a,S)
    return S(x)

def rebuild(p,A):
    """A(atom)-> Poly or None(unchanged)"""
    out=Poly({},p.sort); plain={}
    for m,c in p.t.items():
        q=None; keep=[]
        for i,e in m:
            r=A(_byid[i])
            if r is None: keep.append((i,e))
            else:
                f=powp(r,e) if e>0 else powp(recip(r),-e)
                q=f if q is None else q*f
        if q is None: plain[m]=plain.get(m,0)+c
        else: out=out+Poly({tuple(keep):c},p.sort)*q
    if plain: out=out+Poly({m:c for m,c in plain.items() if c},p.sort)
    return out

EDIV=[False]
def ediv(p,M):
    """floor(p/M) for a positive run-time M"""
    k=M.const()
    if k is not None and k.denominator==1 and k>0: return idiv(p,int(k))
    a=M.single()
    if a is not None:
        r=p.coeff(a)
        if r is not None and r[0].t: return r[0]+ediv(r[1],M)
    if not p.t: return I(0)
    EDIV[0]=True
    return fn('ediv',p,M,sort='I')
def rebuild_atom(a,S):
    k=a.kind
    if k=='load': return load(a.args[0],[S(x) for x in a.args[1]],S(a.args[2]),a.sort)
    if k=='fn':
        if a.args[0]=='sqrt': return sqrt_(S(a.args[1]))
        if a.args[0]=='id': return S(a.args[1])
        if a.args[0]=='tri': 
            P=S(a.args[1]); return tri(P) if P.const() is not None else tri(canon_tri(P))
        if a.args[0]=='ediv': return ediv(S(a.args[1]),S(a.args[2]))
        return fn(a.args[0],*[S(x) if isinstance(x,Poly) else x for x in a.args[1:]],sort=a.sort)
    if k=='ite': return ite(S(a.args[0]) if isinstance(a.args[0],tuple) else a.args[0],S(a.args[1]),S(a.args[2]))
    if k=='div': return idiv(S(a.args[0]),a.args[1])
    if k=='sum':
        v,n,b=open_sum(a)
        return mk_sum(v,I(0),S(n),S(b))
    if k=='sym': return apoly(a)
    raise Exception(k)

# ---- formulas ---------------------------------------------------------
def f_not(f):
    if f is True: return False
    if f is False: return True
    if f[0]=='not': return f[1]
    if f[0]=='le': return f_le(1-f[1],I(0))      # not(p<=0) == p>=1 == 1-p<=0
    return ('not',f)
def f_and(*fs):
    out=[]
    for f in fs:
        if f is True: continue
        if f is False: return False
        if f[0]=='and': out+= [x for x in f[1] if x not in out]
        elif f not in out: out.append(f)
    for f in out:
        if f_not(f) in out: return False
    return True if not out else out[0] if len(out)==1 else ('and',tuple(out))
def f_or(*fs): return f_not(f_and(*[f_not(f) for f in fs]))
def _gcdnorm(p,eq):
    from math import gcd
    den=1
    for c in p.t.values(): den=den*c.denominator//gcd(den,c.denominator)
    if den!=1: p=p.scale(den)
    g=0
    for m,c in p.t.items():
        if m!=(): g=gcd(g,c.numerator)
    if g>1:
        k=p.t.get((),Fraction(0))
        if eq:
            if k%g: return None
            p=p.scale(Fraction(1,g))
        else:
            t={m:c/g for m,c in p.t.items() if m!=()}
            kk=-((-k/g).__floor__())  # ceil
            if kk: t[()]=Fraction(kk)
            p=Poly(t,'I')
    return p
def _one_ite(p):
    its=[(m,a) for m in p.t for i,e in m for a in [_byid[i]] if a.kind=='ite']
    if len({a.id for _,a in its})==1 and all(len(m)==1 and m[0][1]==1 for m,_ in its):
        a=its[0][1]; r=p.coeff(a)
        if r and r[0].const() is not None: return a,r[0],r[1]
    return None
def f_le(a,b=0):
    p=a-lift(b,'I') if not isinstance(b,Poly) else a-b
    c=p.const()
    if c is not None: return c<=0
    o=_one_ite(p)
    if o:
        at,cf,rest=o
        return f_or(f_and(at.args[0],f_le(cf*at.args[1]+rest,I(0))),f_and(f_not(at.args[0]),f_le(cf*at.args[2]+rest,I(0))))
    return ('le',_gcdnorm(p,False))
def f_lt(a,b): return f_le(lift(a,'I')+1 if not isinstance(a,Poly) else a+1,b)
def f_ge(a,b): return f_le(lift(b,'I'),a)
def f_gt(a,b): return f_lt(b if isinstance(b,Poly) else I(b),a)
def f_eq(a,b=0):
    p=a-b
    c=p.const()
    if c is not None: return c==0
    o=_one_ite(p)
    if o:
        at,cf,rest=o
        return f_or(f_and(at.args[0],f_eq(cf*at.args[1]+rest,I(0))),f_and(f_not(at.args[0]),f_eq(cf*at.args[2]+rest,I(0))))
    p=_gcdnorm(p,True)
    if p is None: return False
    m=min(p.t)
    if p.t[m]<0: p=-p
    return ('eq',p)
def f_ne(a,b): return f_not(f_eq(a,b))
def f_rlt(a,b=0):
    p=a-b; c=p.const()
    if c is not None: return c<0
    return ('rlt',_rs(p))
def _rs(p):
    m=min(p.t); return p.scale(1/abs(p.t[m]))
def f_req(a,b=0):
    p=a-b; c=p.const()
    if c is not None: return c==0
    p=_rs(p)
    if p.t[min(p.t)]<0: p=-p
    return ('req',p)
def f_bs(name): return ('bs',name)
def f_imp(a,b): return f_or(f_not(a),b)
def mkform(f,S):
    """rebuild formula with S applied to polys"""
    if f is True or f is False: return f
    k=f[0]
    if k=='not': return f_not(mkform(f[1],S))
    if k=='and': return f_and(*[mkform(x,S) for x in f[1]])
    if k=='or': return f_or(*[mkform(x,S) for x in f[1]])
    if k=='le': return f_le(S(f[1]),I(0))
    if k=='eq': return f_eq(S(f[1]),I(0))
    if k=='rlt': return f_rlt(S(f[1]),R(0))
    if k=='req': return f_req(S(f[1]),R(0))
    if k=='bs': return f
    if k=='forall': # ('forall',varsym poly, dom, body)
        return ('forall',f[1],mkform(f[2],S),mkform(f[3],S))
    raise Exception(f)
def f_polys(f):
    if f is True or f is False: return
    k=f[0]
    if k=='not': yield from f_polys(f[1])
    elif k in('and','or'):
        for x in f[1]: yield from f_polys(x)
    elif k in('le','eq','rlt','req'): yield f[1]
def f_map(f,g):
    """the formula with g applied to its terms"""
    if f is True or f is False: return f
    k=f[0]
    if k=='not': return f_not(f_map(f[1],g))
    if k=='and': return f_and(*[f_map(x,g) for x in f[1]])
    if k=='or': return f_or(*[f_map(x,g) for x in f[1]])
    if k not in('le','eq','rlt','req'): return f
    p=g(f[1])
    if p==f[1]: return f
    return {'le':lambda: f_le(p,I(0)),'eq':lambda: f_eq(p,I(0)),'rlt':lambda: f_rlt(p,R(0)),'req':lambda: f_req(p,R(0))}[k]()
def f_fv(f):
    r=set()
    for p in f_polys(f): r|=p.fv()
    return r
def f_arrs(f):
    r=set()
    for p in f_polys(f): r|=p.arrs()
    return r

# ---- printing -----------------------------------------------------------
def show_atom(a):
    k=a.kind
    if k=='sym': return a.args[0]
    if k=='load': return '%s%s[%s]'%(a.args[0],('('+','.join(map(show,a.args[1]))+')') if a.args[1] else '',show(a.args[2]))
    if k=='fn': return '%s(%s)'%(a.args[0],','.join(show(x) if isinstance(x,Poly) else str(x) for x in a.args[1:]))
    if k=='ite': return 'ite(%s,%s,%s)'%(showf(a.args[0]),show(a.args[1]),show(a.args[2]))
    if k=='div': return '(%s div %d)'%(show(a.args[0]),a.args[1])
    if k=='sum': return 'Sum{$b%d<%s}(%s)'%(a.args[2],show(a.args[0]),show(a.args[1]))
    return '?'
def show(p):
    if not isinstance(p,Poly): return repr(p)
    if not p.t: return '0'
    r=[]
    for m,c in sorted(p.t.items()):
        s='*'.join(show_atom(_byid[i])+('^%d'%e if e!=1 else '') for i,e in m)
        if not s: s=str(c)
        elif c==-1: s='-'+s
        elif c!=1: s='%s*%s'%(c,s)
        r.append(s)
    return '+'.join(r).replace('+-','-')
def showf(f):
    if f is True or f is False: return str(f)
    k=f[0]
    if k=='not': return '!(%s)'%showf(f[1])
    if k in('and','or'): return '('+(' & ' if k=='and' else ' | ').join(showf(x) for x in f[1])+')'
    if k in('le','eq','rlt','req'): return '%s %s 0'%(show(f[1]),{'le':'<=','eq':'==','rlt':'<.','req':'==.'}[k])
    if k=='bs': return f[1]
    if k=='forall': return 'forall %s. %s -> %s'%(show(f[1]),showf(f[2]),showf(f[3]))
    return str(f)

def idiv_exact(p,c):
    q=exact(p,c)
    return idiv(p,c) if q is None else q
def exact(p,c):
    """p/c if every term is a multiple of c (case distinctions: in each case)"""
    if all((v/c).denominator==1 for v in p.t.values()): return p.scale(Fraction(1,c))
    r=I(0)
    for m,v in p.t.items():
        if (v/c).denominator==1: r=r+Poly({m:v/c},'I'); continue
        a=_byid[m[0][0]] if len(m)==1 and m[0][1]==1 else None
        if a is None or a.kind!='ite' or not isinstance(a.args[0],tuple) or v.denominator!=1: return None
        x,y=exact(a.args[1].scale(v),c),exact(a.args[2].scale(v),c)
        if x is None or y is None: return None
        r=r+ite(a.args[0],x,y)
    return r
