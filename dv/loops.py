"""Loop summarisation: the state at the header after t iterations is described by closed forms
(induction variables, sums, last values, array families); the description is the loop invariant,
inferred by repeated symbolic execution of a generic iteration and then checked on a final run."""
import re
from . import terms as T, smt
from .terms import Poly,I,R,apoly,sym,fresh,f_and,f_or,f_not,f_le,f_lt,f_ge,f_gt,f_eq,f_ne,load,subst,_byid
from .smt import Forall
from .exec import *
from .exec import read_arr,member,flatten,Clause,Fam,Store,Hdr,Base,Def

NOBJ=[0]    # objects allocated since the start of the current loop are renamed in order of appearance
def strip(x):
    seen={}
    def ren(m):
        k=int(m.group(1))
        return m.group(0) if k<=NOBJ[0] else '@new%d'%seen.setdefault(k,len(seen))
    return re.sub(r'@(\d+)',ren,re.sub(r'\b([XV])\d+',r'\1',re.sub(r'#\d+','#',str(x))))

class ArrInfo:
    def __init__(s,sm,obj,A0,sort):
        s.sm=sm; s.obj=obj; s.A0=A0; s.sort=sort
        s.X='X%s'%str(fresh('').single().args[0]).replace('#','')+'.'+obj
        s.mode=None; s.clauses=None; s.cls='unk'; s.rec=False
    def read(s,ctx,st,h,r,loc):
        tt=h.tt; sm=s.sm
        if s.mode is None: return load('H?'+s.X,(tt,),r,s.sort)
        if s.mode=='A':
            for cl in reversed(s.clauses):
                sv=fresh('s')
                mp={sm.t.single().id:sv}
                rng=f_and(f_ge(sv,I(0)),f_lt(sv,tt))
                if sm.ws: rng=f_and(f_ge(sv,I(0)),f_lt(sv,sm.T) if sm.T is not None else True,f_ne(sv,tt))
                c2=Clause(cl.binders+(sv,),f_and(subst(cl.cond,mp) if isinstance(cl.cond,tuple) else cl.cond,rng),subst(cl.addr,mp),None)
                m=member(st.facts,c2,r)
                if m[0]=='out': continue
                if sm.ws: ctx.fail(st,'race freedom','iteration reads %s[%s] which another iteration writes'%(s.obj,r),loc)
                if m[0]=='in': return load(s.X,tuple(sm.params),r,s.sort)
                if m[0]=='cond': raise Split(canon(st.facts,m[2]))
                if ctx.discover: return load('H?'+s.X,(tt,),r,s.sort)
                raise Unsupported('membership of %s in earlier iterations of %s'%(r,s.obj))
            return None
        for cl in reversed(s.clauses):
            m=member(st.facts,cl,r)
            if m[0]=='out': continue
            if m[0]=='cond': raise Split(canon(st.facts,m[2]))
            if m[0]=='?':
                if ctx.discover: return load('H?'+s.X,(tt,),r,s.sort)
                raise Unsupported('membership of %s in rewritten cells of %s'%(r,s.obj))
            if sm.ws: ctx.fail(st,'race freedom','all iterations write %s[%s]'%(s.obj,r),loc)
            return s.valueB(ctx,st,cl,m[1],r,tt,loc)
        return None
    def valueB(s,ctx,st,cl,mp,r,tt,loc):
        sm=s.sm
        if s.cls=='unk': return load('H?'+s.X,(tt,),r,s.sort)
        if s.cls=='hist': return load(s.X+'.h',tuple(sm.params)+(tt,),r,s.sort)
        v=subst(cl.val,mp)
        if s.cls=='acc':
            u=fresh('u')
            return read_arr(ctx,st,s.A0,r,loc)+T.mk_sum(u,I(0),tt,subst(v,{sm.t.single().id:u}))
        if smt.prove(st.facts,f_ge(tt,I(1))): return subst(v,{sm.t.single().id:tt-1})
        if smt.prove(st.facts,f_le(tt,I(0))): return read_arr(ctx,st,s.A0,r,loc)
        raise Split(f_ge(tt,I(1)))
    def define(s,ctx,st,tt,final=False):
        """the cells written by the first tt iterations satisfy the (inferred, later checked) template"""
        sm=s.sm
        if final and s.rec and sm.manyexits:
            # the number of completed iterations depends on the exit taken
            n=load(s.X+'.n',tuple(sm.params),I(0),'I'); st.add(f_eq(n,tt))
        else: n=tt
        if s.mode=='A':
            def cls(tt):
                out=[]
                for cl in s.clauses:
                    sv=fresh('s'); mp={sm.t.single().id:sv}
                    out.append(Clause((sv,)+cl.binders,f_and(f_ge(sv,I(0)),f_lt(sv,tt),subst(cl.cond,mp) if isinstance(cl.cond,tuple) else cl.cond),subst(cl.addr,mp),subst(cl.val,mp)))
                return out
            out=cls(tt)
            if s.rec: ctx.defs.pop(s.X,None); ctx.defs[s.X]=Def(s.X,tuple(sm.params),out if n is tt else cls(n),st.facts)
            return out
    def after(s,ctx,st,tt):
        """content after tt iterations"""
        sm=s.sm
        if s.mode=='A':
            out=s.define(ctx,st,tt,True)
            return Fam(s.A0,s.X,tuple(sm.params),out,s.rec)
        out=[]
        for cl in s.clauses:
            cond=cl.cond
            if s.cls=='acc':
                st2=st.cp(); st2.add(cond)
                u=fresh('u'); v=read_arr(ctx,st2,s.A0,cl.addr,'loop summary')+T.mk_sum(u,I(0),tt,subst(cl.val,{sm.t.single().id:u}))
            elif s.cls=='last':
                v=subst(cl.val,{sm.t.single().id:tt-1}); cond=f_and(cond,f_ge(tt,I(1)))
            else:
                v=load(s.X+'.h',tuple(sm.params)+(tt,),cl.addr,s.sort)
            out.append(Clause(cl.binders,cond,cl.addr,v))
        if s.cls=='hist':
            h=s.X+'.h'
            ctx.defs[h]=('hist',tuple(sm.params),sm.t,s.clauses,s.A0)
        return Fam(s.A0,s.X,tuple(sm.params),out,False)
    def sig(s): return strip((s.mode,s.cls,s.rec,[(T.showf(c.cond),c.addr,c.val) for c in s.clauses or ()]))

class Var:
    def __init__(s,key,init,ty):
        s.key=key; s.init=init; s.ty=ty; s.cls='unk'; s.f=None; s.u=None; s.name=None
    def at(s,sm,tt,st=None):
        if s.cls=='unk':
            if s.u is None:
                b=s.init
                if isinstance(b,Ptr): s.u=fresh('up'); 
                elif isinstance(b,Poly): s.u=fresh('u',b.sort)
                elif isinstance(b,(bool,tuple)) and not isinstance(b,(Ptr,Agg)): s.u=('bs','ub%d'%id(s))
                else: return b if isinstance(b,(Agg,Opaque)) else Opaque(None)
            return Ptr(s.init.obj,s.u) if isinstance(s.init,Ptr) else s.u
        if s.cls=='inv': return s.init
        if s.cls=='iv':
            if isinstance(s.init,Ptr): return Ptr(s.init.obj,s.init.off+s.f*tt)
            return s.init+s.f*tt
        tid=sm.t.single().id
        if s.cls=='acc':
            u=fresh('u'); q=T.mk_sum(u,I(0),tt,subst(s.f,{tid:u}))
            return Ptr(s.init.obj,s.init.off+q) if isinstance(s.init,Ptr) else s.init+q
        if s.cls=='last':
            if tt.const()==0: return s.init
            def prev(v):
                if isinstance(v,Agg): return Agg(tuple(prev(x) for x in v.v))
                return Ptr(v.obj,subst(v.off,{tid:tt-1})) if isinstance(v,Ptr) else subst(v,{tid:tt-1}) if isinstance(v,(Poly,tuple)) else v
            v=prev(s.f)
            if st is not None and smt.prove(st.facts,f_ge(tt,I(1))): return v
            if st is not None and smt.prove(st.facts,f_le(tt,I(0))): return s.init
            if s.same(v,s.init): return v
            c=f_ge(tt,I(1))
            if isinstance(s.init,(Opaque,Agg)) or isinstance(v,(Opaque,Agg)): return Opaque(None)
            if isinstance(s.init,Ptr):
                if v.obj!=s.init.obj: raise Unsupported('pointer variable changes object')
                return Ptr(v.obj,T.ite(c,v.off,s.init.off))
            if isinstance(s.init,Poly): return T.ite(c,v,s.init)
            return f_or(f_and(c,v),f_and(f_not(c),s.init))
        if s.cls=='hist':
            if isinstance(s.init,Ptr): return Ptr(s.init.obj,load(s.name,tuple(sm.params),tt,'I'))
            return load(s.name,tuple(sm.params),tt,s.init.sort)
        raise Unsupported('class')
    @staticmethod
    def same(a,b): return type(a)==type(b) and a==b
    def sig(s): return strip((s.key,s.cls,s.f))

class Summary:
    def __init__(s,ex,f,st,regs,hdr,prev):
        s.ex=ex; s.c=ex.c; s.f=f; s.st=st; s.regs=regs; s.hdr=hdr; s.prev=prev
        s.blocks=s.c.loops[f.name][hdr]
        s.t=fresh('t'); s.params=list(s.c.params)
        s.vars={}; s.arrs={}; s.T=None; s.conts=None
        s.ws=(st.ws is True); s.manyexits=False
        new,_=ex.phis(f,regs,hdr,prev)
        tys={i.res:i.ty for i in f.blocks[hdr] if i.op=='phi'}
        for r,v in new.items(): s.vars[('phi',r)]=Var(('phi',r),v,tys[r])
        for o,c in st.mem.items():
            if s.c.objs[o].kind=='cells' and any(isinstance(x,tuple) for x in ()): pass
    def header(s,tt,final=False,extra=()):
        st=s.st.cp(); st.add(*extra)
        if s.ws: st.ws='iter'
        regs=dict(s.regs)
        for k,v in s.vars.items():
            if k[0]=='phi': regs[k[1]]=v.at(s,tt,st)
        cells={}
        for k,v in s.vars.items():
            if k[0]=='cell': cells.setdefault(k[1],{})[k[2]]=(v.ty,v.at(s,tt,st))
        for o,d in cells.items():
            c=dict(st.mem.get(o) or {}); c.update(d); st.mem[o]=c
        for o,a in s.arrs.items():
            if not final and a.rec and a.mode=='A': a.define(s.c,st,tt)
            st.mem[o]=a.after(s.c,st,tt) if final else Hdr(a.A0,a,tt)
        return st,regs
    def bodyrun(s,tt,extra,final=False,push=True):
        st,regs=s.header(tt,final,extra)
        if push: s.c.params.append(tt)
        try: ends=s.ex.explore(s.f,st,regs,s.hdr,None,(s.hdr,s.blocks),first_direct=True)
        finally:
            if push: s.c.params.pop()
        return st,ends
    def phinext(s,e):
        new,_=s.ex.phis(s.f,e.regs,s.hdr,e.frm); return new
    def unknown_ids(s):
        return {v.u.single().id for v in s.vars.values() if v.cls=='unk' and isinstance(v.u,Poly)}
    def tainted(s,x,unk):
        """depends on something not yet understood"""
        if isinstance(x,Ptr): x=x.off
        if isinstance(x,Poly): return bool(x.fv()&unk) or any(a.startswith('H?') or a.startswith('?') for a in x.arrs())
        if isinstance(x,tuple) and not isinstance(x,(Agg,)) : return any(s.tainted(p,unk) for p in T.f_polys(x)) or 'ub' in str(x)
        if x is True or x is False: return False
        return True
    def unassume(s,pairs):
        """drop assumed non-zero divisors from the path conditions, unless another path has the opposite condition"""
        nz=s.c.nzlits
        if not nz: return pairs
        every=set().union(*[set(p[0]) for p in pairs])
        return [([l for l in p[0] if not(l in nz and f_not(l) not in every)],)+tuple(p[1:]) for p in pairs]
    def isdata(s,f):
        return any(p.sort=='R' or p.arrs() for p in T.f_polys(f))
    def reduce(s,pairs,common):
        """drop literals which the alternatives of the other continuing paths imply"""
        out=[]
        for i,P in enumerate(pairs):
            lits=list(P[0])
            for l in P[0]:
                if l in common or not s.isdata(l): continue
                rest=[x for x in lits if x is not l]
                if all(any(f_not(x) in Q[0] for x in rest) for j,Q in enumerate(pairs) if j!=i): lits=rest
            out.append((lits,)+tuple(P[1:]))
        return out
    def merge(s,pairs):
        """pairs (lits, value)"""
        pairs=s.unassume(pairs)
        v0=pairs[0][1]
        if all(Var.same(v,v0) for _,v in pairs): return v0
        common=set(pairs[0][0]).intersection(*[set(l) for l,_ in pairs])
        out=pairs[-1][1]
        for lits,v in reversed(pairs[:-1]):
            c=f_and(*[x for x in lits if x not in common])
            if Var.same(v,out): continue
            if isinstance(v,Ptr):
                if out.obj!=v.obj: raise Unsupported('pointer merge')
                out=Ptr(v.obj,T.ite(c,v.off,out.off))
            elif isinstance(v,Poly):
                com=Poly({m:k for m,k in v.t.items() if out.t.get(m)==k},v.sort)
                out=T.ite(c,v-com,out-com)+com
            elif isinstance(v,Opaque) or isinstance(out,Opaque): out=Opaque(None)
            else: out=f_or(f_and(c,v),f_and(f_not(c),out))
        return out
    def trip(s,backs,base,unk):
        lits=None
        for e in backs:
            l=[x for x in e.st.facts[base:] if not isinstance(x,Forall)]
            lits=l if lits is None else [x for x in lits if x in l]
        tid=s.t.single().id; cands=[]
        # any candidate is sound: the exit run rejects one at which the loop goes on
        lits=list(lits or ())
        for e in backs:
            lits+=[x for x in e.st.facts[base:] if not isinstance(x,Forall) and x[0]=='not' and x not in lits]
        for x in lits:
            if x[0]=='le':
                r=x[1].coeff(s.t.single())
                if not r: continue
                k=r[0].const()
                if k is None or k<=0: continue
                Tn=T.idiv(-r[1],int(k))+1
            elif x[0]=='not' and x[1][0]=='eq':
                r=x[1][1].coeff(s.t.single())
                if not r: continue
                k=r[0].const()
                if k not in(1,-1): continue
                Tn=-r[1].scale(1/k)
            else: continue
            if s.tainted(Tn,unk) or tid in Tn.fv() or abs(Tn.t.get((),0))>1<<31: continue
            cands.append(Tn)
        return cands[0] if cands else None
    def preguess(s):
        """for a loop with inner loops: guess induction variables and trip count from the code
        (a guess only: the checked runs below must confirm it)"""
        lp=s.c.loops[s.f.name]
        inner=set().union(*[b for h,b in lp.items() if h!=s.hdr and h in s.blocks] or [set()])
        if not inner and 0: return None
        defs={i.res:i for b in s.blocks for i in s.f.blocks[b] if i.res}
        alt={}
        def aff(v,d=0):
            if v[0]=='int': return I(v[1])
            if v[0]!='reg' or d>6: return None
            i=defs.get(v[1])
            if i is None:
                x=s.regs.get(v[1]); return x if isinstance(x,Poly) and x.sort=='I' else None
            w=s.vars.get(('phi',v[1]))
            if v[1] in alt: return alt[v[1]]
            if w is not None: return w.init+w.f*s.t if w.cls=='iv' and isinstance(w.init,Poly) else w.init if w.cls=='inv' else None
            if i.op=='add':
                x,y=aff(i.a[0],d+1),aff(i.a[1],d+1)
                return None if x is None or y is None else x+y
            if i.op in('trunc','zext','sext'):
                return aff(i.a[1],d+1)
            return None
        for i in s.f.blocks[s.hdr]:
            if i.op!='phi': break
            w=s.vars[('phi',i.res)]
            if not isinstance(w.init,Poly) or w.init.sort!='I': continue
            back=[v for v,l in i.a if l in s.blocks]
            if len(back)==1 and back[0][0]=='int' and w.init.const() is not None: alt[i.res]=w.init+(I(back[0][1])-w.init)*s.t
            if len(back)!=1 or back[0][0]!='reg': continue
            d=defs.get(back[0][1])
            if d is None or d.op!='add': continue
            for x,y in((d.a[0],d.a[1]),(d.a[1],d.a[0])):
                if x==('reg',i.res):
                    st=aff(y)
                    if st is None: break
                    k=st.const()
                    if k is None or k==0: break
                    k=int(k); wd=d.ty[1]
                    if k>>(wd-1)==1: k-=1<<wd
                    w.cls='iv'; w.f=I(k); break
        # pointers running over a few objects
        step={}
        for i in s.f.blocks[s.hdr]:
            if i.op!='phi': break
            w=s.vars[('phi',i.res)]; back=[v for v,l in i.a if l in s.blocks]
            if not isinstance(w.init,Ptr) or len(back)!=1 or back[0][0]!='reg': continue
            d=defs.get(back[0][1])
            if d is None or d.op!='getelementptr' or d.a[0]!=('reg',i.res) or len(d.a[1])!=1 or d.a[1][0][1][0]!='int': continue
            k=int(d.a[1][0][1][1]); step[i.res]=step[d.res]=(k if k<1<<63 else k-(1<<64))*s.s_size(d.ty); step[d.res]=(i.res,step[i.res])
        def pa(v):
            if v[0]!='reg': return None
            x=step.get(v[1])
            if isinstance(x,tuple): w=s.vars[('phi',x[0])].init; return Ptr(w.obj,w.off+s.t.scale(x[1])+x[1])
            if x is not None: w=s.vars[('phi',v[1])].init; return Ptr(w.obj,w.off+s.t.scale(x))
            x=s.regs.get(v[1]) if v[1] not in defs else None
            return x if isinstance(x,Ptr) else None
        for b in (s.blocks-inner if step else ()):
            t=s.f.blocks[b][-1]
            if t.op!='br' or t.a[0] is None or t.a[0][0]!='reg': continue
            o=[x in s.blocks for x in t.a[1:3]]; c=defs.get(t.a[0][1])
            if o[0]==o[1] or c is None or c.op!='icmp' or c.a[0] not in('eq','ne'): continue
            x,y=pa(c.a[2]),pa(c.a[3])
            if x is None or y is None or x.obj!=y.obj or (c.a[0]=='eq')==o[0]: continue
            r=(x.off-y.off).coeff(s.t.single())
            if r is None or r[0].const() in(None,0): continue
            k=(-r[1]).scale(1/r[0].const()).const()
            if k is not None and k.denominator==1 and 0<=k<=s.c.opts.get('unroll',6): return I(int(k))
        for b in s.blocks-inner:
            ins=s.f.blocks[b]; t=ins[-1]
            if t.op!='br' or t.a[0] is None or t.a[0][0]!='reg': continue
            o=[x in s.blocks for x in t.a[1:3]]
            if o[0]==o[1]: continue
            c=defs.get(t.a[0][1])
            if c is None or c.op!='icmp': continue
            pred,_,x,y=c.a
            x,y=aff(x),aff(y)
            if x is None or y is None: continue
            if pred in('eq','ne'): fm=f_eq(x,y) if pred=='eq' else f_ne(x,y)
            else: fm={'lt':f_lt,'le':f_le,'gt':f_gt,'ge':f_ge}[pred[1:]](x,y)
            if not o[0]: fm=f_not(fm)
            if not isinstance(fm,tuple): continue
            if fm==f_eq(s.t,I(0)): return I(1)
            class E: pass
            e=E(); e.st=E(); e.st.facts=(fm,)
            T0=s.trip([e],0,set())
            if T0 is not None: return T0
        return None
    def changed(s,st0,backs):
        new=False
        for e in backs:
            for o in e.st.dead-s.st.dead:
                if o in s.st.mem or (o in st0.mem): raise Unsupported('loop frees an outer object')
            for o,c in e.st.mem.items():
                if o not in s.live: continue
                k=s.c.objs[o].kind
                h=st0.mem.get(o)
                if c is h: continue
                if k=='cells' or isinstance(c,dict):
                    h=h or {}
                    for off,(sz,v) in c.items():
                        if ('cell',o,off) in s.vars: continue
                        hv=h.get(off)
                        if hv is not None and (hv[1] is v or Var.same(hv[1],v)): continue
                        if hv is None:
                            s.vars[('cell',o,off)]=Var(('cell',o,off),Opaque(None),sz); new=True
                        else:
                            s.vars[('cell',o,off)]=Var(('cell',o,off),hv[1],hv[0]); new=True
                else:
                    if isinstance(c,tuple) or c is None: raise Unsupported('raw memory in loop')
                    if h is None and isinstance(c,Base): continue
                    if isinstance(h,tuple) and isinstance(c,Fam) and c.X=='zero': continue
                    if o not in s.arrs:
                        A0=s.st.mem.get(o)
                        if A0 is None or isinstance(A0,tuple):
                            A0=s.ex.content(s.st,o)
                        s.arrs[o]=ArrInfo(s,o,A0,s.c.objs[o].sort); new=True
        return new
    def clauses_of(s,backs,st0,o,base):
        info=s.arrs[o]; h=st0.mem[o]; per=[]
        for e in backs:
            seq=flatten(e.st.mem[o],h) if e.st.mem[o] is not h else []
            cl=[]
            for nd in seq:
                if isinstance(nd,Store): cl.append((Clause((),True,nd.idx,nd.val),None))
                else:
                    for c in nd.clauses:
                        v=c.val
                        if nd.rec: v=s.recval(nd,c)
                        cl.append((Clause(c.binders,c.cond,c.addr,v),(nd.X,nd.params) if nd.rec else None))
            facts=e.st.facts
            # overridden / disjoint
            keep=[]
            for i,(a,ra) in enumerate(cl):
                drop=False
                for b,rb in cl[i+1:]:
                    fa=tuple(facts)+((a.cond,) if a.cond is not True else ())
                    m=member(fa,b,a.addr)
                    if m[0]=='in': drop=True; break
                    if m[0]=='out': continue
                    raise Unsupported('overlapping writes to %s inside an iteration'%o)
                if not drop: keep.append((a,ra))
            # inner recursive arrays become the outer array
            lits=[x for x in facts[base:] if not isinstance(x,Forall)]
            per.append((lits,keep,facts))
        return per
    def recval(s,nd,c):
        return c.val
    def rewrite(s,x,facts,kept,info):
        """loads of an inner iteration's recursive array -> loads of this loop's array"""
        names={r[0] for _,r in kept if r}
        if not names: return x
        def rw(p,facts):
            if not isinstance(p,Poly) or not (p.arrs()&names): return p
            def A(a):
                if not (a.arrs&names): return None
                if a.kind=='sum':
                    v,n,b=T.open_sum(a)
                    n2=rw(n,facts); b2=rw(b,facts+(f_ge(v,I(0)),f_lt(v,n)))
                    return T.mk_sum(v,I(0),n2,b2)
                if a.kind=='ite':
                    c0,x0,y0=a.args; c0=T.f_map(c0,lambda q: rw(q,facts))
                    return T.ite(c0,rw(x0,facts+(c0,)),rw(y0,facts+(f_not(c0),)))
                if a.kind=='load' and a.args[0] in names:
                    idx=rw(a.args[2],facts)
                    for cl,r in reversed(kept):
                        m=member(facts,cl,idx)
                        if m[0]=='in':
                            if r and r[0]==a.args[0]: return load(info.X,tuple(s.params),idx,a.sort)
                            break
                        if m[0]!='out': break
                    return load(a.args[0],[rw(q,facts) for q in a.args[1]],idx,a.sort)
                return T.rebuild_atom(a,lambda q: rw(q,facts) if isinstance(q,Poly) else q)
            return T.rebuild(p,A)
        return rw(x,facts)
    def s_size(s,ty): return int(s.ex.mod.size_align(ty)[0])
    def settrip(s,T0):
        k=T0.const()
        if k is None and not s.ws and smt.prove(s.st.facts,f_eq(T0,I(1))) and smt.consistent(s.st.facts): k=1
        if k is not None and k<=s.c.opts.get('unroll',6) and not s.ws: return 'unroll'
        if not smt.prove(s.st.facts,f_ge(T0,I(0))):
            if smt.prove(s.st.facts,f_le(T0,I(0))): T0=I(0)
            else: raise Split(f_ge(T0,I(0)))
        s.T=T0
    def run(s):
        old=NOBJ[0]; NOBJ[0]=s.c.nobj
        try: return s.run1()
        finally: NOBJ[0]=old
    def run1(s):
        c=s.c; t=s.t; tid=t.single().id
        s.live=set(c.objs)
        rounds=0; prevsig=None
        T0=s.preguess()
        if T0 is not None and s.settrip(T0)=='unroll': return 'unroll'
        c.discover+=1
        try:
            while True:
                rounds+=1
                if rounds>14: raise Unsupported('loop summary does not converge (%s)'%s.hdr)
                extra=[f_ge(t,I(0))]
                if s.T is not None: extra.append(f_lt(t,s.T))
                extra+=s.history(t)
                extra=[x for x in extra if x is not True]
                st0,ends=s.bodyrun(t,extra)
                base=len(st0.facts)
                backs=[e for e in ends if e.kind=='back']
                # guesses only: iterations that replace a live buffer (vector growth) must turn out impossible in the checked run
                calm=[e for e in backs if not any(o in s.st.mem or o in st0.mem for o in e.st.dead-s.st.dead)]
                if calm: backs=calm
                if not backs: 
                    # never iterates: the exit run below starts from the initial values and must not loop
                    for v in s.vars.values():
                        if v.cls=='unk': v.cls='inv'
                    s.arrs={}
                    s.T=I(0); break
                unk=s.unknown_ids()
                ch=s.changed(st0,backs)
                # trip count
                if s.T is None:
                    T0=s.trip(backs,base,unk)
                    if T0 is not None:
                        if s.settrip(T0)=='unroll': return 'unroll'
                        ch=True
                if ch: continue
                # variables
                nxt={}
                per=[]
                for e in backs:
                    pn=s.phinext(e); lits=[x for x in e.st.facts[base:] if not isinstance(x,Forall)]
                    per.append((lits,e,pn))
                for k,v in s.vars.items():
                    vals=[]
                    for lits,e,pn in per:
                        if k[0]=='phi': vals.append((lits,pn[k[1]]))
                        else:
                            cell=e.st.mem[k[1]].get(k[2]); vals.append((lits,cell[1] if cell else Opaque(None)))
                    nxt[k]=s.merge(vals)
                allf=backs[0].st.facts if len(backs)==1 else st0.facts
                newly=False
                for k,v in s.vars.items():
                    if v.cls!='unk': continue
                    n=nxt[k]
                    cur=v.at(s,t,st0)
                    if Var.same(n,cur) or Var.same(n,v.init): v.cls='inv'; newly=True; continue
                    if isinstance(n,Opaque) or isinstance(v.init,Opaque) and not isinstance(n,(Poly,Ptr)): 
                        v.cls='last'; v.f=n; newly=True; continue
                    if isinstance(v.init,Ptr):
                        if not isinstance(n,Ptr) or n.obj!=v.init.obj:
                            continue
                        d=n.off-cur.off
                    elif isinstance(n,Poly) and isinstance(cur,Poly) and n.sort==cur.sort: d=n-cur
                    else: continue
                    if d.sort=='I' and not s.tainted(d,unk) and tid not in d.fv(): v.cls='iv'; v.f=d; newly=True
                if newly: continue
                for k,v in s.vars.items():
                    if v.cls!='unk': continue
                    n=nxt[k]; cur=v.at(s,t,st0)
                    if not s.tainted(n,unk) : v.cls='last'; v.f=n; newly=True; continue
                    if isinstance(n,Poly) and isinstance(cur,Poly):
                        d=n-cur
                        if not s.tainted(d,unk): v.cls='acc'; v.f=d; newly=True; continue
                    if isinstance(n,Ptr) and isinstance(cur,Ptr) and n.obj==cur.obj:
                        d=n.off-cur.off
                        if not s.tainted(d,unk): v.cls='acc'; v.f=d; newly=True; continue
                # arrays
                for o,a in s.arrs.items():
                    newly|=s.arr_round(a,backs,st0,o,base,unk)
                # refresh templates
                for k,v in s.vars.items():
                    n=nxt[k]
                    if v.cls=='last': v.f=n
                    elif v.cls=='acc':
                        cur=v.at(s,t,st0)
                        v.f=n.off-cur.off if isinstance(n,Ptr) else n-cur
                        v.f=s.rw_all(v.f,backs,st0,base)
                s.conts=s.conds(backs,st0,base)
                if isinstance(s.conts,tuple): s.conts=T.f_map(s.conts,lambda q: s.rw_all(q,backs,st0,base))
                if newly: continue
                unkv=[v for v in s.vars.values() if v.cls=='unk']
                unka=[a for a in s.arrs.values() if a.mode=='B' and a.cls=='unk']
                if unkv or unka:
                    for v in unkv:
                        if not isinstance(v.init,(Poly,Ptr)): raise Unsupported('loop variable %s'%(v.key,))
                        n=nxt[v.key]
                        if isinstance(v.init,Ptr) and (not isinstance(n,Ptr) or n.obj!=v.init.obj): raise Unsupported('pointer variable changes object')
                        v.cls='hist'; v.name='V'+fresh('').single().args[0].replace('#','')
                    for a in unka: a.cls='hist'
                    continue
                for v in s.vars.values():
                    if v.cls=='hist': v.f=nxt[v.key]
                sig=(tuple(sorted(strip(v.sig()) for v in s.vars.values())),tuple(sorted(a.sig() for a in s.arrs.values())),strip(s.T),strip(s.conts))
                if sig==prevsig: break
                prevsig=sig
        finally: c.discover-=1
        for v in s.vars.values():
            if v.cls=='hist': c.defs[v.name]=('seq',tuple(s.params),s.t,v.init,v.f)
        if s.ws:
            for k,v in s.vars.items():
                if v.cls not in('inv','iv') and not (k[0]=='cell' and c.objs[k[1]].local): c.fail(s.st,'race freedom','variable carried between iterations of a work-shared loop',s.hdr)
                if k[0]=='cell' and not c.objs[k[1]].local and v.cls!='inv': c.fail(s.st,'race freedom','shared variable written by every iteration',s.hdr)
            for o,a in s.arrs.items():
                if a.mode!='A' or a.rec: c.fail(s.st,'race freedom','iterations of a work-shared loop are not independent on '+o,s.hdr)
        res=[]
        T0=s.T if s.T is not None else None
        # checked generic iteration
        early=False
        if T0 is None or T0.const()!=0:
            if c.discover==0:
                extra=[x for x in [f_ge(t,I(0))]+([f_lt(t,T0)] if T0 is not None else [])+s.history(t) if x is not True]
                st0,ends=s.bodyrun(t,extra)
                s.verify(st0,ends)
                c.loopcount+=1
            else: 
                ends=ends
            early=any(e.kind!='back' and smt.consistent(e.st.facts) for e in ends)
        s.manyexits=early
        # exits
        if T0 is not None:
            ex=s.history(T0)
            st1,ends=s.bodyrun(T0,[x for x in ex if x is not True],final=True,push=False)
            for e in ends:
                if e.kind=='back':
                    if smt.consistent(e.st.facts): raise Unsupported('trip count not confirmed for loop %s: %s'%(s.hdr,[T.showf(x) for x in e.st.facts if not isinstance(x,Forall)]))
                else: res.append(e)
        if early or T0 is None:
            e0=fresh('e')
            ex=[f_ge(e0,I(0))]+([f_lt(e0,T0)] if T0 is not None else [])+s.history(e0)
            c.discover+=(T0 is not None)
            try: st1,ends=s.bodyrun(e0,[x for x in ex if x is not True],final=True,push=False)
            finally: c.discover-=(T0 is not None)
            for e in ends:
                if e.kind!='back' and smt.consistent(e.st.facts): res.append(e)
        for e in res: e.st.ws=s.st.ws
        return res
    def rw_all(s,x,backs,st0,base):
        for o,a in s.arrs.items():
            if a.mode!='A': continue
            for e in backs[:1]:
                kept=a.kept
                x=s.rewrite(x,e.st.facts,kept,a) if isinstance(x,Poly) else x
        return x
    def arr_round(s,a,backs,st0,o,base,unk,final=False):
        per=s.clauses_of(backs,st0,o,base)
        newly=False; t=s.t; tid=t.single().id
        # merge the paths
        l0=per[0][1]
        def same(x,y): return len(x)==len(y) and all(p[0].binders==q[0].binders and p[0].cond==q[0].cond and p[0].addr==q[0].addr for p,q in zip(x,y))
        if len(per)==1: merged=[(cl,r) for cl,r in l0]; facts=per[0][2]
        elif all(same(l0,p[1]) for p in per):
            merged=[]
            for i in range(len(l0)):
                v=s.merge([(p[0],p[1][i][0].val) for p in per])
                merged.append((l0[i][0]._replace(val=v),l0[i][1]))
            facts=st0.facts
        else:
            merged=[]
            common=set(per[0][0]).intersection(*[set(p[0]) for p in per])
            red=s.reduce(s.unassume(per),common); groups={}; plain=[]
            for pi,(lits,kept,_) in enumerate(red):
                data=[x for x in lits if x not in common and s.isdata(x)]
                cc=f_and(*[x for x in lits if x not in common and x not in data])
                for cl,r in kept:
                    if data and tid in cl.addr.fv() and not s.tainted(f_and(*data),unk): groups.setdefault((cl.binders,f_and(cl.cond,cc),cl.addr),[]).append((f_and(*data),cl,r,pi))
                    else: plain.append((cl._replace(cond=f_and(cl.cond,cc,*data)),r))
            for (bi,cc,addr),its in groups.items():
                # a write under a condition on the data: an unconditional one of the new or the old content
                st2=st0.cp(); st2.add(cc)
                if len({x[3] for x in its})==len(red): v=its[-1][1].val; its2=its[:-1]
                else: v=read_arr(s.c,st2,a.A0,addr,''); its2=its
                for dc,cl,r,_ in reversed(its2): v=T.ite(dc,cl.val,v)
                merged.append((Clause(bi,cc,addr,v),next((x[2] for x in its if x[2]),None)))
            merged+=plain
            facts=st0.facts
        a.kept=merged
        if not final and any(s.tainted(cl.cond,unk) for cl,_ in merged):
            # a guess for this round: every cell that may be written, with an unknown value
            g=[]
            for cl,r in merged:
                if s.tainted(cl.cond,unk):
                    cs=cl.cond[1] if cl.cond[0]=='and' else (cl.cond,)
                    cl=cl._replace(cond=f_and(*[x for x in cs if not s.tainted(x,unk)]),val=load('H?'+a.X,(t,),cl.addr,a.sort)); r=None
                if not any(x.addr==cl.addr and x.cond==cl.cond and x.binders==cl.binders for x,_ in g): g.append((cl,r))
            merged=g
        for cl,_ in merged:
            if s.tainted(cl.addr,unk) or s.tainted(cl.cond,unk): raise Unsupported('write address of %s depends on loop-carried data'%o)
        dep=any(tid in cl.addr.fv() for cl,_ in merged)
        fixed=not dep and not any(isinstance(cl.cond,tuple) and tid in T.f_fv(cl.cond) for cl,_ in merged)
        if a.mode is None:
            a.mode='B' if fixed else 'A'; newly=True
            if a.mode=='A': s.injective(merged,st0,o)
        if a.mode=='A':
            out=[]
            for cl,r in merged:
                v=cl.val
                if r or True: v=s.rewrite(v,tuple(facts)+((cl.cond,) if cl.cond is not True else ()),merged,a)
                out.append(cl._replace(val=v))
            a.clauses=out
            a.rec=any(a.X in cl.val.arrs() for cl in out)
            return newly
        out=[cl for cl,_ in merged]
        H='H?'+a.X
        if a.cls=='unk' and a.clauses is not None:
            # classify
            kinds=set(); res=[]
            for cl in out:
                cur=load(H,(t,),cl.addr,a.sort)
                d=cl.val-cur
                if not s.tainted(cl.val,unk): kinds.add('last'); res.append(cl)
                elif not s.tainted(d,unk) : kinds.add('acc'); res.append(cl._replace(val=d))
                else: kinds.add('unk')
            if len(kinds)==1 and 'unk' not in kinds:
                a.cls=kinds.pop(); a.clauses=res; return True
            a.clauses=out; return newly
        if a.cls=='acc':
            res=[]
            for cl in out:
                st2=st0.cp(); st2.add(cl.cond)
                cur=a.valueB(s.c,st2,cl,{},cl.addr,t,'') if False else None
                u=fresh('u')
                old=None
                for x in a.clauses:
                    if len(x.binders)!=len(cl.binders): continue
                    mp={p.single().id:q for p,q in zip(x.binders,cl.binders)}
                    if (subst(x.addr,mp) if mp else x.addr)==cl.addr: old=x._replace(val=subst(x.val,mp) if mp else x.val); break
                if old is None: raise Unsupported("accumulation into changing cells of %s"%o)
                base0=read_arr(s.c,st2,a.A0,cl.addr,'')+T.mk_sum(u,I(0),t,subst(old.val,{tid:u}))
                res.append(cl._replace(val=cl.val-base0))
            a.clauses=res; return newly
        a.clauses=out
        return newly
    def injective(s,merged,st0,o):
        t=s.t; tid=t.single().id
        s1,s2=fresh('s'),fresh('s')
        base=list(s.st.facts)+[f_ge(s1,I(0)),f_lt(s1,s2)]
        if s.T is not None: base.append(f_lt(s2,s.T))
        for x,_ in merged:
            for y,_ in merged:
                ra={b.single().id:fresh('b') for b in x.binders}; ra[tid]=s1
                rb={b.single().id:fresh('b') for b in y.binders}; rb[tid]=s2
                fs=list(base)
                for cl,m in((x,ra),(y,rb)):
                    if isinstance(cl.cond,tuple): fs.append(subst(cl.cond,m))
                e=f_eq(subst(x.addr,ra),subst(y.addr,rb))
                if e is False: continue
                if not smt.prove(tuple(f for f in fs if f is not True)+((e,) if e is not True else ()),False):
                    raise Unsupported('writes of different iterations to %s may overlap: %s / %s'%(o,x.addr,y.addr))
    def conds(s,backs,st0,base):
        alts=[]
        for e in backs:
            alts.append(f_and(*[x for x in e.st.facts[base:] if not isinstance(x,Forall)]))
        # drop literals implied by the index range
        return f_or(*alts) if alts else True
    def history(s,tt):
        """facts for all earlier iterations (those with data-dependent continuation conditions)"""
        out=[]
        for (tid,U),(t,p,v,tr,body) in s.c.looplemma.items():
            if t!=s.t: continue
            w=fresh('?t'); mp={tid:w}; q=p.single()
            if s.tainted(body,s.unknown_ids()): continue
            if v is None: out.append(smt.Forall(w,U,w,T.f_imp(f_and(f_ge(w,I(0)),f_lt(w,tt)),subst(body,mp)),tuple(q.args[1]) or None)); continue
            out.append(smt.Forall2([(w,U,w,tuple(q.args[1]) or None),tr],T.f_imp(f_and(f_ge(w,I(0)),f_lt(w,tt)),subst(body,mp))))
        if s.conts is None or s.conts in(True,False): return out
        cs=s.conts[1] if s.conts[0]=='and' else (s.conts,)
        tid=s.t.single().id
        for c0 in cs:
            if s.tainted(c0,s.unknown_ids()): continue
            if hasattr(s,'arrs') and s.arrs:
                pass
            atoms=[a for a in smt.walk_atoms([c0]) if a.kind=='load' and tid in a.args[2].fv()]
            for a in atoms:
                if smt.solve_index(a.args[2],s.t.single(),a.args[2])!=s.t: continue
                v=fresh('?h')
                body=T.f_imp(f_and(f_ge(v,I(0)),f_lt(v,tt)),subst(c0,{tid:v}))
                out.append(Forall(v,a.args[0],subst(a.args[2],{tid:v}),body))
        return out
    def verify(s,st0,ends):
        """the checked run must reproduce the summary"""
        backs=[e for e in ends if e.kind=='back']
        base=len(st0.facts); t=s.t; tid=t.single().id
        for k,v in s.vars.items():
            vals=[]
            for e in backs:
                lits=[x for x in e.st.facts[base:] if not isinstance(x,Forall)]
                if k[0]=='phi': vals.append((lits,s.phinext(e)[k[1]]))
                else:
                    cell=e.st.mem[k[1]].get(k[2]); vals.append((lits,cell[1] if cell else Opaque(None)))
            if not vals: continue
            n=s.merge(vals); cur=v.at(s,t,st0)
            if v.cls=='inv': ok=Var.same(n,cur)
            elif v.cls=='iv': ok=(n.off-cur.off if isinstance(n,Ptr) else n-cur)==v.f
            elif v.cls=='acc': ok=strip(s.rw_all((n.off-cur.off) if isinstance(n,Ptr) else n-cur,backs,st0,base))==strip(v.f)
            else: ok=isinstance(n,Opaque) or strip(n)==strip(v.f)
            if not ok: raise Unsupported('loop invariant for %s not confirmed'%(k,))
        for o,a in s.arrs.items():
            old=a.sig(); oldc=a.clauses
            s.arr_round(a,backs,st0,o,base,set(),True)
            new=a.sig()
            if new!=old: raise Unsupported('array summary for %s not confirmed'%o)
        for (tid2,U),(t2,p,v,tr,body) in list(s.c.looplemma.items()):
            if t2!=t or s.tainted(body,set()): continue
            for e in backs:
                if smt.consistent(e.st.facts) and not smt.prove(e.st.facts,subst(body,{v.single().id:fresh('k')}) if v is not None else body): raise Unsupported('proposed loop invariant on %s not preserved'%U)
        st1=st0
        if s.changed(st0,backs): raise Unsupported('state not covered by the loop summary')
