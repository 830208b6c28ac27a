"""Runs the compiled wrappers on concrete inputs and evaluates the same contracts on the results.
Used (a) to search for and replay a failing input of a failed obligation, (b) as the bounded stand-in for
wrappers outside the verifier's reach, (c) as a small sanity run of every contract."""
import sys, os, json, ctypes, random, math, time, subprocess, importlib
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path: sys.path.insert(0,HERE)
from dv import terms as T
from dv.terms import Poly,_byid,subst
from dv.smt import Forall

# ---- terms -> python source -------------------------------------------------------------
class Gen:
    def __init__(s): s.n=0; s.names={}
    def var(s,a):
        if a.id in s.names: return s.names[a.id]
        return "S[%r]"%a.args[0]
    def bind(s,a):
        s.n+=1; v='v%d'%s.n; s.names[a.id]=v; return v
    def p(s,x):
        if not isinstance(x,Poly): return repr(x)
        if not x.t: return '0'
        ts=[]
        for m,c in x.t.items():
            fs=[]
            if c.denominator!=1: fs.append('(%d/%d)'%(c.numerator,c.denominator))
            elif c!=1 or not m: fs.append('(%d)'%c.numerator)
            for i,e in m:
                t=s.a(_byid[i])
                fs.append(t if e==1 else '%s**(%d)'%(t,e))
            ts.append('*'.join(fs))
        return '('+'+'.join(ts)+')'
    def a(s,a):
        k=a.kind
        if k=='sym': return s.var(a)
        if k=='load':
            nm=a.args[0]; ix=s.p(a.args[2])
            if a.args[1]: raise Exception('parametrised load in contract')
            return 'G(N,%r,%s)'%(nm[:-1],ix) if nm.endswith("'") else 'G(A,%r,%s)'%(nm,ix)
        if k=='sum':
            v,n,b=T.open_sum(a); nn=s.p(n); nm=s.bind(v.single()); return 'sum(%s for %s in range(%s))'%(s.p(b),nm,nn)
        if k=='div': return '(%s//%d)'%(s.p(a.args[0]),a.args[1])
        if k=='ite': return '(%s if %s else %s)'%(s.p(a.args[1]),s.f(a.args[0]),s.p(a.args[2]))
        if k=='fn':
            n=a.args[0]; x=s.p(a.args[1])
            return {'sqrt':'SQRT(%s)','id':'(%s)','i2r':'float(%s)','tri':'TRI(%s)','isqrt':'math.isqrt(%s)'}[n]%x
        raise Exception('atom '+k)
    def f(s,f):
        if f is True or f is False: return repr(f)
        if isinstance(f,Forall):
            nm=s.bind(f.var.single()); return 'ALL(lambda %s: %s, L)'%(nm,s.f(f.body))
        k=f[0]
        if k=='not': return '(not %s)'%s.f(f[1])
        if k=='and': return '('+' and '.join(s.f(x) for x in f[1])+')'
        if k=='or': return '('+' or '.join(s.f(x) for x in f[1])+')'
        return {'le':'(%s<=0)','eq':'(%s==0)','rlt':'(%s<-1e-12)','req':'(abs(%s)<=1e-12)'}[k]%s.p(f[1])
class Skip(Exception): pass
def G(A,n,i):
    if i!=int(i) or i<0: raise IndexError
    return A[n][int(i)]
def SQRT(x):
    if x<0: raise Skip
    return math.sqrt(x)
def TRI(x): return x*(x+1)//2
def ALL(f,L):
    for v in range(0,L):
        try:
            if not f(v): return False
        except IndexError: pass
    return True
ENV={'G':G,'SQRT':SQRT,'TRI':TRI,'ALL':ALL,'math':math}
def fun(src): return eval('lambda S,A,N,L: '+src,ENV)

class Goal:
    def __init__(s,g):
        q=Gen(); head='';
        for v,lo,hi in g.binders:
            l,h=q.p(lo),q.p(hi); nm=q.bind(v.single()); head+=' for %s in range(%s,%s)'%(nm,l,h)
        s.name=g.name; s.rel=g.rel; names=','.join(q.names.values())
        cond=' if '+q.f(g.cond) if g.cond is not True else ''
        if head: src='[((%s),%s,%s)%s%s]'%(names+',' if names else '',q.p(g.lhs),q.p(g.rhs),head,cond)
        else: src='[((),%s,%s)] if %s else []'%(q.p(g.lhs),q.p(g.rhs),q.f(g.cond))
        s.f=fun(src)

CT={'d':(ctypes.c_double,1),'f':(ctypes.c_float,1),'i':(ctypes.c_int,1),'z':(ctypes.c_double,2),'u':(ctypes.c_size_t,1),'l':(ctypes.c_long,1),'c':(ctypes.c_float,2)}
EDGE=[0,1,2,3,4,5,6,7,8,9,10,12,13,15,16,17,18,20,31,32,33,40,47,48,49,63,64,65]
class Mon:
    def __init__(s,con,lib):
        s.con=con; s.fn=getattr(lib,con.sym); s.fn.restype=ctypes.c_int
        s.sizes=[a for a in con.args if isinstance(a,tuple)]; s.arrs=con.arrs()
        s.lens=[(a,fun(Gen().p(a.len))) for a in s.arrs]
        s.req=[fun(Gen().f(f)) for f in con.requires]
        s.cases=[(c.name,fun(Gen().f(c.cond)),fun(Gen().p(c.ret)) if c.ret is not None else None,[Goal(g) for g in c.goals if hasattr(g,'lhs')],c.when) for c in con.cases]
        s.tol=con.tol
    def inputs(s,rng,k,hint=None):
        S={}; ns=len(s.sizes)
        for _,n,lo,hi in s.sizes:
            c=[x for x in (s.con.sizes or {}).get(n,[]) if lo<=x<=hi]
            cap={0:0,1:66,2:20}.get(ns,9)
            if isinstance((s.con.sizes or {}).get('*'),int): cap=s.con.sizes['*']
            if k>=60 and k%5==0: cap={0:0,1:1500,2:66}.get(ns,24)
            E=[x for x in EDGE if lo<=x<=min(hi,max(cap,lo))] or [lo]
            if hint and n in hint['sizes'] and lo<=hint['sizes'][n]<=min(hi,2000): S[n]=hint['sizes'][n]
            elif c and rng.random()<0.6: S[n]=rng.choice(c)
            elif ns==1 and k<len(E): S[n]=E[k]
            elif ns==1: S[n]=rng.randint(lo,min(hi,max(cap,lo)))
            else: S[n]=rng.choice(E) if rng.random()<.5 else rng.choice(list(S.values()) or [rng.randint(lo,max(lo,min(6,cap)))])
            S[n]=min(max(S[n],lo),hi)
        A={}
        mode=rng.randint(0,3)
        for a,L in s.lens:
            n=L(S,A,A,0)*CT[a.ty][1]
            if n>20000 or n<0: return None
            if a.ty in'ul': A[a.name]=[rng.randint(0,3) for _ in range(n)]
            elif a.ty=='i': A[a.name]=[rng.randint(-5,5) for _ in range(n)]
            elif mode==0: A[a.name]=[float(rng.randint(-3,3)) for _ in range(n)]
            elif mode==1: A[a.name]=[rng.choice([1.,-1.,2.,-2.,.5,3.,5.,-4.]) for _ in range(n)]
            elif mode==2: A[a.name]=[round(rng.uniform(-2,2)*64)/64 for _ in range(n)]
            else: A[a.name]=[rng.choice([0.,0.,1.,2.,-1.]) for _ in range(n)]
        if hint:
            for nm,ix,v in hint['cells']:
                if nm in A and 0<=ix<len(A[nm]) and abs(v)<1e6: A[nm][ix]=type(A[nm][ix])(v)
        if s.con.gen:
            env=dict(A); env['$']=S
            if s.con.gen(rng,s.con,env) is False: return None
            for n in A: A[n]=env[n]
        return S,A
    def admissible(s,S,A):
        try: return all(f(S,A,A,max([0]+list(S.values()))+2) for f in s.req)
        except (Skip,ZeroDivisionError,IndexError): return False
    def trial(s,S,A,note=None):
        """None or a description of the violation; 'skip' if not evaluated"""
        if not s.admissible(S,A): return 'skip'
        PAD=4; bufs={}; args=[]
        for a in s.con.args:
            if isinstance(a,tuple): args.append(ctypes.c_size_t(S[a[1]])); continue
            ct,_=CT[a.ty]; v=A[a.name]; b=(ct*(len(v)+2*PAD))()
            for j in range(PAD): b[j]=b[len(v)+PAD+j]=77
            for j,x in enumerate(v): b[PAD+j]=x
            bufs[a.name]=b; args.append(ctypes.c_void_p(ctypes.addressof(b)+PAD*ctypes.sizeof(ct)))
        # arrays as the code sees them (float rounding)
        A={n:[bufs[n][PAD+j] for j in range(len(v))] for n,v in A.items()}
        if note: note(S,A)
        r=s.fn(*args)
        N={n:[bufs[n][PAD+j] for j in range(len(v))] for n,v in A.items()}
        isf=any(a.ty in'fc' for a in s.arrs)
        tol=s.tol or (1e-3 if isf else 1e-7)
        sc=max([1.0]+[abs(x) for v in list(N.values())+list(A.values()) for x in v if isinstance(x,float) and math.isfinite(x)])
        for n,b in bufs.items():
            if any(b[j]!=77 or b[len(A[n])+PAD+j]!=77 for j in range(PAD)): return 'memory outside %s was overwritten'%n
        L=max([0]+list(S.values()))+2; seen=False
        if s.con.oracle:
            e=s.con.oracle(S,A)
            if e is not None and e!=r: return 'returned status %d, expected %d'%(r,e)
        if all(w is not None and w!=r for *_,w in s.cases): return 'returned status %d'%r
        if s.con.after and r==0:
            e=s.con.after(S,A,N)
            if e: return e
        for nm,cond,ret,goals,when in s.cases:
            if when is not None and when!=r: continue
            try:
                if not cond(S,A,N,L): continue
            except (Skip,ZeroDivisionError,IndexError): continue
            seen=True
            if ret is not None:
                try: e=ret(S,A,N,L)
                except (Skip,ZeroDivisionError): e=r
                if r!=e: return 'returned status %d, expected %s%s'%(r,e,' when '+nm if nm else '')
            for g in goals:
                try: vals=g.f(S,A,N,L)
                except (Skip,ZeroDivisionError): continue
                for ix,l,rr in vals:
                    if g.rel=='!=':
                        if l==rr: return '%s%s: got %r'%(g.name,list(ix),l)
                        continue
                    if g.rel!='=':
                        if not(l<rr if g.rel=='<' and isinstance(l,int) and isinstance(rr,int) else l<=rr+tol): return '%s%s: %r is not below %r'%(g.name,list(ix),l,rr)
                        continue
                    if isinstance(l,int) and isinstance(rr,int):
                        if (l-rr)%(1<<32): return '%s%s: got %s, expected %s'%(g.name,list(ix),l,rr)
                        continue
                    if math.isnan(l) or math.isinf(l) or abs(l-rr)>tol*max(1.0,abs(rr),min(sc,1e3)):
                        return '%s%s: got %r, expected %r%s'%(g.name,list(ix),l,rr,' when '+nm if nm else '')
        return None if seen else 'skip'

def worker(job):
    """child process: job = {so, prop, backend, fns, seed, n, hints, out}"""
    J=json.load(open(job)); P=importlib.import_module('props.'+J['prop'])
    lib=ctypes.CDLL(J['so']); cons={c.fn:c for c in P.contracts()}
    out=open(J['out'],'a',buffering=1); cur=J['out']+'.cur'
    curf=os.open(cur,os.O_CREAT|os.O_RDWR|os.O_TRUNC)
    def note(fn):
        def f(S,A):
            b=json.dumps({'fn':fn,'S':S,'A':A}).encode()
            os.pwrite(curf,b,0); os.ftruncate(curf,len(b))
        return f
    for fn in J['fns']:
        con=cons[fn]; rng=random.Random('%s/%s/%s'%(J['seed'],fn,J['backend'])); m=Mon(con,lib); done=0; distinct=set(); nontriv=P.__dict__.get('nontrivial'); sk=0; bad=None; sample=None; t0=time.time()
        hints=J['hints'].get(fn,[]); n=J['n'].get(fn,J['n']['*']) if con.nmon is None else max(con.nmon,J['n'].get(fn,0)) 
        k=0
        while done<n and k<12*n+20 and time.time()-t0<J.get('tmax',20):
            h=hints[k//2] if k//2<len(hints) else None
            x=m.inputs(rng,k-2*len(hints) if not h else k,h); k+=1
            if x is None: sk+=1; continue
            S,A=x
            r=m.trial(S,A,note(fn))
            if r=='skip': sk+=1; continue
            done+=1
            if nontriv and nontriv(S,A): distinct.add(hash(json.dumps([S,A])))
            if sample is None or (done==3): sample={'fn':fn,'sizes':S,'arrays':{q:v[:8] for q,v in A.items()}}
            if r: bad={'why':r,'S':S,'A':A}; break
        out.write(json.dumps({'fn':fn,'done':done,'distinct':len(distinct),'skipped':sk,'bad':bad,'sample':sample})+'\n')
def asan_env():
    lib=subprocess.run(['gcc','-print-file-name=libasan.so'],capture_output=True,text=True).stdout.strip()
    cxx=subprocess.run(['g++','-print-file-name=libstdc++.so.6'],capture_output=True,text=True).stdout.strip()
    e=dict(os.environ); e.update(LD_PRELOAD=lib+' '+os.path.realpath(cxx),ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:halt_on_error=1:exitcode=77:allocator_may_return_null=1:verify_asan_link_order=0',PYTHONMALLOC='malloc',OMP_NUM_THREADS='4',OPENBLAS_NUM_THREADS='1',OMP_WAIT_POLICY='passive')
    return e
def run_batch(so,prop,backend,fns,seed,n,hints,work,tag,tmax=20,timeout=600):
    """-> {fn: record}; a crash is attributed to the wrapper running at the time"""
    res={}; left=list(fns); it=0
    while left:
        it+=1
        base=os.path.join(work,'mon.%s.%d'%(tag,it)); job=base+'.job'; out=base+'.out'
        json.dump({'so':so,'prop':prop,'backend':backend,'fns':left,'seed':seed,'n':n,'hints':hints,'out':out,'tmax':tmax},open(job,'w'))
        open(out,'w').close()
        try: os.unlink(out+'.cur')
        except OSError: pass
        try: p=subprocess.run([sys.executable,os.path.abspath(__file__),job],env=asan_env(),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,cwd=work); rc=p.returncode; log=p.stdout
        except subprocess.TimeoutExpired as e: rc='timeout'; log=(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')
        for l in open(out):
            r=json.loads(l); res[r['fn']]=r
        left=[f for f in left if f not in res]
        if rc==0 and not left: break
        if not left: break
        f=left[0]; cur=None
        try: cur=json.load(open(out+'.cur'))
        except Exception: pass
        if cur and cur['fn']==f:
            res[f]={'fn':f,'done':1,'skipped':0,'sample':None,'bad':{'why':'the process %s: %s'%('did not finish in time' if rc=='timeout' else 'ended abnormally (%s)'%rc,tail(log)),'S':cur['S'],'A':cur['A'],'crash':True}}
        else:
            res[f]={'fn':f,'done':0,'skipped':0,'sample':None,'bad':None,'error':tail(log)}
        left=left[1:]
    return res
def tail(log):
    i=log.find('AddressSanitizer')
    return (log[i:i+1200] if i>=0 else log[-1200:])
if __name__=='__main__': worker(sys.argv[1])
