#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--thorough] | check.py --replay <file>
Builds the harness of a property against /repo's current headers, has the deductive verifier discharge every
obligation of its contracts, and replays / searches for failing inputs on the compiled code."""
import sys, os
if os.environ.get('PYTHONHASHSEED')!='0': os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)   # reproducible proof search
import json, time, re, shutil, tempfile, importlib, signal, subprocess, multiprocessing as mp, random
HERE=os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE); sys.path.insert(0,HERE)
sys.setrecursionlimit(20000)
from concurrent.futures import ThreadPoolExecutor
from dv import build,llparse,spec,smt,blas,monitor
NPROC=min(8,os.cpu_count() or 4)
BUDGET={'quick':520,'thorough':3*3600}       # seconds for the proofs, after which the rest counts as out of reach
MODS={}
class Slow(Exception): pass
def job(a):
    be,fn,limit,dump=a
    P=importlib.import_module('props.'+PROP); con=CONS[fn]; mod=MODS[be]
    smt.STATS.update(queries=0,time=0.0,cachehits=0,unknown=0)
    if dump: smt.DUMP=[]
    def al(*_): raise Slow()
    signal.signal(signal.SIGALRM,al); signal.alarm(max(1,int(limit)))
    try:
        r=spec.verify(mod,con,be,trusted=blas.TABLE)
        signal.alarm(0)
        out={'fn':fn,'be':be,'wall':r.wall,'obs':len(r.obs),'failed':[(k,c,d[:3000],l) for k,c,ok,d,l in r.failed],'unsupported':r.unsupported,'paths':r.paths,'loops':r.loops,'trusted':sorted(map(str,r.trusted)),'assumed':sorted(map(str,r.assumed)),'hints':[],'vac':r.vacuous}
        if r.failed:
            signal.alarm(20)
            try:
                for f in r.failfacts[:6]:
                    h=smt.model(f)
                    if h: out['hints'].append(h)
            except Exception: pass
            signal.alarm(0)
    except Slow: out={'fn':fn,'be':be,'wall':limit,'obs':0,'failed':[],'unsupported':'time limit of %ds'%limit,'paths':0,'loops':0,'trusted':[],'assumed':[],'hints':[],'vac':False}
    except Exception as e:
        signal.alarm(0)
        import traceback
        out={'fn':fn,'be':be,'wall':0,'obs':0,'failed':[],'unsupported':'verifier error: '+repr(e)[:300]+' '+traceback.format_exc()[-400:],'paths':0,'loops':0,'trusted':[],'assumed':[],'hints':[],'vac':False}
    finally: signal.alarm(0)
    out['smt']=dict(smt.STATS); out['dump']=smt.DUMP or []; smt.DUMP=None
    return out

def reach(path,fns):
    """lalib functions reachable in the unoptimised IR from the wrappers"""
    calls={}; cur=None
    for l in open(path):
        if l.startswith('define '):
            m=re.search(r'@("?)([\w.$]+)\1\(',l); cur=m.group(2) if m else None; calls[cur]=set()
        elif l.startswith('}'): cur=None
        elif cur and '@' in l: calls[cur].update(re.findall(r'@([\w.$]+)',l))
    seen=set(); todo=[f for f in fns if f in calls]
    while todo:
        f=todo.pop()
        if f in seen: continue
        seen.add(f); todo+=[g for g in calls[f] if g in calls and g not in seen]
    names=[s for s in seen if s.startswith('_Z') and '5lalib' in s]
    if not names: return []
    o=subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
    return sorted({x for x in o if 'lalib::' in x})

def known():
    """known-findings.txt: 'known: property=<id> fn=<wrapper> backend=<be> <what fails>'; 'fixed:' lines suppress nothing"""
    out=[]
    try:
        for l in open(os.path.join(HERE,'known-findings.txt')):
            m=re.match(r'known: property=(\S+) fn=(\S+) backend=(\S+) (?:when="([^"]*)" )?(.*)',l.strip())
            if m: out.append(m.groups())
    except OSError: pass
    return out

def main():
    global PROP,CONS
    if sys.argv[1]=='--replay': return replay(sys.argv[2])
    PROP=sys.argv[1]; tier='thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER')=='thorough' else 'quick'
    seed=int(os.environ.get('VERIF_SEED') or 1); t0=time.time()
    P=importlib.import_module('props.'+PROP); cons=P.contracts(); CONS={c.fn:c for c in cons}
    if len(CONS)!=len(cons): print('error: duplicate contract'); return 2
    evd=os.path.join(HERE,'evidence'); os.makedirs(evd,exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(PROP+'.'): os.unlink(os.path.join(evd,f))
    work=tempfile.mkdtemp(prefix='lalibdv.')
    try: return run(P,cons,tier,seed,t0,evd,work)
    finally: shutil.rmtree(work,ignore_errors=True)

def run(P,cons,tier,seed,t0,evd,work):
    quick=tier=='quick'; bes=P.BACKENDS; src=os.path.join(HERE,'harness',P.HARNESS)
    lap=time.time(); gone=[]
    try:
        with ThreadPoolExecutor(NPROC) as tp:
            fi={b:tp.submit(build.ir,src,b,work) for b in bes}; fs={b:tp.submit(build.so,src,b,work) for b in bes}
            irp={b:f.result() for b,f in fi.items()}; sop={b:f.result() for b,f in fs.items()}
    except build.BuildError as e0:
        # some instantiations no longer compile (such as those for complex elements): the others are still decided
        pr={b:build.prune(src,b,work) for b in bes}
        try:
            if not all(pr.values()): raise e0
            irp={b:build.ir(pr[b][0],b,work) for b in bes}; sop={b:build.so(pr[b][0],b,work) for b in bes}
        except build.BuildError as e: print('error: the harness of %s does not build against /repo:\n%s'%(PROP,e)); return 2
        for b in bes:
            gone+=['%s [%s]'%(g,b) for g in pr[b][1]]
        compile_error=str(e0)
    on={b:[c for c in cons if not c.backends or b in c.backends] for b in bes}
    # wrappers and contracts must match one to one
    for b in bes:
        MODS[b]=llparse.parse_module(open(irp[b]).read())
        miss=[c.fn for c in on[b] if c.sym not in MODS[b].functions] if hasattr(MODS[b],'functions') else []
        if gone: on[b]=[c for c in on[b] if c.fn not in miss]; miss=[] if on[b] else miss
        if miss: print('error: contract without function: %s'%miss[:5]); return 2
    tb=time.time()-lap; print('%s: built in %.0fs; %s contracts'%(PROP,tb,'+'.join('%d %s'%(len(on[b]),b) for b in bes)),flush=True)
    reachable={b:reach(irp[b].replace('.ll','.0.ll'),[c.sym for c in on[b]]) for b in bes}
    # --- proofs (a process pool) and, at the same time, sanity runs of every contract
    limit=P.__dict__.get('LIMIT',100) if quick else 1800
    weight=lambda c:-(c.__dict__.get('weight') or 1)
    jobs=sorted([(b,c) for b in bes for c in on[b] if not c.monitor_only],key=lambda x:weight(x[1]))
    deadline=t0+BUDGET[tier]
    res={}; lap=time.time()
    nm=P.__dict__.get('NMON',25) if quick else 400
    mons={b:{} for b in bes}
    with mp.get_context('fork').Pool(NPROC,maxtasksperchild=1) as pool:
        it=[(b,c,pool.apply_async(job,((b,c.fn,limit,not quick),))) for b,c in jobs]
        pool.close()
        for b,c,h in it:
            try: r=h.get(timeout=max(1,deadline-time.time()))
            except mp.TimeoutError: r={'fn':c.fn,'be':b,'wall':0,'obs':0,'failed':[],'unsupported':'time budget of the check','paths':0,'loops':0,'trusted':[],'assumed':[],'hints':[],'vac':False,'smt':{'queries':0,'time':0,'cachehits':0,'unknown':0},'dump':[]}
            res[b,c.fn]=r
        pool.terminate()
    tv=time.time()-lap; lap=time.time()
    # --- runs on concrete inputs
    def batch(tag,b,fns,n,hints,tmax):
        return b,monitor.run_batch(sop[b],PROP,b,fns,seed,n,hints,work,tag,tmax,timeout=300 if quick else 3600)
    mrec={}
    with ThreadPoolExecutor(NPROC) as tp:
        fs=[]
        for b in bes:
            fns=[c.fn for c in on[b]]; n={'*':nm}; hints={}
            for f in fns:
                r=res.get((b,f))
                if r is None or r['unsupported'] or r['failed']: n[f]=max(nm*12,300); hints[f]=r['hints'] if r else []
            k=max(1,min(NPROC,len(fns) if 'LEVEL' in P.__dict__ else len(fns)//6 or 1)); random.Random(7).shuffle(fns)
            for j in range(k): fs.append(tp.submit(batch,'%s%d'%(b,j),b,fns[j::k],n,hints,15 if quick else 300))
        for f in fs:
            b,rr=f.result()
            for fn,x in rr.items(): mrec[b,fn]=x
    tm=time.time()-lap
    # --- verdicts
    viol=[]; bounded=[]; errs=[]; knowns=known(); evals=0; nobs=ndis=0
    for b in bes:
        for c in on[b]:
            k=(b,c.fn); r=res.get(k); m=mrec.get(k)
            if m is None: errs.append('%s [%s]: not run'%(c.fn,b)); continue
            evals+=m['done']
            if r: nobs+=r['obs']; ndis+=r['obs']-len(r['failed'])
            if r and not r['unsupported'] and not r['failed'] and (r['obs']==0 or r['paths']==0): errs.append('%s [%s]: vacuous (no obligations)'%(c.fn,b))
            if m.get('error'): errs.append('%s [%s]: could not be run: %s'%(c.fn,b,m['error'][-300:])); 
            if m['bad']: viol.append((b,c.fn,r,m['bad']))
            elif r and r['failed']: viol.append((b,c.fn,r,None))
            elif r is None or r['unsupported']:
                if not m['done']: errs.append('%s [%s]: outside the verifier\'s reach and no admissible input tried'%(c.fn,b))
                bounded.append({'function':c.fn,'backend':b,'reason':(r or {}).get('unsupported') or 'not given to the verifier','inputs_tried':m['done']})
    # lemmas over the contracts (independent of the code)
    lem=[]
    for x in P.__dict__.get('LEMMAS',[]):
        r=subprocess.run(['lean',os.path.join(HERE,'lemmas',x)],capture_output=True,text=True,timeout=600,cwd=work)
        lem.append({'file':'lemmas/'+x,'accepted':r.returncode==0})
        if r.returncode: errs.append('lemma %s is not accepted by Lean: %s'%(x,(r.stdout+r.stderr)[:300]))
    # thorough: a second solver re-decides the queries
    cross=None
    if not quick: cross=crosscheck([q for r in res.values() for q in r['dump']],work,seed)
    shown=0; nv=0; kf=set()
    viol.sort(key=lambda v:v[3] is None)
    for b,fn,r,bad in viol:
        hit=[x for x in knowns if x[0]==PROP and re.fullmatch(x[1],fn) and x[2] in(b,'*') and (bad is None or not x[3] or x[3] in bad['why'])]
        if hit:
            if hit[0] not in kf: kf.add(hit[0]); print('KNOWN-FINDING: property=%s %s'%(PROP,hit[0][4]))
            continue
        nv+=1
        if shown>=5: continue
        path=os.path.join(evd,'%s.replay.%s.%s.json'%(PROP,fn,b)); shown+=1
        rec={'property':PROP,'function':fn,'backend':b,'harness':P.HARNESS,'failed_obligations':[{'kind':k,'case':c,'detail':d,'where':l} for k,c,d,l in (r['failed'][:6] if r else [])],'verifier_hints':(r or {}).get('hints'),'failing_input':bad and {'S':bad['S'],'A':bad['A']},'observed':bad and bad['why'],'replay_cmd':'%s --replay %s'%(os.path.join(HERE,'check.py'),path)}
        json.dump(rec,open(path,'w'),indent=1)
        if bad: print('%s [%s]: %s'%(fn,b,bad['why'][:300].replace('\n',' ')))
        else: print('%s [%s]: not discharged: %s: %s'%(fn,b,r['failed'][0][0],(r['failed'][0][2])[:300].replace('\n',' ')))
        print('VIOLATION property=%s replay=%s%s'%(PROP,path,'' if bad else ' no-failing-input-found'),flush=True)
    if gone:
        # users of these element types or sizes are left with code that no longer builds
        nv+=1; path=os.path.join(evd,PROP+'.replay.build.json')
        json.dump({'property':PROP,'function':'build','backend':bes[0],'harness':P.HARNESS,'failed_obligations':[{'kind':'instantiates','case':'','detail':'; '.join(gone),'where':compile_error[:6000]}],'failing_input':None},open(path,'w'),indent=1)
        print('does not compile any more: '+'; '.join(gone)[:300]); print('VIOLATION property=%s replay=%s no-failing-input-found'%(PROP,path),flush=True)
    done=[r for r in res.values() if not r['unsupported']]
    fnc=sorted({f for b in bes for f in reachable[b]})
    samples=[m['sample'] for m in list(mrec.values())[:400:97] if m.get('sample')]
    cov={'obligations':nobs,'discharged':ndis,
      'checker_cmd':'%s/check.py %s%s'%(HERE,PROP,'' if quick else ' --thorough'),
      'trusted_base':['clang 18 front end and its semantics-preserving IR passes (inlining, sroa, early-cse, simplifycfg, instcombine)','dv/: symbolic executor, loop summariser, equality prover (this framework)','Z3 '+smt.z3.get_version_string()]+sorted({t for r in res.values() for t in r['trusted']})[:60],
      'contracts':{b:len(on[b]) for b in bes},'proved':{b:sum(1 for c in on[b] if (b,c.fn) in res and not res[b,c.fn]['unsupported'] and not res[b,c.fn]['failed']) for b in bes},
      'functions_under_contract':fnc[:400],'functions_under_contract_count':len(fnc),
      'paths':sum(r['paths'] for r in res.values()),'loops_summarised':sum(r['loops'] for r in res.values()),
      'back_end':{'z3_queries':sum(r['smt']['queries'] for r in res.values()),'z3_seconds':round(sum(r['smt']['time'] for r in res.values()),1),'z3_unknown':sum(r['smt']['unknown'] for r in res.values()),'cache_hits':sum(r['smt']['cachehits'] for r in res.values()),'polynomial_identity_prover':'dv/realeq.py (no external solver)'},
      'proof_cpu_s':round(sum(r['wall'] for r in res.values()),1),'wall':{'build':round(tb,1),'proofs':round(tv,1),'runs':round(tm,1)},
      'bounded_stand_ins':bounded,'evaluations':evals,'samples':samples,'slowest':[[r['fn'],r['be'],round(r['wall'],1)] for r in sorted(res.values(),key=lambda r:-r['wall'])[:5]]}
    if gone: cov['instantiations_that_do_not_compile']=gone
    if cross: cov['second_solver']=cross
    if lem: cov['lemmas_accepted_by_lean']=lem
    lev=P.__dict__.get('LEVEL','proof')
    if lev!='proof': cov.update({'distinct_nontrivial':sum(m.get('distinct',0) for m in mrec.values()),'rule':P.RULE})
    ev={'property':PROP,'tier':tier,'seed':seed,'level':lev,'coverage':cov,'assumptions':ASSUME+P.__dict__.get('ASSUME',[])+sorted({'assumed: '+a for r in res.values() for a in r['assumed']}),'wall_s':round(time.time()-t0,1),'violations':nv}
    json.dump(ev,open(os.path.join(evd,PROP+'.json'),'w'),indent=1)
    print('%s: %d of %d obligations discharged over %d contracts (%d proved, %d bounded), %d concrete runs, %d violations, %.0fs (build %.0f, proofs %.0f, runs %.0f)'%(PROP,ndis,nobs,sum(map(len,on.values())),sum(cov['proved'].values()),len(bounded),evals,nv,time.time()-t0,tb,tv,tm))
    for x in bounded[:4]: print('bounded: %(function)s [%(backend)s]: %(reason)s'%x)
    if nv: return 1
    if errs:
        for e in errs[:5]: print('error: '+e)
        return 2
    if cross and cross['disagree']: print('error: the second solver disagrees'); return 2
    return 0
ASSUME=['floating point treated as real (complex as pairs of reals) arithmetic; no NaN or infinity in the inputs','C int elements treated as integers modulo 2^32; sizes and indices as mathematical integers with extents below 2^31','memory allocation never fails','OpenMP parallel-for bodies are executed for every iteration exactly once; their independence is an obligation','built with NDEBUG (assert disabled)','termination of loops follows from the established trip counts']
def crosscheck(qs,work,seed):
    """re-decides a sample of the proved Z3 queries with cvc5"""
    qs=sorted(set(qs)); random.Random(seed).shuffle(qs); qs=qs[:600]
    def one(iq):
        i,q=iq; p=os.path.join(work,'q%d.smt2'%i); open(p,'w').write('(set-logic ALL)\n'+re.sub(r'\(set-info[^)]*\)|\(set-logic[^)]*\)','',q))
        try: o=subprocess.run(['cvc5','--tlimit=10000',p],capture_output=True,text=True,timeout=30).stdout.strip()
        except Exception: o='timeout'
        os.unlink(p); return o.split('\n')[0] if o else 'error'
    with ThreadPoolExecutor(NPROC) as tp: rs=list(tp.map(one,enumerate(qs)))
    return {'solver':'cvc5 1.1.2','queries':len(qs),'agree':sum(r=='unsat' for r in rs),'unknown':sum(r not in('sat','unsat') for r in rs),'disagree':sum(r=='sat' for r in rs)}
def replay(path):
    """runs a recorded failing input, or shows the failed obligation when there is none"""
    r=json.load(open(path)); P=importlib.import_module('props.'+r['property'])
    for o in r['failed_obligations'][:3]: print('failed obligation: %(kind)s %(case)s %(detail)s %(where)s'%o)
    if not r['failing_input']: print('no failing input was found'); return 1
    work=tempfile.mkdtemp(prefix='lalibdv.')
    try:
        so=build.so(os.path.join(HERE,'harness',r['harness']),r['backend'],work)
        code="import sys,json,ctypes,importlib;sys.path.insert(0,%r)\nfrom dv import monitor\nP=importlib.import_module('props.%s');r=json.load(open(%r));c={c.fn:c for c in P.contracts()}[r['function']]\nprint('result:',monitor.Mon(c,ctypes.CDLL(%r)).trial(r['failing_input']['S'],r['failing_input']['A']) or 'satisfies the contract')"%(HERE,r['property'],path,so)
        p=subprocess.run([sys.executable,'-c',code],env=monitor.asan_env()); return p.returncode
    finally: shutil.rmtree(work,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
