"""Compiles the harnesses against /repo's current headers: LLVM IR for the verifier, shared objects for replay."""
import os, subprocess, re, hashlib, shutil
REPO=os.environ.get('LALIB_REPO','/repo')
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS={'internal':['-DLALIB_INTERNAL_BACKEND'],'blas':['-DLALIB_BLAS_BACKEND'],'lapack':['-DLALIB_BLAS_BACKEND','-DLALIB_LAPACK_BACKEND']}
PASSES1='cgscc(inline<only-mandatory>),function(sroa,early-cse,simplifycfg)'
PASSES2='cgscc(inline),function(sroa<modify-cfg>,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)'
NOINLINE=re.compile(r'^define [^@]*@(_ZSt(?:4sort|11stable_sort|11upper_bound|11max_element|11lower_bound|16__introsort)[A-Za-z0-9_]*|_ZNKSt6ranges(?:9__sort_fn|16__stable_sort_fn|13__upper_bound_fn|16__max_element_fnclITkSt16forward_iterator)[A-Za-z0-9_]*)\(',re.M)
COMP=re.compile(r'_ZZ(.*)ENK?(Ul.*E\d*_)cl(.*)$')   # call operator of a closure type
SORTER=re.compile(r'^define [^@]*@((?:_ZSt4sort|_ZSt11stable_sort|_ZNKSt6ranges9__sort_fn|_ZNKSt6ranges16__stable_sort_fn)[A-Za-z0-9_]*)\(',re.M)
VECGROW=re.compile(r'_ZNSt6vectorImSa.*?E{1,3}(12emplace_back|9push_back|7reserve)')   # appending to a vector of indices
VIEW=re.compile(r'^define [^@]*@_ZNK?5lalib5SpMatI[df]E(clEmm|2atEmm|6mut_atEmm|5shapeEv)\(')   # contracts over the dense view, see trusted.view
class BuildError(Exception): pass
def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise BuildError(' '.join(cmd)+'\n'+r.stdout[-4000:])
    return r.stdout
def prune(src,backend,work):
    """a copy of the harness without the instantiations (top-level macro uses such as BS(z, zd)) that no longer compile; None if the errors lie elsewhere"""
    d=os.path.join(work,'pruned.'+backend); shutil.copytree(os.path.join(HERE,'harness'),d); src=os.path.join(d,os.path.basename(src)); gone=[]
    for _ in range(4):
        r=subprocess.run(['clang++-18','-std=c++20','-DNDEBUG','-DDV_IR','-ferror-limit=0','-ftemplate-backtrace-limit=0','-fno-caret-diagnostics','-fsyntax-only','-w',*DEFS[backend],'-I'+REPO+'/include','-I'+d,'-fopenmp',src],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if not r.returncode: return src,gone
        cut={}
        for f,l,c in re.findall(r'^(\S+?):(\d+):(\d+): (?:error|note)',r.stdout,re.M):
            if os.path.dirname(f)==d: cut.setdefault(f,set()).add((int(l),int(c)))
        n=0
        for f,s in cut.items():
            L=open(f).read().split('\n')
            for l,c in sorted(s,reverse=True):
                m=re.match(r'[A-Z][A-Z0-9]*\([^()]*(?:\([^()]*\)[^()]*)*\);?',L[l-1][c-1:])
                if m and not L[l-1].startswith('#') and not(l>1 and L[l-2].endswith('\\')): L[l-1]=L[l-1][:c-1]+L[l-1][c-1+m.end():]; gone.append(m.group(0)); n+=1
            open(f,'w').write('\n'.join(L))
        if not n: break
    return None
def ir(src,backend,work,extra=()):
    base=os.path.join(work,os.path.basename(src).replace('.cc','')+'.'+backend)
    run(['clang++-18','-std=c++20','-DNDEBUG','-DDV_IR',*DEFS[backend],*extra,'-I'+REPO+'/include','-I'+os.path.dirname(src),'-fopenmp','-O1','-Xclang','-disable-llvm-passes','-fno-math-errno','-S','-emit-llvm',src,'-o',base+'.0.ll'])
    t=open(base+'.0.ll').read()
    views='@dv_view(' in t     # only then are the element accessors of a compressed-row matrix kept as calls
    out=[]; sorters=' '.join(SORTER.findall(t))
    def orders(line):
        m=re.match(r'define [^@]*@(_ZZ[A-Za-z0-9_]*)\(',line); v=re.match(r'define [^@]*@(_ZNSt6vectorI[A-Za-z0-9_]*)\(',line)
        if v and VECGROW.match(v.group(1)): return True
        m=m and COMP.match(m.group(1))
        return m and 'Z%sE%s'%(m.group(1),m.group(2)) in sorters
    for line in t.split('\n'):
        if views and line.startswith('define ') and VIEW.match(line) or line.startswith('define ') and (NOINLINE.match(line) or orders(line)): line=re.sub(r'\) ((?:local_unnamed_addr |unnamed_addr )?#\d+)( |$)',r') \1 noinline\2',line,count=1)
        out.append(line)
    open(base+'.0.ll','w').write('\n'.join(out))
    run(['opt-18','-S','-passes='+PASSES1+','+PASSES2,'-inline-threshold=100000','-inlinehint-threshold=100000','-inlinecold-threshold=100000',base+'.0.ll','-o',base+'.ll'])
    return base+'.ll'
def so(src,backend,work,extra=()):
    out=os.path.join(work,os.path.basename(src).replace('.cc','')+'.'+backend+'.so')
    libs={'internal':[],'blas':['-lopenblas'],'lapack':['-llapacke','-lopenblas']}[backend]
    run(['g++','-std=c++20','-O1','-g1','-DNDEBUG','-fsanitize=address','-w',*DEFS[backend],*extra,'-I'+REPO+'/include','-I'+os.path.dirname(src),'-fopenmp','-shared','-fPIC',src,'-o',out]+libs)
    return out
