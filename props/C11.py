from dv.spec import *
from dv.smt import Forall
HARNESS='C11.cc'; BACKENDS=['internal']
LEVEL='exploration'     # bounded: the merge loop of operator+= is outside the verifier's reach
RULE='pairs of sparsity patterns with distinct coordinates: first all 256 pairs on 2x2, then all 4096 pairs on 2x3 (as far as the number of runs goes), then random pairs up to 6x6 with different shapes; non-trivial = both operands have entries; every position of the joint shape and one row and column beyond is compared'
e,f,r,c=[sym(v,'I') for v in 'efrc']
MX=2**20
def SZ(v,lo=0,hi=MX): return ('size',v,lo,hi)
def nontrivial(S,A): return S['e']>0 and S['f']>0
def pick_(c,x):
    return CV(T.ite(c,x.re,R(0)),T.ite(c,x.im,R(0))) if isinstance(x,CV) else T.ite(c,x,R(0))
def gen_():
    n=[0]
    def gen(rng,con,env):
        S=env['$']; w=con.opts.get('w',1); k=n[0]; n[0]+=1
        def grid(R,C,bits): return [(q//C,q%C) for q in range(R*C) if bits>>q&1]
        if k<256: R,C=2,2; pa,pb=grid(2,2,k%16),grid(2,2,k//16)
        elif k<256+4096: R,C=2,3; q=k-256; pa,pb=grid(2,3,q%64),grid(2,3,q//64)
        else:
            def pick():
                R,C=rng.choice([1,2,3,4,6]),rng.choice([1,2,3,5,6]); ps=[(i,j) for i in range(R) for j in range(C)]
                if rng.random()<.5: dead=set(rng.sample(range(R),rng.randint(0,R))); ps=[p for p in ps if p[0] not in dead]
                return rng.sample(ps,rng.randint(0,len(ps)))
            pa,pb=pick(),pick()
            R=max([p[0] for p in pa+pb],default=0)+1; C=max([p[1] for p in pa+pb],default=0)+1
        if k>=16: rng.shuffle(pa); rng.shuffle(pb)
        S['e'],S['f'],S['r'],S['c']=len(pa),len(pb),R+1,C+1
        env['row'],env['col']=[p[0] for p in pa],[p[1] for p in pa]
        env['rowb'],env['colb']=[p[0] for p in pb],[p[1] for p in pb]
        env['a']=[float(rng.choice([1,2,-3,.5,7,-1])) for _ in range(len(pa)*w)]; env['b']=[float(rng.choice([1,2,-3,.5,7,-1,4])) for _ in range(len(pb)*w)]
        env['o']=[-9.]*((R+1)*(C+1)*w)
        return True
    return gen
def contracts():
    out=[]; i,j=fresh('i'),fresh('j')
    for t in 'dfzc':
        row,col,a=Arr('row','u',e),Arr('col','u',e),Arr('a',t,e)
        rowb,colb,b=Arr('rowb','u',f),Arr('colb','u',f),Arr('b',t,f); o=Arr('o',t,r*c)
        def element(rs,cs,v,n): return Sum(I(0),n,lambda u: pick_(f_and(f_eq(rs[u],i),f_eq(cs[u],j)),v[u]))
        A=element(row,col,a,e); B=element(rowb,colb,b,f)
        D=[SZ('e'),SZ('f'),SZ('r'),SZ('c'),row,col,a,rowb,colb,b,o]
        ij=[(i,I(0),r),(j,I(0),c)]
        for fn,v in [('add',A+B),('addto',A+B),('twice',A+B+B)]+([('sub',A-B)] if t in'df' else []):
            out.append(Contract(fn+'_'+t,D,[Case(True,0,[*all_('element',ij,o.new(i*c+j),v)]+same(row,col,a,rowb,colb,b))],gen=gen_(),opts={'w':2 if t in'zc' else 1},sizes={'*':8},monitor_only=True,nmon=4700 if t=='d' else 800))
    return out
