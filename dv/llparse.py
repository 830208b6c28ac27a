"""Parser for the textual LLVM IR (clang/opt 18) that the verifier consumes."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>!"(?:[^"\\]|\\.)*"|![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<op>[][(){}<>,=*|:;])
''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out=[]; i=0; n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m: raise ParseError("tok %r"%s[i:i+60])
        i=m.end(); k=m.lastgroup
        if k=='ws': continue
        if k=='op' and m.group()==';': break
        v=m.group()
        if k in('loc','glob') and v[1]=='"': v=v[0]+v[2:-1]
        out.append((k,v))
    return out

# ---- types: tuples
# ('int',w) ('float',) ('double',) ('ptr',) ('void',) ('array',n,t) ('struct',[t],packed) ('named',name) ('vec',n,t) ('label',) ('meta',) ('fn',ret,[..])
ATTRS=set('''noundef nonnull zeroext signext inreg nocapture noalias readonly readnone writeonly returned noreturn
 nounwind immarg captures writable dead_on_unwind local_unnamed_addr unnamed_addr dso_local hidden internal linkonce_odr
 weak_odr private constant global tail musttail notail fast nnan ninf nsz arcp contract afn reassoc allocptr swiftself nest
 ccc fastcc coldcc default noinline mustprogress weak comdat external available_externally appending thread_local protected
 allocsize inrange inbounds nuw nsw exact disjoint nneg volatile'''.split())

class P:
    def __init__(self,toks,mod): self.t=toks; self.i=0; self.mod=mod
    def peek(self,k=0): return self.t[self.i+k] if self.i+k<len(self.t) else ('eof','')
    def next(self): x=self.peek(); self.i+=1; return x
    def at(self,v): return self.peek()[1]==v
    def acc(self,v):
        if self.at(v): self.i+=1; return True
        return False
    def exp(self,v):
        x=self.next()
        if x[1]!=v: raise ParseError("expected %r got %r in %s"%(v,x,' '.join(a for _,a in self.t)[:300]))
    def type(self):
        k,v=self.next()
        if k=='id':
            if re.fullmatch(r'i\d+',v): ty=('int',int(v[1:]))
            elif v in('double','float','ptr','void','label','half','x86_fp80','opaque'): ty=(v,)
            elif v=='metadata': ty=('meta',)
            elif v=='token': ty=('token',)
            else: raise ParseError('type '+v)
        elif k=='loc': ty=('named',v)
        elif v=='[':
            n=int(self.next()[1]); self.exp('x'); t=self.type(); self.exp(']'); ty=('array',n,t)
        elif v=='{':
            ts=[]
            if not self.at('}'):
                ts.append(self.type())
                while self.acc(','): ts.append(self.type())
            self.exp('}'); ty=('struct',tuple(ts),False)
        elif v=='<':
            if self.at('{'):
                self.next(); ts=[]
                if not self.at('}'):
                    ts.append(self.type())
                    while self.acc(','): ts.append(self.type())
                self.exp('}'); self.exp('>'); ty=('struct',tuple(ts),True)
            else:
                n=int(self.next()[1]); self.exp('x'); t=self.type(); self.exp('>'); ty=('vec',n,t)
        else: raise ParseError('type %r'%v)
        while True:
            if self.at('(') and self.peek()[0]=='op':   # function type
                self.next(); a=[]
                while not self.at(')'):
                    if self.acc('...'): pass
                    else: a.append(self.type())
                    self.acc(',')
                self.exp(')'); ty=('fn',ty,tuple(a))
            elif self.at('*'): self.next(); ty=('ptr',)
            elif self.at('addrspace'):
                self.next(); self.exp('('); self.next(); self.exp(')')
            else: break
        return ty
    def attrs(self):
        while True:
            k,v=self.peek()
            if k=='id' and v in('align','dereferenceable','dereferenceable_or_null','byval','sret','elementtype','range','preallocated','inalloca','byref','memory','allocsize','captures','initializes'):
                self.next()
                if self.acc('('):
                    d=1
                    while d:
                        x=self.next()[1]
                        if x=='(': d+=1
                        elif x==')': d-=1
                else: self.next()
            elif k=='id' and v in ATTRS: self.next()
            elif k=='attr': self.next()
            elif k=='str': self.next()
            else: return
    def value(self,ty):
        k,v=self.next()
        if k=='loc': return ('reg',v)
        if k=='glob': return ('glob',v)
        if k=='num':
            if ty[0]=='int': return ('int',int(v))
            return ('fp',Fraction(float(v)))
        if k=='hex':
            x=int(v[2:],16); f=struct.unpack('<d',struct.pack('<Q',x))[0]
            if f!=f or f in(float('inf'),float('-inf')): return ('fpspecial',repr(f))
            return ('fp',Fraction(f))
        if k=='id':
            if v=='true': return ('int',1)
            if v=='false': return ('int',0)
            if v in('null','undef','poison','zeroinitializer','none'): return (v,)
            if v in('getelementptr','bitcast','ptrtoint','inttoptr','add','sub','addrspacecast'):
                self.attrs()
                self.exp('('); d=1; args=[]; st=self.i
                while d:
                    x=self.next()[1]
                    if x=='(': d+=1
                    elif x==')': d-=1
                return ('cexpr',v,tuple(self.t[st:self.i-1]))
        if k=='str': return ('str',v)
        if v in('[','{','<'):
            close={'[':']','{':'}','<':'>'}[v]; els=[]
            if v=='<' and self.at('{'): self.next(); close='}'
            while not self.at(close):
                t=self.type(); els.append((t,self.value(t))); self.acc(',')
            self.exp(close)
            if close=='}' and v=='<': self.exp('>')
            return ('agg',els)
        if k=='meta':
            d=0
            while True:
                x=self.peek()
                if x[0]=='eof' or (d==0 and x[1] in(',',')')): break
                if x[1] in('(','{'): d+=1
                if x[1] in(')','}'): d-=1
                self.next()
            return ('meta',v)
        raise ParseError('value %r %r'%(k,v))
    def tyval(self):
        ty=self.type(); self.attrs()
        if ty[0]=='meta':
            # skip
            d=0
            while True:
                x=self.peek()
                if x[0]=='eof' or (d==0 and x[1] in(',',')')): break
                if x[1] in('(','{'): d+=1
                if x[1] in(')','}'): d-=1
                self.next()
            return ty,('meta',)
        return ty,self.value(ty)

class Instr:
    __slots__=('op','res','ty','a','line','meta')
    def __init__(s,op,res,ty,a,line,meta): s.op=op;s.res=res;s.ty=ty;s.a=a;s.line=line;s.meta=meta
    def __repr__(s): return s.line.strip()

class Func:
    def __init__(s,name,ret,params): s.name=name;s.ret=ret;s.params=params;s.blocks={};s.order=[];s.entry=None;s.line=''

class Module:
    def __init__(s): s.types={};s.funcs={};s.decls={};s.globals={};s._lay={}
    # layout
    def resolve(s,t):
        while t[0]=='named': t=s.types[t[1]]
        return t
    def size_align(s,t):
        r=s._lay.get(t)
        if r: return r
        u=s.resolve(t)
        k=u[0]
        if k=='int':
            w=u[1]; b=1 if w<=8 else 2 if w<=16 else 4 if w<=32 else 8 if w<=64 else 16
            r=((w+7)//8 if w<=64 else 16,b)
            r=(b,b)
        elif k=='double' or k=='ptr': r=(8,8)
        elif k=='float': r=(4,4)
        elif k=='x86_fp80': r=(16,16)
        elif k=='array':
            a,b=s.size_align(u[2]); r=(a*u[1],b)
        elif k=='vec':
            a,b=s.size_align(u[2]); r=(a*u[1],a*u[1])
        elif k=='struct':
            off=0;al=1
            for f in u[1]:
                a,b=s.size_align(f)
                if u[2]: b=1
                off=(off+b-1)//b*b+a; al=max(al,b)
            r=((off+al-1)//al*al,al)
        elif k in('opaque','fn'): r=(0,1)
        else: raise ParseError('size of %r'%(u,))
        s._lay[t]=r
        return r
    def field_off(s,t,i):
        u=s.resolve(t); off=0
        for j,f in enumerate(u[1]):
            a,b=s.size_align(f)
            if u[2]: b=1
            off=(off+b-1)//b*b
            if j==i: return off,f
            off+=a
        raise ParseError('field')

def strip_meta(toks):
    """cut trailing ', !tag !n' metadata; return (toks, {tag:..})"""
    meta={}
    for i in range(len(toks)):
        k,v=toks[i]
        if k=='op' and v==',' and i+1<len(toks) and toks[i+1][0]=='meta':
            j=i+1
            while j<len(toks):
                if toks[j][0]=='meta' and j+1<len(toks) and toks[j+1][0]=='meta': meta[toks[j][1][1:]]=toks[j+1][1]
                j+=1
            return toks[:i],meta
    return toks,meta

BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST={'zext','sext','trunc','fpext','fptrunc','sitofp','uitofp','fptoui','fptosi','ptrtoint','inttoptr','bitcast'}

def parse_instr(mod,line):
    toks,meta=strip_meta(tokenize(line))
    p=P(toks,mod); res=None
    if p.peek()[0]=='loc' and p.peek(1)[1]=='=': res=p.next()[1]; p.next()
    k,op=p.next()
    while op in('tail','musttail','notail'): k,op=p.next()
    def mk(ty,a,o=op): return Instr(o,res,ty,a,line,meta)
    if op in BIN:
        flags=set()
        while p.peek()[0]=='id' and p.peek()[1] in ATTRS: flags.add(p.next()[1])
        ty=p.type(); a=p.value(ty); p.exp(','); b=p.value(ty); return mk(ty,(a,b,flags))
    if op=='fneg':
        p.attrs(); ty=p.type(); return mk(ty,(p.value(ty),))
    if op in CAST:
        p.attrs(); ty,v=p.tyval(); p.exp('to'); return mk(p.type(),(ty,v))
    if op in('icmp','fcmp'):
        p.attrs(); pred=p.next()[1]; ty=p.type(); a=p.value(ty); p.exp(','); b=p.value(ty); return mk(('int',1),(pred,ty,a,b))
    if op=='alloca':
        p.attrs(); ty=p.type(); n=None
        if p.acc(',') and not p.at('align'):
            n=p.tyval()
        return mk(ty,(n,))
    if op=='load':
        p.attrs(); ty=p.type(); p.exp(','); _,v=p.tyval(); return mk(ty,(v,))
    if op=='store':
        p.attrs(); ty,v=p.tyval(); p.exp(','); _,d=p.tyval(); return mk(ty,(v,d))
    if op=='getelementptr':
        p.attrs(); ty=p.type(); p.exp(','); bt,b=p.tyval(); idx=[]
        while p.acc(','): idx.append(p.tyval())
        return mk(ty,(b,idx))
    if op=='select':
        p.attrs(); ct,c=p.tyval(); p.exp(','); ty,a=p.tyval(); p.exp(','); _,b=p.tyval(); return mk(ty,(c,a,b))
    if op=='phi':
        p.attrs(); ty=p.type(); inc=[]
        while p.acc('['):
            v=p.value(ty); p.exp(','); l=p.next()[1]; p.exp(']'); inc.append((v,l)); p.acc(',')
        return mk(ty,inc)
    if op=='br':
        if p.acc('label'): return mk(None,(None,p.next()[1],None))
        _,c=p.tyval(); p.exp(','); p.exp('label'); a=p.next()[1]; p.exp(','); p.exp('label'); b=p.next()[1]
        return mk(None,(c,a,b))
    if op=='switch':
        ty,v=p.tyval(); p.exp(','); p.exp('label'); d=p.next()[1]; p.exp('['); cs=[]
        while not p.at(']'):
            _,c=p.tyval(); p.exp(','); p.exp('label'); cs.append((c,p.next()[1]))
        return mk(ty,(v,d,cs))
    if op=='ret':
        ty=p.type(); return mk(ty,(p.value(ty),) if ty!=('void',) else ())
    if op=='unreachable': return mk(None,())
    if op in('call','invoke'):
        p.attrs(); ty=p.type(); p.attrs()
        if ty[0]=='fn': ty=ty[1]
        k,v=p.peek()
        if v=='asm': return mk(ty,(('asm',),[],None,None))
        callee=p.value(('ptr',)); p.exp('('); args=[]
        while not p.at(')'):
            args.append(p.tyval()); p.acc(',')
        p.exp(')'); nl=ul=None
        if op=='invoke':
            while not p.at('to'): p.next()
            p.exp('to'); p.exp('label'); nl=p.next()[1]; p.exp('unwind'); p.exp('label'); ul=p.next()[1]
        return mk(ty,(callee,args,nl,ul))
    if op=='landingpad':
        ty=p.type(); cl=[]
        while p.peek()[0]!='eof':
            k,v=p.next()
            if v=='cleanup': cl.append(('cleanup',))
            elif v=='catch': cl.append(('catch',p.tyval()[1]))
            elif v=='filter': cl.append(('filter',p.tyval()[1]))
        return mk(ty,cl)
    if op=='resume': return mk(None,(p.tyval()[1],))
    if op=='extractvalue':
        ty,v=p.tyval(); ix=[]
        while p.acc(','): ix.append(int(p.next()[1]))
        return mk(ty,(v,ix))
    if op=='insertvalue':
        ty,v=p.tyval(); p.exp(','); t2,v2=p.tyval(); ix=[]
        while p.acc(','): ix.append(int(p.next()[1]))
        return mk(ty,(v,t2,v2,ix))
    if op=='freeze': 
        ty,v=p.tyval(); return mk(ty,(v,))
    if op=='extractelement':
        ty,v=p.tyval(); p.exp(','); _,i=p.tyval(); return mk(ty,(v,i))
    if op=='insertelement':
        ty,v=p.tyval(); p.exp(','); t2,e=p.tyval(); p.exp(','); _,i=p.tyval(); return mk(ty,(v,e,i))
    if op=='shufflevector':
        ty,a=p.tyval(); p.exp(','); _,b=p.tyval(); p.exp(','); mt,m=p.tyval(); return mk(ty,(a,b,mt,m))
    return mk(None,(),'unsupported:'+op)

def parse_module(text):
    mod=Module(); lines=text.split('\n'); i=0; n=len(lines)
    while i<n:
        l=lines[i]; i+=1
        if l.startswith('%') and ' = type ' in l:
            nm=l.split(' = type ')[0].strip()
            if nm[1]=='"': nm='%'+nm[2:-1]
            mod.types[nm]=P(tokenize(l.split(' = type ',1)[1]),mod).type()
        elif l.startswith('@'):
            m=re.match(r'(@"[^"]*"|@[-\w$.]+)\s*=\s*(.*)',l)
            if m:
                nm=m.group(1)
                if nm[1]=='"': nm='@'+nm[2:-1]
                mod.globals[nm]=m.group(2)
        elif l.startswith('declare'):
            m=re.search(r'@("[^"]*"|[-\w$.]+)\(',l)
            mod.decls[m.group(1).strip('"')]=l
        elif l.startswith('define'):
            p=P(tokenize(l),mod); p.next(); p.attrs(); ret=p.type(); p.attrs()
            nm=p.next()[1][1:]; p.exp('('); ps=[]
            while not p.at(')'):
                if p.acc('...'): break
                t=p.type(); p.attrs()
                r=p.next()[1] if p.peek()[0]=='loc' else None
                ps.append((r,t)); p.acc(',')
            f=Func(nm,ret,ps); f.line=l; cur=None; auto=len([1 for r,_ in ps if r is None or re.fullmatch(r'%\d+',r)])
            first=True
            body=[]
            while lines[i]!='}':
                body.append(lines[i]); i+=1
            i+=1
            # join multi-line instrs (switch, landingpad clauses, invoke)
            j=0; stm=[]
            while j<len(body):
                s=body[j]; j+=1
                if not s.strip() or s.strip().startswith(';'): continue
                lab=re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):',s)
                if lab: stm.append(('L','%'+lab.group(1).strip('"'))); continue
                if re.match(r'\s*switch ',s) and not re.search(r'\]',s):
                    while not body[j-1].strip().startswith(']'): s+=' '+body[j].strip(); j+=1
                if re.search(r'= landingpad ',s):
                    while j<len(body) and re.match(r'\s+(cleanup|catch|filter)',body[j]): s+=' '+body[j].strip(); j+=1
                if re.match(r'\s*(%\S+ = )?invoke ',s):
                    while ' unwind label' not in s: s+=' '+body[j].strip(); j+=1
                stm.append(('I',s))
            for kind,s in stm:
                if kind=='L':
                    cur=s; f.blocks[cur]=[]; f.order.append(cur)
                else:
                    if cur is None:
                        cur='%'+str(auto); f.blocks[cur]=[]; f.order.append(cur)
                    f.blocks[cur].append(s)
            f.entry=f.order[0]
            f.parsed=False
            mod.funcs[nm]=f
    return mod

def get_func(mod,name):
    f=mod.funcs[name]
    if not f.parsed:
        for b in f.order: f.blocks[b]=[parse_instr(mod,s) for s in f.blocks[b]]
        f.parsed=True
    return f
