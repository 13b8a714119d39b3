"""vtc engine: verification-condition generation by symbolic execution of the LLVM IR that
clang produces from the real sources of /repo together with a contract translation unit.

Every ENSURES, every callee precondition, every memory access, division, shift, signed
overflow, reachable abort/assert on every feasible path becomes an obligation
 path-condition => condition, discharged by an SMT solver over bit-vectors/arrays."""
import z3, struct, math, time, re, bisect, sys
from . import llvm
from .llvm import Ty
loops=None

class Unsupported(Exception): pass
class PathEnd(Exception):
    def __init__(s, why): s.why=why
class Budget(Exception): pass

BV=z3.BitVecVal
def mask(w): return (1<<w)-1
def sgn(v,w): return v-(1<<w) if v>>(w-1) else v

class Ptr:
    __slots__=('o','c','t')
    def __init__(s,o,c=0,t=()): s.o=o; s.c=c; s.t=t
    def __repr__(s): return 'Ptr(%d+%d%s)'%(s.o,s.c,'+sym' if s.t else '')

class Obj:
    __slots__=('id','base','size','kind','name','cells','blob','default','stride','fields','owner','freed','ro','ty','inp','regs')
    def clone(s,owner):
        n=Obj(); n.id=s.id;n.base=s.base;n.size=s.size;n.kind=s.kind;n.name=s.name
        n.cells=dict(s.cells);n.blob=s.blob;n.default=s.default;n.stride=s.stride
        n.fields=dict(s.fields) if s.fields is not None else None
        n.owner=owner;n.freed=s.freed;n.ro=s.ro;n.ty=s.ty;n.inp=s.inp;n.regs=s.regs
        return n

class Frame:
    __slots__=('fn','blk','prev','ip','loc','ret','allocas','visits','varargs','hook','snaps')
    def copy(s):
        f=Frame(); f.fn=s.fn;f.blk=s.blk;f.prev=s.prev;f.ip=s.ip;f.loc=dict(s.loc);f.ret=s.ret
        f.allocas=list(s.allocas);f.visits=dict(s.visits);f.varargs=s.varargs;f.hook=s.hook;f.snaps=s.snaps
        return f

_sid=[0]
class State:
    __slots__=('id','frames','mem','pc','inputs','exact','model','trace','nobj','ghost','depth','covered','pending','cnt')
    def fork(s):
        n=State(); _sid[0]+=1; n.id=_sid[0]
        n.frames=[f.copy() for f in s.frames]; n.mem=dict(s.mem); n.pc=list(s.pc); n.inputs=list(s.inputs)
        n.exact=s.exact; n.model=s.model; n.trace=list(s.trace); n.ghost=dict(s.ghost); n.depth=s.depth+1
        n.covered=s.covered; n.pending=None; n.cnt=dict(s.cnt)
        _sid[0]+=1; s.id=_sid[0]     # both sides become copy-on-write
        return n

def is_sym(v): return isinstance(v,z3.ExprRef)

def bv(v,w):
    if isinstance(v,int): return BV(v,w)
    if isinstance(v,z3.BoolRef): return z3.If(v,BV(1,w),BV(0,w))
    return v
def lead0(e,w):
    """leading bits of e that are zero by its form"""
    e=z3.simplify(e)
    if isinstance(e,z3.BitVecNumRef): return w-e.as_long().bit_length()
    k=e.decl().kind()
    if k==z3.Z3_OP_ZERO_EXT: return e.size()-e.arg(0).size()+lead0(e.arg(0),e.arg(0).size())
    if k==z3.Z3_OP_CONCAT and isinstance(e.arg(0),z3.BitVecNumRef):
        x=e.arg(0); return x.size()-x.as_long().bit_length() if x.as_long() else x.size()
    return 0
def boolv(v):
    if isinstance(v,z3.BoolRef): return v
    if isinstance(v,int): return z3.BoolVal(bool(v&1))
    if isinstance(v,z3.BitVecRef): return z3.Extract(0,0,v)==BV(1,1)
    raise Unsupported('bool of %r'%(v,))

def conc(e):
    """simplify; concrete python value if constant"""
    if not is_sym(e): return e
    e=z3.simplify(e)
    if isinstance(e,z3.BitVecNumRef): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

F64=z3.Float64(); F32=z3.Float32(); RNE=z3.RNE(); RTZ=z3.RTZ()
def fsort(ty): return F64 if ty.k=='double' else F32
def f32(x):
    try: return struct.unpack('f',struct.pack('f',x))[0]
    except OverflowError: return math.inf if x>0 else -math.inf
def fp(v,ty):
    if isinstance(v,float): return z3.FPVal(v,fsort(ty))
    return v

class Obligation:
    __slots__=('name','kind','where','status','backend','time','model','inputs','exact','path','smt','fn')
    def __init__(s,name,kind,where,fn=''):
        s.name=name;s.kind=kind;s.where=where;s.status=None;s.backend='';s.time=0;s.model=None;s.inputs=None;s.exact=True;s.path=None;s.smt=None;s.fn=fn

class Engine:
    def __init__(self, mod, solver, opts=None):
        self.m=mod; self.sv=solver; self.o=opts or {}
        self.obls=[]; self.fresh_n=0; self.hints={}
        self.faddr={}; self.addrf={}
        self.globs={}; self.gobjs={}          # name->obj id ; id->template Obj
        self.next_obj=1; self.next_base=0x10000000
        self.bases=[]; self.baseids=[]
        self.paths=0; self.ends={}; self.t0=time.time()
        self.budget=self.o.get('budget',300.0); self.max_paths=self.o.get('max_paths',20000)
        self.unroll=self.o.get('unroll',0)
        self.steps=0; self.covers={}
        self.replacerec=self.o.get('replacerec',{}); self.replace=self.o.get('replace',{})    # mangled -> mangled
        self.touched={}                          # functions of /repo executed
        self.unsup=[]; self.bounded=[]
        self.overflow_checks=self.o.get('overflow',True)
        from .intrin import install
        self.intr={}; self.intr_re=[]
        install(self)
        self.disp={k[3:]:getattr(self,k) for k in dir(self) if k.startswith('op_')}
        self.incomplete=None
        self.fail_limit=self.o.get('fail_limit',6)
        self.nfail=0
        self.dem={}
        self.invs=[]; self.loops_on=bool(self.o.get('loops')); self.loops_cut={}

    # ---------- fresh symbols
    def fresh(self,name,w):
        self.fresh_n+=1
        n='%s!%d'%(name,self.fresh_n)
        if w==1: return z3.Bool(n)
        return z3.BitVec(n,w)
    def fresh_ty(self,name,ty):
        if ty.k=='int': return self.fresh(name,ty.w)
        if ty.k=='ptr': return self.fresh(name,64)
        if ty.k in('double','float'):
            self.fresh_n+=1; return z3.FP('%s!%d'%(name,self.fresh_n),fsort(ty))
        if ty.k=='struct': return [self.fresh_ty(name,t) for t in ty.fields]
        if ty.k in('array','vec'): return [self.fresh_ty(name,ty.elem) for _ in range(ty.n)]
        if ty.k=='void': return None
        raise Unsupported('fresh of '+ty.k)

    # ---------- objects
    def new_obj(self,st,size,kind,name,default='undef',ro=False,ty=None):
        o=Obj(); o.id=self.next_obj; self.next_obj+=1
        span=size if isinstance(size,int) else (1<<44)
        o.base=self.next_base; self.next_base+=((span+0x20)+0xfff)&~0xfff if isinstance(size,int) else span
        o.base=(o.base+15)&~15
        self.bases.append(o.base); self.baseids.append(o.id)
        o.size=size; o.kind=kind; o.name=name; o.cells={}; o.blob=None; o.default=default
        o.stride=0; o.fields=None; o.owner=st.id if st else 0; o.freed=False; o.ro=ro; o.ty=ty; o.inp=None; o.regs=None
        if st: st.mem[o.id]=o
        else: self.gobjs[o.id]=o
        return o
    def obj(self,st,oid):
        o=st.mem.get(oid)
        if o is None:
            o=self.gobjs.get(oid)
            if o is None: raise Unsupported('no object %d'%oid)
        return o
    def wobj(self,st,oid):
        o=self.obj(st,oid)
        if o.owner!=st.id:
            o=o.clone(st.id); st.mem[oid]=o
        return o
    def global_ptr(self,name):
        name=self.m.aliases.get(name,name)
        if name in self.m.funcs: return self.fn_addr(name)
        oid=self.globs.get(name)
        if oid is None:
            g,ty,decl,isconst=self.m.globals[name]
            o=self.new_obj(None,ty.size,'global',name,'zero',ro=isconst,ty=ty)
            oid=o.id; self.globs[name]=oid
            if decl: o.default='undef'
            else:
                init=self.m.initializer(name)
                if init: self.init_const(o,0,init,ty)
        return Ptr(oid,0)
    def init_const(self,o,off,k,ty):
        t=k[0]
        if t in('zero','undef'): return
        if t=='bytes':
            if off==0 and o.blob is None and len(k[1])==o.size: o.blob=k[1]; return
            for i,b in enumerate(k[1]): o.cells[off+i]=(1,b)
            return
        if t=='agg':
            if ty.k=='struct':
                for f,so,ft in zip(k[1],ty.offs,ty.fields): self.init_const(o,off+so,f,ft)
            else:
                for i,f in enumerate(k[1]): self.init_const(o,off+i*ty.elem.size,f,ty.elem)
            return
        v=self.kval(k)
        o.cells[off]=(ty.size,v)
    def fn_addr(self,name):
        name=self.m.aliases.get(name,name)
        a=self.faddr.get(name)
        if a is None:
            a=0x400000+16*len(self.faddr); self.faddr[name]=a; self.addrf[a]=name
        return a
    # constant -> value
    def kval(self,k):
        t=k[0]
        if t=='int': return k[1]
        if t=='fp': return f32(k[1]) if k[2].k=='float' else k[1]
        if t=='fn': return self.fn_addr(k[1])
        if t=='glob': return self.global_ptr(k[1])
        if t in('zero','undef'):
            ty=k[1]
            return self.zero_of(ty) if t=='zero' else self.undef_of(ty)
        if t=='agg': return [self.kval(x) for x in k[1]]
        if t=='bytes': return list(k[1])
        if t=='expr':
            op,ops,ty,ex=k[1],k[2],k[3],k[4]
            if op=='getelementptr':
                p=self.kval(ops[0]); return self.gep(p,ex,[self.kval(x) for x in ops[1:]],[64]*(len(ops)-1))
            if op in('bitcast','ptrtoint','inttoptr'):
                v=self.kval(ops[0])
                if op=='inttoptr' : return self.to_ptr(v)
                return v
            if op=='trunc': return self.num(self.kval(ops[0]))&mask(ty.w)
            if op in('sub','add'):
                a=self.kval(ops[0]);b=self.kval(ops[1])
                return self.iadd(a,b,64) if op=='add' else self.isub(a,b,64)
            if op=='icmp': return self.icmp(ex,self.kval(ops[0]),self.kval(ops[1]),64)
            raise Unsupported('const expr '+op)
        raise Unsupported('const %r'%(k,))
    def zero_of(self,ty):
        if ty.k in('int','ptr'): return 0
        if ty.k in('float','double'): return 0.0
        if ty.k=='struct': return [self.zero_of(t) for t in ty.fields]
        return [self.zero_of(ty.elem) for _ in range(ty.n)]
    def undef_of(self,ty):
        if ty.k in('struct','array','vec'): return self.zero_of(ty)
        return self.fresh_ty('undef',ty)

    # ---------- pointer arithmetic
    def num(self,v):
        """numeric 64-bit view of a value that may be a Ptr"""
        if isinstance(v,Ptr):
            base=self.find_base(v.o)+v.c
            if not v.t: return base&mask(64)
            e=BV(base&mask(64),64)
            for x,s in v.t: e=e+(x if s==1 else x*BV(s&mask(64),64))
            return e
        return v
    def find_base(self,oid):
        i=bisect.bisect_left(self.baseids,oid)
        return self.bases[i]
    def to_ptr(self,v):
        if isinstance(v,Ptr): return v
        v=conc(v)
        if isinstance(v,int):
            if v<0x10000000: return v
            i=bisect.bisect_right(self.bases,v)-1
            if i>=0: return Ptr(self.baseids[i],v-self.bases[i])
            return v
        # symbolic: try base + terms
        return v
    def off_expr(self,p):
        e=BV(p.c&mask(64),64)
        for x,s in p.t: e=e+(x if s==1 else x*BV(s&mask(64),64))
        return e
    def padd(self,p,delta_c,terms=()):
        """pointer + constant + list of (expr64,scale)"""
        if isinstance(p,int) or not isinstance(p,Ptr):
            if isinstance(p,int) and not terms: return (p+delta_c)&mask(64)
            e=bv(p,64)+BV(delta_c&mask(64),64)
            for x,s in terms: e=e+x*BV(s&mask(64),64)
            return conc(e)
        c=p.c+delta_c
        if not terms: return Ptr(p.o,c,p.t)
        d={}
        for x,s in list(p.t)+list(terms):
            x=z3.simplify(x)
            if isinstance(x,z3.BitVecNumRef): c+=s*sgn(x.as_long(),64); continue
            # split constant addend
            if z3.is_app_of(x,z3.Z3_OP_BADD) and isinstance(x.arg(0),z3.BitVecNumRef):
                c+=s*sgn(x.arg(0).as_long(),64)
                rest=[x.arg(i) for i in range(1,x.num_args())]
                x=rest[0] if len(rest)==1 else sum(rest[1:],rest[0])
            k=x.get_id()
            if k in d:
                d[k]=(x,d[k][1]+s)
            else: d[k]=(x,s)
        t=tuple((x,s) for x,s in d.values() if s!=0)
        return Ptr(p.o,c,t)
    def gep(self,p,srcty,idx,widths):
        c=0; terms=[]; ty=srcty
        for n,i in enumerate(idx):
            if n==0: sz=srcty.size
            elif ty.k=='struct':
                if not isinstance(i,int): raise Unsupported('symbolic struct index')
                c+=ty.offs[i]; ty=ty.fields[i]; continue
            else:
                outer=ty; ty=ty.elem; sz=ty.size
            if isinstance(i,Ptr): i=self.num(i)
            if isinstance(i,int): c+=sgn(i&mask(widths[n]),widths[n])*sz
            elif sz:
                x=bv(i,widths[n])
                if widths[n]<64: x=z3.SignExt(64-widths[n],x)
                if n and outer.k=='array' and outer.n>16 and isinstance(p,Ptr) and not p.t and not terms: self.hints.setdefault(p.o,set()).add((p.c+c,outer.n,sz))
                terms.append((x,sz))
        if isinstance(p,int) and p==0 and not terms and c==0: return 0
        p2=self.to_ptr(p) if not isinstance(p,Ptr) else p
        return self.padd(p2,c,terms)

    # ---------- integer ops with pointer awareness
    def iadd(self,a,b,w):
        if isinstance(a,Ptr) and w==64:
            if isinstance(b,int): return Ptr(a.o,a.c+sgn(b,64),a.t)
            if not isinstance(b,Ptr): return self.padd(a,0,[(bv(b,64),1)])
        if isinstance(b,Ptr) and w==64 and not isinstance(a,Ptr): return self.iadd(b,a,w)
        a=self.num(a);b=self.num(b)
        if isinstance(a,int) and isinstance(b,int): return (a+b)&mask(w)
        if isinstance(a,int) and a==0: return b
        if isinstance(b,int) and b==0: return a
        return bv(a,w)+bv(b,w)
    def isub(self,a,b,w):
        if isinstance(a,Ptr) and w==64:
            if isinstance(b,Ptr):
                if a.o==b.o:
                    if not a.t and not b.t: return (a.c-b.c)&mask(64)
                    d=self.padd(Ptr(a.o,a.c-b.c,a.t),0,[(x,-s) for x,s in b.t])
                    if not d.t: return d.c&mask(64)
                    return LinOff(d.c,d.t).expr()
            elif isinstance(b,int): return Ptr(a.o,a.c-sgn(b,64),a.t)
        a=self.num(a);b=self.num(b)
        if isinstance(a,int) and isinstance(b,int): return (a-b)&mask(w)
        if isinstance(b,int) and b==0: return a
        return bv(a,w)-bv(b,w)

    # ---------- icmp
    def icmp(self,p,a,b,w):
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.o==b.o:
                    if not a.t and not b.t:
                        x,y=a.c,b.c
                        return int({'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,
                                    'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[p])
                    d=self.padd(Ptr(a.o,a.c-b.c,a.t),0,[(x,-s) for x,s in b.t])
                    if not d.t:
                        x,y=d.c,0
                        return int({'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,
                                    'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[p])
                    if p in('eq','ne') and len(d.t)==1:
                        # c + s*x == 0 with |s*x| < 2^63 (in-object): x == -c/s
                        x,s=d.t[0]
                        if d.c%s==0: r=(x==BV((-(d.c//s))&mask(64),64))
                        else: r=z3.BoolVal(False)
                        return conc(r if p=='eq' else z3.Not(r))
                    pp={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(p,p)
                    return self.icmp(pp,conc(self.off_expr(d)),0,64)
                if p=='eq': 
                    if not a.t and not b.t: return int(self.num(a)==self.num(b))
                    return 0
                if p=='ne':
                    if not a.t and not b.t: return int(self.num(a)!=self.num(b))
                    return 1
            else:
                q=b if isinstance(a,Ptr) else a
                if isinstance(q,int) and q==0 and p in('eq','ne'): return int(p=='ne')
            a=self.num(a); b=self.num(b)
        if isinstance(a,int) and isinstance(b,int):
            if p[0]=='s': a=sgn(a,w); b=sgn(b,w); p='u'+p[1:]
            return int({'eq':a==b,'ne':a!=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}[p])
        if w==1 or isinstance(a,z3.BoolRef) or isinstance(b,z3.BoolRef):
            A=boolv(a);B=boolv(b)
            if p=='eq': r=A==B
            elif p=='ne': r=z3.Xor(A,B)
            else: return self.icmp(p,bv(a,1),bv(b,1),2) if False else self._icmp1(p,A,B)
            return conc(r)
        a=bv(a,w);b=bv(b,w)
        r={'eq':lambda:a==b,'ne':lambda:a!=b,'ult':lambda:z3.ULT(a,b),'ule':lambda:z3.ULE(a,b),'ugt':lambda:z3.UGT(a,b),
           'uge':lambda:z3.UGE(a,b),'slt':lambda:a<b,'sle':lambda:a<=b,'sgt':lambda:a>b,'sge':lambda:a>=b}[p]()
        return conc(r)
    def _icmp1(self,p,A,B):
        a=z3.If(A,BV(1,2),BV(0,2)); b=z3.If(B,BV(1,2),BV(0,2))
        if p[0]=='s': a,b=-a,-b
        return self.icmp(p,a,b,2)

    # ---------- memory
    def check_access(self,st,p,size,what,inst):
        if not isinstance(p,Ptr):
            p2=self.to_ptr(p)
            if isinstance(p2,Ptr): p=p2
            else:
                if isinstance(p2,int):
                    self.definite_fail(st,'valid-pointer',inst,what+' through null/invalid pointer 0x%x'%p2)
                    raise PathEnd('invalid pointer')
                # symbolic pointer: fork over equality to known objects impossible -> obligation fails
                self.definite_fail(st,'valid-pointer',inst,what+' through unconstrained pointer',maybe=True)
                raise PathEnd('symbolic pointer')
        o=self.obj(st,p.o)
        if o.freed:
            self.definite_fail(st,'no-use-after-free',inst,what+' of freed/dead object '+str(o.name)); raise PathEnd('uaf')
        if not p.t:
            if isinstance(o.size,int):
                if p.c<0 or p.c+size>o.size:
                    self.definite_fail(st,'in-bounds',inst,what+' %d bytes at offset %d of %s[%d]'%(size,p.c,o.name,o.size)); raise PathEnd('oob')
            else:
                self.require(st,z3.And(z3.BoolVal(p.c>=0),z3.UGE(o.size,BV(p.c+size,64))),'in-bounds','implicit',inst)
        else:
            e=self.off_expr(p)
            sz=bv(o.size,64)
            if o.stride and all(s%o.stride==0 for _,s in p.t):
                # element index arithmetic: idx = c/stride + sum (s/stride)*x ; require idx <u n
                idx=self.elem_index(o,p)
                n=o.inp
                self.require(st,z3.ULT(idx,bv(n,64)),'in-bounds','implicit',inst)
            else:
                self.require(st,z3.And(z3.ULE(e,sz),z3.ULE(BV(size,64),sz-e)),'in-bounds','implicit',inst)
        return p,o
    def elem_index(self,o,p):
        idx=BV((p.c//o.stride)&mask(64),64)
        for x,s in p.t:
            k=s//o.stride
            idx=idx+(x if k==1 else x*BV(k&mask(64),64))
        return z3.simplify(idx)
    def concretize_ptr(self,st,p,o,size,inst):
        """fork over the feasible concrete offsets of a symbolic pointer into a cell-mode object"""
        e=conc(self.off_expr(p))
        if isinstance(e,int): return Ptr(p.o,sgn(e,64))
        # enumerate
        vals=[]; extra=[]
        byt=o.kind in('heap','stack') and (not isinstance(o.size,int) or o.size>=64)
        lim=(32 if isinstance(o.size,int) else 8) if byt else self.o.get('max_ptr_fork',64)
        while True:
            m=self.sv.model(st.pc+extra)
            if m is None: break
            v=m.eval(e,model_completion=True).as_long()
            vals.append(v); extra.append(e!=BV(v,64))
            if len(vals)>lim:
                if byt: self.to_bytes(st,o); return None
                raise Unsupported('symbolic offset with >%d values into %s'%(lim,o.name))
        if not vals: raise PathEnd('infeasible')
        for v in vals[1:]:
            n=st.fork(); n.pc.append(e==BV(v,64)); n.model=None
            n.frames[-1].ip-=1       # re-execute the instruction
            n.ghost=dict(n.ghost); 
            self.work.append(n)
        st.pc.append(e==BV(vals[0],64)); st.model=None
        return Ptr(p.o,sgn(vals[0],64))
    # an array inside a cell-mode object, accessed at a symbolic index: that range alone becomes a z3 array of words
    def region(self,st,o,p,size):
        if o.stride or o.kind not in('heap','stack') or not isinstance(o.size,int): return None
        e=None; regs=o.regs or {}
        c=[(lo,hi,w,True) for lo,(hi,w,_) in regs.items()]
        for lo,n,sz in self.hints.get(o.id,()):
            if not any(not(lo+n*sz<=l or h<=lo) for l,(h,_,_) in regs.items()): c.append((lo,lo+n*sz,sz,False))
        for lo,hi,w,have in sorted(c):
            if not(lo-256<=p.c<hi+256): continue
            fit=size==w and w in(1,2,4,8) and (p.c-lo)%w==0 and all(x%w==0 for _,x in p.t)
            if not fit and have and w>1: continue
            if e is None: e=self.off_expr(p)
            if self.sv.model(st.pc+[z3.Not(z3.And(z3.UGE(e,BV(lo,64)),z3.ULE(e,BV(hi-size,64))))]) is not None: continue
            if not have:
                if not fit: w=1
                self.make_region(st,o,lo,hi,w)
            return lo
        return None
    def make_region(self,st,o,lo,hi,w):
        o=self.wobj(st,o.id); self.fresh_n+=1
        a=z3.Array('%s+%d.words!%d'%(o.name,lo,self.fresh_n),z3.BitVecSort(64),z3.BitVecSort(8*w))
        if o.default=='zero' and o.blob is None: a=z3.K(z3.BitVecSort(64),z3.BitVecVal(0,8*w))
        for k in range((hi-lo)//w):
            if all(self.byte_at(st,o,lo+k*w+j) is None for j in range(w)): continue
            if o.default=='zero' and o.blob is None and not any(lo+k*w-16<x<lo+k*w+w for x in o.cells): continue
            a=z3.Store(a,BV(k,64),bv(self.to_raw_bits(self.raw_load(st,Ptr(o.id,lo+k*w),w),w),8*w))
        self.clear_range(o,lo,hi-lo); o.regs=dict(o.regs or {}); o.regs[lo]=(hi,w,a)
    def reg_at(self,o,off,size=1):
        if o.regs:
            for lo,(hi,w,a) in o.regs.items():
                if off<hi and lo<off+size: return lo
        return None
    def reg_load(self,o,lo,p,size):
        hi,w,a=o.regs[lo]; e=self.off_expr(p)-BV(lo,64)
        if w==1: 
            b=[z3.simplify(z3.Select(a,e+BV(k,64))) for k in range(size)]
            return conc(z3.Concat(*reversed(b)) if size>1 else b[0])
        return conc(z3.simplify(z3.Select(a,self.word_index(p,lo,w))))
    def word_index(self,p,lo,w):
        i=BV(((p.c-lo)//w)&mask(64),64)
        for x,s in p.t: i=i+(x if s==w else x*BV((s//w)&mask(64),64))
        return z3.simplify(i)
    def reg_store(self,st,o,lo,p,size,v):
        o=self.wobj(st,o.id); hi,w,a=o.regs[lo]; v=self.to_raw_bits(v,size)
        if w==1:
            e=self.off_expr(p)-BV(lo,64)
            for k in range(size): a=z3.Store(a,z3.simplify(e+BV(k,64)),bv(self.byte_of(v,size,k),8))
        else: a=z3.Store(a,self.word_index(p,lo,w),bv(v,8*w))
        o.regs=dict(o.regs); o.regs[lo]=(hi,w,a)
    def reg_byte_store(self,o,off,b):
        lo=self.reg_at(o,off); hi,w,a=o.regs[lo]; i=BV((off-lo)//w,64); j=(off-lo)%w
        if w==1: x=bv(b,8)
        else:
            y=z3.Select(a,i); ps=[bv(b,8) if k==j else z3.Extract(8*k+7,8*k,y) for k in range(w)]; x=z3.simplify(z3.Concat(*reversed(ps)))
        o.regs=dict(o.regs); o.regs[lo]=(hi,w,z3.Store(a,i,x))
    def drop_regions(self,o,lo,n):
        if o.regs: o.regs={l:r for l,r in o.regs.items() if not(lo<=l and r[0]<=lo+n)} or None
    # byte-mode objects: one z3 array of bytes, for symbolic offsets and sizes
    def to_bytes(self,st,o):
        o=self.wobj(st,o.id); self.fresh_n+=1
        if o.default=='zero' and o.blob is None: a=z3.K(z3.BitVecSort(64),z3.BitVecVal(0,8))
        else: a=z3.Array('%s.bytes!%d'%(o.name,self.fresh_n),z3.BitVecSort(64),z3.BitVecSort(8))
        if o.blob is not None:
            for k,b in enumerate(o.blob): a=z3.Store(a,BV(k,64),BV(b,8))
        for off,(s,v) in sorted(o.cells.items()):
            for k in range(s): a=z3.Store(a,BV(off+k,64),bv(self.byte_of(v,s,k),8))
        for lo,(hi,w,r) in (o.regs or {}).items():
            for k in range(lo,hi): a=z3.Store(a,BV(k,64),bv(self.byte_at(st,o,k),8))
        o.regs=None; o.cells={}; o.fields={('b',0):a}
    def b_load(self,st,o,p,size):
        a=o.fields[('b',0)]; e=self.off_expr(p)
        bs=[z3.simplify(z3.Select(a,e+BV(k,64))) for k in range(size)]
        return conc(z3.simplify(z3.Concat(*reversed(bs))) if size>1 else bs[0])
    def b_store(self,st,o,p,size,v):
        o=self.wobj(st,o.id); a=o.fields[('b',0)]; e=self.off_expr(p)
        for k in range(size): a=z3.Store(a,z3.simplify(e+BV(k,64)),bv(self.byte_of(v,size,k),8))
        o.fields={('b',0):a}
    def isb(self,o): return not o.stride and bool(o.fields)
    def load(self,st,p,ty,inst):
        if ty.k=='struct':
            return [self.load(st,self.padd(self.to_ptr(p),o),t,inst) for o,t in zip(ty.offs,ty.fields)]
        if ty.k in('array','vec'):
            return [self.load(st,self.padd(self.to_ptr(p),i*ty.elem.size),ty.elem,inst) for i in range(ty.n)]
        if isinstance(p,z3.ExprRef): p=self.split_ptr_ite(st,p)
        p,o=self.check_access(st,p,ty.size,'read',inst)
        if o.stride: return self.from_raw(self.arr_load(st,o,p,ty.size),ty)
        if p.t and not self.isb(o):
            r=self.region(st,o,p,ty.size)
            if r is not None: return self.from_raw(self.reg_load(self.obj(st,p.o),r,p,ty.size),ty)
            q=self.concretize_ptr(st,p,o,ty.size,inst); o=self.obj(st,p.o); p=q if q is not None else p
        if self.isb(o): return self.from_raw(self.b_load(st,o,p,ty.size),ty)
        return self.from_raw(self.raw_load(st,p,ty.size),ty)
    def split_ptr_ite(self,st,e):
        e2=z3.simplify(e)
        if isinstance(e2,z3.BitVecNumRef): return self.to_ptr(e2.as_long())
        # enumerate feasible concrete addresses
        vals=[];extra=[]
        while True:
            m=self.sv.model(st.pc+extra)
            if m is None: break
            v=m.eval(e2,model_completion=True).as_long(); vals.append(v); extra.append(e2!=BV(v,64))
            if len(vals)>16: return e
        if not vals: raise PathEnd('infeasible')
        for v in vals[1:]:
            n=st.fork(); n.pc.append(e2==BV(v,64)); n.model=None; n.frames[-1].ip-=1; self.work.append(n)
        st.pc.append(e2==BV(vals[0],64)); st.model=None
        return self.to_ptr(vals[0])
    def raw_load(self,st,p,size):
        o=self.obj(st,p.o); off=p.c
        c=o.cells.get(off)
        if c is not None and c[0]==size: return c[1]
        if o.regs:
            lo=self.reg_at(o,off,size)
            if lo is not None:
                hi,w,a=o.regs[lo]
                if w==size and off>=lo and off+size<=hi and (off-lo)%w==0: return conc(z3.simplify(z3.Select(a,BV((off-lo)//w,64))))
        return self.assemble(st,o,off,size)
    def byte_at(self,st,o,off):
        """returns (cellvalue,size,byteindex) or int/BV8"""
        c=o.cells.get(off)
        if c is not None: return self.byte_of(c[1],c[0],0)
        if o.regs:
            lo=self.reg_at(o,off)
            if lo is not None:
                hi,w,a=o.regs[lo]; x=z3.simplify(z3.Select(a,BV((off-lo)//w,64))); j=(off-lo)%w
                return conc(z3.simplify(z3.Extract(8*j+7,8*j,x)) if w>1 else x)
        for k in range(1,16):
            c=o.cells.get(off-k)
            if c is not None:
                if c[0]>k: return self.byte_of(c[1],c[0],k)
                break
        if o.blob is not None: return o.blob[off]
        if o.default=='zero': return 0
        return None
    def byte_of(self,v,size,k):
        v=self.to_raw_bits(v,size)
        if isinstance(v,int): return (v>>(8*k))&255
        return z3.simplify(z3.Extract(8*k+7,8*k,v))
    def to_raw_bits(self,v,size):
        if isinstance(v,Ptr): return self.num(v)
        if isinstance(v,float):
            return struct.unpack('<I',struct.pack('<f',v))[0] if size==4 else struct.unpack('<Q',struct.pack('<d',v))[0]
        if isinstance(v,z3.FPRef): return z3.fpToIEEEBV(v)
        if isinstance(v,z3.BoolRef): return bv(v,8*size)
        return v
    def assemble(self,st,o,off,size):
        # nothing stored at all in range?
        bs=[self.byte_at(st,o,off+i) for i in range(size)]
        if all(b is None for b in bs):
            v=self.fresh('uninit_'+str(o.name),8*size)
            w=self.wobj(st,o.id); w.cells[off]=(size,v)
            return v
        if any(b is None for b in bs):
            w=self.wobj(st,o.id)
            for i,b in enumerate(bs):
                if b is None:
                    bs[i]=self.fresh('uninit_'+str(o.name),8); w.cells[off+i]=(1,bs[i])
        if all(isinstance(b,int) for b in bs):
            return sum(b<<(8*i) for i,b in enumerate(bs))
        return z3.simplify(z3.Concat(*[bv(b,8) for b in reversed(bs)])) if size>1 else bs[0]
    def from_raw(self,v,ty):
        if ty.k=='ptr':
            if isinstance(v,(z3.FPRef,float)): v=self.to_raw_bits(v,8)
            return self.to_ptr(v) if not isinstance(v,Ptr) else v
        if ty.k=='int':
            if isinstance(v,(float,z3.FPRef)): v=self.to_raw_bits(v,ty.size)
            if ty.w==1:
                if isinstance(v,int): return v&1
                if isinstance(v,z3.BoolRef): return v
                return conc(z3.Extract(0,0,v)==BV(1,1))
            if isinstance(v,z3.BoolRef): v=bv(v,8*ty.size)
            if ty.w<8*ty.size:
                return v&mask(ty.w) if isinstance(v,int) else z3.Extract(ty.w-1,0,v)
            return v
        if ty.k in('double','float'):
            if isinstance(v,(float,z3.FPRef)): return v
            if isinstance(v,int): return struct.unpack('<d',struct.pack('<Q',v))[0] if ty.k=='double' else struct.unpack('<f',struct.pack('<I',v))[0]
            if isinstance(v,Ptr): v=bv(self.num(v),64)
            v=z3.simplify(v)
            # a byte-copied fp value: keep identity via to_ieee_bv patterns
            if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_FPA_TO_IEEE_BV: return v.arg(0)
            return z3.fpBVToFP(v,fsort(ty))
        raise Unsupported('load type '+ty.k)
    def store(self,st,p,v,ty,inst):
        if ty.k=='struct':
            for o,t,x in zip(ty.offs,ty.fields,v): self.store(st,self.padd(self.to_ptr(p),o),x,t,inst)
            return
        if ty.k in('array','vec'):
            for i in range(ty.n): self.store(st,self.padd(self.to_ptr(p),i*ty.elem.size),v[i],ty.elem,inst)
            return
        if isinstance(p,z3.ExprRef): p=self.split_ptr_ite(st,p)
        p,o=self.check_access(st,p,ty.size,'write',inst)
        if o.ro: self.definite_fail(st,'frame',inst,'write to constant object '+o.name); raise PathEnd('ro')
        if ty.k=='int' and ty.w<8*ty.size:
            if isinstance(v,z3.BoolRef): v=bv(v,8*ty.size)
            elif is_sym(v): v=z3.ZeroExt(8*ty.size-ty.w,v)
        if o.stride: return self.arr_store(st,o,p,ty.size,v)
        if p.t and not self.isb(o):
            r=self.region(st,o,p,ty.size)
            if r is not None: return self.reg_store(st,self.obj(st,p.o),r,p,ty.size,v)
            q=self.concretize_ptr(st,p,o,ty.size,inst); o=self.obj(st,p.o); p=q if q is not None else p
        if self.isb(o): return self.b_store(st,o,p,ty.size,v)
        self.raw_store(st,p,ty.size,v)
    def raw_store(self,st,p,size,v):
        o=self.wobj(st,p.o); off=p.c
        c=o.cells.get(off)
        if c is not None and c[0]==size: o.cells[off]=(size,v); return
        if o.regs and self.reg_at(o,off,size) is not None:
            lo=self.reg_at(o,off,size); hi,w,a=o.regs[lo]
            if w==size and off>=lo and off+size<=hi and (off-lo)%w==0:
                o.regs=dict(o.regs); o.regs[lo]=(hi,w,z3.Store(a,BV((off-lo)//w,64),bv(self.to_raw_bits(v,size),8*w))); return
            for k in range(size):
                b=self.byte_of(v,size,k)
                if self.reg_at(o,off+k) is not None: self.reg_byte_store(o,off+k,b)
                else: self.clear_range(o,off+k,1); o.cells[off+k]=(1,b)
            return
        self.clear_range(o,off,size)
        o.cells[off]=(size,v)
    def clear_range(self,o,off,size):
        cells=o.cells
        for k in range(1,16):
            c=cells.get(off-k)
            if c is not None:
                if c[0]>k:
                    self.split_cell(o,off-k)
                break
        if size>64 and len(cells)<size:
            keys=[x for x in cells if off<=x<off+size]
        else: keys=[x for x in range(off,off+size) if x in cells]
        for x in keys:
            c=cells.get(x)
            if c is None: continue
            if x+c[0]>off+size: self.split_cell(o,x)
        for x in keys: cells.pop(x,None)
        if size>1 and keys:
            for x in range(off,off+size): cells.pop(x,None)
    def split_cell(self,o,off):
        s,v=o.cells.pop(off)
        for k in range(s): o.cells[off+k]=(1,self.byte_of(v,s,k))
    # array-mode objects: z3 arrays per (field offset,size), element index symbolic
    def arr_pos(self,o,p,size):
        if any(s%o.stride for _,s in p.t): raise Unsupported('misaligned symbolic access to array %s'%o.name)
        fo=p.c%o.stride
        if fo+size>o.stride: raise Unsupported('access across elements of %s'%o.name)
        return self.elem_index(o,p),fo
    def arr_field(self,st,o,fo,size):
        for (f,s) in o.fields:
            if f==fo and s==size: return o.fields[(f,s)]
            if not(f+s<=fo or fo+size<=f): raise Unsupported('mixed-size access to array %s'%o.name)
        o=self.wobj(st,o.id)
        self.fresh_n+=1
        a=z3.Array('%s.%d!%d'%(o.name,fo,self.fresh_n),z3.BitVecSort(64),z3.BitVecSort(8*size))
        o.fields[(fo,size)]=a
        return a
    def arr_load(self,st,o,p,size):
        i,fo=self.arr_pos(o,p,size); return z3.simplify(z3.Select(self.arr_field(st,o,fo,size),i))
    def arr_store(self,st,o,p,size,v):
        i,fo=self.arr_pos(o,p,size); a=self.arr_field(st,o,fo,size)
        o=self.wobj(st,o.id); v=self.to_raw_bits(v,size)
        o.fields[(fo,size)]=z3.Store(a,i,bv(v,8*size))
    def memcpy(self,st,d,s,n,inst,move=False):
        n=conc(n)
        if isinstance(n,int) and n==0: return
        if not isinstance(n,int):
            n=self.concretize(st,n,64,inst,'memcpy size')
            if n==0: return
        if isinstance(d,z3.ExprRef): d=self.split_ptr_ite(st,d)
        if isinstance(s,z3.ExprRef): s=self.split_ptr_ite(st,s)
        d,do=self.check_access(st,d,n,'write',inst); s,so=self.check_access(st,s,n,'read',inst)
        if do.ro: self.definite_fail(st,'frame',inst,'write to constant object '+do.name); raise PathEnd('ro')
        if do.stride or so.stride:
            # element-wise with the known field layout
            lay=None
            if do.stride and so.stride: raise Unsupported('array to array memcpy')
            ao=do if do.stride else so
            if n%ao.stride==0 and ao.fields:
                flds=sorted(ao.fields)
                for e in range(n//ao.stride):
                    for (fo,fs) in flds:
                        q=e*ao.stride+fo
                        if do.stride:
                            self.arr_store(st,self.obj(st,do.id),self.padd(d,q),fs,self.raw_load(st,self.cptr(st,self.padd(s,q),so,fs,inst),fs))
                        else:
                            self.raw_store(st,self.cptr(st,self.padd(d,q),do,fs,inst),fs,self.arr_load(st,self.obj(st,so.id),self.padd(s,q),fs))
                return
            if n<=ao.stride and n in(1,2,4,8):
                if do.stride: self.arr_store(st,do,d,n,self.raw_load(st,s,n))
                else: self.raw_store(st,d,n,self.arr_load(st,so,s,n))
                return
            raise Unsupported('memcpy on array object')
        if d.t and not self.isb(do): d=self.concretize_ptr(st,d,do,n,inst) or d
        if s.t and not self.isb(so): s=self.concretize_ptr(st,s,so,n,inst) or s
        do=self.obj(st,d.o); so=self.obj(st,s.o)
        if self.isb(do) or self.isb(so):
            w=[]
            for k in range(n):
                q=self.padd(s,k)
                if self.isb(so): w.append(self.b_load(st,so,q,1))
                else:
                    b=self.byte_at(st,so,q.c)
                    w.append(self.fresh('uninit',8) if b is None else b)
            for k in range(n):
                q=self.padd(d,k)
                if self.isb(do): self.b_store(st,self.obj(st,d.o),q,1,w[k])
                else: self.raw_store(st,q,1,w[k])
            return
        # gather source cells
        src=self.obj(st,s.o); out=[]; i=0
        while i<n:
            c=src.cells.get(s.c+i)
            if c is not None and i+c[0]<=n:
                out.append((i,c[0],c[1])); i+=c[0]; continue
            lo=self.reg_at(src,s.c+i)
            if lo is not None:
                w=src.regs[lo][1]
                if (s.c+i-lo)%w==0 and i+w<=n: out.append((i,w,self.raw_load(st,Ptr(src.id,s.c+i),w))); i+=w; continue
            b=self.byte_at(st,src,s.c+i)
            if b is not None: out.append((i,1,b))
            i+=1
        dst=self.wobj(st,d.o); self.drop_regions(dst,d.c,n)
        if self.reg_at(dst,d.c,n) is not None:
            got=set()
            for i,sz,v in out: self.raw_store(st,Ptr(d.o,d.c+i),sz,v); got.update(range(i,i+sz))
            for i in range(n):
                if i not in got: self.raw_store(st,Ptr(d.o,d.c+i),1,self.fresh('uninit',8))
            return
        self.clear_range(dst,d.c,n)
        if dst.blob is not None or dst.default=='zero':
            # uninit source bytes must not keep old default
            have=set()
            for i,sz,_ in out:
                for k in range(sz): have.add(i+k)
            for i in range(n):
                if i not in have: dst.cells[d.c+i]=(1,self.fresh('uninit',8))
        for i,sz,v in out: dst.cells[d.c+i]=(sz,v)
    def cptr(self,st,p,o,size,inst):
        if not p.t: return p
        q=self.concretize_ptr(st,p,o,size,inst)
        if q is None: raise Unsupported('symbolic offset copy into '+o.name)
        return q
    def memset(self,st,d,b,n,inst):
        n=conc(n)
        if not isinstance(n,int): n=self.concretize(st,n,64,inst,'memset size')
        if n==0: return
        if isinstance(d,z3.ExprRef): d=self.split_ptr_ite(st,d)
        d,o=self.check_access(st,d,n,'write',inst)
        if o.stride: raise Unsupported('memset on array object')
        if d.t and not self.isb(o): d=self.concretize_ptr(st,d,o,n,inst) or d
        o=self.obj(st,d.o)
        if self.isb(o):
            for k in range(n): self.b_store(st,self.obj(st,d.o),self.padd(d,k),1,b)
            return
        o=self.wobj(st,d.o); self.drop_regions(o,d.c,n)
        if self.reg_at(o,d.c,n) is not None: raise Unsupported('memset across an array region')
        self.clear_range(o,d.c,n)
        if isinstance(b,int) and b==0 and d.c==0 and n==o.size and o.blob is None:
            o.default='zero'; o.cells={}; return
        i=0
        while i<n:
            k=8 if (n-i>=8) else 1
            if isinstance(b,int): v=int.from_bytes(bytes([b&255])*k,'little')
            else: v=z3.Concat(*[b]*k) if k>1 else b
            o.cells[d.c+i]=(k,v); i+=k
    def alloc_size(self,st,e,inst):
        """a requested size: concrete values if few are feasible, else the symbolic size (the allocation is assumed to succeed, so it is smaller than the address space)"""
        vals=[];extra=[]; lim=self.o.get('alloc_fork',self.o.get('max_ptr_fork',64))
        while True:
            m=self.sv.model(st.pc+extra)
            if m is None: break
            v=m.eval(e,model_completion=True).as_long(); vals.append(v); extra.append(e!=BV(v,64))
            if len(vals)>lim:
                c=z3.ULT(e,BV(1<<43,64))
                if self.sv.model(st.pc+[c]) is None: raise PathEnd('allocation cannot succeed')
                st.pc.append(c); st.model=None
                return e
        if not vals: raise PathEnd('infeasible')
        for v in vals[1:]:
            n=st.fork(); n.pc.append(e==BV(v,64)); n.model=None; n.frames[-1].ip-=1; self.work.append(n)
        st.pc.append(e==BV(vals[0],64)); st.model=None
        return vals[0]
    def concretize(self,st,e,w,inst,what):
        vals=[];extra=[]
        while True:
            m=self.sv.model(st.pc+extra)
            if m is None: break
            v=m.eval(e,model_completion=True).as_long(); vals.append(v); extra.append(e!=BV(v,w))
            if len(vals)>self.o.get('max_ptr_fork',64): raise Unsupported('too many values for '+what)
        if not vals: raise PathEnd('infeasible')
        for v in vals[1:]:
            n=st.fork(); n.pc.append(e==BV(v,w)); n.model=None; n.frames[-1].ip-=1; self.work.append(n)
        st.pc.append(e==BV(vals[0],w)); st.model=None
        return vals[0]

    # ---------- obligations
    def where(self,st,inst):
        if inst is None or not inst.line: 
            for f in reversed(st.frames):
                i=f.blk.insts[max(0,min(f.ip-1,len(f.blk.insts)-1))]
                if i.line: inst=i; break
        if inst is None: return '?'
        f=inst.file
        for pre in('/repo/','/verif/'):
            if f.startswith(pre): f=f[len(pre):]
        if f.startswith('/usr'):
            # report the closest non-library frame
            for fr in reversed(st.frames):
                i=fr.blk.insts[max(0,fr.ip-1)]
                if i.line and not i.file.startswith('/usr'):
                    g=i.file
                    for pre in('/repo/','/verif/'):
                        if g.startswith(pre): g=g[len(pre):]
                    return '%s:%d'%(g,i.line)
        return '%s:%d'%(f,inst.line)
    def cur_fn(self,st):
        for fr in reversed(st.frames):
            i=fr.blk.insts[max(0,min(fr.ip-1,len(fr.blk.insts)-1))]
            if i.file.startswith(self.o.get('src','/repo')): return fr.fn.name
        return st.frames[-1].fn.name if st.frames else '?'
    def require(self,st,cond,name,kind,inst,assume=True):
        """obligation: pc => cond"""
        if kind=='implicit' and self.o.get('no_implicit'): 
            return
        cond=conc(cond) if is_sym(cond) else cond
        ob=Obligation(name,kind,self.where(st,inst),self.cur_fn(st)); ob.exact=st.exact
        self.obls.append(ob)
        if isinstance(cond,int):
            if cond&1: ob.status='proved'; ob.backend='simplify'; return
            self.fail(st,ob,z3.BoolVal(True))
            if assume: raise PathEnd('obligation failed')
            return
        neg=z3.Not(cond)
        t=time.time()
        r,m,be=self.sv.prove(st.pc,neg)
        ob.time=time.time()-t; ob.backend=be
        if r=='unsat': ob.status='proved'
        elif r=='sat': self.fail(st,ob,neg,m)
        else:
            ob.status='unknown'
        if assume: 
            st.pc.append(cond); st.model=None
            if ob.status=='failed':
                if not self.sv.feasible(st.pc): raise PathEnd('obligation failed on whole path')
    def fail(self,st,ob,neg,model=None):
        ob.status='failed'
        if model is None:
            r=self.sv.check_model(st.pc+[neg])
            if r[0]=='unsat': ob.status='proved'; ob.backend='unreachable'; return
            if r[0]=='unknown': ob.status='unknown'; return
            model=r[1]
        ob.model=model; ob.inputs=[(n,k,self.eval_input(model,k,e)) for n,k,e in st.inputs]
        ob.path=self.stack(st)
        self.nfail+=1
        if self.nfail>=self.fail_limit: raise Budget('enough failed obligations')
    def eval_input(self,m,k,e):
        if k[0]=='arr':
            n=m.eval(bv(e[1],64),model_completion=True).as_long()
            out=[]
            for i in range(min(n,4096)):
                out.append(m.eval(z3.Select(e[0],BV(i,64)),model_completion=True).as_long())
            return out
        if isinstance(e,int): return e
        v=m.eval(e,model_completion=True)
        if isinstance(v,z3.FPRef):
            b=z3.simplify(z3.fpToIEEEBV(v)); return b.as_long() if isinstance(b,z3.BitVecNumRef) else 0x7ff8000000000000
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        return v.as_long()
    def stack(self,st):
        out=[]
        for f in st.frames:
            i=f.blk.insts[max(0,min(f.ip-1,len(f.blk.insts)-1))]
            out.append('%s (%s:%d)'%(f.fn.name,i.file,i.line))
        return out
    def definite_fail(self,st,name,inst,detail,maybe=False,kind='implicit'):
        if self.o.get('no_implicit') and kind=='implicit': return
        ob=Obligation(name,kind,self.where(st,inst)+' '+detail,self.cur_fn(st)); ob.exact=st.exact and not maybe
        self.obls.append(ob)
        self.fail(st,ob,z3.BoolVal(True))

    # ---------- run
    def start(self,fname,args=()):
        st=State(); _sid[0]+=1; st.id=_sid[0]
        st.frames=[]; st.mem={}; st.pc=[]; st.inputs=[]; st.exact=True; st.model=None; st.trace=[]; st.ghost={}; st.depth=0
        st.covered=None; st.pending=None; st.cnt={}
        self.push_frame(st,self.m.funcs[fname],list(args),None)
        return st
    def push_frame(self,st,fn,args,ret,hook=None):
        if fn.blocks is None: self.m.load_body(fn)
        if len(st.frames)>self.o.get('max_depth',400): raise Unsupported('call depth')
        f=Frame(); f.fn=fn; f.blk=fn.blocks[0]; f.prev=None; f.ip=0; f.ret=ret; f.allocas=[]; f.visits={}; f.varargs=args[len(fn.params):]
        f.loc=dict(zip(fn.params,args)); f.hook=hook; f.snaps=None
        for i,ty in fn.byval.items():
            # byval: caller's copy
            o=self.new_obj(st,ty.size,'stack','byval'); f.allocas.append(o.id)
            self.memcpy(st,Ptr(o.id),args[i],ty.size,None); f.loc[fn.params[i]]=Ptr(o.id)
        st.frames.append(f)
        if fn.x is None:
            i=fn.blocks[0].insts
            fl=next((x.file for b in fn.blocks for x in b.insts if x.file),'')
            fn.x=fl
        self.touched[fn.name]=fn.x
    def run(self,fname,args=()):
        self.t0=time.time()
        self.work=[self.start(fname,args)]
        try:
            while self.work:
                st=self.work.pop()
                self.run_path(st)
                self.paths+=1
                if self.paths>self.max_paths: raise Budget('path budget')
        except Budget as b:
            self.incomplete=str(b)
        return self
    def end(self,why): self.ends[why]=self.ends.get(why,0)+1
    def run_path(self,st):
        try:
            while True:
                self.step(st)
        except PathEnd as e: self.end(e.why)
        except Unsupported as e:
            self.unsup.append((str(e),self.stack(st)[-6:])); self.end('unsupported')
        except z3.Z3Exception as e:
            import traceback
            self.unsup.append(('z3: '+str(e)+' '+traceback.format_exc()[-600:],self.stack(st)[-6:])); self.end('unsupported')
    def step(self,st):
        f=st.frames[-1]
        inst=f.blk.insts[f.ip]; f.ip+=1
        self.steps+=1
        if not self.steps&1023 and time.time()-self.t0>self.budget: raise Budget('time budget %ds'%self.budget)
        d=self.disp.get(inst.op)
        if d is None: raise Unsupported('instruction '+inst.op)
        d(st,f,inst)
    def val(self,f,o):
        if o[0]=='v': return f.loc[o[1]]
        if o[0]=='k': return self.kval(o[1])
        raise Unsupported('operand kind '+o[0])
    def opw(self,f,o):
        if o[0]=='k': return llvm.const_ty(o[1],self.m)
        return self.m.opty(o[1])

    # -- control
    def jump(self,st,f,blk):
        prev=f.blk
        # phis
        if blk.nphi:
            vals=[(i.id,self.val(f,i.x[prev.id])) for i in blk.insts[:blk.nphi]]
            for k,v in vals: f.loc[k]=v
        f.prev=prev; f.blk=blk; f.ip=blk.nphi
        if self.loops_on and blk.id in loops.analyse(f.fn)[0] and loops.at_header(self,st,f,blk): raise PathEnd('loop-covered')
    def op_phi(self,st,f,i): raise Unsupported('phi reached')
    def op_br(self,st,f,i):
        s=i.x['succ']
        if len(s)==1: return self.jump(st,f,f.fn.bmap[s[0]])
        c=self.val(f,i.ops[0])
        if isinstance(c,Ptr): raise Unsupported('branch on ptr')
        if not isinstance(c,int):
            c=conc(boolv(c))
        if isinstance(c,int):
            # LLVM: successor 0 is true target as reported by LLVMGetSuccessor
            return self.jump(st,f,f.fn.bmap[s[0] if c&1 else s[1]])
        self.branch(st,[(c,s[0]),(z3.Not(c),s[1])],f,i)
    def branch(self,st,alts,f,inst):
        """alts: list of (cond, block id); forks the state over feasible alternatives"""
        feas=[]
        n=len(alts)
        for k,(c,b) in enumerate(alts):
            if k==n-1 and not feas: feas.append((c,b)); break   # exhaustive alternatives: the last must be feasible
            if self.sv.feasible_inc(st,c): feas.append((c,b))
        if not feas: raise PathEnd('infeasible')
        if len(feas)>1 and self.unroll:
            # bounded stand-in mode: cap symbolic revisits of this branch on one path
            key=(inst.id,len(st.frames)); v=f.visits.get(key,0)+1; f.visits[key]=v
            if v>self.unroll:
                self.bounded.append(self.where(st,inst)); raise PathEnd('unroll bound')
        elif len(feas)>1:
            key=(inst.id,len(st.frames)); v=f.visits.get(key,0)+1; f.visits[key]=v
            if v>self.o.get('hard_unroll',256): raise Unsupported('loop without invariant at '+self.where(st,inst))
        for c,b in feas[1:]:
            n=st.fork(); n.pc.append(c); n.model=None
            nf=n.frames[-1]
            try: self.jump(n,nf,nf.fn.bmap[b])
            except PathEnd as pe: self.end(pe.why); continue
            self.work.append(n)
        c,b=feas[0]
        if len(feas)>1 or n>len(feas): st.pc.append(c) if len(feas)>1 else None
        self.jump(st,f,f.fn.bmap[b])
    def op_switch(self,st,f,i):
        v=self.val(f,i.ops[0]); s=i.x['succ']
        v=conc(v) if is_sym(v) else v
        if isinstance(v,int):
            for c,b in zip(i.x['cases'],s[1:]):
                if c==v: return self.jump(st,f,f.fn.bmap[b])
            return self.jump(st,f,f.fn.bmap[s[0]])
        w=self.opw(f,i.ops[0]).w; x=bv(v,w)
        alts=[(x==BV(c,w),b) for c,b in zip(i.x['cases'],s[1:])]
        alts.append((z3.And(*[x!=BV(c,w) for c in i.x['cases']]) if i.x['cases'] else z3.BoolVal(True),s[0]))
        self.branch(st,alts,f,i)
    def op_unreachable(self,st,f,i):
        self.definite_fail(st,'unreachable-code',i,'unreachable executed (no return value / undefined)')
        raise PathEnd('unreachable')
    def op_ret(self,st,f,i):
        v=self.val(f,i.ops[0]) if i.ops else None
        st.frames.pop()
        for a in f.allocas:
            o=self.wobj(st,a); o.freed=True; o.cells={}; o.regs=None
        if f.hook: f.hook(st,v)
        if not st.frames: raise PathEnd('return')
        c=st.frames[-1]
        if f.ret is not None:
            ci=f.ret
            if ci.ty.k!='void': c.loc[ci.id]=v
            if ci.op=='invoke': self.jump(st,c,c.fn.bmap[ci.x['succ'][0]])
    def finish_call(self,st,f,i,v):
        if i.ty.k!='void': f.loc[i.id]=v
        if i.op=='invoke': self.jump(st,f,f.fn.bmap[i.x['succ'][0]])
    def op_call(self,st,f,i):
        ck=i.x['callee']
        if ck[0]=='m': # inline asm
            if i.ty.k=='void': return
            raise Unsupported('inline asm')
        if ck[0]=='k' and ck[1][0]=='fn': name=ck[1][1]
        elif ck[0]=='k' and ck[1][0]=='glob': name=self.m.aliases.get(ck[1][1],ck[1][1])
        else:
            v=self.val(f,ck)
            if isinstance(v,Ptr): v=self.num(v)
            v=conc(v)
            if not isinstance(v,int): 
                v=self.concretize(st,v,64,i,'function pointer')
            name=self.addrf.get(v)
            if name is None:
                self.definite_fail(st,'valid-call',i,'call through invalid function pointer 0x%x'%v); raise PathEnd('bad call')
        self.call(st,f,i,name)
    op_invoke=op_call
    def call(self,st,f,i,name):
        name=self.m.aliases.get(name,name)
        name=self.replace.get(name,name)
        if name in self.replacerec and any(fr.fn.name==name for fr in st.frames): name=self.replacerec[name]
        h=self.intr.get(name)
        if h is None and name.startswith('llvm.'):
            for p,hh in self.intr_re:
                if name.startswith(p): h=hh; break
        if h is not None:
            args=[self.val(f,o) if o[0]!='m' else None for o in i.ops]
            r=h(self,st,f,i,args)
            if r is not NotImplemented:
                if r is not PENDING: self.finish_call(st,f,i,r)
                return
        fn=self.m.funcs.get(name)
        if fn is None or fn.decl:
            h=self.dyn_intrinsic(name)
            if h:
                args=[self.val(f,o) if o[0]!='m' else None for o in i.ops]
                r=h(self,st,f,i,args)
                if r is not PENDING: self.finish_call(st,f,i,r)
                return
            raise Unsupported('call to external function '+name)
        args=[self.val(f,o) for o in i.ops]
        self.push_frame(st,fn,args,i)
    def dyn_intrinsic(self,name):
        for rx,h in self.intr_rx:
            if rx.search(name): self.intr[name]=h; return h
        return None

    # -- arithmetic
    def binargs(self,f,i): return self.val(f,i.ops[0]),self.val(f,i.ops[1])
    def ovf(self,st,i,cond,what):
        if self.overflow_checks and i.file and not i.file.startswith('/usr'):
            self.require(st,cond,'no-'+what,'implicit',i)
    def op_add(self,st,f,i):
        a,b=self.binargs(f,i); w=i.ty.w
        r=self.iadd(a,b,w)
        if i.x[0] and (is_sym(a) or is_sym(b)): self.ovf(st,i,z3.And(z3.BVAddNoOverflow(bv(a,w),bv(b,w),True),z3.BVAddNoUnderflow(bv(a,w),bv(b,w))),'signed-overflow')
        elif i.x[0] and isinstance(a,int) and isinstance(b,int) and not -(1<<(w-1))<=sgn(a,w)+sgn(b,w)<1<<(w-1): self.ovf(st,i,0,'signed-overflow')
        f.loc[i.id]=r
    def op_sub(self,st,f,i):
        a,b=self.binargs(f,i); w=i.ty.w
        r=self.isub(a,b,w)
        if i.x[0] and not isinstance(a,Ptr) and not isinstance(b,Ptr):
            if is_sym(a) or is_sym(b): self.ovf(st,i,z3.And(z3.BVSubNoOverflow(bv(a,w),bv(b,w)),z3.BVSubNoUnderflow(bv(a,w),bv(b,w),True)),'signed-overflow')
            elif isinstance(a,int) and isinstance(b,int) and not -(1<<(w-1))<=sgn(a,w)-sgn(b,w)<1<<(w-1): self.ovf(st,i,0,'signed-overflow')
        f.loc[i.id]=r
    def op_mul(self,st,f,i):
        a,b=self.binargs(f,i); w=i.ty.w; a=self.num(a); b=self.num(b)
        if isinstance(a,int) and isinstance(b,int):
            if i.x[0] and not -(1<<(w-1))<=sgn(a,w)*sgn(b,w)<1<<(w-1): self.ovf(st,i,0,'signed-overflow')
            f.loc[i.id]=(a*b)&mask(w); return
        if isinstance(a,int): a,b=b,a
        if isinstance(b,int) and b in(0,1): f.loc[i.id]=a if b else 0; return
        if i.x[0]: self.ovf(st,i,z3.And(z3.BVMulNoOverflow(bv(a,w),bv(b,w),True),z3.BVMulNoUnderflow(bv(a,w),bv(b,w))),'signed-overflow')
        f.loc[i.id]=bv(a,w)*bv(b,w)
    def div(self,st,f,i,signed,rem):
        a,b=self.binargs(f,i); w=i.ty.w; a=self.num(a); b=self.num(b)
        if isinstance(b,int) and b==0:
            self.definite_fail(st,'no-division-by-zero',i,''); raise PathEnd('div0')
        if isinstance(a,int) and isinstance(b,int):
            if signed:
                x,y=sgn(a,w),sgn(b,w); q=abs(x)//abs(y); q=-q if (x<0)!=(y<0) else q; r=x-q*y
            else: q,r=a//b,a%b
            f.loc[i.id]=(r if rem else q)&mask(w); return
        A=bv(a,w);B=bv(b,w)
        if not isinstance(b,int): self.require(st,B!=BV(0,w),'no-division-by-zero','implicit',i)
        if signed and not rem and (not isinstance(b,int) or sgn(b,w)==-1):
            self.ovf(st,i,z3.Not(z3.And(A==BV(1<<(w-1),w),B==BV(mask(w),w))),'signed-overflow')
        if isinstance(b,int) and not signed and b&(b-1)==0:
            k=b.bit_length()-1
            f.loc[i.id]=(A&BV(b-1,w)) if rem else z3.LShR(A,k); return
        if signed and not rem and isinstance(b,int) and is_exact(i) and sgn(b,w)>0:
            # exact division of a scaled difference: divide the linear form
            r=self.exact_div(st,A,sgn(b,w),w)
            if r is not None: f.loc[i.id]=r; return
        n=w-min(lead0(A,w),lead0(B,w))
        if 0<n<w: # both known to be small and not negative: divide in as many bits as they need
            a2=z3.simplify(z3.Extract(n-1,0,A)); b2=z3.simplify(z3.Extract(n-1,0,B))
            f.loc[i.id]=conc(z3.ZeroExt(w-n,z3.URem(a2,b2) if rem else z3.UDiv(a2,b2))); return
        f.loc[i.id]={(0,0):lambda:z3.UDiv(A,B),(0,1):lambda:z3.URem(A,B),(1,0):lambda:A/B,(1,1):lambda:z3.SRem(A,B)}[(int(signed),int(rem))]()
    def exact_div(self,st,A,b,w):
        A=z3.simplify(A)
        l=LIN.get(A.get_id())
        if l is None:
            return None
        c,terms,_=l
        if c%b or any(s%b for _,s in terms): return None
        e=BV((c//b)&mask(w),w)
        for x,s in terms:
            k=s//b; e=e+(x if k==1 else x*BV(k&mask(w),w))
        return conc(e)
    def op_udiv(self,st,f,i): self.div(st,f,i,False,False)
    def op_sdiv(self,st,f,i): self.div(st,f,i,True,False)
    def op_urem(self,st,f,i): self.div(st,f,i,False,True)
    def op_srem(self,st,f,i): self.div(st,f,i,True,True)
    def shift(self,st,f,i,kind):
        a,b=self.binargs(f,i); w=i.ty.w; a=self.num(a); b=self.num(b)
        if isinstance(b,int):
            if b>=w:
                if i.file and not i.file.startswith('/usr'): self.require(st,0,'shift-in-range','implicit',i)
                raise PathEnd('bad shift')
        else: self.require(st,z3.ULT(bv(b,w),BV(w,w)),'shift-in-range','implicit',i)
        if isinstance(a,int) and isinstance(b,int):
            r={'shl':lambda:a<<b,'lshr':lambda:a>>b,'ashr':lambda:sgn(a,w)>>b}[kind]()
            f.loc[i.id]=r&mask(w); return
        if isinstance(b,int) and b==0: f.loc[i.id]=a; return
        A=bv(a,w);B=bv(b,w)
        f.loc[i.id]={'shl':lambda:A<<B,'lshr':lambda:z3.LShR(A,B),'ashr':lambda:A>>B}[kind]()
    def op_shl(self,st,f,i): self.shift(st,f,i,'shl')
    def op_lshr(self,st,f,i): self.shift(st,f,i,'lshr')
    def op_ashr(self,st,f,i): self.shift(st,f,i,'ashr')
    def bitop(self,st,f,i,k):
        a,b=self.binargs(f,i); w=i.ty.w; a=self.num(a); b=self.num(b)
        if isinstance(a,int) and isinstance(b,int):
            f.loc[i.id]={'and':a&b,'or':a|b,'xor':a^b}[k]; return
        if w==1:
            A=boolv(a);B=boolv(b)
            f.loc[i.id]=conc({'and':z3.And,'or':z3.Or,'xor':z3.Xor}[k](A,B)); return
        if isinstance(a,int): a,b=b,a
        if isinstance(b,int):
            if b==0: f.loc[i.id]=0 if k=='and' else a; return
            if b==mask(w) and k=='and': f.loc[i.id]=a; return
        A=bv(a,w);B=bv(b,w)
        f.loc[i.id]=A&B if k=='and' else A|B if k=='or' else A^B
    def op_and(self,st,f,i): self.bitop(st,f,i,'and')
    def op_or(self,st,f,i): self.bitop(st,f,i,'or')
    def op_xor(self,st,f,i): self.bitop(st,f,i,'xor')
    def op_icmp(self,st,f,i):
        a,b=self.binargs(f,i); w=self.opw(f,i.ops[0]).w
        f.loc[i.id]=self.icmp(i.x,a,b,w)
    def op_trunc(self,st,f,i):
        v=self.num(self.val(f,i.ops[0])); w=i.ty.w
        if isinstance(v,int): f.loc[i.id]=v&mask(w); return
        if isinstance(v,z3.BoolRef): f.loc[i.id]=bv(v,w) if w>1 else v; return
        if w==1: f.loc[i.id]=conc(z3.Extract(0,0,v)==BV(1,1))
        else: f.loc[i.id]=z3.simplify(z3.Extract(w-1,0,v))
    def op_zext(self,st,f,i):
        v=self.val(f,i.ops[0]); w=i.ty.w
        if isinstance(v,(int,Ptr)): f.loc[i.id]=v; return
        if isinstance(v,z3.BoolRef): f.loc[i.id]=bv(v,w); return
        f.loc[i.id]=z3.ZeroExt(w-v.size(),v)
    def op_sext(self,st,f,i):
        v=self.val(f,i.ops[0]); w=i.ty.w; sw=self.opw(f,i.ops[0]).w
        if isinstance(v,int): f.loc[i.id]=sgn(v,sw)&mask(w); return
        if isinstance(v,z3.BoolRef): f.loc[i.id]=z3.If(v,BV(mask(w),w),BV(0,w)); return
        f.loc[i.id]=z3.SignExt(w-v.size(),v)
    def op_ptrtoint(self,st,f,i):
        v=self.val(f,i.ops[0])
        f.loc[i.id]=v if i.ty.w==64 else self.num(v)&mask(i.ty.w)
    def op_inttoptr(self,st,f,i): f.loc[i.id]=self.to_ptr(self.val(f,i.ops[0]))
    def op_bitcast(self,st,f,i):
        v=self.val(f,i.ops[0]); t=self.opw(f,i.ops[0])
        if t.k==i.ty.k: f.loc[i.id]=v; return
        f.loc[i.id]=self.from_raw(self.to_raw_bits(v,i.ty.size),i.ty)
    def op_freeze(self,st,f,i): f.loc[i.id]=self.val(f,i.ops[0])
    def op_select(self,st,f,i):
        c=self.val(f,i.ops[0]); a=self.val(f,i.ops[1]); b=self.val(f,i.ops[2])
        if is_sym(c): c=conc(boolv(c))
        if isinstance(c,int): f.loc[i.id]=a if c&1 else b; return
        if isinstance(a,(Ptr,list)) or isinstance(b,(Ptr,list)):
            # fork
            n=st.fork(); n.pc.append(z3.Not(c)); n.model=None; n.frames[-1].loc[i.id]=b
            if self.sv.feasible(n.pc): self.work.append(n)
            st.pc.append(c); st.model=None
            if not self.sv.feasible(st.pc): raise PathEnd('infeasible')
            f.loc[i.id]=a; return
        f.loc[i.id]=self.ite(c,a,b,i.ty)
    def ite(self,c,a,b,ty):
        if ty.k in('double','float'): return z3.If(c,fp(a,ty),fp(b,ty))
        if ty.k=='int' and ty.w==1: return conc(z3.If(c,boolv(a),boolv(b)))
        return z3.If(c,bv(a,ty.w),bv(b,ty.w))
    # -- aggregates
    def op_extractvalue(self,st,f,i):
        v=self.val(f,i.ops[0])
        for k in i.x: v=v[k]
        f.loc[i.id]=v
    def op_insertvalue(self,st,f,i):
        v=self.val(f,i.ops[0]); x=self.val(f,i.ops[1])
        def ins(v,ix):
            v=list(v)
            v[ix[0]]=x if len(ix)==1 else ins(v[ix[0]],ix[1:])
            return v
        f.loc[i.id]=ins(v,i.x)
    def op_extractelement(self,st,f,i):
        v=self.val(f,i.ops[0]); k=self.val(f,i.ops[1])
        if not isinstance(k,int): raise Unsupported('vec index')
        f.loc[i.id]=v[k]
    def op_insertelement(self,st,f,i):
        v=list(self.val(f,i.ops[0])); k=self.val(f,i.ops[2])
        v[k]=self.val(f,i.ops[1]); f.loc[i.id]=v
    # -- memory
    def op_alloca(self,st,f,i):
        n=self.val(f,i.ops[0]) if i.ops else 1
        n=conc(n)
        if not isinstance(n,int): raise Unsupported('VLA')
        o=self.new_obj(st,i.x.size*n,'stack','local'); f.allocas.append(o.id)
        f.loc[i.id]=Ptr(o.id)
    def op_load(self,st,f,i):
        f.loc[i.id]=self.load(st,self.val(f,i.ops[0]),i.ty,i)
    def op_store(self,st,f,i):
        v=self.val(f,i.ops[0]); p=self.val(f,i.ops[1])
        self.store(st,p,v,self.opw(f,i.ops[0]),i)
    def op_getelementptr(self,st,f,i):
        p=self.val(f,i.ops[0]); idx=[];ws=[]
        for o in i.ops[1:]:
            idx.append(self.val(f,o)); ws.append(self.opw(f,o).w)
        f.loc[i.id]=self.gep(p,i.x[0],idx,ws)
    def op_fence(self,st,f,i): pass
    def op_atomicrmw(self,st,f,i):
        p=self.val(f,i.ops[0]); v=self.val(f,i.ops[1]); w=i.ty.w
        old=self.load(st,p,i.ty,i)
        k=i.x
        new={0:lambda:v,1:lambda:self.iadd(old,v,w),2:lambda:self.isub(old,v,w)}.get(k)
        if not new: raise Unsupported('atomicrmw %d'%k)
        self.store(st,p,new(),i.ty,i); f.loc[i.id]=old
    def op_cmpxchg(self,st,f,i):
        p=self.val(f,i.ops[0]); c=self.val(f,i.ops[1]); n=self.val(f,i.ops[2]); ty=i.ty.fields[0]
        old=self.load(st,p,ty,i); e=self.icmp('eq',old,c,ty.w)
        if isinstance(e,int): 
            if e: self.store(st,p,n,ty,i)
        else: self.store(st,p,self.ite(e,n,old,ty),ty,i)
        f.loc[i.id]=[old,e]
    def op_landingpad(self,st,f,i): raise Unsupported('landingpad')
    def op_resume(self,st,f,i): raise PathEnd('resume')
    # -- floating point
    def farith(self,st,f,i,op):
        a,b=self.binargs(f,i); ty=i.ty
        if ty.k=='vec': raise Unsupported('vector fp')
        if isinstance(a,float) and isinstance(b,float):
            try:
                r={'+':lambda:a+b,'-':lambda:a-b,'*':lambda:a*b,'/':lambda:a/b if b!=0 else (math.nan if a==0 or a!=a else math.copysign(math.inf,a)*math.copysign(1,b))}[op]()
            except OverflowError: r=math.inf
            f.loc[i.id]=f32(r) if ty.k=='float' else r; return
        A=fp(a,ty);B=fp(b,ty)
        f.loc[i.id]={'+':z3.fpAdd,'-':z3.fpSub,'*':z3.fpMul,'/':z3.fpDiv}[op](RNE,A,B)
    def op_fadd(self,st,f,i): self.farith(st,f,i,'+')
    def op_fsub(self,st,f,i): self.farith(st,f,i,'-')
    def op_fmul(self,st,f,i): self.farith(st,f,i,'*')
    def op_fdiv(self,st,f,i): self.farith(st,f,i,'/')
    def op_fneg(self,st,f,i):
        a=self.val(f,i.ops[0]); f.loc[i.id]=-a if isinstance(a,float) else z3.fpNeg(a)
    def op_fcmp(self,st,f,i):
        a,b=self.binargs(f,i); ty=self.opw(f,i.ops[0]); p=i.x
        if isinstance(a,float) and isinstance(b,float):
            un=a!=a or b!=b
            if p=='ord': r=not un
            elif p=='uno': r=un
            elif p in('true','false'): r=p=='true'
            else:
                q={'eq':a==b,'ne':a!=b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[p[1:]]
                r=(q and not un) if p[0]=='o' else (q or un)
            f.loc[i.id]=int(r); return
        A=fp(a,ty);B=fp(b,ty); un=z3.Or(z3.fpIsNaN(A),z3.fpIsNaN(B))
        if p=='ord': r=z3.Not(un)
        elif p=='uno': r=un
        else:
            q={'eq':lambda:z3.fpEQ(A,B),'ne':lambda:z3.Not(z3.fpEQ(A,B)),'gt':lambda:z3.fpGT(A,B),'ge':lambda:z3.fpGEQ(A,B),'lt':lambda:z3.fpLT(A,B),'le':lambda:z3.fpLEQ(A,B)}[p[1:]]()
            r=z3.And(q,z3.Not(un)) if p[0]=='o' else z3.Or(q,un)
        f.loc[i.id]=conc(r)
    def op_sitofp(self,st,f,i):
        v=self.num(self.val(f,i.ops[0])); w=self.opw(f,i.ops[0]).w
        if isinstance(v,int): r=float(sgn(v,w)); f.loc[i.id]=f32(r) if i.ty.k=='float' else r
        else: f.loc[i.id]=z3.fpSignedToFP(RNE,bv(v,w),fsort(i.ty))
    def op_uitofp(self,st,f,i):
        v=self.num(self.val(f,i.ops[0])); w=self.opw(f,i.ops[0]).w
        if isinstance(v,int): r=float(v); f.loc[i.id]=f32(r) if i.ty.k=='float' else r
        else: f.loc[i.id]=z3.fpUnsignedToFP(RNE,bv(v,w),fsort(i.ty))
    def fptoi(self,st,f,i,signed):
        v=self.val(f,i.ops[0]); w=i.ty.w
        if isinstance(v,float):
            if v!=v or v in(math.inf,-math.inf): raise Unsupported('nan to int')
            n=int(v)
            lo,hi=(-(1<<(w-1)),1<<(w-1)) if signed else (0,1<<w)
            if not lo<=n<hi: self.require(st,0,'float-to-int-in-range','implicit',i); 
            f.loc[i.id]=n&mask(w); return
        f.loc[i.id]=(z3.fpToSBV if signed else z3.fpToUBV)(RTZ,v,z3.BitVecSort(w))
    def op_fptosi(self,st,f,i): self.fptoi(st,f,i,True)
    def op_fptoui(self,st,f,i): self.fptoi(st,f,i,False)
    def op_fpext(self,st,f,i):
        v=self.val(f,i.ops[0])
        if i.ty.k=='x86fp80': raise Unsupported('long double')
        f.loc[i.id]=v if isinstance(v,float) else z3.fpFPToFP(RNE,v,F64)
    def op_fptrunc(self,st,f,i):
        v=self.val(f,i.ops[0]); f.loc[i.id]=f32(v) if isinstance(v,float) else z3.fpFPToFP(RNE,v,F32)

PENDING=object()
def is_exact(i): return i.x is True
# linear forms of pointer differences, so that "exact sdiv by sizeof" recovers element counts
LIN={}
class LinOff:
    def __init__(s,c,t): s.c=c; s.t=t
    def expr(s):
        e=BV(s.c&mask(64),64)
        for x,k in s.t: e=e+(x if k==1 else x*BV(k&mask(64),64))
        e=z3.simplify(e); LIN[e.get_id()]=(s.c,s.t,e)
        return e
