"""Loader: LLVM bitcode -> plain Python structures, through the LLVM-18 C API (ctypes).

Nothing here interprets anything; it only mirrors the module produced by clang
from the real sources."""
import ctypes as C, re

_L = None
def L():
    global _L
    if _L is None:
        _L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so.1")
        _setup(_L)
    return _L

P = C.c_void_p
def _setup(l):
    def f(name, res, *args):
        fn = getattr(l, name); fn.restype = res; fn.argtypes = list(args)
    f("LLVMContextCreate", P)
    f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
    f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
    f("LLVMGetModuleDataLayout", P, P)
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal",
              "LLVMGetFirstGlobalAlias", "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee",
              "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction",
              "LLVMGetNextInstruction", "LLVMGetFirstParam", "LLVMGetNextParam", "LLVMTypeOf",
              "LLVMGlobalGetValueType", "LLVMGetReturnType", "LLVMGetElementType", "LLVMGetInitializer",
              "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGetCalledFunctionType",
              "LLVMGetCalledValue", "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetSwitchDefaultDest",
              "LLVMInstructionGetDebugLoc"):
        f(n, P, P)
    for n in ("LLVMCountParams", "LLVMIsDeclaration", "LLVMGetInstructionOpcode", "LLVMGetNumOperands",
              "LLVMGetTypeKind", "LLVMGetIntTypeWidth", "LLVMCountStructElementTypes", "LLVMGetVectorSize",
              "LLVMGetNSW", "LLVMGetNUW", "LLVMGetExact", "LLVMGetICmpPredicate", "LLVMGetFCmpPredicate",
              "LLVMGetNumIndices", "LLVMGetConstOpcode", "LLVMIsNull", "LLVMIsUndef", "LLVMIsPoison",
              "LLVMCountIncoming", "LLVMGetNumArgOperands", "LLVMGetValueKind", "LLVMIsConstant",
              "LLVMGetDebugLocLine", "LLVMIsConditional", "LLVMGetNumSuccessors", "LLVMGetAtomicRMWBinOp",
              "LLVMIsConstantString", "LLVMIsFunctionVarArg", "LLVMIsGlobalConstant", "LLVMIsCleanup",
              "LLVMIsInBounds", "LLVMGetUndefMaskElem"):
        try: f(n, C.c_uint, P)
        except AttributeError: pass
    f("LLVMGetArrayLength2", C.c_uint64, P)
    f("LLVMGetIncomingValue", P, P, C.c_uint); f("LLVMGetIncomingBlock", P, P, C.c_uint)
    f("LLVMGetOperand", P, P, C.c_uint); f("LLVMGetSuccessor", P, P, C.c_uint)
    f("LLVMGetIndices", C.POINTER(C.c_uint), P)
    f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
    f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
    f("LLVMABISizeOfType", C.c_ulonglong, P, P)
    f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
    f("LLVMABIAlignmentOfType", C.c_uint, P, P)
    f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
    f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
    f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
    f("LLVMGetElementAsConstant", P, P, C.c_uint)
    f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
    f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
    f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
    f("LLVMGetCallSiteEnumAttribute", P, P, C.c_uint, C.c_uint)
    f("LLVMGetTypeAttributeValue", P, P)
    f("LLVMPrintValueToString", P, P); f("LLVMDisposeMessage", None, P)
    f("LLVMPrintTypeToString", P, P)
    f("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint))
    f("LLVMGetBasicBlockName", C.c_char_p, P)
    f("LLVMValueAsBasicBlock", P, P)
    f("LLVMIsAInstruction", P, P); f("LLVMIsAGlobalVariable", P, P); f("LLVMIsAFunction", P, P)
    f("LLVMIsAConstantInt", P, P)
    f("LLVMGetParamTypes", None, P, C.POINTER(P))

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',
 23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',
 33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',
 41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',49:'vaarg',
 50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',
 56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',66:'fneg',68:'freeze',
 61:'cleanupret',62:'catchret',63:'catchpad',64:'cleanuppad',65:'catchswitch',67:'callbr'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',
        12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__ = ('k','w','n','elem','fields','offs','size','align')
    def __init__(s,k): s.k=k; s.w=0; s.n=0; s.elem=None; s.fields=None; s.offs=None; s.size=0; s.align=1
    def __repr__(s):
        if s.k=='int': return 'i%d'%s.w
        if s.k in('array','vec'): return '[%d x %r]'%(s.n,s.elem)
        if s.k=='struct': return '{%s}'%','.join(map(repr,s.fields))
        return s.k

class Inst:
    __slots__=('op','id','ops','ty','x','line','file','fn','dead')
    def __init__(s): s.dead=False
    def __repr__(s): return '%s@%s:%s'%(s.op,s.file,s.line)
class Block:
    __slots__=('id','insts','name','succs','fn','nphi')
class Func:
    __slots__=('name','params','blocks','bmap','ret','vararg','addr','byval','decl','ptr','dem','x','ptypes','loopinfo')
    def __repr__(s): return '<fn %s>'%s.name

# operand encodings: ('v', id) local value ; ('k', constnode) constant
class Module:
    def __init__(self, path):
        l=L(); self.ctx=l.LLVMContextCreate()
        buf=P(); msg=C.c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(),C.byref(buf),C.byref(msg)):
            raise RuntimeError("cannot read "+path)
        m=P()
        if l.LLVMParseBitcodeInContext2(self.ctx,buf,C.byref(m)): raise RuntimeError("cannot parse "+path)
        self.m=m; self.dl=l.LLVMGetModuleDataLayout(m)
        self.tcache={}; self.funcs={}; self.globals={}; self.aliases={}; self.gname={}
        self.kcache={}
        self.byval_kind=l.LLVMGetEnumAttributeKindForName(b"byval",5)
        self._fnames={}
        f=l.LLVMGetFirstFunction(m)
        while f:
            fn=Func(); fn.name=self.vname(f); fn.ptr=f; fn.decl=bool(l.LLVMIsDeclaration(f)); fn.blocks=None
            fn.dem=None; fn.x=None; fn.addr=None; fn.loopinfo=None
            fty=l.LLVMGlobalGetValueType(f)
            fn.ret=self.ty(l.LLVMGetReturnType(fty)); fn.vararg=bool(l.LLVMIsFunctionVarArg(fty))
            self.funcs[fn.name]=fn; self.gname[f]=fn.name
            f=l.LLVMGetNextFunction(f)
        g=l.LLVMGetFirstGlobal(m)
        while g:
            n=self.vname(g); self.gname[g]=n
            self.globals[n]=(g,self.ty(l.LLVMGlobalGetValueType(g)),bool(l.LLVMIsDeclaration(g)),bool(l.LLVMIsGlobalConstant(g)))
            g=l.LLVMGetNextGlobal(g)
        a=l.LLVMGetFirstGlobalAlias(m)
        while a:
            n=self.vname(a); self.gname[a]=n; self.aliases[n]=self.gname.get(l.LLVMAliasGetAliasee(a)) or self.vname(l.LLVMAliasGetAliasee(a))
            a=l.LLVMGetNextGlobalAlias(a)
    def vname(self,v):
        n=C.c_size_t(); p=L().LLVMGetValueName2(v,C.byref(n))
        return C.string_at(p,n.value).decode('latin1') if n.value else ''
    def ty(self,t):
        r=self.tcache.get(t)
        if r is not None: return r
        l=L(); k=l.LLVMGetTypeKind(t)
        if k==0: r=Ty('void')
        elif k==2: r=Ty('float'); r.size=4; r.w=32; r.align=4
        elif k==3: r=Ty('double'); r.size=8; r.w=64; r.align=8
        elif k==4: r=Ty('x86fp80'); r.size=16; r.w=80; r.align=16
        elif k==7: r=Ty('label')
        elif k==8:
            r=Ty('int'); r.w=l.LLVMGetIntTypeWidth(t); r.size=l.LLVMStoreSizeOfType(self.dl,t); r.align=l.LLVMABIAlignmentOfType(self.dl,t)
        elif k==9: r=Ty('func')
        elif k==10:
            r=Ty('struct'); n=l.LLVMCountStructElementTypes(t)
            self.tcache[t]=r
            r.fields=[self.ty(l.LLVMStructGetTypeAtIndex(t,i)) for i in range(n)]
            try:
                r.offs=[l.LLVMOffsetOfElement(self.dl,t,i) for i in range(n)]
                r.size=l.LLVMABISizeOfType(self.dl,t); r.align=l.LLVMABIAlignmentOfType(self.dl,t)
            except Exception: pass
        elif k==11:
            r=Ty('array'); r.elem=self.ty(l.LLVMGetElementType(t)); r.n=l.LLVMGetArrayLength2(t); r.size=l.LLVMABISizeOfType(self.dl,t); r.align=r.elem.align
        elif k==12: r=Ty('ptr'); r.size=8; r.w=64; r.align=8
        elif k==13: r=Ty('vec'); r.elem=self.ty(l.LLVMGetElementType(t)); r.n=l.LLVMGetVectorSize(t); r.size=l.LLVMABISizeOfType(self.dl,t); r.align=r.size
        else: r=Ty('other%d'%k)
        self.tcache[t]=r
        return r
    # constants -> ('int',v,ty) ('null',ty) ('undef',ty) ('fp',v,ty) ('agg',[..],ty) ('bytes',b,ty) ('glob',name) ('fn',name) ('expr',op,[ops],ty,extra)
    def const(self,v):
        r=self.kcache.get(v)
        if r is not None: return r
        l=L(); k=l.LLVMGetValueKind(v); ty=self.ty(l.LLVMTypeOf(v))
        # LLVMValueKind: Argument0 BasicBlock1 MemUse.. Function5 Alias6 IFunc7 GlobalVar8 BlockAddress9 ConstantExpr10 ConstantArray11 Struct12 Vector13 Undef14 AggZero15 DataArray16 DataVec17 Int18 FP19 PtrNull20 TokenNone21
        if k==5: r=('fn',self.gname[v])
        elif k==6: r=('glob',self.gname[v])
        elif k==8: r=('glob',self.gname[v])
        elif k==18:
            val=l.LLVMConstIntGetZExtValue(v) if ty.w<=64 else self._bigint(v,ty)
            r=('int',val,ty)
        elif k==19:
            lo=C.c_int(); r=('fp',l.LLVMConstRealGetDouble(v,C.byref(lo)),ty)
        elif k==20: r=('int',0,ty)
        elif k in(15,): r=('zero',ty)
        elif l.LLVMIsUndef(v): r=('undef',ty)
        elif k in(11,12,13):
            n=l.LLVMGetNumOperands(v); r=('agg',[self.const(l.LLVMGetOperand(v,i)) for i in range(n)],ty)
        elif k in(16,17):
            if l.LLVMIsConstantString(v):
                n=C.c_size_t(); p=l.LLVMGetAsString(v,C.byref(n)); r=('bytes',C.string_at(p,n.value),ty)
            else: r=('agg',[self.const(l.LLVMGetElementAsConstant(v,i)) for i in range(ty.n)],ty)
        elif k==10:
            op=OPC.get(l.LLVMGetConstOpcode(v),'?'); n=l.LLVMGetNumOperands(v)
            extra=None
            if op=='getelementptr': extra=self.ty(l.LLVMGetGEPSourceElementType(v))
            if op=='icmp': extra=ICMP[l.LLVMGetICmpPredicate(v)]
            r=('expr',op,[self.const(l.LLVMGetOperand(v,i)) for i in range(n)],ty,extra)
        else: r=('unk',k,ty)
        self.kcache[v]=r
        return r
    def _bigint(self,v,ty):
        p=L().LLVMPrintValueToString(v); s=C.string_at(p).decode(); L().LLVMDisposeMessage(p)
        x=int(s.split()[-1]); return x & ((1<<ty.w)-1)
    def operand(self,v):
        l=L(); k=l.LLVMGetValueKind(v)
        if k in (0,24) or (k>21 and l.LLVMIsAInstruction(v)): return ('v',v)
        if k==1: return ('b',v)
        if k==22 or k==23: return ('m',v)  # metadata / inline asm
        return ('k',self.const(v))
    def initializer(self,name):
        g=self.globals[name][0]; i=L().LLVMGetInitializer(g)
        return self.const(i) if i else None
    def load_body(self,fn):
        if fn.blocks is not None or fn.decl: return
        l=L(); fn.blocks=[]; fn.bmap={}; fn.params=[]; fn.byval={}; fn.ptypes=[]
        p=l.LLVMGetFirstParam(fn.ptr); i=0
        while p:
            fn.params.append(p); fn.ptypes.append(self.ty(l.LLVMTypeOf(p)))
            at=l.LLVMGetEnumAttributeAtIndex(fn.ptr,i+1,self.byval_kind)
            if at: fn.byval[i]=self.ty(l.LLVMGetTypeAttributeValue(at))
            p=l.LLVMGetNextParam(p); i+=1
        b=l.LLVMGetFirstBasicBlock(fn.ptr)
        while b:
            blk=Block(); blk.id=b; blk.fn=fn; blk.insts=[]; blk.name=l.LLVMGetBasicBlockName(b).decode('latin1')
            fn.blocks.append(blk); fn.bmap[b]=blk
            b=l.LLVMGetNextBasicBlock(b)
        for blk in fn.blocks:
            v=l.LLVMGetFirstInstruction(blk.id)
            while v:
                blk.insts.append(self.inst(v,fn)); v=l.LLVMGetNextInstruction(v)
            blk.nphi=sum(1 for i in blk.insts if i.op=='phi')
            t=blk.insts[-1]
            blk.succs=[fn.bmap[s] for s in t.x['succ']] if t.x and 'succ' in t.x else []
    def inst(self,v,fn):
        l=L(); I=Inst(); I.id=v; I.fn=fn
        I.op=OPC.get(l.LLVMGetInstructionOpcode(v),'?'); I.ty=self.ty(l.LLVMTypeOf(v)); I.x={}
        dl=l.LLVMInstructionGetDebugLoc(v); I.line=l.LLVMGetDebugLocLine(v) if dl else 0; I.file=''
        if dl:
            n=C.c_uint(); p=l.LLVMGetDebugLocFilename(v,C.byref(n))
            if p:
                key=(p,n.value); s=self._fnames.get(key)
                if s is None: s=self._fnames[key]=C.string_at(p,n.value).decode('latin1')
                I.file=s
        op=I.op; n=l.LLVMGetNumOperands(v)
        if op=='phi':
            k=l.LLVMCountIncoming(v)
            I.x={l.LLVMGetIncomingBlock(v,i):self.operand(l.LLVMGetIncomingValue(v,i)) for i in range(k)}; I.ops=[]
            return I
        if op in('call','invoke'):
            na=l.LLVMGetNumArgOperands(v)
            I.ops=[self.operand(l.LLVMGetOperand(v,i)) for i in range(na)]
            cv=l.LLVMGetCalledValue(v); I.x['callee']=self.operand(cv)
            bv={}
            for i in range(na):
                at=l.LLVMGetCallSiteEnumAttribute(v,i+1,self.byval_kind)
                if at: bv[i]=self.ty(l.LLVMGetTypeAttributeValue(at))
            I.x['byval']=bv
            if op=='invoke':
                I.x['succ']=[l.LLVMGetNormalDest(v),l.LLVMGetUnwindDest(v)]
            return I
        if op=='br':
            ns=l.LLVMGetNumSuccessors(v); I.x['succ']=[l.LLVMGetSuccessor(v,i) for i in range(ns)]
            I.ops=[self.operand(l.LLVMGetOperand(v,0))] if ns==2 else []
            return I
        if op=='switch':
            ns=l.LLVMGetNumSuccessors(v); I.x['succ']=[l.LLVMGetSuccessor(v,i) for i in range(ns)]
            I.ops=[self.operand(l.LLVMGetOperand(v,0))]
            I.x['cases']=[self.const(l.LLVMGetOperand(v,2*i))[1] for i in range(1,ns)]
            return I
        I.ops=[self.operand(l.LLVMGetOperand(v,i)) for i in range(n)]
        if op in('add','sub','mul','shl'):
            I.x=(bool(l.LLVMGetNSW(v)),bool(l.LLVMGetNUW(v)))
        elif op in('udiv','sdiv','lshr','ashr'): I.x=bool(l.LLVMGetExact(v))
        elif op=='icmp': I.x=ICMP[l.LLVMGetICmpPredicate(v)]
        elif op=='fcmp': I.x=FCMP[l.LLVMGetFCmpPredicate(v)]
        elif op=='alloca': I.x=self.ty(l.LLVMGetAllocatedType(v))
        elif op=='getelementptr': I.x=(self.ty(l.LLVMGetGEPSourceElementType(v)),)
        elif op in('extractvalue','insertvalue'):
            k=l.LLVMGetNumIndices(v); p=l.LLVMGetIndices(v); I.x=[p[i] for i in range(k)]
        elif op=='atomicrmw': I.x=l.LLVMGetAtomicRMWBinOp(v)
        return I
    def opty(self,v): return self.ty(L().LLVMTypeOf(v))

def const_ty(k,mod):
    if k[0] in('int','fp','agg','bytes'): return k[2]
    if k[0] in('zero','undef'): return k[1]
    if k[0]=='expr': return k[3]
    t=Ty('ptr'); t.size=8; t.w=64; return t
