"""Trusted semantics for the functions that have no body in the extracted module."""
import z3, re
from . import engine as E
from .engine import BV,bv,boolv,conc,is_sym,Ptr,PathEnd,Unsupported,PENDING,mask,sgn

def cstr(en,st,p):
    if not isinstance(p,Ptr): return '?'
    o=en.obj(st,p.o); s=b''; i=p.c
    while len(s)<200:
        b=en.byte_at(st,o,i)
        if not isinstance(b,int) or b==0: break
        s+=bytes([b]); i+=1
    return s.decode('latin1')

def install(en):
    I=en.intr; en.intr_rx=[]
    def reg(*names):
        def d(f):
            for n in names: I[n]=f
            return f
        return d
    def rx(p):
        def d(f): en.intr_rx.append((re.compile(p),f)); return f
        return d
    def pre(*ps):
        def d(f):
            for p in ps: en.intr_re.append((p,f))
            return f
        return d
    def expected(en,st,i,why):
        # the contract requires this path to be refused: reaching the refusal discharges the obligation
        ob=E.Obligation('refused-as-required','contract',en.where(st,i),en.cur_fn(st)); ob.status='proved'; ob.backend='simplify'
        en.obls.append(ob); en.covers['refused-as-required']=en.covers.get('refused-as-required',0)+1
        raise PathEnd(why)
    # ---- contract language
    @reg('vtc_any_bits')
    def any_bits(en,st,f,i,a):
        name=cstr(en,st,a[0]); w=a[1]
        k='%s#%d'%(name,len(st.inputs))
        if w==1: v=z3.Bool('in_'+k); r=bv(v,64)
        else:
            v=z3.BitVec('in_'+k,w); r=v if w==64 else z3.ZeroExt(64-w,v)
        st.inputs.append((name,('bits',w),v))
        return r
    @reg('vtc_any_double')
    def any_double(en,st,f,i,a):
        name=cstr(en,st,a[0]); v=z3.FP('in_%s#%d'%(name,len(st.inputs)),E.F64)
        st.inputs.append((name,('bits',64),v)); return v
    @reg('vtc_any_array')
    def any_array(en,st,f,i,a):
        # (name, n, elemsize): a fresh unbounded array object with symbolic element count n
        name=cstr(en,st,a[0]); n=a[1]; es=a[2]
        o=en.new_obj(st,z3.simplify(bv(n,64)*BV(es,64)),'heap',name)
        o.stride=es; o.inp=n; o.fields={}
        arr=z3.Array('in_%s#%d'%(name,len(st.inputs)),z3.BitVecSort(64),z3.BitVecSort(8*es)) if es in(1,2,4,8) else None
        if arr is not None:
            o.fields[(0,es)]=arr
            st.inputs.append((name,('arr',8*es),(arr,n)))
        return Ptr(o.id)
    @reg('vtc_choose')
    def choose(en,st,f,i,a):
        # concrete nondeterministic choice in [0,n)
        n=a[0]
        if not isinstance(n,int): raise Unsupported('choose symbolic')
        k=st.ghost.pop('choose',None)
        if k is None:
            for j in range(1,n):
                m=st.fork(); m.ghost['choose']=j; m.frames[-1].ip-=1; en.work.append(m)
            k=0
        st.inputs.append(('choose',('bits',64),k))
        return k
    @reg('vtc_assume')
    def assume(en,st,f,i,a):
        c=a[0]
        if is_sym(c): c=conc(boolv(c))
        if isinstance(c,int):
            if not c&1: raise PathEnd('assume-false')
            return None
        if not en.sv.feasible_inc(st,c): raise PathEnd('assume-false')
        st.pc.append(c)
        return None
    @reg('vtc_ensure')
    def ensure(en,st,f,i,a):
        c=a[0]; name=cstr(en,st,a[1])
        if is_sym(c): c=boolv(c)
        en.covers[name]=en.covers.get(name,0)+1
        en.require(st,c,name,'contract',i)
        return None
    @reg('vtc_cover')
    def cover(en,st,f,i,a):
        name=cstr(en,st,a[0]); en.covers['cover:'+name]=en.covers.get('cover:'+name,0)+1
    @reg('vtc_stop')
    def stop(en,st,f,i,a): raise PathEnd('return')
    @reg('vtc_run_initializers')
    def inits(en,st,f,i,a):
        want='_GLOBAL__sub_I_'+cstr(en,st,a[0]); fs=[n for n in en.m.funcs if n==want or n.startswith(want+'.')]
        if len(fs)!=1: raise Unsupported('initializers of '+want)
        en.push_frame(st,en.m.funcs[fs[0]],[],i); return PENDING
    @reg('vtc_symbolic')
    def symbolic(en,st,f,i,a): return 1
    @reg('vtc_assert_fail')
    def assert_fail(en,st,f,i,a):
        if st.ghost.get('expect_abort'): expected(en,st,i,'expected-abort')
        en.definite_fail(st,'assertion-holds',i,cstr(en,st,a[0]),kind='assert'); raise PathEnd('assert')
    @reg('vtc_abort')
    def vabort(en,st,f,i,a):
        if st.ghost.get('expect_abort'): expected(en,st,i,'expected-abort')
        en.definite_fail(st,'no-abort',i,cstr(en,st,a[0]),kind='assert'); raise PathEnd('abort')
    @reg('vtc_expect_abort')
    def exab(en,st,f,i,a): st.ghost['expect_abort']=a[0]
    @reg('vtc_ignore_implicit')
    def _(en,st,f,i,a): pass
    @reg('vtc_concretize')
    def cz(en,st,f,i,a):
        v=conc(a[0])
        if isinstance(v,int): return v
        return en.concretize(st,v,64,i,'vtc_concretize')
    @reg('vtc_print')
    def vprint(en,st,f,i,a):
        v=a[1]; print('    [vtc_print]',cstr(en,st,a[0]),conc(v) if is_sym(v) else v)
    @reg('vtc_ite')
    def vite(en,st,f,i,a):
        c=a[0]
        if is_sym(c): c=conc(boolv(c))
        if isinstance(c,int): return a[1] if c&1 else a[2]
        return z3.If(c,bv(en.num(a[1]),64),bv(en.num(a[2]),64))
    @reg('vtc_forall_elems')
    def forall_elems(en,st,f,i,a):
        # assume:  forall k<n: lo <= arr[k] <= hi  (unsigned, element size of the array)   (ptr,n,lo,hi)
        p=a[0]; o=en.obj(st,p.o); arr=o.fields[(0,o.stride)]; w=8*o.stride
        k=z3.BitVec('k!q',64)
        st.pc.append(z3.ForAll([k],z3.Implies(z3.ULT(k,bv(a[1],64)),z3.And(z3.UGE(arr[k],z3.Extract(w-1,0,bv(a[2],64))),z3.ULE(arr[k],z3.Extract(w-1,0,bv(a[3],64)))))))
    # ---- allocation
    def alloc(en,st,size,name):
        size=conc(size)
        if not isinstance(size,int): raise Unsupported('allocation of symbolic size')
        o=en.new_obj(st,size,'heap',name); return Ptr(o.id)
    @reg('_Znwm','_Znam','malloc','_ZnwmSt11align_val_t','_ZnamSt11align_val_t','_ZnwmRKSt9nothrow_t','_ZnamRKSt9nothrow_t')
    def new(en,st,f,i,a):
        sz=conc(a[0])
        if not isinstance(sz,int):
            sz=en.alloc_size(st,sz,i)
            if not isinstance(sz,int):
                o=en.new_obj(st,sz,'heap','heap'); return Ptr(o.id)
        return alloc(en,st,sz,'heap')
    @reg('calloc')
    def calloc(en,st,f,i,a):
        p=alloc(en,st,en.num(a[0])*en.num(a[1]),'heap'); en.wobj(st,p.o).default='zero'; return p
    @reg('_ZdlPv','_ZdaPv','free','_ZdlPvm','_ZdaPvm','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t','_ZdaPvSt11align_val_t')
    def delete(en,st,f,i,a):
        p=en.to_ptr(a[0])
        if isinstance(p,int) and p==0: return None
        if not isinstance(p,Ptr):
            en.definite_fail(st,'valid-free',i,'free of invalid pointer'); raise PathEnd('bad free')
        o=en.wobj(st,p.o)
        if o.kind!='heap' or p.c!=0 or p.t: en.definite_fail(st,'valid-free',i,'free of a pointer that was not allocated (%s+%d)'%(o.name,p.c)); raise PathEnd('bad free')
        if o.freed: en.definite_fail(st,'no-double-free',i,''); raise PathEnd('double free')
        o.freed=True; o.cells={}; o.regs=None
        return None
    @pre('llvm.memcpy','llvm.memmove')
    def memcpy(en,st,f,i,a): en.memcpy(st,a[0],a[1],a[2],i); return None
    @reg('memcpy','memmove')
    def memcpy2(en,st,f,i,a): en.memcpy(st,a[0],a[1],a[2],i); return a[0]
    @pre('llvm.memset')
    def memset(en,st,f,i,a): en.memset(st,a[0],a[1],a[2],i); return None
    @reg('memset')
    def memset2(en,st,f,i,a):
        b=a[1]
        en.memset(st,a[0],b&255 if isinstance(b,int) else z3.Extract(7,0,b),a[2],i); return a[0]
    @reg('strlen')
    def strlen(en,st,f,i,a):
        p=a[0]; o=en.obj(st,p.o); n=0
        while True:
            b=en.byte_at(st,o,p.c+n)
            if b is None: raise Unsupported('strlen of uninit')
            if not isinstance(b,int): b=conc(b)
            if not isinstance(b,int): raise Unsupported('strlen of symbolic')
            if b==0: return n
            n+=1
    @reg('memcmp','bcmp','strncmp')
    def memcmp(en,st,f,i,a):
        n=conc(a[2])
        if not isinstance(n,int): n=en.concretize(st,n,64,i,'memcmp size')
        r=0; e=None
        bs=[]
        for k in range(n):
            x=en.load(st,en.padd(en.to_ptr(a[0]),k),T8,i); y=en.load(st,en.padd(en.to_ptr(a[1]),k),T8,i); bs.append((x,y))
        res=0
        for x,y in reversed(bs):
            if isinstance(x,int) and isinstance(y,int):
                if x!=y: res=(1 if x>y else mask(32))
            else:
                X=bv(x,8);Y=bv(y,8); res=z3.If(X==Y,bv(res,32),z3.If(z3.UGT(X,Y),BV(1,32),BV(mask(32),32)))
        return conc(res) if is_sym(res) else res
    @reg('memchr')
    def memchr(en,st,f,i,a):
        n=en.num(a[2]); 
        for k in range(n):
            x=en.load(st,en.padd(en.to_ptr(a[0]),k),T8,i)
            if not isinstance(x,int): raise Unsupported('memchr sym')
            if x==(a[1]&255): return en.padd(en.to_ptr(a[0]),k)
        return 0
    # ---- termination / exceptions
    @reg('abort','exit','_exit','_ZSt9terminatev','__assert_fail','quick_exit')
    def abort(en,st,f,i,a):
        if st.ghost.get('expect_abort'): expected(en,st,i,'expected-abort')
        en.definite_fail(st,'no-abort',i,'abort/terminate reachable',kind='assert'); raise PathEnd('abort')
    @reg('__cxa_throw','__cxa_rethrow','_Unwind_Resume')
    def throw(en,st,f,i,a):
        if st.ghost.get('expect_abort'): expected(en,st,i,'expected-abort')
        en.definite_fail(st,'no-exception',i,'exception thrown',kind='assert'); raise PathEnd('throw')
    @rx(r'^_ZSt\d+__throw_')
    def sthrow(en,st,f,i,a):
        if st.ghost.get('expect_abort'): expected(en,st,i,'expected-abort')
        en.definite_fail(st,'no-exception',i,'standard library exception',kind='assert'); raise PathEnd('throw')
    @reg('__cxa_allocate_exception')
    def cae(en,st,f,i,a): return alloc(en,st,max(a[0],8) if isinstance(a[0],int) else 64,'exception')
    @reg('__cxa_free_exception','__cxa_end_catch','_ZNSt8ios_base4InitC1Ev','_ZNSt8ios_base4InitD1Ev','__gxx_personality_v0')
    def nop(en,st,f,i,a): return None
    @reg('__cxa_guard_acquire')
    def ga(en,st,f,i,a):
        v=en.load(st,a[0],T8,i)
        return int(v==0) if isinstance(v,int) else 1
    @reg('__cxa_guard_release')
    def gr(en,st,f,i,a): en.store(st,a[0],1,T8,i); return None
    @reg('__cxa_guard_abort')
    def gab(en,st,f,i,a): return None
    @reg('__cxa_atexit')
    def atexit(en,st,f,i,a): return 0
    @reg('__cxa_pure_virtual')
    def pv(en,st,f,i,a):
        en.definite_fail(st,'no-pure-virtual-call',i,'',kind='assert'); raise PathEnd('pure')
    @reg('printf','puts','putchar','fflush','fprintf','fputs')
    def out(en,st,f,i,a): return 0
    # ---- llvm intrinsics
    @pre('llvm.dbg','llvm.lifetime','llvm.assume','llvm.experimental.noalias','llvm.donothing','llvm.stackrestore','llvm.va_end','llvm.prefetch')
    def ignore(en,st,f,i,a): return None
    @pre('llvm.stacksave')
    def ss(en,st,f,i,a): return 0
    @pre('llvm.expect','llvm.annotation','llvm.ptr.annotation','llvm.launder','llvm.strip')
    def first(en,st,f,i,a): return a[0]
    @pre('llvm.trap','llvm.ubsantrap')
    def trap(en,st,f,i,a):
        en.definite_fail(st,'no-trap',i,''); raise PathEnd('trap')
    @pre('llvm.is.constant')
    def isc(en,st,f,i,a): return 0
    @pre('llvm.objectsize')
    def osz(en,st,f,i,a): return mask(64)
    @pre('llvm.threadlocal.address')
    def tla(en,st,f,i,a): return a[0]
    def minmax(op):
        def h(en,st,f,i,a):
            c=en.icmp(op,a[0],a[1],i.ty.w)
            if isinstance(c,int): return a[0] if c else a[1]
            return z3.If(c,bv(a[0],i.ty.w),bv(a[1],i.ty.w))
        return h
    for n,op in(('umin','ult'),('umax','ugt'),('smin','slt'),('smax','sgt')): en.intr_re.append(('llvm.'+n,minmax(op)))
    @pre('llvm.abs')
    def iabs(en,st,f,i,a):
        w=i.ty.w
        if isinstance(a[0],int): return abs(sgn(a[0],w))&mask(w)
        return z3.If(a[0]<0,-a[0],a[0])
    @reg('abs','labs')
    def labs(en,st,f,i,a): return iabs(en,st,f,i,a)
    @pre('llvm.ctpop')
    def ctpop(en,st,f,i,a):
        w=i.ty.w
        if isinstance(a[0],int): return bin(a[0]).count('1')
        r=BV(0,w)
        for k in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(k,k,a[0]))
        return r
    @pre('llvm.ctlz')
    def ctlz(en,st,f,i,a):
        w=i.ty.w
        if isinstance(a[0],int): return w-a[0].bit_length()
        r=BV(w,w)
        for k in range(w): r=z3.If(z3.Extract(k,k,a[0])==BV(1,1),BV(w-1-k,w),r)
        return r
    @pre('llvm.cttz')
    def cttz(en,st,f,i,a):
        w=i.ty.w
        if isinstance(a[0],int): return w if a[0]==0 else (a[0]&-a[0]).bit_length()-1
        r=BV(w,w)
        for k in reversed(range(w)): r=z3.If(z3.Extract(k,k,a[0])==BV(1,1),BV(k,w),r)
        return r
    @pre('llvm.fshl','llvm.fshr')
    def fsh(en,st,f,i,a): raise Unsupported('fsh')
    def ovf(kind,signed):
        def h(en,st,f,i,a):
            w=i.ty.fields[0].w; x,y=a[0],a[1]
            if isinstance(x,int) and isinstance(y,int):
                X,Y=(sgn(x,w),sgn(y,w)) if signed else (x,y)
                r={'add':X+Y,'sub':X-Y,'mul':X*Y}[kind]
                lo,hi=(-(1<<(w-1)),1<<(w-1)) if signed else (0,1<<w)
                return [r&mask(w),int(not lo<=r<hi)]
            X,Y=bv(x,w),bv(y,w)
            r={'add':X+Y,'sub':X-Y,'mul':X*Y}[kind]
            ok={('add',1):lambda:z3.And(z3.BVAddNoOverflow(X,Y,True),z3.BVAddNoUnderflow(X,Y)),('add',0):lambda:z3.BVAddNoOverflow(X,Y,False),
                ('sub',1):lambda:z3.And(z3.BVSubNoOverflow(X,Y),z3.BVSubNoUnderflow(X,Y,True)),('sub',0):lambda:z3.BVSubNoUnderflow(X,Y,False),
                ('mul',1):lambda:z3.And(z3.BVMulNoOverflow(X,Y,True),z3.BVMulNoUnderflow(X,Y)),('mul',0):lambda:z3.BVMulNoOverflow(X,Y,False)}[(kind,int(signed))]()
            return [r,conc(z3.Not(ok))]
        return h
    for k in('add','sub','mul'):
        en.intr_re.append(('llvm.s%s.with'%k,ovf(k,True))); en.intr_re.append(('llvm.u%s.with'%k,ovf(k,False)))
    # ---- math
    def fpfun(name,conc_f,sym_f):
        def h(en,st,f,i,a):
            if all(isinstance(x,float) for x in a):
                r=float(conc_f(*a)); return E.f32(r) if i.ty.k=='float' else r
            if sym_f is None: raise Unsupported('symbolic '+name)
            return sym_f(*[E.fp(x,i.ty) for x in a])
        return h
    import math
    def cl(fn):
        def g(x): return x if x!=x or x in(math.inf,-math.inf) else float(fn(x))
        return g
    for names,cf,sf in ((('floor','floorf','llvm.floor'),cl(math.floor),lambda x:z3.fpRoundToIntegral(z3.RTN(),x)),
                        (('ceil','ceilf','llvm.ceil'),cl(math.ceil),lambda x:z3.fpRoundToIntegral(z3.RTP(),x)),
                        (('trunc','truncf','llvm.trunc'),cl(math.trunc),lambda x:z3.fpRoundToIntegral(z3.RTZ(),x)),
                        (('fabs','fabsf','llvm.fabs'),abs,z3.fpAbs),
                        (('sqrt','sqrtf','llvm.sqrt'),math.sqrt,lambda x:z3.fpSqrt(z3.RNE(),x)),
                        (('log2','log2f'),math.log2,None),(('log',),math.log,None),(('pow','llvm.pow'),math.pow,None),(('exp',),math.exp,None),
                        (('fmax','llvm.maxnum'),max,z3.fpMax),(('fmin','llvm.minnum'),min,z3.fpMin),
                        (('round','llvm.round'),cl(lambda x:math.floor(abs(x)+0.5)*(1 if x>=0 else -1)),lambda x:z3.fpRoundToIntegral(z3.RNA(),x))):
        h=fpfun(names[0],cf,sf)
        for n in names:
            if n.startswith('llvm.'): en.intr_re.append((n,h))
            else: I[n]=h
    @pre('llvm.fmuladd','llvm.fma')
    def fma(en,st,f,i,a):
        if all(isinstance(x,float) for x in a): 
            r=a[0]*a[1]+a[2]; return E.f32(r) if i.ty.k=='float' else r
        x,y,z=[E.fp(q,i.ty) for q in a]
        return z3.fpAdd(z3.RNE(),z3.fpMul(z3.RNE(),x,y),z)
    @pre('llvm.is.fpclass')
    def fpclass(en,st,f,i,a):
        m=int(a[1]); x=a[0]
        if isinstance(x,float):
            neg=math.copysign(1.,x)<0
            if x!=x: k=3
            elif x in (math.inf,-math.inf): k=4 if neg else 512
            elif x==0: k=32 if neg else 64
            elif abs(x)>=2.2250738585072014e-308: k=8 if neg else 256
            else: k=16 if neg else 128
            return 1 if m&k else 0
        x=E.fp(x,en.opw(f,i.ops[0]) if hasattr(en,'opw') else None); neg=z3.fpIsNegative(x); pos=z3.Not(neg); t=[]
        if m&3==3: t.append(z3.fpIsNaN(x))
        elif m&3: raise Unsupported('signalling NaN told apart')
        for lo,hi,fn in ((4,512,z3.fpIsInf),(8,256,z3.fpIsNormal),(16,128,z3.fpIsSubnormal),(32,64,z3.fpIsZero)):
            if m&lo and m&hi: t.append(fn(x))
            elif m&lo: t.append(z3.And(fn(x),neg))
            elif m&hi: t.append(z3.And(fn(x),pos))
        return E.conc(z3.Or(*t)) if t else 0
    from .llvm import Ty
    global T8
    T8=Ty('int'); T8.w=8; T8.size=1
    en.intr_re.sort(key=lambda x:-len(x[0]))
