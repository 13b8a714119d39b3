"""Loops without unrolling.  At the second and later visits of a loop header on one path the state is compared
with the earlier visits: if it is an instance of one of them (every live value and reachable memory cell agrees
under one substitution of the symbolic inputs, and the path condition implies the substituted one) everything
reachable from it has been covered by the exploration of that earlier state, and the path ends there.  This is the
usual invariant rule with the earlier state as the invariant: partial correctness for any number of iterations."""
import z3
from .engine import Ptr,is_sym,bv,conc,BV,fp,mask

def operands(i):
    for o in (i.ops or []):
        if o[0]=='v': yield o[1]
    if i.op in('call','invoke') and i.x['callee'][0]=='v': yield i.x['callee'][1]

def analyse(fn):
    """loop headers and live-in sets"""
    if getattr(fn,'loopinfo',None) is not None: return fn.loopinfo
    hdr=set(); color={}
    st=[(fn.blocks[0],iter(fn.blocks[0].succs))]; color[fn.blocks[0].id]=1
    while st:
        b,it=st[-1]
        for s in it:
            c=color.get(s.id,0)
            if c==0:
                color[s.id]=1; st.append((s,iter(s.succs))); break
            if c==1: hdr.add(s.id)
        else:
            color[b.id]=2; st.pop()
    live={b.id:set() for b in fn.blocks}   # live after the phis of b
    ch=True
    while ch:
        ch=False
        for b in reversed(fn.blocks):
            L=set()
            for s in b.succs:
                phis=s.insts[:s.nphi]
                L|=live[s.id]-{p.id for p in phis}
                for p in phis:
                    o=p.x.get(b.id)
                    if o and o[0]=='v': L.add(o[1])
            for i in reversed(b.insts[b.nphi:]):
                L.discard(i.id); L.update(operands(i))
            if L!=live[b.id]: live[b.id]=L; ch=True
    fn.loopinfo=(hdr,live)
    return fn.loopinfo

def live_at_call(fn,blk,ip):
    """values needed by a caller frame suspended in the call just before ip"""
    hdr,live=analyse(fn); L=set()
    for s in blk.succs:
        phis=s.insts[:s.nphi]; L|=live[s.id]-{p.id for p in phis}
        for p in phis:
            o=p.x.get(blk.id)
            if o and o[0]=='v': L.add(o[1])
    for i in reversed(blk.insts[ip:]):
        L.discard(i.id); L.update(operands(i))
    return L

_vars={}
def fvars(e):
    k=e.get_id(); r=_vars.get(k)
    if r is not None: return r[1]
    out={}; seen=set(); st=[e]
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x):
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[i]=x
        elif z3.is_app(x): st.extend(x.children())
    _vars[k]=(e,out)
    return out

class Mismatch(Exception): pass

def exprs(v):
    if is_sym(v): yield v
    elif isinstance(v,Ptr):
        for x,_ in v.t: yield x
    elif isinstance(v,list):
        for x in v: yield from exprs(x)

def ptrs(v):
    if isinstance(v,Ptr): yield v.o
    elif isinstance(v,list):
        for x in v: yield from ptrs(x)

def reach(en,st,roots):
    out=set(); w=list(roots)
    w+=[o for o in st.mem if en.obj(st,o).kind=='global']
    while w:
        o=w.pop()
        if o in out: continue
        try: ob=en.obj(st,o)
        except Exception: continue
        if ob.freed: continue
        out.add(o)
        for _,v in ob.cells.values(): w.extend(ptrs(v))
    return out

def roots_of(en,st,top_live):
    """(frame, value id) pairs that are live, and the values"""
    out=[]
    f=st.frames[-1]
    for k in top_live:
        if k in f.loc: out.append(('t',k,f.loc[k]))
    for d,fr in enumerate(st.frames[:-1]):
        for k in live_at_call(fr.fn,fr.blk,fr.ip):
            if k in fr.loc: out.append((d,k,fr.loc[k]))
    for d,fr in enumerate(st.frames):
        for a in fr.varargs or []: out.append((d,'va',a))
    return out

def instance(en,old,new,top_live,why=None):
    """is state new an instance of state old (both at the same loop header)?"""
    sigma={}; eqs=[]
    def width(e): return e.sort()
    def pair(a,b):
        if a is b: 
            for e in exprs(a): eqs.append((e,e))
            return
        if isinstance(a,list) or isinstance(b,list):
            if not(isinstance(a,list) and isinstance(b,list)) or len(a)!=len(b): raise Mismatch('agg')
            for x,y in zip(a,b): pair(x,y)
            return
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o:
                if not a.t and not b.t:
                    if a.c!=b.c: raise Mismatch('pointer')
                    return
                A=en.off_expr(a); B=en.off_expr(b)
                eqs.append((A,B)); return
            raise Mismatch('pointer')
        if not is_sym(a):
            if not is_sym(b):
                if a!=b: raise Mismatch('const %r %r'%(a,b))
                return
            eqs.append((lift(a,b),b)); return
        if z3.is_const(a) and a.decl().kind()==z3.Z3_OP_UNINTERPRETED:
            k=a.get_id(); B=lift(b,a)
            if k in sigma:
                eqs.append((a,B)); return
            sigma[k]=(a,B); return
        eqs.append((a,lift(b,a)))
    def lift(v,like):
        if is_sym(v): return v
        s=like.sort()
        if isinstance(like,z3.BoolRef): return z3.BoolVal(bool(v&1))
        if isinstance(like,z3.FPRef): return z3.FPVal(v,s)
        if isinstance(like,z3.BitVecRef): return BV(v,like.size())
        raise Mismatch('lift')
    try:
        if old.ghost.get('expect_abort')!=new.ghost.get('expect_abort'): raise Mismatch('ghost')
        ro=roots_of(en,old,top_live); rn=roots_of(en,new,top_live)
        if [(a,b) for a,b,_ in ro]!=[(a,b) for a,b,_ in rn]: raise Mismatch('roots')
        for (_,_,a),(_,_,b) in zip(ro,rn): pair(a,b)
        rs=[]
        for _,_,v in rn: rs.extend(ptrs(v))
        R=reach(en,new,rs); rs=[]
        for _,_,v in ro: rs.extend(ptrs(v))
        R|=reach(en,old,rs)
        for o in R:
            try: A=en.obj(old,o)
            except Exception: raise Mismatch('new object %d'%o)
            B=en.obj(new,o)
            if A.freed!=B.freed: raise Mismatch('freed')
            if A.freed: continue
            if A is B or A.cells is B.cells:
                for _,v in A.cells.values():
                    for e in exprs(v): eqs.append((e,e))
            else:
                ks=set(A.cells)|set(B.cells)
                for k in ks:
                    a=A.cells.get(k); b=B.cells.get(k)
                    if a is not None and b is not None and a[0]==b[0]: pair(a[1],b[1]); continue
                    # layout differs: an uninitialised or differently split cell
                    if a is None and A.kind=='stack' and A.default=='undef' and A.blob is None: continue
                    raise Mismatch('cell layout %s+%d'%(A.name,k))
            if A.regs or B.regs:
                ra,rb=A.regs or {},B.regs or {}
                if set(ra)!=set(rb): raise Mismatch('array regions')
                for q,(h,w,a) in ra.items():
                    h2,w2,b=rb[q]
                    if (h,w)!=(h2,w2) or w==8: raise Mismatch('array regions')
                    if a.get_id()==b.get_id(): eqs.append((a,a))
                    else: pair(a,b)
            if A.fields or B.fields:
                if set(A.fields or {})!=set(B.fields or {}): 
                    for q in (B.fields or {}):
                        if q not in (A.fields or {}): raise Mismatch('array fields')
                for q,a in (A.fields or {}).items():
                    b=(B.fields or {}).get(q)
                    if b is None: raise Mismatch('array fields')
                    if a is b or a.get_id()==b.get_id(): eqs.append((a,a))
                    else: pair(a,b)
    except Mismatch as m:
        if why is not None: why.append(str(m))
        return False
    bound={k:v for k,v in sigma.items() if v[1].get_id()!=k}
    sub=[(a,b) for a,b in bound.values()]
    for a,b in sub:
        if a.sort()!=b.sort():
            if why is not None: why.append('sort'); 
            return False
    goals=[]
    def touched(e): return any(k in bound for k in fvars(e))
    for a,b in eqs:
        if a.get_id()==b.get_id() and not touched(a): continue
        x=z3.substitute(a,*sub) if sub and touched(a) else a
        if x.get_id()==b.get_id(): continue
        goals.append(x==b if not isinstance(x,z3.FPRef) else z3.fpToIEEEBV(x)==z3.fpToIEEEBV(b))
    for c in old.pc:
        if touched(c): goals.append(z3.substitute(c,*sub))
    # conjuncts of the old path condition that are not touched are a prefix of the new one
    for g in goals:
        g=z3.simplify(g)
        if z3.is_true(g): continue
        r,m,be=en.sv.prove(new.pc,z3.Not(g))
        if r!='unsat':
            if why is not None: why.append('not implied: '+str(g)[:200])
            return False
    return True

def at_header(en,st,f,blk):
    """called after the phis of loop header blk have been set; True if the path is covered"""
    hdr,live=analyse(f.fn)
    key=(len(st.frames),blk.id)
    if f.snaps is None: f.snaps={}
    S=f.snaps.get(key,())
    L=live[blk.id]
    if len(S)>en.o.get('loop_snaps',3): return False
    why=[] if en.o.get('loop_debug') else None
    for old in S:
        if instance(en,old,st,L,why):
            en.loops_cut[en.where(st,blk.insts[blk.nphi])]=en.loops_cut.get(en.where(st,blk.insts[blk.nphi]),0)+1
            return True
    if why: print('    [loop] %s not covered: %s'%(en.where(st,blk.insts[blk.nphi]),why))
    f.snaps=dict(f.snaps); 
    sn=st.fork()           # both sides become copy-on-write
    f.snaps[key]=S+(sn,)
    return False
