"""Integer translation of bit-vector queries with symbolic division/multiplication.
Every bit-vector term becomes an integer representative (equal modulo 2^w) with an interval; wrap-around is
resolved only where a canonical value is needed.  Anything unsupported becomes an unconstrained fresh value, so
the integer query is implied by the bit-vector query: only an 'unsat' answer is used."""
import z3
from z3 import Z3_OP_BNUM
K=z3
class Blast:
    def __init__(s):
        s.memo={}; s.bmemo={}; s.side=[]; s.prod={}; s.prods=[]; s.divs={}; s.bounds={}; s.n=0; s.keep=[]; s.pmemo={}; s.mono={}; s.fac={}; s.rng={}; s.cf=s.pre; s.why=[]
    def fresh(s,lo=None,hi=None):
        s.n+=1; v=z3.Int('ib!%d'%s.n); s.keep.append(v)
        if lo is not None and hi is not None: s.rng[v.get_id()]=(lo,hi)
        if lo is not None: s.side.append(v>=lo)
        if hi is not None: s.side.append(v<=hi)
        return v
    # ---- bool-valued bit tricks ((a&b)|c==0 over If(cond,1,0)) back to propositional structure
    def pre(s,c):
        i=c.get_id()
        if i in s.pmemo: return s.pmemo[i]
        s.keep.append(c); r=c
        if z3.is_app(c):
            k=c.decl().kind(); ch=c.children()
            if k in(z3.Z3_OP_AND,z3.Z3_OP_OR): 
                l=[s.pre(x) for x in ch]; r=z3.And(l) if k==z3.Z3_OP_AND else z3.Or(l)
            elif k==z3.Z3_OP_NOT: r=z3.Not(s.pre(ch[0]))
            elif k==z3.Z3_OP_IMPLIES: r=z3.Or(z3.Not(s.pre(ch[0])),s.pre(ch[1]))
            elif k==z3.Z3_OP_ITE: r=z3.If(s.pre(ch[0]),s.pre(ch[1]),s.pre(ch[2]))
            elif k==z3.Z3_OP_EQ and z3.is_bv(ch[0]):
                if not(z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])): a=b=None
                else: a,b=s.bits(ch[0]),s.bits(ch[1])
                if a is not None and b is not None:
                    l=[]; bad=False; seen=set()
                    for x,y in zip(a,b):
                        if isinstance(x,bool): x,y=y,x
                        if isinstance(x,bool):
                            if x!=y: bad=True; break
                            continue
                        f=(x if y else z3.Not(x)) if isinstance(y,bool) else x==y
                        if f.get_id() not in seen: seen.add(f.get_id()); l.append(f)
                    r=z3.BoolVal(False) if bad else z3.And(l) if len(l)>1 else l[0] if l else z3.BoolVal(True)
            elif k==z3.Z3_OP_EQ and z3.is_bool(ch[0]): r=s.pre(ch[0])==s.pre(ch[1])
        s.pmemo[i]=r; s.keep.append(r); return r
    # ---- bounds from top level conjuncts
    def flat(s,cs):
        out=[]; st=list(cs)
        while st:
            c=st.pop()
            if z3.is_and(c): st+=c.children(); continue
            if z3.is_not(c) and z3.is_or(c.arg(0)): st+=[z3.Not(x) for x in c.arg(0).children()]; continue
            if z3.is_not(c) and z3.is_not(c.arg(0)): st.append(c.arg(0).arg(0)); continue
            out.append(c)
        return out
    def addb(s,t,lo,hi,sg):
        k=(t.get_id(),sg); s.keep.append(t); a,b=s.bounds.get(k,(None,None))
        if lo is not None: a=lo if a is None else max(a,lo)
        if hi is not None: b=hi if b is None else min(b,hi)
        s.bounds[k]=(a,b)
        if z3.is_app(t):
            kd=t.decl().kind(); x=s.sx(t)
            if x is not None: s.addb(x,lo,hi,True)
            elif kd==z3.Z3_OP_ZERO_EXT and (lo is None or lo>=0): s.addb(t.arg(0),lo,hi,False)
            elif kd==z3.Z3_OP_CONCAT and t.num_args()==2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long()==0: s.addb(t.arg(1),lo if lo is None or lo>=0 else 0,hi,False)
    def sx(s,t):
        if t.decl().kind()==z3.Z3_OP_SIGN_EXT: return t.arg(0)
        if t.decl().kind()!=z3.Z3_OP_CONCAT: return None
        ch=t.children(); x=ch[-1]; n=x.size()
        if all(z3.is_app(c) and c.decl().kind()==z3.Z3_OP_EXTRACT and c.params()==[n-1,n-1] and c.arg(0).eq(x) for c in ch[:-1]): return x
        return None
    def harvest(s,cs):
        for c in s.flat(cs):
            neg=False
            if z3.is_not(c): neg=True; c=c.arg(0)
            if not z3.is_app(c): continue
            k=c.decl().kind()
            if k==z3.Z3_OP_EQ and not neg and z3.is_bv(c.arg(0)):
                a,b=c.children()
                for x,y in((a,b),(b,a)):
                    if z3.is_bv_value(y): s.addb(x,y.as_long(),y.as_long(),False); s.addb(x,y.as_signed_long(),y.as_signed_long(),True)
                continue
            T={z3.Z3_OP_SLEQ:('le',True),z3.Z3_OP_SLT:('lt',True),z3.Z3_OP_SGEQ:('ge',True),z3.Z3_OP_SGT:('gt',True),
               z3.Z3_OP_ULEQ:('le',False),z3.Z3_OP_ULT:('lt',False),z3.Z3_OP_UGEQ:('ge',False),z3.Z3_OP_UGT:('gt',False)}
            if k not in T: continue
            op,sg=T[k]; a,b=c.children()
            if neg: op={'le':'gt','lt':'ge','ge':'lt','gt':'le'}[op]
            for x,y,o in((a,b,op),(b,a,{'le':'ge','lt':'gt','ge':'le','gt':'lt'}[op])):
                if not z3.is_bv_value(y): continue
                v=y.as_signed_long() if sg else y.as_long()
                if o=='le': s.addb(x,None,v,sg)
                elif o=='lt': s.addb(x,None,v-1,sg)
                elif o=='ge': s.addb(x,v,None,sg)
                else: s.addb(x,v+1,None,sg)
    # ---- terms: (expr,lo,hi)
    def clamp(s,t,r):
        e,lo,hi=r; w=t.size()
        if lo>=-(1<<(w-1)) and hi<(1<<(w-1)):
            a,b=s.bounds.get((t.get_id(),True),(None,None))
            if a is not None: lo=max(lo,a)
            if b is not None: hi=min(hi,b)
        if lo>=0 and hi<(1<<w):
            a,b=s.bounds.get((t.get_id(),False),(None,None))
            if a is not None: lo=max(lo,a)
            if b is not None: hi=min(hi,b)
        if hi<lo: hi=lo   # contradictory bounds: query is unsat anyway; keep intervals sane
        return e,lo,hi
    def term(s,t):
        i=t.get_id()
        if i in s.memo: return s.memo[i]
        s.keep.append(t)
        r=s.clamp(t,s.term0(t)); s.memo[i]=r; return r
    def var(s,t):
        w=t.size()
        us=s.bounds.get((t.get_id(),False)); 
        if us and us[1] is not None and not(s.bounds.get((t.get_id(),True))): lo,hi=0,(1<<w)-1
        elif w>=64 and not s.bounds.get((t.get_id(),True)): lo,hi=0,(1<<w)-1
        elif w==1: lo,hi=0,1
        else: lo,hi=-(1<<(w-1)),(1<<(w-1))-1
        _,lo,hi=s.clamp(t,(None,lo,hi))
        return s.fresh(lo,hi),lo,hi
    def U(s,r,w):
        e,lo,hi=r; M=1<<w
        if lo>=0 and hi<M: return r
        if lo>=-M and hi<M:
            if hi<0: return e+M,lo+M,hi+M
            return z3.If(e<0,e+M,e),0,M-1
        if lo>=0 and hi<2*M: return z3.If(e>=M,e-M,e),0,M-1
        return s.wrap(e,0,M)
    def S(s,r,w):
        e,lo,hi=r; H=1<<(w-1); M=1<<w
        if lo>=-H and hi<H: return r
        if lo>=-H and hi<H+M: 
            if lo>=H: return e-M,lo-M,hi-M
            return z3.If(e>=H,e-M,e),-H,H-1
        return s.wrap(e,-H,M)
    def wrap(s,e,base,M):
        k=('w',e.get_id(),base,M); s.keep.append(e)
        if k in s.prod: return s.prod[k]
        u=s.fresh(base,base+M-1); q=s.fresh(); s.side.append(e==u+M*q); s.prod[k]=(u,base,base+M-1); return s.prod[k]
    def mul(s,a,b):
        (x,xl,xh),(y,yl,yh)=a,b
        c=[xl*yl,xl*yh,xh*yl,xh*yh]; lo,hi=min(c),max(c)
        if xl==xh: return y*xl,lo,hi
        if yl==yh: return x*yl,lo,hi
        x=z3.simplify(x); y=z3.simplify(y)
        if x.get_id()>y.get_id(): x,y,xl,xh,yl,yh=y,x,yl,yh,xl,xh
        k=('m',x.get_id(),y.get_id())
        if k not in s.prod:
            s.keep+=[x,y]; fs=tuple(sorted(s.fac.get(x.get_id(),(x.get_id(),))+s.fac.get(y.get_id(),(y.get_id(),))))
            m=s.mono.get(fs)
            if m is None: m=s.fresh(); s.mono[fs]=m; s.fac[m.get_id()]=fs
            s.side+=[m>=lo,m<=hi]; s.prod[k]=m; s.prods.append((m,x,y))
            for u,o in((x,y),(y,x)):   # distribute over short sums
                if z3.is_add(u) and u.num_args()<=3:
                    tot=[]
                    for a in u.children():
                        if z3.is_int_value(a): tot.append(a*o); continue
                        c=1
                        if z3.is_mul(a) and a.num_args()==2 and z3.is_int_value(a.arg(0)): c=a.arg(0).as_long(); a=a.arg(1)
                        if a.num_args()!=0 or z3.is_int_value(a) or a.get_id() not in s.rng: tot=None; break
                        o_=(o,yl,yh) if u is x else (o,xl,xh); al,ah=s.rng[a.get_id()]
                        tot.append(c*s.mul((a,al,ah),o_)[0])
                    if tot: s.side.append(m==z3.Sum(tot))
            if xl>=0 and yl>=0: s.side+=[z3.Implies(y>=1,m>=x),z3.Implies(x>=1,m>=y)]
            s.side+=[z3.Implies(x==0,m==0),z3.Implies(y==0,m==0),z3.Implies(x==1,m==y),z3.Implies(y==1,m==x),z3.Implies(z3.And(x>0,y>0),m>0)]
            s.side+=[m-xl*y-yl*x+xl*yl>=0, m-xh*y-yh*x+xh*yh>=0, m-xl*y-yh*x+xl*yh<=0, m-xh*y-yl*x+xh*yl<=0]
        return s.prod[k],lo,hi
    def div(s,sg,a,b,w):
        A=(s.S if sg else s.U)(a,w); B=(s.S if sg else s.U)(b,w)
        x,xl,xh=A; y,yl,yh=B; x=z3.simplify(x); y=z3.simplify(y)
        k=(x.get_id(),y.get_id())
        if k in s.divs: return s.divs[k]
        s.keep+=[x,y]; mx=max(abs(xl),abs(xh)); md=max(abs(yl),abs(yh))
        rng_q=(-mx if (xl<0 or yl<0) else 0, mx if not(yl>=0 and xh<=0) else 0); rr=(-(min(mx,md)) if xl<0 else 0, min(mx,md) if xh>0 else 0)
        if yl>=1:
            q=s.fresh(*rng_q); r=s.fresh(*rr)
            m=s.mul((q,)+rng_q,(y,yl,yh))[0]
            s.side+=[x==m+r, r<y, r>-y]
            if xl<0: s.side+=[z3.Implies(x>=0,z3.And(r>=0,q>=0)),z3.Implies(x<=0,z3.And(r<=0,q<=0))]
            if xl>=0: s.side+=[q<=x]
            if yl>1 and xl>=0: s.side+=[q*yl<=x]; rng_q=(0,xh//yl); s.side.append(q<=xh//yl)
        else:
            if not sg: rng_q=(0,(1<<w)-1); rr=(0,(1<<w)-1)
            else: rng_q=(-(1<<(w-1)),1<<(w-1)); rr=(-(1<<(w-1)),(1<<(w-1))-1)   # divisor may be zero
            q=s.fresh(*rng_q); r=s.fresh(*rr); m=s.mul((q,)+rng_q,(y,yl,yh))[0]
            s.side+=[z3.Implies(y!=0,z3.And(x==m+r,z3.If(y>0,z3.And(r<y,-r<y),z3.And(r<-y,-r<-y)),z3.Implies(x>=0,r>=0),z3.Implies(x<=0,r<=0)))]
        s.divs[k]=((q,)+rng_q,(r,)+rr); return s.divs[k]
    def term0(s,t):
        w=t.size()
        if z3.is_bv_value(t):
            v=t.as_signed_long() if w>1 else t.as_long(); return z3.IntVal(v),v,v
        if not z3.is_app(t): return s.var(t)
        k=t.decl().kind(); ch=t.children()
        if k==z3.Z3_OP_UNINTERPRETED: return s.var(t)
        if k==z3.Z3_OP_BADD:
            rs=[s.term(c) for c in ch]; return z3.Sum([r[0] for r in rs]),sum(r[1] for r in rs),sum(r[2] for r in rs)
        if k==z3.Z3_OP_BSUB:
            a=s.term(ch[0]); 
            for c in ch[1:]:
                b=s.term(c); a=(a[0]-b[0],a[1]-b[2],a[2]-b[1])
            return a
        if k==z3.Z3_OP_BNEG: a=s.term(ch[0]); return -a[0],-a[2],-a[1]
        if k in(z3.Z3_OP_BNOT,z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_BXOR):
            b=s.bitval(t)
            if b is not None: return b
        if k==z3.Z3_OP_BNOT: a=s.term(ch[0]); return -a[0]-1,-a[2]-1,-a[1]-1
        if k==z3.Z3_OP_BMUL:
            a=s.canon(s.term(ch[0]),w)
            for c in ch[1:]: a=s.canon(s.mul(a,s.canon(s.term(c),w)),w,soft=True)
            return a
        D={z3.Z3_OP_BSDIV:(True,0),z3.Z3_OP_BSDIV_I:(True,0),z3.Z3_OP_BSREM:(True,1),z3.Z3_OP_BSREM_I:(True,1),
           z3.Z3_OP_BUDIV:(False,0),z3.Z3_OP_BUDIV_I:(False,0),z3.Z3_OP_BUREM:(False,1),z3.Z3_OP_BUREM_I:(False,1)}
        if k in D: sg,i=D[k]; return s.div(sg,s.term(ch[0]),s.term(ch[1]),w)[i]
        if k==z3.Z3_OP_ITE:
            c=s.form(t.arg(0)); a=s.term(t.arg(1)); b=s.term(t.arg(2)); return z3.If(c,a[0],b[0]),min(a[1],b[1]),max(a[2],b[2])
        if k==z3.Z3_OP_SIGN_EXT: return s.S(s.term(ch[0]),ch[0].size())
        if k==z3.Z3_OP_ZERO_EXT: return s.U(s.term(ch[0]),ch[0].size())
        if k==z3.Z3_OP_EXTRACT:
            hi,lo=t.params(); 
            if lo==0: return s.term(ch[0])
            if hi==lo==ch[0].size()-1:
                e,l,h=s.S(s.term(ch[0]),ch[0].size())
                return (z3.IntVal(0),0,0) if l>=0 else (z3.If(e<0,z3.IntVal(1),z3.IntVal(0)),0,1)
            return s.shr(s.U(s.term(ch[0]),ch[0].size()),lo)
        if k==z3.Z3_OP_CONCAT:
            x=s.sx(t)
            if x is not None: return s.S(s.term(x),x.size())
            b=s.bitval(t)
            if b is not None: return b
            e,lo,hi=s.U(s.term(ch[0]),ch[0].size())
            for c in ch[1:]:
                f,fl,fh=s.U(s.term(c),c.size()); m=1<<c.size(); e,lo,hi=e*m+f,lo*m+fl,hi*m+fh
            return e,lo,hi
        if k==z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            n=ch[1].as_long()
            if n>=w: return z3.IntVal(0),0,0
            a=s.term(ch[0]); return a[0]*(1<<n),a[1]<<n,a[2]<<n
        if k==z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]): return s.shr(s.U(s.term(ch[0]),w),ch[1].as_long())
        if k==z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]): return s.shr(s.S(s.term(ch[0]),w),ch[1].as_long())
        if k==z3.Z3_OP_BAND and len(ch)==2:
            for x,y in((ch[0],ch[1]),(ch[1],ch[0])):
                if z3.is_bv_value(y):
                    v=y.as_long()
                    if v&(v+1)==0:
                        n=v.bit_length(); a=s.term(x); M=1<<n
                        if a[1]>=0 and a[2]<M: return a
                        return s.wrap(a[0],0,M)
            a=s.U(s.term(ch[0]),w); b=s.U(s.term(ch[1]),w)
            if a[2]<=1 and b[2]<=1: return z3.If(z3.And(a[0]==1,b[0]==1),z3.IntVal(1),z3.IntVal(0)),0,1
        if k in(z3.Z3_OP_BOR,z3.Z3_OP_BXOR) and len(ch)==2:
            a=s.U(s.term(ch[0]),w); b=s.U(s.term(ch[1]),w)
            if a[2]<=1 and b[2]<=1:
                c=z3.Or(a[0]==1,b[0]==1) if k==z3.Z3_OP_BOR else a[0]!=b[0]
                return z3.If(c,z3.IntVal(1),z3.IntVal(0)),0,1
        return s.var(t)
    # terms made of constants, If(c,const,const) and bitwise operators: one formula per bit
    def bits(s,t,d=0):
        if d>200 or t.size()>64: return None
        w=t.size()
        if z3.is_bv_value(t): v=t.as_long(); return [bool(v>>i&1) for i in range(w)]
        if not z3.is_app(t): return None
        k=t.decl().kind(); ch=t.children()
        if k==z3.Z3_OP_ITE:
            a=s.bits(ch[1],d+1); b=s.bits(ch[2],d+1) if a is not None else None
            if b is None: return None
            c=s.cf(ch[0])
            return [x if isinstance(x,bool) and isinstance(y,bool) and x==y else c if x is True and y is False else z3.Not(c) if x is False and y is True else z3.If(c,s.zb(x),s.zb(y)) for x,y in zip(a,b)]
        if k==z3.Z3_OP_BNOT:
            a=s.bits(ch[0],d+1); return None if a is None else [not x if isinstance(x,bool) else z3.Not(x) for x in a]
        if k in(z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_BXOR):
            r=None
            for c in ch:
                a=s.bits(c,d+1)
                if a is None: return None
                r=a if r is None else [s.bop(k,x,y) for x,y in zip(r,a)]
            return r
        if k==z3.Z3_OP_EXTRACT:
            a=s.bits(ch[0],d+1); hi,lo=t.params(); return None if a is None else a[lo:hi+1]
        if k==z3.Z3_OP_CONCAT:
            r=[]
            for c in reversed(ch):
                a=s.bits(c,d+1)
                if a is None: return None
                r+=a
            return r
        if k==z3.Z3_OP_ZERO_EXT: a=s.bits(ch[0],d+1); return None if a is None else a+[False]*(w-len(a))
        if k==z3.Z3_OP_SIGN_EXT: a=s.bits(ch[0],d+1); return None if a is None else a+[a[-1]]*(w-len(a))
        return None
    def zb(s,x): return z3.BoolVal(x) if isinstance(x,bool) else x
    def bop(s,k,x,y):
        if k==z3.Z3_OP_BXOR:
            if isinstance(x,bool) and isinstance(y,bool): return x!=y
            if x is False: return y
            if y is False: return x
            return z3.Xor(s.zb(x),s.zb(y))
        z,u=(True,False) if k==z3.Z3_OP_BOR else (False,True)
        if (isinstance(x,bool) and x==z) or (isinstance(y,bool) and y==z): return z
        if isinstance(x,bool): return y
        if isinstance(y,bool): return x
        return z3.Or(x,y) if k==z3.Z3_OP_BOR else z3.And(x,y)
    def bitval(s,t):
        b=s.bits(t)
        if b is None: return None
        w=len(b); nc=[i for i,x in enumerate(b) if not isinstance(x,bool)]
        if len({id(b[i]) for i in nc})>12: return None
        base=sum(1<<i for i,x in enumerate(b) if x is True); e=z3.IntVal(base); hi=base
        for i in nc: e=e+z3.If(b[i],z3.IntVal(1<<i),z3.IntVal(0)); hi+=1<<i
        if b[-1] is True: return e-(1<<w),base-(1<<w),hi-(1<<w)
        return e,base,hi
    def canon(s,r,w,soft=False):
        # keep representatives of factors canonical (some wrap-free range)
        e,lo,hi=r; M=1<<w
        if lo>=-(M>>1) and hi<M: return r
        if soft: return r
        return s.U(r,w) if lo>=0 else s.S(r,w)
    def shr(s,r,n):
        e,lo,hi=r; d=1<<n
        if lo==hi: return z3.IntVal(lo>>n),lo>>n,lo>>n
        k=('s',e.get_id(),n); s.keep.append(e)
        if k not in s.prod:
            q=s.fresh(lo>>n,hi>>n); s.side+=[d*q<=e,e<d*q+d]; s.prod[k]=q
        return s.prod[k],lo>>n,hi>>n
    def form(s,c):
        i=c.get_id()
        if i in s.bmemo: return s.bmemo[i]
        s.keep.append(c); r=s.form0(c); s.bmemo[i]=r; return r
    def form0(s,c):
        if not z3.is_app(c): return s.fb(c)
        k=c.decl().kind(); ch=c.children()
        if k==z3.Z3_OP_TRUE or k==z3.Z3_OP_FALSE: return c
        if k==z3.Z3_OP_AND: return z3.And([s.form(x) for x in ch])
        if k==z3.Z3_OP_OR: return z3.Or([s.form(x) for x in ch])
        if k==z3.Z3_OP_NOT: return z3.Not(s.form(ch[0]))
        if k==z3.Z3_OP_IMPLIES: return z3.Implies(s.form(ch[0]),s.form(ch[1]))
        if k==z3.Z3_OP_XOR: return z3.Xor(s.form(ch[0]),s.form(ch[1]))
        if k==z3.Z3_OP_ITE: return z3.If(s.form(ch[0]),s.form(ch[1]),s.form(ch[2]))
        if k in(z3.Z3_OP_EQ,z3.Z3_OP_IFF,z3.Z3_OP_DISTINCT) and len(ch)==2:
            if z3.is_bool(ch[0]): r=s.form(ch[0])==s.form(ch[1])
            elif z3.is_bv(ch[0]):
                w=ch[0].size(); a=s.term(ch[0]); b=s.term(ch[1])
                M=1<<w
                if max(a[2],b[2])-min(a[1],b[1])<M: r=a[0]==b[0]
                else:
                    f=s.U if a[1]>=0 or b[1]>=0 else s.S
                    r=f(a,w)[0]==f(b,w)[0]
            else: return s.fb(c)
            return z3.Not(r) if k==z3.Z3_OP_DISTINCT else r
        O={z3.Z3_OP_BSMUL_NO_OVFL:(True,1),z3.Z3_OP_BSMUL_NO_UDFL:(True,-1),z3.Z3_OP_BUMUL_NO_OVFL:(False,1)}
        if k in O:
            sg,d=O[k]; w=ch[0].size(); f=s.S if sg else s.U
            e,lo,hi=s.mul(f(s.term(ch[0]),w),f(s.term(ch[1]),w))
            mx=(1<<(w-1))-1 if sg else (1<<w)-1; mn=-(1<<(w-1)) if sg else 0
            if d>0: return z3.BoolVal(True) if hi<=mx else e<=mx
            return z3.BoolVal(True) if lo>=mn else e>=mn
        C={z3.Z3_OP_SLEQ:(0,True),z3.Z3_OP_SLT:(1,True),z3.Z3_OP_SGEQ:(2,True),z3.Z3_OP_SGT:(3,True),
           z3.Z3_OP_ULEQ:(0,False),z3.Z3_OP_ULT:(1,False),z3.Z3_OP_UGEQ:(2,False),z3.Z3_OP_UGT:(3,False)}
        if k in C:
            o,sg=C[k]; w=ch[0].size(); f=s.S if sg else s.U; a=f(s.term(ch[0]),w)[0]; b=f(s.term(ch[1]),w)[0]
            return (a<=b,a<b,a>=b,a>b)[o]
        return s.fb(c)
    def fb(s,c=None): s.why.append(c); s.n+=1; return z3.Bool('ibb!%d'%s.n)
    def lemmas(s):
        # monotonicity of products that share a factor
        by={}; sg={}
        for m,x,y in s.prods:
            by.setdefault(x.get_id(),(x,[]))[1].append((m,y)); by.setdefault(y.get_id(),(y,[]))[1].append((m,x))
        out=[]
        for b,l in by.values():
            l=l[:10]
            for i in range(len(l)):
                for j in range(len(l)):
                    if i==j: continue
                    (m1,q1),(m2,q2)=l[i],l[j]
                    out+=[z3.Implies(z3.And(b>=0,q1>=q2+1),m1>=m2+b),z3.Implies(z3.And(b>=0,q1>=q2+2),m1>=m2+2*b),z3.Implies(z3.And(b<=0,q1>=q2+1),m1<=m2+b)]
                    if i<j: out+=[z3.Implies(q1==q2,m1==m2)]
                    out+=[z3.Implies(q1==q2+1,m1==m2+b)]
            # sums of two cofactors
            if len(l)<=8:
                for i in range(len(l)):
                    for j in range(len(l)):
                        for k in range(j,len(l)):
                            if j==i or k==i: continue
                            (mi,qi),(mj,qj),(mk,qk)=l[i],l[j],l[k]
                            out+=[z3.Implies(qi==qj+qk,mi==mj+mk),
                                  z3.Implies(z3.And(b>=0,qi>=qj+qk+1),mi>=mj+mk+b),z3.Implies(z3.And(b>=0,qi<=qj+qk-1),mi<=mj+mk-b)]
        return out
def has_div(cs,lim=20000):
    seen=set(); st=list(cs)
    ops={z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BSREM,z3.Z3_OP_BSREM_I,z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I,z3.Z3_OP_BMUL}
    while st and len(seen)<lim:
        t=st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            k=t.decl().kind()
            if k in ops and not any(z3.is_bv_value(c) for c in t.children()): return True
            if k in ops and k!=z3.Z3_OP_BMUL: return True
            st+=t.children()
        elif z3.is_quantifier(t): return False
    return False
def translate(cs):
    b=Blast(); cs=[z3.simplify(b.pre(c)) for c in cs]; b.cf=b.form; b.harvest(cs)
    fs=[b.form(c) for c in cs]
    lin=fs+b.side+b.lemmas()
    full=lin+[m==x*y for m,x,y in b.prods]
    translate.why=b.why
    return lin,full,bool(b.prods)
