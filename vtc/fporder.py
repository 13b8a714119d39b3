"""Floating-point values that are only compared with one another behave like any other totally ordered values: such
constraints are decided over the reals (plus one Boolean per value for "is NaN").  Every assignment of doubles embeds
in the reals with its order, so 'unsat' carries over; a 'sat' answer is only used after the original constraints were
satisfied with the values rounded back to doubles."""
import z3
from fractions import Fraction
K=z3
class No(Exception): pass
_t={}   # formula -> translation
_f={}   # fp term -> (real, nan)
BIG=z3.RealVal(2)**1100
def term(x):
    k=x.get_id(); r=_f.get(k)
    if r is not None: return r[1]
    d=x.decl().kind()
    if z3.is_fprm(x): raise No()
    if isinstance(x,z3.FPNumRef):
        if x.isNaN(): r=(z3.RealVal(0),z3.BoolVal(True))
        elif x.isInf(): r=(z3.RealVal(-(1<<1100) if x.isNegative() else 1<<1100),z3.BoolVal(False))
        else:
            s=z3.simplify(z3.fpToReal(x)); r=(s,z3.BoolVal(False))
    elif d==z3.Z3_OP_UNINTERPRETED and x.num_args()==0: n=x.decl().name(); r=(z3.Real('fpo!%s!%d'%(n,x.sort().ebits())),z3.Bool('fpnan!%s!%d'%(n,x.sort().ebits())))
    elif d==z3.Z3_OP_ITE: c=tr(x.arg(0)); a=term(x.arg(1)); b=term(x.arg(2)); r=(z3.If(c,a[0],b[0]),z3.If(c,a[1],b[1]))
    elif d==z3.Z3_OP_FPA_NEG: a=term(x.arg(0)); r=(-a[0],a[1])
    else: raise No()
    _f[k]=(x,r); return r
CMP={z3.Z3_OP_FPA_LT:lambda a,b:a<b,z3.Z3_OP_FPA_LE:lambda a,b:a<=b,z3.Z3_OP_FPA_GT:lambda a,b:a>b,z3.Z3_OP_FPA_GE:lambda a,b:a>=b,z3.Z3_OP_FPA_EQ:lambda a,b:a==b}
def tr(e):
    k=e.get_id(); r=_t.get(k)
    if r is not None:
        if r[1] is None: raise No()
        return r[1]
    try: r=tr1(e)
    except No: _t[k]=(e,None); raise
    _t[k]=(e,r); return r
def tr1(e):
    if z3.is_quantifier(e) or not z3.is_app(e): raise No()
    d=e.decl().kind()
    if isinstance(e,z3.FPRef): raise No()
    if d in CMP: a=term(e.arg(0)); b=term(e.arg(1)); return z3.And(z3.Not(a[1]),z3.Not(b[1]),CMP[d](a[0],b[0]))
    if d==z3.Z3_OP_FPA_IS_NAN: return term(e.arg(0))[1]
    if e.num_args()==0: return e
    c=e.children()
    if any(isinstance(x,(z3.FPRef,z3.FPRMRef)) for x in c): raise No()
    n=[tr(x) for x in c]
    if all(a.eq(b) for a,b in zip(c,n)): return e
    return z3.substitute(e,*[(a,b) for a,b in zip(c,n)]) if d not in(z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_NOT,z3.Z3_OP_ITE) else {z3.Z3_OP_AND:lambda *x:z3.And(*x),z3.Z3_OP_OR:lambda *x:z3.Or(*x),z3.Z3_OP_NOT:lambda x:z3.Not(x),z3.Z3_OP_ITE:lambda x,y,z:z3.If(x,y,z)}[d](*n)
def fpvars(cs):
    out={}; seen=set(); st=list(cs)
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if isinstance(x,z3.FPRef) and z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[i]=x
        st.extend(x.children())
    return list(out.values())
def model(cs,m,ms):
    """a model of the original constraints, from one of the translated ones"""
    s=z3.Solver(); s.set('timeout',ms); s.add(*cs)
    for x in fpvars(cs):
        r,n=term(x)
        if z3.is_true(m.eval(n,model_completion=True)): s.add(z3.fpIsNaN(x)); continue
        v=m.eval(r,model_completion=True)
        try: q=float(Fraction(v.numerator_as_long(),v.denominator_as_long()))
        except OverflowError: q=float('inf') if v.numerator_as_long()>0 else float('-inf')
        s.add(x==z3.FPVal(q,x.sort()))
    return s.model() if s.check()==z3.sat else None
def can(e):
    try: tr(e); return True
    except No: return False
