"""Verify one contract function of a linked bitcode module; writes a JSON result."""
import sys, json, time, os, resource, re
def main():
    bc,contract,optf,out=sys.argv[1:5]
    opts=json.load(open(optf))
    sys.setrecursionlimit(100000)
    resource.setrlimit(resource.RLIMIT_AS,(int(opts.get('mem_gb',12))<<30,)*2)
    from . import llvm, engine, solve, loops
    engine.loops=loops
    t0=time.time()
    mod=llvm.Module(bc)
    sv=solve.Solver(quick_ms=opts.get('quick_ms',4000),hard_s=opts.get('hard_s',60))
    sv.intfirst=bool(opts.get('intfirst'))
    sv.fpo=bool(opts.get('fporder'))
    # contract replacement: caller is checked against the callee's contract
    rep={}; rrec={}
    for pat,tgt,rec in opts.get('replace',[]):
        r=re.compile(pat)
        tg=tgt if tgt in mod.funcs else next((f for f in mod.funcs if re.search(tgt,f)),None)
        if tg is None: continue
        for f in mod.funcs:
            if r.search(f) and f!=tg: (rrec if rec else rep)[f]=tg
    opts['replace']=rep; opts['replacerec']=rrec
    en=engine.Engine(mod,sv,opts)
    err=None
    try: 
        if opts.get('ctors'): en.run_ctors(opts['ctors'])
        en.run('contract_'+contract)
    except MemoryError: err='memory'
    except Exception as e:
        import traceback; err=traceback.format_exc()[-1500:]
    obl=[dict(name=o.name,kind=o.kind,where=o.where,status=o.status,backend=o.backend,time=round(o.time,3),exact=o.exact,inputs=o.inputs,path=o.path,fn=o.fn) for o in en.obls]
    src=opts.get('src','/repo')
    fns=sorted(f for f,x in en.touched.items() if x and x.startswith(src+'/src'))
    res=dict(contract=contract,obligations=obl,paths=en.paths,ends=en.ends,incomplete=en.incomplete,unsupported=en.unsup[:5],nunsup=len(en.unsup),
      bounded=sorted(set(en.bounded)),covers=en.covers,error=err,wall=time.time()-t0,queries=sv.nq,solver_s=sv.tq,backends=sv.by,functions=fns,steps=en.steps,
      replaced=sorted(set(rep)|set(rrec)), invariants=en.invs, loops_cut=en.loops_cut)
    json.dump(res,open(out,'w'))
main()
