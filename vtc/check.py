"""vtc check <PROPERTY>: extract, generate and discharge every obligation of the property's contracts."""
import sys, os, json, time, glob, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import Unit, VERIF
PY='/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PY): PY=shutil.which('python3-vt') or sys.executable

def units_of(pid):
    return [Unit(p) for p in sorted(glob.glob(os.path.join(VERIF,'contracts',pid+'_*.cc')))]

def demangle(names):
    if not names: return []
    r=subprocess.run(['c++filt'],input='\n'.join(names),stdout=subprocess.PIPE,text=True)
    return r.stdout.strip().split('\n')

def run_worker(bc,c,opts,wd,timeout,tag=''):
    of=os.path.join(wd,tag+c+'.opt.json'); out=os.path.join(wd,tag+c+'.res.json')
    json.dump(opts,open(of,'w'))
    if os.path.exists(out): os.unlink(out)
    env=dict(os.environ); env['PYTHONPATH']=VERIF; env['PYTHONHASHSEED']='0'
    try:
        p=subprocess.run([PY,'-m','vtc.worker',bc,c,of,out],cwd=wd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
        if os.path.exists(out): 
            r=json.load(open(out)); r['stdout']=p.stdout; return r
        return dict(contract=c,error='worker died: '+p.stdout[-800:],obligations=[],paths=0,ends={},incomplete=None,unsupported=[],nunsup=0,bounded=[],covers={},wall=0,queries=0,solver_s=0,backends={},functions=[],steps=0,stdout=p.stdout,replaced=[],invariants=[])
    except subprocess.TimeoutExpired as e:
        return dict(contract=c,error='worker timeout',obligations=[],paths=0,ends={},incomplete='timeout',unsupported=[],nunsup=0,bounded=[],covers={},wall=timeout,queries=0,solver_s=0,backends={},functions=[],steps=0,stdout='',replaced=[],invariants=[])

def write_replay(path,contract,unit,ob,note=''):
    with open(path,'w') as f:
        f.write('# contract %s (%s)\n# failed obligation: %s [%s] at %s\n'%(contract,unit,ob['name'],ob['kind'],ob['where']))
        for l in (ob.get('path') or []): f.write('#   in %s\n'%l)
        if note:
            for l in note.split('\n'): f.write('# %s\n'%l)
        for n,k,v in (ob.get('inputs') or []):
            f.write('%s %s %s\n'%(re.sub(r'\s','_',n) or '_',k[0],' '.join(map(str,v)) if isinstance(v,list) else str(v)))

def native_replay(exe,c,path):
    try: r=subprocess.run([exe,'replay',c,path],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=90)
    except subprocess.TimeoutExpired: return 1,'REPLAY FAIL timeout'
    return r.returncode,r.stdout
def native_fuzz(exe,c,seed,iters,secs,out):
    try: r=subprocess.run([exe,'fuzz',c,str(seed),str(iters),str(secs),out],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=secs+60)
    except subprocess.TimeoutExpired: return 9,'FUZZ timeout'
    return r.returncode,r.stdout

def load_known():
    p=os.path.join(VERIF,'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    pid=sys.argv[1]
    tier=os.environ.get('VERIF_TIER','quick')
    if '--thorough' in sys.argv: tier='thorough'
    verbose='-v' in sys.argv
    only=[a[2:] for a in sys.argv if a.startswith('-c')]
    seed=int(os.environ.get('VERIF_SEED','1'))
    t0=time.time()
    wd=tempfile.mkdtemp(prefix='vtc_%s_'%pid)
    try: rc=check(pid,tier,seed,wd,verbose,only,t0)
    finally: shutil.rmtree(wd,ignore_errors=True)
    sys.exit(rc)

def check(pid,tier,seed,wd,verbose,only,t0):
    units=units_of(pid)
    if not units: print('no contracts for',pid); return 3
    thorough=tier=='thorough'
    rdir=os.path.join(VERIF,'evidence','replay'); os.makedirs(rdir,exist_ok=True)
    for f in glob.glob(os.path.join(rdir,pid+'_*')): os.unlink(f)
    errors=[]; jobs=[]
    def prep(u):
        e={}
        try: u.bc=build.build_bc(u,wd)
        except build.BuildError as ex: e['bc']=str(ex); u.bc=None
        try: u.exe=build.build_native(u,wd)
        except build.BuildError as ex: e['nat']=str(ex); u.exe=None
        return e
    with ThreadPoolExecutor(4) as ex: pe=list(ex.map(prep,units))
    for u,e in zip(units,pe):
        for k,m in e.items():
            errors.append('%s %s: %s'%(u.name,k,m)); print('BUILD ERROR',u.name,k,m[-1200:],file=sys.stderr)
    tb=time.time()-t0
    for u in units:
        for c in u.contracts:
            if only and c not in only: continue
            o=dict(budget=240 if not thorough else 1500,src=build.REPO); o.update(u.opts); o.update(u.copts.get(c,{})); o['replace']=u.replace
            jobs.append((u,c,o))
    def do(j):
        u,c,o=j
        r=None; nat=None
        if u.bc: r=run_worker(u.bc,c,o,wd,o['budget']+200,u.name)
        if u.exe:
            out=os.path.join(wd,u.name+c+'.fuzz')
            nat=native_fuzz(u.exe,c,seed,200000 if not thorough else 5000000,o.get('fuzz_s',3) if not thorough else 60,out)+(out,)
        # obligations left undecided: bounded stand-in
        b=None
        if u.bc and (r['error'] or r['nunsup'] or r['incomplete'] or any(x['status']=='unknown' for x in r['obligations'])) and not any(x['status']=='failed' for x in r['obligations']):
            o2=dict(o); o2['unroll']=o.get('bound',4); o2['budget']=o.get('bound_budget',90); o2['hard_s']=10
            b=run_worker(u.bc,c,o2,wd,o2['budget']+60,u.name)
            if u.exe and (nat is None or nat[0]==0):
                out=os.path.join(wd,u.name+c+'.fuzz2'); nat2=native_fuzz(u.exe,c,seed+1000,3000000,25 if not thorough else 120,out)+(out,)
                if nat2[0]==1: nat=nat2
        return r,nat,b
    order=sorted(range(len(jobs)),key=lambda k:-jobs[k][2].get('cost',1))
    results=[None]*len(jobs)
    with ThreadPoolExecutor(8) as ex:
        futs={k:ex.submit(do,jobs[k]) for k in order}
        for k,fu in futs.items(): results[k]=fu.result()
    viol=[]; proved=[]; bounded=[]; undec=[]; allobl=[]; backends={}; fns=set(); solver_s=0.0; crossval=0; trusted=set(); assume=[]
    undec_fail=[]
    for (u,c,o),(r,nat,b) in zip(jobs,results):
        for a in u.assume:
            if a not in assume: assume.append(a)
        if r is None: 
            undec.append((u,c,'not extracted'))
            if nat and nat[0]==1: viol.append(native_viol(pid,rdir,u,c,nat))
            continue
        if verbose or r['error']: print('[%s] paths=%d ends=%s obl=%d wall=%.1fs queries=%d solver=%.1fs %s'%(c,r['paths'],r['ends'],len(r['obligations']),r['wall'],r['queries'],r['solver_s'],r['backends']), (r['stdout'] or '').strip(), r['error'] or '', r['unsupported'][:2] if r['unsupported'] else '', r['incomplete'] or '', nat[1].strip() if nat else '',flush=True)
        fns.update(r['functions']); solver_s+=r['solver_s']
        for k,v in r['backends'].items(): backends[k]=backends.get(k,0)+v
        for ob in r['obligations']: ob['contract']=c; allobl.append(ob)
        failed=[x for x in r['obligations'] if x['status']=='failed']
        if b: failed+=[x for x in b['obligations'] if x['status']=='failed' and x['exact']]
        if nat: 
            m=re.search(r'valid=(\d+)',nat[1]); crossval+=int(m.group(1)) if m else 0
        done=set(); confirmed=False
        for x in failed:
            key=(x['name'],x['where'])
            if key in done: continue
            done.add(key)
            rp=os.path.join(rdir,'%s_%s_%d.txt'%(u.name,c,len(done)))
            write_replay(rp,c,u.path,x,'verifier: obligation refuted; counterexample inputs below')
            if u.exe:
                rc,out=native_replay(u.exe,c,rp)
                if rc==1:
                    with open(rp,'a') as f: f.write('# native replay on the real code: %s\n'%out.strip())
                    viol.append((c,x['name'],x['where'],rp,True)); confirmed=True
                else:
                    with open(rp,'a') as f: f.write('# native replay: %s\n'%out.strip())
            if len(done)>=3 and confirmed: break
        if failed and not confirmed:
            if nat and nat[0]==1: viol.append(native_viol(pid,rdir,u,c,nat)); confirmed=True
            elif u.exe:
                out=os.path.join(wd,u.name+c+'.fuzz3'); n3=native_fuzz(u.exe,c,seed+77,20000000,30,out)+(out,)
                if n3[0]==1: viol.append(native_viol(pid,rdir,u,c,n3)); confirmed=True
            if not confirmed:
                x=failed[0]
                viol.append((c,x['name'],x['where'],os.path.join(rdir,'%s_%s_1.txt'%(u.name,c)),False))
            continue
        if confirmed: continue
        if nat and nat[0]==1:
            viol.append(native_viol(pid,rdir,u,c,nat)); continue
        why=[]
        if r['error']: why.append('error: '+r['error'].strip().split('\n')[-1])
        if r['nunsup']: why.append('unsupported: '+r['unsupported'][0][0])
        if r['incomplete']: why.append('incomplete: '+r['incomplete'])
        unk=[x for x in r['obligations'] if x['status']=='unknown']
        if unk: why.append('solver unknown on %d obligations (first: %s at %s)'%(len(unk),unk[0]['name'],unk[0]['where']))
        if r['bounded']: why.append('unrolling bound '+str(r['bounded']))
        if not r['ends'].get('return') and not r['ends'].get('expected-abort'): why.append('vacuous: no path reaches the end of the contract')
        if not any(k for k in r['covers']): why.append('vacuous: no postcondition reached')
        sb=o.get('stated_bound')
        if not why and sb:
            bounded.append((c,['stated bound'],dict(bound=sb,paths=r['paths'],ends=r['ends'])))
            print('BOUNDED %s: every obligation discharged for %s (not counted as proved)'%(c,sb))
        elif not why: proved.append(c)
        else:
            bounded.append((c,why,dict(unroll=o.get('bound',4),paths=b['paths'] if b else 0,ends=b['ends'] if b else {})))
            print('UNDECIDED %s: %s -> bounded stand-in (not counted as proved)'%(c,'; '.join(why)))
    # known findings
    known=[k for k in load_known() if k.get('property')==pid and k.get('status')=='known']
    out_v=[]; kf=[]
    for v in viol:
        m=next((k for k in known if k['contract']==v[0] and (not k.get('obligation') or k['obligation'] in v[1])),None)
        if m: kf.append((m,v))
        else: out_v.append(v)
    for m in {id(m):m for m,_ in kf}.values(): print('KNOWN-FINDING: property=%s %s'%(pid,m['what']))
    for c,n,w,rp,conf in out_v:
        print('failed obligation: %s / %s at %s'%(c,n,w))
    seen=set()
    for c,n,w,rp,conf in out_v:
        if rp in seen: continue
        seen.add(rp)
        print('VIOLATION property=%s replay=%s%s'%(pid,rp,'' if conf else ' no-failing-input-found'))
    # evidence
    nob=len(allobl); ndis=sum(1 for x in allobl if x['status']=='proved')
    samples=[dict(obligation='%s/%s'%(x['contract'],x['name']),where=x['where'],backend=x['backend'],solver_s=x['time']) for x in allobl if x['kind']=='contract'][:12]
    kinds={}
    for x in allobl: kinds[x['kind']]=kinds.get(x['kind'],0)+1
    fd=demangle(sorted(fns))
    trusted=['clang 18 front end and its -O0 lowering to LLVM IR (plus mem2reg)','vtc engine: IR semantics, path enumeration, memory model','z3 / cvc5','models of allocation, memcpy and libstdc++ runtime entry points in vtc/intrin.py and vtc/vtc_rt.cc',
             'extraction drops: text of vtAssert/vtAbort messages, vt_debug_print/vt_print/vtWarn output (vtc/include/vtc_prelude.h)']
    lvl=level_of(pid)
    ev=dict(property=pid,tier=tier,seed=seed,level=lvl,
      coverage=dict(obligations=nob,discharged=ndis,checker_cmd='./check %s'%pid,trusted_base=trusted,
        contracts=[c for _,c,_ in jobs],contracts_proved=proved,contracts_not_extracted=[c for _,c,_ in undec],contracts_bounded=[dict(contract=c,reason=w,bound=bb) for c,w,bb in bounded],
        functions_under_contract=fd,paths=sum(r['paths'] for r,_,_ in results if r),loops_covered_without_bound=sorted({k for r,_,_ in results if r for k in r.get('loops_cut',{})}),obligation_kinds=kinds,backends=backends,solver_s=round(solver_s,2),
        solver_queries=sum(r['queries'] for r,_,_ in results if r),native_crossvalidation_runs=crossval,build_s=round(tb,1),samples=samples,
        replaced_callees=sorted({x for r,_,_ in results if r for x in r['replaced']})[:40],
        explanation='obligations are verification conditions generated on this run from /repo, one per contract clause or implicit safety condition per path; native cross-validation runs the same contracts on the compiled code and is not counted as proof'),
      assumptions=assume,wall_s=round(time.time()-t0,1),violations=len(out_v))
    json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1)
    print('%s %s: %d obligations, %d discharged, %d/%d contracts proved, %d bounded, %d functions of /repo under contract, %.1fs'%(pid,tier,nob,ndis,len(proved),len(jobs),len(bounded),len(fd),time.time()-t0))
    if out_v: return 1
    if undec:
        print('NOT EXTRACTED (not decided on this run): '+', '.join(c for _,c,_ in undec))
        if not proved and not bounded: return 2
    return 0

def native_viol(pid,rdir,u,c,nat):
    rp=os.path.join(rdir,'%s_%s_native.txt'%(u.name,c))
    shutil.copy(nat[2],rp)
    m=re.search(r'FUZZ FAIL (.*?) iters',nat[1])
    return (c,m.group(1) if m else 'fail','native search on the real code',rp,True)

def level_of(pid):
    try:
        m=json.load(open(os.path.join(VERIF,'MANIFEST.json')))
        for c in m['checks']:
            if c['property']==pid: return c['level']
    except Exception: pass
    return 'proof'
if __name__=='__main__': main()
