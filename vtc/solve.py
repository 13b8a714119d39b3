"""Solver layer: incremental z3 for path feasibility, fresh z3 / cvc5 portfolio for obligations."""
import z3, time, subprocess, tempfile, os, shutil, re
from . import intblast, fporder
from concurrent.futures import ThreadPoolExecutor

CVC5=shutil.which('cvc5') or '/usr/bin/cvc5'
Z3NEW=shutil.which('z3-new')

class Solver:
    def __init__(self, quick_ms=4000, hard_s=60, portfolio=True):
        self.s=z3.Solver(); self.s.set('timeout',quick_ms)
        self.stack=[]; self.ids=[]
        self.quick=quick_ms; self.hard=hard_s; self.portfolio=portfolio
        self.nq=0; self.tq=0.0; self.by={}; self.unk=0
        self.keep=[]; self.intfirst=False; self.fpo=False
    def sync(self,pc):
        k=0; n=min(len(pc),len(self.ids))
        while k<n and self.ids[k]==pc[k].get_id(): k+=1
        d=len(self.ids)-k
        if d: 
            self.s.pop(d); del self.ids[k:]; del self.stack[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(fporder.tr(c) if self.fpo else c); self.ids.append(c.get_id()); self.stack.append(c)
    def _chk(self,pc,extra=None):
        self.nq+=1; t=time.time()
        if self.fpo:
            try: self.sync(pc); x=None if extra is None else fporder.tr(extra)
            except fporder.No:
                if os.environ.get("VTC_FPO"): print("FPO",[c for c in list(pc)+([extra] if extra is not None else []) if not fporder.can(c)][:2],flush=True)
                self.fpo=False; self.ids=[]; self.stack=[]; self.s=z3.Solver(); self.s.set('timeout',self.quick)
        if not self.fpo: self.sync(pc); x=extra
        if x is None: r=self.s.check()
        else:
            self.s.push(); self.s.add(x); r=self.s.check()
        m=self.s.model() if r==z3.sat else None
        if x is not None: self.s.pop()
        if m is not None and self.fpo:
            m=fporder.model(list(pc)+([] if extra is None else [extra]),m,20000)
            if m is None: r=z3.unknown
        self.tq+=time.time()-t
        return r,m
    def feasible(self,pc):
        r,m=self._chk(pc)
        if r==z3.unknown: 
            r=self.fresh(pc,20000)[0]
        return r!=z3.unsat
    def feasible_inc(self,st,c):
        if st.model is not None:
            v=st.model.eval(c,model_completion=True)
            if z3.is_true(v): return True
        r,m=self._chk(st.pc,c)
        if r==z3.unknown:
            if self.intq(list(st.pc)+[c]): return False
            r,m=self.fresh(list(st.pc)+[c],20000)
        if r==z3.sat: st.model=m; return True
        return r!=z3.unsat
    def fresh(self,asserts,ms,logic=None):
        s=z3.Solver() if logic is None else z3.SolverFor(logic)
        s.set('timeout',int(ms)); s.add(*asserts); t=time.time()
        r=s.check(); self.tq+=time.time()-t
        return r,(s.model() if r==z3.sat else None)
    def model(self,cs):
        r,m=self._chk(cs)
        if r==z3.unknown: r,m=self.fresh(cs,60000)
        if r==z3.unknown: raise RuntimeError('solver unknown in model()')
        return m
    def check_model(self,cs):
        r,m=self._chk(cs)
        if r==z3.unknown: r,m=self.fresh(cs,self.hard*1000)
        return str(r),m
    def prove(self,pc,neg):
        """is pc and neg unsatisfiable?  -> ('unsat'|'sat'|'unknown', model, backend)"""
        if self.intfirst and intblast.has_div([neg]) and self.intq(list(pc)+[neg]): return 'unsat',None,self.note('z3-int')
        r,m=self._chk(pc,neg)
        if r!=z3.unknown: return ('unsat' if r==z3.unsat else 'sat'),m,self.note('z3-order' if self.fpo else 'z3')
        cs=list(pc)+[neg]
        if r==z3.unknown and self.intq(cs): return 'unsat',None,self.note('z3-int')
        if os.environ.get('VTC_DUMP'):
            self.nd=getattr(self,'nd',0)+1; zz=z3.Solver(); zz.add(*cs); open('%s_%d.smt2'%(os.environ['VTC_DUMP'],self.nd),'w').write(zz.to_smt2())
        if not self.portfolio:
            r,m=self.fresh(cs,self.hard*1000)
            return str(r),m,self.note('z3')
        return self.race(cs)
    def intq(self,cs,ms=None):
        """integer translation (only 'unsat' is meaningful)"""
        if not intblast.has_div(cs): return False
        try: lin,full,nl=intblast.translate(cs)
        except Exception: return False
        t=time.time(); self.nq+=1
        try:
            for a,to in((lin,3000),(full,ms or 10000)):
                s=z3.Solver(); s.set('timeout',to); s.add(*a); r=s.check()
                if r==z3.unsat: return True
                if not nl or r==z3.sat and a is full: return False
        finally: self.tq+=time.time()-t
        return False
    def note(self,b): self.by[b]=self.by.get(b,0)+1; return b
    def race(self,cs):
        s=z3.Solver(); s.add(*cs); txt=s.to_smt2()
        hasfp='FloatingPoint' in txt or 'fp.' in txt
        arrays='(Array' in txt
        txt='(set-logic %s)\n'%('ALL')+txt
        d=tempfile.mkdtemp(prefix='vtcq'); p=os.path.join(d,'q.smt2')
        open(p,'w').write(txt)
        T=self.hard
        cmds={'cvc5':[CVC5,'--tlimit=%d'%(T*1000),p],
              'z3-fresh':['z3','-T:%d'%T,p]}
        if not hasfp:
            cmds['cvc5-int']=[CVC5,'--solve-bv-as-int=sum','--nl-ext-tplanes','--tlimit=%d'%(T*1000),p]
            cmds['cvc5-bitblast']=[CVC5,'--bv-solver=bitblast','--bitblast=eager','--tlimit=%d'%(T*1000),p] if not arrays else [CVC5,'--bv-solver=bitblast-internal','--tlimit=%d'%(T*1000),p]
        if Z3NEW: cmds['z3-new']=[Z3NEW,'-T:%d'%T,p]
        t=time.time(); procs={k:subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True) for k,c in cmds.items()}
        res=('unknown',None,'timeout'); live=dict(procs)
        try:
            while live and time.time()-t<T+10:
                for k in list(live):
                    if live[k].poll() is not None:
                        out=live.pop(k).stdout.read().strip().split('\n')[0].strip()
                        if out in('sat','unsat'):
                            res=(out,None,k); live_done=True; raise StopIteration
                time.sleep(0.02)
        except StopIteration: pass
        finally:
            for k,pr in procs.items():
                if pr.poll() is None: pr.kill()
                try: pr.wait(5)
                except Exception: pass
                pr.stdout.close()
            shutil.rmtree(d,ignore_errors=True)
        self.tq+=time.time()-t
        if res[0]=='sat':
            # recover a model with z3 (longer), else report sat without model
            r,m=self.fresh(cs,max(60000,self.hard*1000))
            if r==z3.sat: res=('sat',m,res[2])
            else: res=('unknown',None,res[2]+':sat-no-model')
        if res[0]!='unknown': self.note(res[2])
        else: self.unk+=1
        return res
