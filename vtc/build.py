"""Extraction: compile the real /repo sources named by a contract file, with the contract TU,
(a) to one linked LLVM bitcode module for the verifier and (b) to a native binary."""
import os, re, subprocess, sys, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
REPO=os.environ.get('VTC_REPO','/repo')
CLANG='/usr/bin/clang++-18'; OPT='/usr/lib/llvm-18/bin/opt'; LINK='/usr/lib/llvm-18/bin/llvm-link'

def base_flags(cfg):
    d=os.path.join(VERIF,'config',cfg)
    f=['-std=c++17','-DJSON_USE_IMPLICIT_CONVERSIONS=1','-w','-fno-access-control','-g1',
       '-I'+os.path.join(HERE,'include'),'-I'+os.path.join(HERE,'stubs'),
       '-I%s/lib/CLI'%REPO,'-I%s/src'%REPO,'-I'+d,'-I%s/lib/json/include'%REPO,'-I%s/lib/brotli/c/include'%REPO,
       '-I%s/lib/fmt/include'%REPO,'-isystem','/usr/lib/x86_64-linux-gnu/openmpi/include',
       '-isystem','/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi','-isystem','%s/lib/EngFormat-Cpp/include'%REPO,
       '-isystem','%s/lib/yaml-cpp/include'%REPO]
    return f

class Unit:
    """one contract file and its directives"""
    def __init__(self,path):
        self.path=path; self.name=os.path.splitext(os.path.basename(path))[0]
        txt=open(path).read()
        for b in re.findall(r'^//\s*@use\s+(\S+)',txt,re.M):   # same contracts under another configuration
            t2=open(os.path.join(os.path.dirname(path),b)).read(); txt+='\n'+re.sub(r'^//\s*@config.*$','',t2,flags=re.M)
        self.sources=[]; self.cfg='default'; self.flags=[]; self.opts={}; self.replace=[]; self.native_only=[]; self.copts={}; self.assume=[]; self.cover_fns=[]; self.sym_sources=[]; self.prelude=True; self.absinc=[]; self.pre=[]
        for m in re.finditer(r'^//\s*@(\w+)\s+(.*)$',txt,re.M):
            k,v=m.group(1),m.group(2).strip()
            if k=='source': self.sources+=v.split()
            elif k=='symsource': self.sym_sources+=v.split()
            elif k=='config': self.cfg=v
            elif k=='flags': self.flags+=v.split()
            elif k=='opt': 
                a,b=v.split('=',1); self.opts[a.strip()]=eval(b)
            elif k=='copt':      # per contract option: name key=value
                n,kv=v.split(None,1); a,b=kv.split('=',1); self.copts.setdefault(n,{})[a.strip()]=eval(b)
            elif k in('replace','replacerec'):   # replacerec: only calls made while the same function is already active (recursion)
                a,b=v.split('=>'); self.replace.append((a.strip(),b.strip(),k=='replacerec'))
            elif k=='bounded':   # CONTRACT text: inputs of this contract are bounded as stated; never counted as proved
                n,kv=v.split(None,1); self.copts.setdefault(n,{})['stated_bound']=kv
            elif k=='assume': self.assume.append(v)
            elif k=='absinc': self.absinc+=v.split()
            elif k=='pre': self.pre+=v.split()
            elif k=='noprelude': self.prelude=False
        self.contracts=re.findall(r'(?<!define )\bCONTRACT\((\w+)\)',re.sub(r'//.*','',txt))

def run(cmd,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    return r.returncode,r.stdout

class BuildError(Exception): pass

def _srcpath(s):
    if s.startswith('@'): return os.path.join(VERIF,s[1:])
    return os.path.join(REPO,'src',s) if not s.startswith('/') else s

def build_bc(u,wd):
    inc=['-isystem',os.path.join(HERE,'stl')] if u.opts.get('stl_model') else []
    pre=['-include',os.path.join(HERE,'include/vtc_prelude.h')] if u.prelude else []
    for x in u.pre: pre+=['-include',os.path.join(HERE,'abs',x)]
    inc=['-I'+os.path.join(HERE,'abs',a) for a in u.absinc]+inc
    cf=inc+base_flags(u.cfg)+u.flags+['-D_GLIBCXX_EXTERN_TEMPLATE=0','-DVTC_SYMBOLIC','-O0','-Xclang','-disable-O0-optnone','-fno-discard-value-names','-emit-llvm','-c']+pre
    srcs=[u.path]+[_srcpath(s) for s in u.sources]+[_srcpath(s) for s in u.sym_sources]+[os.path.join(HERE,'vtc_rt.cc')]
    outs=[]
    def one(a):
        i,s=a; o=os.path.join(wd,'%s_%d.bc'%(u.name,i))
        rc,out=run([CLANG]+cf+[s,'-o',o])
        if rc: raise BuildError('clang failed on %s:\n%s'%(s,out[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex: outs=list(ex.map(one,enumerate(srcs)))
    l=os.path.join(wd,u.name+'.linked.bc'); o=os.path.join(wd,u.name+'.bc')
    rc,out=run([LINK,'-o',l]+outs)
    if rc: raise BuildError('llvm-link: '+out[-2000:])
    keep=','.join('contract_'+c for c in u.contracts)
    rc,out=run([OPT,'-passes=function(mem2reg,instsimplify,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts;bonus-inst-threshold=0>)' if u.opts.get('simplify') else '-passes=function(mem2reg)','-o',o,l])
    if rc: raise BuildError('opt: '+out[-2000:])
    return o

def build_native(u,wd,san=True):
    pre=['-include',os.path.join(HERE,'include/vtc_prelude.h')] if u.prelude else []
    for x in u.pre: pre+=['-include',os.path.join(HERE,'abs',x)]
    sf=['-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,bounds,null,unreachable,return','-fno-sanitize-recover=all'] if san else []
    cf=base_flags(u.cfg)+u.flags+['-DVTC_NATIVE','-D_GLIBCXX_ASSERTIONS','-O1','-ffunction-sections','-fdata-sections']+sf
    srcs=[(u.path,pre)]+[(_srcpath(s),pre) for s in u.sources]+[(os.path.join(HERE,'vtc_native.cc'),[])]
    def one(a):
        i,(s,p)=a; o=os.path.join(wd,'%s_n%d.o'%(u.name,i))
        rc,out=run([CLANG]+cf+p+['-c',s,'-o',o])
        if rc: raise BuildError('native clang failed on %s:\n%s'%(s,out[-3000:]))
        return o
    with ThreadPoolExecutor(8) as ex: outs=list(ex.map(one,enumerate(srcs)))
    exe=os.path.join(wd,u.name+'.native')
    rc,out=run([CLANG]+sf+['-Wl,--gc-sections','-Wl,--unresolved-symbols=ignore-all','-Wl,-z,lazy','-no-pie','-o',exe]+outs+['-lpthread'])
    if rc: raise BuildError('native link: '+out[-3000:])
    return exe
