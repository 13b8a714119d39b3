#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each: applies, demo quiet on the clean
tree, demo fails with the patch, and (with --check) whether this property's check reports it.
usage: mkseed.py [--check] [id...]"""
import os,sys,subprocess,shutil,json,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'tools'))
import seeds
R=os.environ.get('SEED_REPO','/repo')  # a scratch copy, so that checks on /repo can run meanwhile
def sh(c,**k): return subprocess.run(c,shell=isinstance(c,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
TERM=['vt/pipe/signal/signal_holder.cc','vt/termination/termination.cc','vt/termination/term_state.cc','vt/termination/term_action.cc','vt/termination/epoch_dependency.cc','vt/termination/epoch_label.cc','vt/termination/dijkstra-scholten/comm.cc','vt/termination/dijkstra-scholten/ds.cc','vt/collective/tree/tree.cc','vt/context/context.cc','vt/epoch/epoch_manip.cc']
ENVS=dict(term=TERM,lb='vt/vrt/collection/balance/greedylb/greedylb.cc vt/vrt/collection/balance/baselb/load_sampler.cc vt/vrt/collection/balance/rotatelb/rotatelb.cc vt/vrt/collection/balance/baselb/baselb.cc vt/vrt/collection/balance/lb_common.cc vt/vrt/collection/balance/lb_data_restart_reader.cc vt/vrt/collection/balance/offlinelb/offlinelb.cc vt/context/context.cc vt/elm/elm_id.cc vt/elm/elm_id_bits.cc'.split(),loc='vt/pipe/signal/signal_holder.cc vt/handler/handler.cc vt/context/context.cc vt/epoch/epoch_manip.cc'.split(),run='vt/pool/header/pool_header.cc vt/handler/handler.cc vt/pipe/signal/signal_holder.cc vt/runnable/runnable.cc vt/context/runnable_context/set_context.cc vt/context/runnable_context/td.cc vt/context/runnable_context/collection.cc vt/context/runnable_context/lb_data.cc vt/context/context.cc vt/context/context_attorney.cc vt/elm/elm_lb_data.cc vt/timing/timing.cc vt/scheduler/base_unit.cc vt/epoch/epoch_manip.cc vt/scheduler/scheduler.cc vt/scheduler/suspended_units.cc vt/runtime/mpi_access.cc vt/runtime/component/component_pack.cc'.split(),pipe='vt/pipe/signal/signal_holder.cc vt/pipe/pipe_manager_base.cc vt/pipe/pipe_manager.cc vt/pipe/state/pipe_state.cc vt/pipe/id/pipe_id.cc vt/pipe/callback/cb_union/cb_raw_base.cc vt/pipe/callback/anon/callback_anon_tl.cc vt/pipe/callback/handler_send/callback_send_tl.cc vt/pipe/callback/handler_bcast/callback_bcast_tl.cc vt/context/context.cc'.split(),reduce=['vt/pipe/signal/signal_holder.cc','vt/collective/reduce/reduce.cc','vt/collective/reduce/reduce_manager.cc','vt/collective/reduce/reduce_state_holder.cc','vt/collective/tree/tree.cc','vt/context/context.cc','vt/epoch/epoch_manip.cc'])
DEMO='''#!/bin/bash
# exit 0 on the unchanged tree; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -w -fpermissive -ffunction-sections -fdata-sections %(flags)s -include $D/inc/pre.h -I$D/inc -I$R/lib/CLI -I$R/src -I$R/lib/json/include -I$R/lib/brotli/c/include -I$R/lib/fmt/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -isystem $R/lib/EngFormat-Cpp/include -isystem $R/lib/yaml-cpp/include"
n=0; P=""; for s in "$D/demo.cc" %(srcs)s; do n=$((n+1)); g++ $F -c "$s" -o "$T/$n.o" & P="$P $!"; done
for p in $P; do wait $p || { echo "demo does not compile"; exit 3; }; done
g++ -no-pie -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy "$T"/*.o -o "$T/demo" -lpthread 2>/dev/null || { echo "demo does not link"; exit 3; }
timeout 60 "$T/demo"; rc=$?; echo "demo exit $rc"; exit $rc
'''
def main():
    check='--check' in sys.argv; ids=[a for a in sys.argv[1:] if not a.startswith('--')]
    assert not sh(['git','-C',R,'status','--porcelain']).stdout.strip(),'dirty /repo'
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids: continue
        d=os.path.join(V,'seeded',s['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/inc/checkpoint')
        cfg=s.get('config','default')
        shutil.copytree(V+'/config/'+cfg,d+'/inc',dirs_exist_ok=True); shutil.copytree(V+'/vtc/stubs',d+'/inc',dirs_exist_ok=True)
        shutil.copy(V+'/tools/seed/demo.h',d+'/inc/demo.h'); shutil.copy(V+'/tools/seed/pre.h',d+'/inc/pre.h')
        env='term' if s.get('term') else s.get('env')
        if env:
            shutil.copy(V+'/tools/seed/%s_demo.h'%env,d+'/inc/%s_demo.h'%env); t=open(V+'/vtc/abs/%s/pre.h'%env).read(); open(d+'/inc/pre.h','a').write(t.replace('#pragma once',''))
            s.setdefault('flags','-fno-access-control'); s['srcs']=ENVS[env]
        open(d+'/demo.cc','w').write(s['demo'])
        open(d+'/demo.sh','w').write(DEMO%dict(flags=s.get('flags',''),srcs=' '.join('"$R/src/%s"'%x for x in s.get('srcs',[])))); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        try:
            for f,a,b in s['edits']:
                p=os.path.join(R,f); t=open(p).read(); assert t.count(a)==1,(s['id'],f,t.count(a),a); open(p,'w').write(t.replace(a,b))
            df=sh(['git','-C',R,'diff']).stdout
        finally: sh(['git','-C',R,'checkout','--','.'])
        open(d+'/patch.diff','w').write(df)
        a=sh(['bash',d+'/demo.sh'],cwd=R)
        res='clean=%d'%a.returncode
        if a.returncode: res+=' CLEAN-DEMO-FAILS '+a.stdout[-1500:]
        sh(['git','-C',R,'apply',d+'/patch.diff'])
        try:
            b=sh(['bash',d+'/demo.sh'],cwd=R); res+=' patched=%d'%b.returncode
            if b.returncode in (0,3): res+=' NOT-SHOWN '+b.stdout[-800:]
            if check:
                c=sh([V+'/check',s['prop']],cwd=V,env=dict(os.environ,VTC_REPO=R)); v=[l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
                res+=' check=%d %s'%(c.returncode,'; '.join(v[:3]) if v else 'MISSED')
        finally: sh(['git','-C',R,'checkout','--','.'])
        print(s['id'],s['prop'],res,flush=True)
main()
