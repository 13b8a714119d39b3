"""Development aid (no check uses it): mutate the anchored files of a property in a scratch copy of /repo, one small
change at a time, and list the changes its check does not notice.   tools/mutate.py PID N SEED [file...]"""
import sys,os,re,random,json,subprocess,shutil
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ 1\b',' + 2'),(r'\band\b','or'),(r'\bor\b','and'),(r'&&','||'),(r'\|\|','&&'),(r'\bnot (?=\w)',''),(r'!(?=[a-z_])',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\+\+','--'),(r' \+= ',' -= '),(r' -= ',' += '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * ')]
def mutants(path,text):
    out=[]; L=text.split('\n'); dbg=0; com=False
    for k,l in enumerate(L):
        s=l.strip()
        if com:
            if '*/' in l: com=False
            continue
        if s.startswith('/*'):
            com='*/' not in l; continue
        if re.match(r'vt_debug_print|vtAssert|vt_print|vtWarn|vtAbort|fmt::',s): dbg=l.count('(')-l.count(')'); continue
        if dbg>0: dbg+=l.count('(')-l.count(')'); continue
        if not s or s[0] in '/*#\\' or s.startswith(('template','using','static_assert','typename','struct','class','namespace','extern','friend')): continue
        code=l.split('//')[0]
        if '"' in code: continue
        for a,b in SW:
            if ('<' in a or '>' in a) and re.search(r'template|static_cast|<\w+>|typename',code): continue
            for m in re.finditer(a,code):
                if re.search(r'&& |&&\)|&& \w+\)',code[m.start():m.start()+8]) and a=='&&' and not re.search(r'if|return|while',code): continue
                out.append((k,l,code[:m.start()]+re.sub(a,b,m.group(0))+code[m.end():]))
        if re.match(r'^\s+(?!return|break|auto|const|using|case|delete|goto|throw|static|constexpr|continue|default)[\w\.\->\[\]:\(\)\*]+\s*(\(.*\)|[\+\-\|&]?= .*|\+\+|--);\s*$',code) and not re.match(r'^\s*(?:\w+(?:::\w+)*(?:<.*>)?[&\*]?\s+)\w+(\(|\s*=)',code): out.append((k,l,re.sub(r'\S.*','{ }',code)))
    return [(path,)+m for m in out]
def main():
    pid,n,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); files=sys.argv[4:]
    if not files:
        for l in open(V+'/properties.jsonl'):
            p=json.loads(l)
            if p['id']==pid: files=p['anchors']['files']
    R='/tmp/mut/%s'%pid; shutil.rmtree(R,ignore_errors=True); shutil.copytree('/repo',R,symlinks=True,ignore=shutil.ignore_patterns('build*','.git'))
    ms=[]
    for f in files:
        f=f.split(':')[0]
        if os.path.isfile('/repo/'+f): ms+=mutants(f,open('/repo/'+f).read())
    random.seed(seed); random.shuffle(ms); print(pid,len(ms),'mutants of',len(files),'files',flush=True); c=dict(caught=0,survived=0,nobuild=0)
    for f,k,a,b in ms:
        if sum(c.values())-c['nobuild']>=n: break
        t=open('/repo/'+f).read().split('\n'); t[k]=b; open(R+'/'+f,'w').write('\n'.join(t))
        try: r=subprocess.run(['./check',pid],cwd=V,env=dict(os.environ,VTC_REPO=R),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=1500)
        except subprocess.TimeoutExpired: print('TIMEOUT',f,k+1,b.strip(),flush=True); r=None
        shutil.copy('/repo/'+f,R+'/'+f)
        if r is None: continue
        key='nobuild' if 'BUILD ERROR' in r.stdout else {0:'survived',1:'caught'}.get(r.returncode,'nobuild'); c[key]+=1
        if key=='survived': print('SURVIVED %s:%d\n   - %s\n   + %s'%(f,k+1,a.strip(),b.strip()),flush=True)
    print(pid,c,flush=True); shutil.rmtree(R,ignore_errors=True)
main()
