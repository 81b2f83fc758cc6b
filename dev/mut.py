"""mut.py PROPS file 'old' 'new' [file old new ...]: mutate a scratch copy and run checks"""
import sys,subprocess,os,shutil
props=sys.argv[1].split(',')
S=os.environ.get('SS','/tmp/mscr4')
if not os.path.exists(S): subprocess.run(['cp','-a','/repo',S])
subprocess.run(['git','-C',S,'checkout','-q','--','.'])
subprocess.run(['git','-C',S,'fetch','-q','/repo','HEAD']); subprocess.run(['git','-C',S,'reset','-q','--hard','FETCH_HEAD'])
a=sys.argv[2:]
for i in range(0,len(a),3):
    p=os.path.join(S,a[i]); s=open(p).read()
    o=a[i+1].encode().decode('unicode_escape'); n=a[i+2].encode().decode('unicode_escape')
    if o not in s: print("NOT FOUND",o); sys.exit(3)
    s=s.replace(o,n,1) if not os.environ.get('ALL') else s.replace(o,n)
    open(p,'w').write(s)
if os.environ.get('T'):
    r=subprocess.run('cargo test --offline 2>&1 | grep -E "^test result|FAILED|error" | head',shell=True,cwd=S,env=dict(os.environ,CARGO_TARGET_DIR='/tmp/scrt'))
env=dict(os.environ,SA_REPO=S,SA_BUILD='/tmp/scrb',SA_EVIDENCE='/tmp/scre')
for p in props:
    r=subprocess.run([sys.executable,'/verif/sa/check.py',p],env=env,capture_output=True,text=True)
    print(p,"rc",r.returncode); print(''.join('   '+l[:300]+'\n' for l in r.stdout.splitlines()[:8]),r.stderr[-500:])
