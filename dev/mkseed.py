"""mkseed.py: id prop needs breaks [(file,old,new)...] demo_rs -> /verif/seeded/id, verified"""
import os,subprocess,json,sys,shutil
S=os.environ.get('SS','/tmp/mscr4')
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTC_WRAPPER='')
DEMO='''#!/bin/bash
# cwd: the repository, built; exit 0 when the property holds for this scenario
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
lib=$(ls -t target/debug/deps/libretrocompressor-*.rlib | head -1)
rustc --edition 2021 -A warnings -o "$t/demo" "$d/demo.rs" --extern retrocompressor="$lib" -L dependency=target/debug/deps &&
timeout 120 "$t/demo"
rc=$?
rm -f "$t/demo"; rmdir "$t"
exit $rc
'''
COMMON=open('/tmp/seedw/common.rs').read() if os.path.exists('/tmp/seedw/common.rs') else ''
def sh(c,**k): return subprocess.run(c,shell=True,cwd=S,env=ENV,capture_output=True,text=True,**k)
def reset():
    if not os.path.exists(S): subprocess.run(['cp','-a','/repo',S])
    sh('git checkout -q -- .; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
def build(): return sh('rm -rf target/debug/.fingerprint/retrocompressor-*; cargo test --workspace --no-run --locked --offline')
def seed(id,prop,needs,breaks,edits,demo,sh_demo=None,verify=True):
    reset()
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    for f,o,n in edits:
        p=os.path.join(S,f); s=open(p).read()
        assert s.count(o)>=1,(id,'not found',o)
        assert s.count(o)==1,(id,'ambiguous',s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    diff=sh('git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    cur=None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=sh('git show bb4c975:'+l[6:]).stdout.splitlines() if subprocess.run(['git','-C',S,'cat-file','-e','bb4c975'],capture_output=True).returncode==0 else subprocess.run(['git','-C','/repo','show','bb4c975:'+l[6:]],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:] not in cur: print('   !! not an original line:',l)
    open(d+'/demo.sh','w').write(sh_demo or DEMO); os.chmod(d+'/demo.sh',0o755)
    if demo: open(d+'/demo.rs','w').write(COMMON+demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if not verify: return
    b=build()
    if b.returncode: print(id,'BUILD FAILS',b.stderr[-1500:]); return
    t=sh('timeout 200 cargo test --workspace --no-fail-fast --locked --offline 2>&1 | grep -E "^test .*FAILED|error|^test result"')
    np=sum(int(l.split()[3]) for l in t.stdout.splitlines() if l.startswith('test result'))
    bad=[l for l in t.stdout.splitlines() if 'FAILED' in l]
    r1=sh(d+'/demo.sh',timeout=300)
    reset(); build()
    r0=sh(d+'/demo.sh',timeout=300)
    print(id,prop,'tests',np,bad[:3],'demo patched rc',r1.returncode,'clean rc',r0.returncode, 'OK' if np==24 and not bad and r1.returncode and not r0.returncode else '*** BAD')
    if r0.returncode: print(r0.stdout[-800:],r0.stderr[-1500:])
    elif not r1.returncode: print(r1.stdout[-500:])
    else: print('    ',(r1.stderr or r1.stdout).strip()[-300:].replace('\n',' | '))
def caught(id,props=None,tier='quick'):
    reset()
    m=json.load(open('/verif/seeded/%s/meta.json'%id))
    sh('git apply /verif/seeded/%s/patch.diff'%id)
    env=dict(os.environ,SA_REPO=S,SA_BUILD='/tmp/scrb',SA_EVIDENCE='/tmp/scre')
    for p in props or [m['property']]:
        r=subprocess.run([sys.executable,'/verif/sa/check.py',p],env=env,capture_output=True,text=True)
        print(id,p,'rc',r.returncode,'CAUGHT' if r.returncode==1 else '--- missed'); 
        if r.returncode==1: print('     ',r.stdout.splitlines()[0][:250])
        if r.returncode==2: print(r.stdout[-500:],r.stderr[-800:])
    reset()
