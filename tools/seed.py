#!/usr/bin/env python3
"""Planted bugs.  seed.py verify ID [--no-check] | all
Confirms a planted bug in a scratch copy bind-mounted over /repo in a private mount
namespace: builds, passes the stable tests, demo fails (and passes without it), and
runs this property's quick check against it."""
import json, os, subprocess, sys, shutil
V='/verif'
def make(sid, prop, edits, needs, breaks, demo_cc=None, demo_sh=None, apps=False):
    """edits: [(file, old, new)]"""
    d=f'{V}/seeded/{sid}'; os.makedirs(d, exist_ok=True)
    w='/tmp/seedmk'; subprocess.run(['rm','-rf','/tmp/seedmk']); subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in edits:
        p=f'{w}/{f}'; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
    subprocess.run(['rm','-rf','/tmp/seedmk'])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    if demo_cc:
        open(f'{d}/demo.cc','w').write(demo_cc)
        libs='/repo/_build/src/flpr/libflpr.a'
        inc='-I/repo/src -I/repo/_build/src'
        if apps: libs='/repo/_build/apps/libflprapp.a '+libs; inc+=' -I/repo/apps'
        demo_sh=f'''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g {inc} "$here/demo.cc" {libs} -o "$t/demo" || exit 98
cd "$t" && timeout 60 ./demo
'''
    open(f'{d}/demo.sh','w').write(demo_sh); os.chmod(f'{d}/demo.sh',0o755)
def verify(sid, check=True):
    d=f'{V}/seeded/{sid}'; prop=json.load(open(f'{d}/meta.json'))['property']
    subprocess.run(['rm','-rf','/tmp/seedrun']); os.makedirs('/tmp/seedrun/verif')
    subprocess.check_call(['cp','-a','/repo','/tmp/seedrun/repo'])
    subprocess.check_call(f'cp -a {V}/check.py {V}/harness {V}/known_findings.txt {V}/build {V}/tools {V}/MANIFEST.json {V}/properties.jsonl /tmp/seedrun/verif/; mkdir -p /tmp/seedrun/verif/evidence /tmp/seedrun/verif/replay; cp -a {d} /tmp/seedrun/demo',shell=True)
    others=[p for p in sys.argv[3:] if p.startswith('P')]
    sh=f'''mount --bind /tmp/seedrun/repo /repo && mount --bind /tmp/seedrun/verif /verif || exit 90
cd /repo; bash /opt/vp/build.sh >/tmp/seedrun/b0 2>&1 || echo "CLEAN BUILD FAILED"
bash /tmp/seedrun/demo/demo.sh >/tmp/seedrun/d0 2>&1; echo "demo clean: $?"
git -C /repo apply /tmp/seedrun/demo/patch.diff || echo PATCH-FAILS
bash /opt/vp/test.sh /tmp/seedrun/o.json >/tmp/seedrun/b1 2>&1 || echo "TEST RUN FAILED"
bash /tmp/seedrun/demo/demo.sh >/tmp/seedrun/d1 2>&1; echo "demo patched: $?"; tail -3 /tmp/seedrun/d1
'''
    if check:
        for p in [prop]+others: sh+=f'cd /verif; python3 check.py {p} quick > /tmp/seedrun/c_{p} 2>&1; echo "check {p}: $?"; tail -4 /tmp/seedrun/c_{p}\n'
    subprocess.run(['unshare','-Urm','bash','-c',sh])
    try:
        o=json.load(open('/tmp/seedrun/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
        print('passed',len(o['passed']),'failed',o['failed'])
    except Exception as e: print('no test result',e)
    subprocess.run(['rm','-rf','/tmp/seedrun'])
if __name__=='__main__':
    if sys.argv[1]=='verify': print('==',sys.argv[2]); verify(sys.argv[2],'--no-check' not in sys.argv)
    elif sys.argv[1]=='all':
        for s in sorted(os.listdir(f'{V}/seeded')): print('==',s); verify(s)
