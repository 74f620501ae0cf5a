#!/usr/bin/env python3
"""seed.py try <id>...   : verify planted bugs in a scratch copy of /repo
seed.py check <id>...    : apply each to /repo, run its property's check, undo
A seed is /verif/seeded/<id>/ with patch.diff, demo.rs and meta.json; `try`
lays demo.sh, kit.rs and demo.lock beside it."""
import json, os, shutil, subprocess, sys, time
V='/verif'; R='/repo'; C='/tmp/seedrepo'
ENV=dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-2025-12-01', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=C+'/target')
ENV['PATH']='/root/.cargo/bin:/usr/local/cargo/bin:'+ENV['PATH']
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def baseline():
    b=json.load(open('/opt/vp/BASELINE.json'))
    return b
def fresh():
    if not os.path.isdir(C): subprocess.check_call(['cp','-a',R,C])
    sh(f'git -C {C} fetch -q {R} HEAD && git -C {C} checkout -q -f FETCH_HEAD && git -C {C} clean -fdq src')
def demo(d): 
    r=sh(f'timeout 300 bash {d}/demo.sh', cwd=C); return r.returncode, r.stdout
def tests():
    r=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=C, env=ENV)
    ok=[l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')]
    bad=[l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    return len(ok), bad, r.stdout
def try_(i):
    d=f'{V}/seeded/{i}'
    for f in ('demo.sh','kit.rs','demo.lock'): shutil.copy(f'{V}/tools/seedkit/{f}', d)
    if open(d+'/demo.rs').read().lstrip().startswith('use crate'): shutil.copy(f'{V}/tools/seedkit/demo_platforms.sh', d+'/demo.sh')
    fresh()
    rc0,o0=demo(d)
    a=sh(f'git -C {C} apply {d}/patch.diff')
    if a.returncode: print(i,'PATCH',a.stdout); return
    n,bad,out=tests()
    if n!=111 or bad:
        print(i,'TESTS',n,bad, out[-1500:] if n==0 else '')
    rc1,o1=demo(d)
    fresh()
    print(i, 'GOOD' if rc0==0 and rc1 not in (0,2,3) and n==111 and not bad else 'BAD', 'unpatched',rc0, o0[-600:] if rc0 else '', 'patched',rc1,o1[-300:])
def check_(i, props=None):
    d=f'{V}/seeded/{i}'; p=props or [json.load(open(d+'/meta.json'))['property']]
    a=sh(f'git -C {R} apply {d}/patch.diff')
    if a.returncode: print(i,'PATCH',a.stdout); return
    try:
        for q in p:
            t=time.time(); r=sh(f'bash {V}/run.sh check {q}')
            v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('failing') or 'ERROR' in l]
            print(i,q,'rc',r.returncode,'%.0fs'%(time.time()-t),('CAUGHT' if r.returncode==1 else 'MISSED'),' || '.join(v)[:400], flush=True)
            if r.returncode not in (0,1): print(r.stdout[-1500:])
            if not props:
                f=f'{V}/tools/detected.json'; det=json.load(open(f)); fac=sorted({l.split()[1].split('#')[0] for l in v if l.startswith('failing')})
                det[i]=f"{q} ({', '.join(fac)})" if r.returncode==1 else 'MISSED'
                json.dump(det,open(f,'w'),indent=1,sort_keys=True)
    finally:
        sh(f'git -C {R} checkout -- .')
if __name__=='__main__':
    f={'try':try_,'check':check_}.get(sys.argv[1])
    if sys.argv[1]=='checkwith': check_(sys.argv[2], sys.argv[3:])
    else:
        for i in sys.argv[2:]: f(i)
