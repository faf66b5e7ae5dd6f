#!/usr/bin/env python3
"""Make and confirm planted bugs: plant.py DEFS.py [ID...]
DEFS defines PLANTS = [dict(id, prop, edits=[(file, old, new)], demo=rust source, needs, breaks, eval=False)].
Works in a scratch copy of /repo; writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, runpy
W = '/tmp/plant'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.isdir(W):
        os.makedirs(W); sh(f'cp -a /repo {W}/repo && cp -a /opt/vp {W}/vp && sed -i "s#/repo#{W}/repo#g; s#/opt/vp#{W}/vp#g" {W}/vp/*.sh {W}/vp/*.py')
    sh(f'git -C {W}/repo fetch -q /repo HEAD; git -C {W}/repo reset -q --hard FETCH_HEAD')
DEMO = r'''#!/bin/bash
# Builds and runs demo.rs against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/" || exit 2
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
iodyn = { path = "$repo" }
adapton = "0.3"
rand = "0.3"
END
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=stable timeout 250 cargo run -q --offline
'''
DEMO_EVAL = r'''#!/bin/bash
# Builds and runs demo.rs against the evaluation harness in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/eval/Cargo.lock" "$t/" || exit 2
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
eval = { path = "$repo/eval" }
iodyn = { path = "$repo" }
adapton = "=0.3.19"
rand = "0.3"
time = "0.1"
END
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTUP_TOOLCHAIN=1.75.0 \
RUSTC=/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc timeout 280 cargo run -q --offline
'''
def main():
    defs = runpy.run_path(sys.argv[1])['PLANTS']; want = sys.argv[2:]
    scratch(); stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ok = []
    for p in defs:
        if want and p['id'] not in want: continue
        sh(f'git -C {W}/repo checkout -q -- .')
        d = f'/verif/seeded/{p["id"]}'
        T = f'/tmp/plantdemo/{p["id"]}'; shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
        open(T + '/demo.rs', 'w').write(p['demo']); open(T + '/demo.sh', 'w').write(DEMO_EVAL if p.get('eval') else DEMO); os.chmod(T + '/demo.sh', 0o755)
        r = sh(f'bash {T}/demo.sh', cwd=f'{W}/repo')
        if r.returncode != 0: print(p['id'], 'REJECT: demo fails on the unchanged tree\n', r.stdout[-2500:]); continue
        bad = None
        for f, old, new in p['edits']:
            s = open(f'{W}/repo/{f}').read()
            n = s.count(old)
            if n != 1: bad = f'fragment occurs {n} times in {f}: {old[:60]!r}'; break
            open(f'{W}/repo/{f}', 'w').write(s.replace(old, new))
        if bad: print(p['id'], 'REJECT:', bad); continue
        patch = sh(f'git -C {W}/repo diff').stdout
        r = sh(f'bash {W}/vp/build.sh')
        if r.returncode != 0: print(p['id'], 'REJECT: build\n', '\n'.join(l for l in r.stdout.splitlines() if 'error' in l or '-->' in l)[-1500:]); continue
        sh(f'bash {W}/vp/test.sh {W}/out.json')
        res = json.load(open(f'{W}/out.json'))
        passed = set(res.get('passed', [])); missing = sorted(stable - passed)
        if missing: print(p['id'], 'REJECT: tests', missing); continue
        r = sh(f'bash {T}/demo.sh', cwd=f'{W}/repo')
        if r.returncode == 0: print(p['id'], 'REJECT: demo passes with the change'); continue
        if 'error[E' in r.stdout: print(p['id'], 'REJECT: demo does not compile with the change'); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(T, d)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(p['id'], 'kept;', r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else '')
        ok.append(p['id'])
    sh(f'git -C {W}/repo checkout -q -- .')
main()
