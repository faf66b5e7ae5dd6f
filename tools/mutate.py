#!/usr/bin/env python3
"""Mutation campaign over a scratch copy of /repo: mutate.py gen OUT.json FILE...; mutate.py run LIST.json K N OUTLOG SCALE
Each mutant that compiles and passes the existing tests is given to every check at a reduced scale."""
import sys, os, re, json, subprocess, random
def sh(c, t=600, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e:
        class T: returncode = 124; stdout = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        return T()
SUBS = [
 (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|(?! *\{)', '&&'),
 (r' <= ', ' < '), (r' >= ', ' > '), (r' < ', ' <= '), (r' > ', ' >= '), (r' < ', ' > '), (r' > ', ' < '),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bis_some\b', 'is_none'), (r'\bis_none\b', 'is_some'),
 (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'),
 (r'\.rev\(\)', ''), (r'if !', 'if '), (r'if (?!let|!)', 'if !'), (r'\bSome\(name\)', 'None'), (r'\bSome\(n\)', 'None'), (r'\bn1\b', 'n2'), (r'\bn2\b', 'n1'), (r'\bnm1\b','nm2'), (r'\bnm2\b','nm1'),
 (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\bLeft\b', 'Right'), (r'\bRight\b', 'Left'),
 (r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r'\bl_', 'r_'), (r'\br_', 'l_'), (r'_l\b', '_r'), (r'_r\b', '_l'), (r'\bl_branch\b','r_branch'), (r'\br_branch\b','l_branch'),
 (r'\.clone\(\)\.clone\(\)', '.clone()'), (r'name\.clone\(\)', 'None'), (r', name\b', ', None'), (r', level\b', ', level+1'), (r'\blevel\b', '1'), (r'\.pop\(\)', '.last().cloned()'),
 (r'\bhigh\b','low'), (r'\blow\b','high'), (r'dirty: *\w+', 'dirty: false'), (r'dirty = true', 'dirty = false'), (r'first\b', 'last'), (r'last\b', 'first'), (r'>>', '<<'), (r'\+ ', '* '), (r'len\(\)', 'len()+1'), (r'len\(\)', 'len()-1'), (r'ns\(', 'ns(name_pair(name_of_usize(1),name_of_usize(1)),'),
]
def gen(out, files):
    ms = []
    for f in files:
        L = open('/repo/' + f).read().split('\n')
        end = len(L); blk = False
        for i, l in enumerate(L):
            if re.search(r'#\[cfg\(test\)\]|#\[test\]', l): end = i; break
        for i, l in enumerate(L[:end]):
            s = l.strip()
            if '/*' in s: blk = True
            if '*/' in s: blk = False; continue
            if blk or not s or s.startswith(('//', '#', 'use ', 'extern', 'pub use', 'mod ', 'pub mod', 'impl', 'pub trait', 'pub struct', 'pub fn', 'fn ', '///', 'where', 'assert')): continue
            code = l.split('//')[0]
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    n = code[:m.start()] + rep + code[m.end():]
                    if n != code: ms.append((f, i, l, n))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'type ')): ms.append((f, i, l, '/*del*/'))
            m = re.match(r'^(\s*)(\S.*) => (.+?),?$', code)
            mm = re.search(r'\((\w+(?:\.clone\(\))?), ?(\w+(?:\.clone\(\))?)\)', code)
            if mm: ms.append((f, i, l, code[:mm.start()] + f'({mm.group(2)}, {mm.group(1)})' + code[mm.end():]))
    seen = set(); u = []
    for m in ms:
        if (m[0], m[1], m[3]) not in seen: seen.add((m[0], m[1], m[3])); u.append(m)
    random.Random(7).shuffle(u)
    json.dump(u, open(out, 'w')); print(len(u))
def run(lst, k, n, log, scale):
    k = int(k); n = int(n); W = f'/tmp/mut/w{k}' + ('e' if lst.endswith('eval.json') else '')
    if not os.path.isdir(W):
        os.makedirs(W)
        sh(f'cp -a /repo {W}/repo; cp -a /opt/vp {W}/vp; sed -i "s#/repo#{W}/repo#g; s#/opt/vp#{W}/vp#g" {W}/vp/*.sh {W}/vp/*.py')
        sh(f'mkdir -p {W}/verif; cd /verif; tar cf - --exclude=.git --exclude=seeded --exclude=replays --exclude=target . | tar xf - -C {W}/verif; sed -i "s#\\"/repo#\\"{W}/repo#g" {W}/verif/*/Cargo.toml')
    # never build the original's outputs into the shared tree
    done = set()
    for lg in [log, '/tmp/mut/base.jsonl']:
      if os.path.exists(lg):
        for l in open(lg): done.add(tuple(json.loads(l)['m'][:2] + [json.loads(l)['m'][3]]))
    ev = lst.endswith('eval.json')
    props = ['C17'] if ev else [c for c in ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15']]
    cpus = f'{2*k},{2*k+1}'
    sh(f'sed -i "s#/repo#{W}/repo#g" {W}/verif/tools/eb.sh')
    base_sim = sh(f'bash {W}/verif/tools/eb.sh', t=1800) if ev else sh(f'cd {W}/verif/sim && RUSTUP_TOOLCHAIN=stable cargo build -q --release --offline', t=900)
    for i, m in enumerate(json.load(open(lst))):
        if i % n != k: continue
        f, ln, old, new = m
        if (f, ln, new) in done: continue
        p = f'{W}/repo/{f}'
        sh(f'git -C {W}/repo checkout -q -- .')
        L = open(p).read().split('\n')
        if L[ln] != old: continue
        L[ln] = new; open(p, 'w').write('\n'.join(L))
        def rec(**r): open(log, 'a').write(json.dumps(dict(m=m, **r)) + '\n')
        if ev:
            r = sh(f'taskset -c {cpus} bash {W}/verif/tools/eb.sh', t=900)
            if 'error' in r.stdout: rec(res='nocompile'); continue
            r = sh(f'cd {W}/verif && VERIF_ROOT={W}/verif DST_SCALE={scale} DST_CAP=60 DST_MIN_SECS=0 VERIF_SEED=1 VERIF_TIER=quick taskset -c {cpus} ./evalsim/target/release/evaldst check C17', t=300)
            mm = re.search(r'^run .*?: (\S+?): ', r.stdout, re.M)
            rec(res={0: 'survived', 1: 'killed'}.get(r.returncode, f'rc{r.returncode}'), hits={'C17': mm.group(1) if mm else '?'})
            continue
        r = sh(f'bash -c ". {W}/vp/env.sh; cd {W}/repo; RUSTUP_TOOLCHAIN=stable taskset -c {cpus} timeout 120 cargo test -q --offline -- --test-threads 2"', t=200)
        if 'error: could not compile' in r.stdout or 'error[' in r.stdout: rec(res='nocompile'); continue
        if r.returncode != 0: rec(res='tests'); continue
        r = sh(f'cd {W}/verif/sim && RUSTUP_TOOLCHAIN=stable taskset -c {cpus} cargo build -q --release --offline', t=900)
        if r.returncode != 0: rec(res='simbuild'); continue
        hits = {}
        for c in props:
            r = sh(f'cd {W}/verif && VERIF_ROOT={W}/verif DST_SCALE={scale} DST_CAP=60 DST_MIN_SECS=0 VERIF_SEED=1 VERIF_TIER=quick taskset -c {cpus} ./sim/target/release/dst check {c}', t=300)
            if r.returncode == 1:
                mm = re.search(r'^run .*?: (\S+?): ', r.stdout, re.M); hits[c] = mm.group(1) if mm else '?'
            elif r.returncode != 0: hits[c] = f'rc{r.returncode}'
        rec(res='survived' if not hits else 'killed', hits=hits)
if sys.argv[1] == 'gen': gen(sys.argv[2], sys.argv[3:])
else: run(*sys.argv[2:7])
