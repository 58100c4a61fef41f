#!/usr/bin/env python3
"""plant bugs: seed.py FILE.py [name...]   FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=rust main body, needs, breaks)]
   seed.py --again [name...]                verify and check the ones in /verif/seeded
For each: scratch copy of /repo, build, stable tests, demo with and without, then the property's check (and with ALL=1 every check).
Nothing in /repo is touched."""
import sys, os, subprocess, json, shutil, importlib.util, time
W = os.environ.get('SEEDW', '/tmp/seedw'); REPO = W + '/repo'; V = W + '/verif'
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))) if False else None
def sh(cmd, cwd, t=900, **e):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(REPO): subprocess.check_call(['cp', '-a', '/repo', REPO])
    sh('git checkout -q -- . && git clean -fdq src && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', REPO)
    os.makedirs(V, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', 'target', '/verif/mc/', V + '/mc/']) if shutil.which('rsync') else (shutil.rmtree(V + '/mc', ignore_errors=True), shutil.copytree('/verif/mc', V + '/mc'))
    shutil.copy('/verif/known-findings.txt', V)
    for p in (V + '/mc/Cargo.toml', V + '/mc/pre/tasks/Cargo.toml'): s = open(p).read(); open(p, 'w').write(s.replace('path = "/repo"', f'path = "{REPO}"'))
def tests():
    r = sh('timeout 600 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8', REPO)
    ok = sum(int(l.split('ok. ')[1].split(' passed')[0]) for l in r.stdout.splitlines() if l.startswith('test result: ok.'))
    return r.returncode, ok, r.stdout
def demo(d):
    shutil.copytree(d, W + '/demo', dirs_exist_ok=True)
    r = sh('timeout 300 bash ' + W + '/demo/demo.sh', REPO, CARGO_TARGET_DIR=W + '/demo-target')
    shutil.rmtree(W + '/demo'); return r.returncode, r.stdout
def check(p):
    t = time.time()
    r = sh('cargo build --release --offline 2>&1 | tail -30 >&2', V + '/mc', CARGO_TARGET_DIR=V + '/target')
    if p == 'C31': sh(f'RUSTC_WRAPPER={V}/mc/pre/rustc.sh cargo build --release --offline 2>&1 | tail -30 >&2', V + '/mc/pre', CARGO_TARGET_DIR=V + '/target/pre')
    r = sh(f'timeout 900 {V}/target/release/kxmc check {p}', V, KX_ROOT=V, VERIF_TIER='quick', VERIF_SEED='1')
    v = f'VIOLATION property={p}' in r.stdout
    return ('CAUGHT' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else f'ERROR rc={r.returncode}'), r.stdout, time.time() - t
DEMO = '''#!/bin/bash
# run in the root of the crate: builds main.rs against it and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 2
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nkiss_xml = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
cp Cargo.lock "$t/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$t/target} CARGO_NET_OFFLINE=true SCRATCH="$t"
cd "$t" && exec timeout 250 cargo run --offline -q
'''.replace('exec timeout', 'timeout')
def one(name, prop, d):
    r = sh(f'git apply {d}/patch.diff', REPO)
    if r.returncode: return f'{name}: patch does not apply: {r.stdout}'
    try:
        rc, ok, out = tests()
        if rc or ok < 74: fails = [l for l in out.splitlines() if 'FAILED' in l or 'failed' in l or l.startswith('error')][:6]; return f'{name}: NOT COUNTING: tests rc={rc} passed={ok} {fails}'
        rc, out = demo(d)
        if rc == 0: return f'{name}: NOT COUNTING: demo passes with the patch'
        if 'could not compile' in out: return f'{name}: NOT COUNTING: demo does not compile: {out[-1500:]}'
        res = []
        for p in ([prop] if not os.environ.get('ALL') else [prop] + [f'C{i:02}' for i in range(1, 29) if f'C{i:02}' != prop]):
            v, o, t = check(p)
            res.append(f'{p} {v} {t:.0f}s')
            if p == prop: first = v; msg = '\n'.join('      ' + l[:300] for l in o.splitlines()[-4:])
        return f'{name}: {"; ".join(x for x in res if "missed" not in x or x.startswith(prop))}\n{msg}'
    finally:
        sh('git checkout -q -- .', REPO)
def main():
    setup(); a = sys.argv[1:]
    todo = []
    if a[0] == '--again':
        for n in sorted(os.listdir('/verif/seeded')):
            if a[1:] and n not in a[1:]: continue
            todo.append((n, json.load(open(f'/verif/seeded/{n}/meta.json'))['property']))
    else:
        spec = importlib.util.spec_from_file_location('bugs', a[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            if a[1:] and b['id'] not in a[1:]: continue
            d = f'/verif/seeded/{b["id"]}'; os.makedirs(d, exist_ok=True)
            bad = None
            for f, old, new in b['edits']:
                s = open(f'{REPO}/{f}', newline='').read()
                if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches of {old!r}'; break
                open(f'{REPO}/{f}', 'w', newline='').write(s.replace(old, new))
            diff = subprocess.check_output(['git', 'diff'], cwd=REPO).decode(); sh('git checkout -q -- .', REPO)
            if bad: print(b['id'], 'BAD EDIT', bad); shutil.rmtree(d); continue
            open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/main.rs', 'w').write(b['demo'])
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            todo.append((b['id'], b['prop']))
    fine = {}
    for n, p in todo:
        d = f'/verif/seeded/{n}'
        rc, out = demo(d)
        if rc: print(f'{n}: demo fails on the unchanged tree: {out[-1500:]}', flush=True); continue
        print(one(n, p, d), flush=True)
main()
