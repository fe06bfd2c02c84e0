#!/usr/bin/env python3
"""seedtool.py SPEC.py [ids..]: makes /verif/seeded/<id>/ from edit specs, after confirming each one in a scratch copy:
it builds, the stable tests pass, the demonstration passes without and fails with the change.  Then runs the property's check on it."""
import sys, os, subprocess, json, shutil, importlib.util
V = '/verif'; S = '/tmp/seedwork'; RC = S + '/repo'
def sh(cmd, cwd=RC, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode(errors='replace')
def sync():
    os.makedirs(S, exist_ok=True)
    sh('rsync -a --delete --exclude target /repo/ %s/ || cp -a /repo %s' % (RC, S), cwd='/')
    sh('git checkout -q -- . && git clean -fdq -e target')
def stable():
    want = set(json.load(open('/opt/vp/BASELINE.json'))['passed'] if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) and 'passed' in json.load(open('/opt/vp/BASELINE.json')) else [])
    return want
def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = sys.argv[2:]
    for s in m.SEEDS:
        if ids and s['id'] not in ids: continue
        if not ids and s['id'] in ('c17-range-to', 'c19-empty-seq', 'c21-superset', 'c20-blank'): continue      # change lines of own fixes
        if not ids and os.path.exists('%s/seeded/%s/patch.diff' % (V, s['id'])) : continue
        one(s)
def one(s):
    sync()
    for f, old, new in s['edits']:
        p = RC + '/' + f; t = open(p).read()
        if t.count(old) != 1: print(s['id'], 'EDIT FAILS', f, t.count(old)); return
        open(p, 'w').write(t.replace(old, new))
    rc, diff = sh('git diff')
    d = '%s/seeded/%s' % (V, s['id']) if not s.get('benign') else '/tmp/seedwork/benign/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    if not s.get('benign'):
        shutil.copy(V + '/spec/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
        pre = 'extern crate rust_graph;\n' if 'extern crate rust_graph' not in s['demo'] else ''
        open(d + '/demo.rs', 'w').write(pre + s['demo'].lstrip())
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
    tests = sh('CARGO_TARGET_DIR=%s/tt cargo test --no-fail-fast --offline 2>&1 | grep -E "^test .*FAILED|^error\\[|could not compile"' % S)[1]
    fails = [l for l in tests.splitlines() if "test_conn_subgraphs" not in l and "test result" not in l]
    st = {'tests': 'ok' if not fails else fails[:5]}
    if not s.get('benign'):
        st['demo_with'] = sh('bash %s/demo.sh' % d, env={'DEMO_TARGET': S + '/dt'})[0]
        rc, out = sh('bash %s/demo.sh' % d, cwd='/repo', env={'DEMO_TARGET': S + '/dt2'})
        st['demo_without'] = rc
        if rc: print(out[:300])
    for p in ([s['prop']] if not s.get('benign') else s['props']):
        rc, out = sh('python3 %s/check.py %s' % (V, p), cwd=V, env={'REPO': RC, 'MIRX_BUILD': S + '/b'})
        st['check ' + p] = rc
        ls = [l for l in out.splitlines() if l.startswith('  ')][:3]
        print('   ', '\n    '.join(x[:260] for x in ls) if ls else out.strip()[-200:])
    good = s.get('benign') or (st['tests'] == 'ok' and st['demo_with'] == 1 and st['demo_without'] == 0)
    print('GOOD' if good else 'BAD ', s['id'], st)
    sh('git checkout -q -- .')
if __name__ == '__main__': main()
