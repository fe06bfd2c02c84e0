#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property on /repo's current source."""
import sys, os, json, hashlib, subprocess, fcntl, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'engine'))

BUDGET = float(os.environ.get('CHECK_BUDGET', '660'))    # seconds for the analysis, export included

def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs: files.append(os.path.join(d, f))
    for f in ('Cargo.toml', 'Cargo.lock'): files.append(os.path.join(REPO, f))
    files += [os.path.join(V, 'driver/src/main.rs'), os.path.join(V, 'driver/src/json.rs')]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

# the configurations a user can build: (name, cargo features, compiler flags)
CONFIGS = [('', 'ldbc', ''), ('release', 'ldbc', '-Cdebug-assertions=off -Coverflow-checks=on'), ('usize', 'ldbc usize_id', ''), ('plain', '', '')]

def configs(tier):
    if tier == 'thorough': return CONFIGS
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if b'debug_assert' in open(os.path.join(d, f), 'rb').read(): return CONFIGS[:2]
    return CONFIGS[:1]

def facts(cfg=CONFIGS[0]):
    b = os.environ.get('MIRX_BUILD') or os.path.join(V, '.build')
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = os.path.join(b, 'facts-%s%s.json' % (tree_hash(), cfg[0] and '-' + cfg[0]))
        if not os.path.exists(p):
            for o in os.listdir(b):
                if o.startswith('facts-') and tree_hash() not in o: os.unlink(os.path.join(b, o))
            env = dict(os.environ, MIRX_CONFIG=cfg[0], MIRX_FEATURES=cfg[1], MIRX_RUSTFLAGS=cfg[2])
            r = subprocess.run(['bash', os.path.join(V, 'export.sh'), p + '.tmp'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
                print('cannot export the program facts'); sys.exit(2)
            os.rename(p + '.tmp', p)
            if not cfg[0]: open(os.path.join(b, 'tree'), 'w').write(os.path.basename(p))
    return p

def known():
    out = []
    for l in open(os.path.join(V, 'known_findings.jsonl')):
        l = l.strip()
        if l and not l.startswith('#') and l[0] == '{': out.append(json.loads(l))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    first = None
    for cfg in configs(tier):
        R = analyse(pid, tier, cfg, t0 + BUDGET)
        if first is None: first = R; R.configs = ['features "%s"' % cfg[1]]; continue
        if R.missing and cfg[0] == 'plain': continue        # the property's subject is behind the ldbc feature
        first.obs += R.obs; first.paths += R.paths; first.functions |= R.functions; first.sites |= R.sites
        first.configs.append('features "%s" %s' % (cfg[1], cfg[2]))
    finish(pid, tier, first, first.F, t0)

def analyse(pid, tier, cfg, deadline):
    fp = facts(cfg)
    from facts import Facts
    from world import World, Missing
    from report import Report
    import rules
    F = Facts(fp)
    W = World(F)
    W.tier = tier; W.facts_path = fp; W.config = cfg[0]
    R = Report(pid, W)
    R.missing = False
    from terms import TimeUp
    try:
        R.limit(max(5, deadline - time.time()))
        rules.run(pid, R, W)
    except Missing as m:
        R.missing = True
        R.und('anchor', '-', 'an item the rule starts from was not recognised: %s' % m)
    except TimeUp:
        R.und('time', '-', 'the rest was not analysed: time limit')
    except Exception as e:
        if os.environ.get('MIRX_DEV'): raise
        R.und('internal', '-', 'analysis stopped: %r at %s' % (e, traceback.extract_tb(e.__traceback__)[-1]))
    R.unlimit()
    return R

def finish(pid, tier, R, F, t0):
    kn = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    viol = [o for o in R.obs if o['status'] == 'violated']
    matched = []; new = []
    for o in viol:
        o['known'] = False
        k = [x for x in kn if x['function'] == o['function'] and x['obligation'] == o['obligation']]
        (matched if k else new).append(o)
        o['known'] = bool(k)
    n = {s: sum(1 for o in R.obs if o['status'] == s) for s in ('discharged', 'violated', 'undecided')}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = evidence(pid, tier, R, F, n, new, matched, time.time() - t0)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in kn:
        hit = [o for o in matched if o['function'] == k['function'] and o['obligation'] == k['obligation']]
        if hit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations discharged, %d violated, %d undecided, %d abstract paths, %d functions analysed' %
          (pid, n['discharged'], n['violated'], n['undecided'], R.paths, len(R.functions)))
    if new:
        d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '.txt')
        with open(p, 'w') as f:
            for o in new:
                f.write('property %s\nobligation %s\nfunction %s\nwhere %s\n%s\npath:\n' % (pid, o['obligation'], o['function'], o['where'], o['detail']))
                for a, b, w in o['path']: f.write('   %s: %s is %s\n' % (w, a, b))
                f.write('\n')
        for o in new[:8]:
            print('  %s in %s at %s: %s' % (o['obligation'], o['function'], o['where'], o['detail'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        sys.exit(1)
    sys.exit(0)

def evidence(pid, tier, R, F, n, new, matched, secs):
    und = [o for o in R.obs if o['status'] == 'undecided']
    byfn = {}
    for o in R.obs:
        d = byfn.setdefault(o['function'], {'discharged': 0, 'violated': 0, 'undecided': 0}); d[o['status']] += 1
    return {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked MIR of the current tree (%d bodies exported): %d obligations discharged, %d violated (%d of them known findings), %d undecided, over %d abstract paths; %d functions and %d call sites analysed. Rule: %s' % (
                len(F.bodies), n['discharged'], n['violated'], len(matched), n['undecided'], R.paths, len(R.functions), len(R.sites), rule_text(pid)),
            'configurations': R.configs, 'obligations': len(R.obs), 'discharged': n['discharged'], 'undecided': n['undecided'],
            'abstract_paths': R.paths, 'functions_analysed': sorted(R.functions)[:400], 'call_sites': len(R.sites),
            'per_function': byfn,
            'details': [{k: o[k] for k in ('obligation', 'function', 'status', 'detail', 'where')} for o in R.obs][:400],
            'undecided_reasons': sorted({o['detail'] for o in und})[:40],
            'notes': R.notes[:40],
            'known_findings': [o['obligation'] + ' @ ' + o['function'] for o in matched],
            'new_violations': [{k: o[k] for k in ('obligation', 'function', 'detail', 'where')} for o in new],
        },
        'assumptions': ['rustc type checking and MIR construction', 'the models of the standard library and of external crates in engine/models.py',
                        'the MIR interpreter and term simplifier in engine/', 'undecided obligations are not claimed'],
        'violations': len(new), 'wall_s': round(secs, 2),
    }

def rule_text(pid):
    from rules import texts
    return texts.RULE.get(pid, '')

main()
