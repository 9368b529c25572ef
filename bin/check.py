#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decide one property by symbolic execution of the real code.

Rebuilds the harness crates from /repo's working tree (LLVM IR of the real functions), runs the
symbolic executor (/verif/engine) on every entry of the property, replays each counterexample and a
sample of the explored paths against the natively compiled code, and writes evidence/<id>.json.
Exit 0 held, 1 violation (VIOLATION line), 2 the check could not give an answer."""
import sys, os, json, time, subprocess, hashlib, fcntl, glob, shutil, re, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TC = 'nightly-2025-05-06'
TRIPLE = 'x86_64-unknown-linux-gnu'
sys.path.insert(0, os.path.join(V, 'bin'))
from checks import CHECKS, BASE_ASSUMPTIONS

def die(msg):
    print('CHECK-ERROR ' + msg, flush=True)
    sys.exit(2)

def env(**k):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.update(k)
    return e

def repo_hash():
    h = hashlib.sha256()
    fs = []
    for p in ('packages', '.cargo', 'Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, p)
        if os.path.isfile(p): fs.append(p)
        for d, ds, ns in os.walk(p):
            ds[:] = [x for x in ds if x not in ('node_modules', 'target', '.git')]
            fs += [os.path.join(d, n) for n in ns if n.endswith(('.rs', '.toml', '.lock'))]
    for f in sorted(fs):
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()

def engine():
    b = os.path.join(V, 'engine/target/release/symx')
    r = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=os.path.join(V, 'engine'), env=env(RUSTUP_TOOLCHAIN='stable'), capture_output=True, text=True)
    if r.returncode: die('engine build failed\n' + r.stderr[-3000:])
    return b

def std():
    d = os.path.join(V, '.cache/std')
    if len(glob.glob(d + '/*.ll')) < 10:
        shutil.rmtree(d, ignore_errors=True)
        r = subprocess.run(['bash', os.path.join(V, 'bin/stdll.sh'), d, TC], capture_output=True, text=True)
        if r.returncode: die('standard library bitcode not available: ' + r.stderr[-500:])
    return sorted(glob.glob(d + '/*.ll'))

REPO_CRATES = ['istanbul-oxide', 'swc-coverage-instrument', 'swc-plugin-coverage']
def harness(name):
    """build harness crate `name`; returns (binary, [ll files])"""
    td = os.path.join(V, 'harness/target')
    stamp = os.path.join(td, 'repo-hash-' + name)
    hh = repo_hash()
    out = os.path.join(td, TRIPLE, 'symx')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != hh:
        # never trust time stamps: drop what was built from another tree
        for c in REPO_CRATES:
            c = c.replace('-', '_')
            for f in glob.glob(out + '/deps/' + c + '-*') + glob.glob(out + '/deps/lib' + c + '-*'): os.remove(f)
            for f in glob.glob(out + '/.fingerprint/' + c.replace('_', '-') + '-*'): shutil.rmtree(f)
        for f in glob.glob(out + '/deps/' + name.replace('-', '_') + '-*'): os.remove(f)
        for f in glob.glob(out + '/.fingerprint/' + name + '-*'): shutil.rmtree(f)
    cmd = ['cargo', 'build', '--offline', '--profile', 'symx', '--target', TRIPLE, '-p', name, '--message-format', 'json']
    r = subprocess.run(cmd, cwd=os.path.join(V, 'harness'), env=env(RUSTUP_TOOLCHAIN=TC, RUSTFLAGS='--emit=llvm-ir,link --cfg verif_hooks'), capture_output=True, text=True)
    if r.returncode: die('the harness does not build against /repo\n' + r.stderr[-1500:] + '\n'.join(j['message']['rendered'] for j in map(json.loads, r.stdout.splitlines()) if j.get('reason') == 'compiler-message' and j['message']['level'] == 'error')[:4000])
    open(stamp, 'w').write(hh)
    # the IR of exactly the crates this build linked
    lls = []
    for l in r.stdout.splitlines():
        j = json.loads(l)
        if j.get('reason') != 'compiler-artifact': continue
        for f in j['filenames']:
            if f.startswith(out + '/') and f.endswith('.rlib'):
                g = os.path.join(out, 'deps', os.path.basename(f)[3:-5] + '.ll')
                if os.path.exists(g): lls.append(g)
    own = sorted(glob.glob(out + '/deps/' + name.replace('-', '_') + '-*.ll'), key=os.path.getmtime)
    if not own: die('no IR for ' + name)
    return os.path.join(out, name), sorted(set(lls)) + [own[-1]]


def replay(binary, entry, vals, tmp):
    f = os.path.join(tmp, 'replay-%s-%d.txt' % (entry, abs(hash(tuple(map(tuple, vals)))) % 10**9))
    open(f, 'w').write(' '.join(str(v[2]) for v in vals) + '\n')
    try: r = subprocess.run([binary, entry], env=env(SYMX_REPLAY=f, RUST_BACKTRACE='0'), capture_output=True, text=True, timeout=60, errors='replace')
    except subprocess.TimeoutExpired: return f, None, '', 'timeout'
    return f, r.returncode, r.stdout, r.stderr

def setup():
    os.makedirs(os.path.join(V, '.cache'), exist_ok=True)
    engine(); std()
    for h in sorted({c.get('harness', 'harness') for c in CHECKS.values()}): harness(h)
    print('setup done')

def main():
    if sys.argv[1] == 'setup': return setup()
    if sys.argv[1] == 'list':  # development aid: the IR files of a harness crate
        print('\n'.join(harness(sys.argv[2])[1] + std() + [os.path.join(V, 'engine/rt.ll')])); return
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(V, '.cache'), exist_ok=True)
    lock = open(os.path.join(V, '.cache/lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    eng = engine()
    stdl = std()
    binary, lls = harness(spec.get('harness', 'harness'))
    tbuild = time.time() - t0
    work = os.path.join(V, '.cache/run-' + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    lst = os.path.join(work, 'list')
    open(lst, 'w').write('\n'.join(lls + stdl + [os.path.join(V, 'engine/rt.ll')]))
    jobs = str(min(8, os.cpu_count() or 8))
    tot = dict(complete=0, panics=0, panics_ok=0, assumed=0, instrs=0, forks=0, checks=0, checks_sym=0, discharged=0, queries=0, qhits=0, unsat=0, sat=0, unknown=0, left=0)
    solver_s = 0.0; maxvars = 0; maxq = 0.0
    covers = {}; errors = {}; funcs = set(); samples = []; viol = {}; per_entry = []; problems = []; validated = 0
    xsolver = {'checked': 0, 'agree': 0}
    for ent in spec['quick'] + (spec.get('thorough', []) if tier == 'thorough' else []):
        ent = dict(ent)
        name = ent['entry']
        out = os.path.join(work, name); os.makedirs(out)
        smt = os.path.join(work, 'smt-' + name); os.makedirs(smt)
        cmd = [eng, '--entry', name, '--out', out, '--jobs', jobs, '--timeout', str(ent.get('timeout', 150 if tier == 'quick' else 1500)), '--qtimeout', str(ent.get('qtimeout', 20000)), '--samples', '8', '--every', str(ent.get('every', 97)), '--cap', str(ent.get('cap', 64)), '--smt', smt, '--list', lst]
        te = time.time()
        r = subprocess.run(cmd, capture_output=True, text=True, env=env(SYMX_TIER=tier))
        if r.returncode == 3: die('entry %s not found in the compiled harness' % name)
        if r.returncode: problems.append('%s: symbolic executor ended with %d: %s' % (name, r.returncode, r.stderr[-300:]))
        e = dict(entry=name, bound=ent.get('bound', ''), wall_s=round(time.time() - te, 1), complete=0, left=0, checks=0, queries=0, solver_s=0.0)
        ecov = {}
        for f in glob.glob(out + '/*.json'):
            j = json.load(open(f))
            for k in tot: tot[k] += j.get(k, 0)
            for k in ('complete', 'left', 'checks', 'queries'): e[k] += j[k]
            e['solver_s'] = round(e['solver_s'] + j['solver_s'], 2)
            solver_s += j['solver_s']; maxvars = max(maxvars, j['maxvars']); maxq = max(maxq, j['max_query_s'])
            for k, n in j['covers'].items(): ecov[k] = ecov.get(k, 0) + n
            for k, n in j['errors'].items(): errors[name + ': ' + k] = errors.get(name + ': ' + k, 0) + n
            funcs.update(j['funcs'])
            for s in j['samples']: samples.append((name, s))
            for v in j['violations']: viol.setdefault((name, v['msg']), []).append(v)
        for k, n in ecov.items(): covers[name + ': ' + k] = n
        e['covers'] = ecov
        per_entry.append(e)
        e['missing'] = [c for c in ent.get('covers', ['reached']) if not ecov.get(c)]
        # cross-check a sample of the solver's answers with a second solver
        qs = sorted(glob.glob(smt + '/*.smt2'))
        rnd = random.Random(seed)
        rnd.shuffle(qs)
        for q in qs[: (6 if tier == 'quick' else 60)]:
            want = os.path.basename(q).rsplit('_', 1)[1][:-5]
            if want not in ('sat', 'unsat'): continue
            try: o = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit', '5000', q], capture_output=True, text=True, timeout=10).stdout.strip().splitlines()
            except subprocess.TimeoutExpired: continue
            if o and o[-1] in ('sat', 'unsat'):
                xsolver['checked'] += 1
                if o[-1] == want: xsolver['agree'] += 1
                else: problems.append('%s: z3 says %s and cvc5 says %s for %s' % (name, want, o[-1], q))
        shutil.rmtree(smt, ignore_errors=True)
    # translator validation: sampled paths must behave the same in the compiled program
    by = {}
    for s in samples: by.setdefault(s[0], []).append(s)
    rnd = random.Random(seed)
    shown = []
    for name, l in by.items():
        rnd.shuffle(l)
        for _, s in l[:25 if tier == 'quick' else 100]:
            f, rc, so, se = replay(binary, name, s['vals'], work)
            notes = [int(x.split()[1]) for x in so.splitlines() if x.startswith('NOTE ')]
            if rc != 0 or notes != s['notes'] or 'FAIL ' in so and not any(k[0] == name for k in viol):
                problems.append('%s: path replayed natively behaves differently (rc %s, notes %s vs %s) %s' % (name, rc, notes[:4], s['notes'][:4], f))
            else:
                validated += 1
                if len(shown) < 12: shown.append({'entry': name, 'input': s['ctx'][:400], 'choices': [v[2] for v in s['vals']][:60]})
                os.remove(f)
    # counterexamples
    known = [json.loads(l) for l in open(os.path.join(V, 'known-findings.jsonl')) if l.strip().startswith('{')]
    bad = []; hits = {}
    for (name, msg), vs in sorted(viol.items()):
        if msg.startswith('HARNESS '): errors[name + ': ' + msg] = len(vs); continue
        vs.sort(key=lambda v: (len(v['ctx']), len(v['vals'])))
        conf = None
        for v in vs[:5]:
            f, rc, so, se = replay(binary, name, v['vals'], work)
            hit = any(l.startswith('FAIL ') and l[5:].strip() == msg.strip().replace('\n', '\\n') for l in so.splitlines())
            if msg.lower().startswith(('panic', 'abort')): hit = rc not in (0, None) and 'PANIC-OK' not in so
            if hit: conf = (v, f, so, se); break
        if conf is None:
            problems.append('%s: counterexample does not reproduce natively: %s (%s)' % (name, msg, vs[0]['ctx'][:200]))
            continue
        v, f, so, se = conf
        k = next((k for k in known if k.get('status') == 'known' and k['property'] == prop and k['entry'] == name and k['fails'] == msg), None)
        if k: hits[k['id']] = k; continue
        rd = os.path.join(V, 'replays', prop); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, 'v%d.txt' % (len(bad) + 1))
        open(rp, 'w').write('property %s\nentry %s\nviolated %s\ninput %s\nvalues %s\nreplay: SYMX_REPLAY=<file with the values> %s %s\n--- native replay output\n%s\n%s' % (prop, name, msg, v['ctx'], ' '.join(str(x[2]) for x in v['vals']), binary, name, so, se))
        bad.append((name, msg, v['ctx'], rp))
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop:
            if k['id'] in hits: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            elif any(e['entry'] == k['entry'] for e in per_entry): problems_note = 'known finding %s did not show up' % k['id']; print('note: ' + problems_note)
    for name, msg, c, rp in bad[:10]:
        print('violated: %s: %s\n  input: %s' % (name, msg, c.replace('\n', '\\n')[:600]))
    if bad: print('VIOLATION property=%s replay=%s' % (prop, bad[0][3]))
    mine = sorted(f for f in funcs if any(x in f for x in ('istanbul_oxide', 'swc_coverage_instrument', 'swc_plugin_coverage')))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'explanation': spec['explain'],
            'states': tot['complete'] + tot['forks'], 'transitions': tot['instrs'],
            'states_meaning': 'symbolic states: completed paths plus fork points; transitions: LLVM instructions executed symbolically',
            'paths_completed': tot['complete'], 'paths_unfinished': tot['left'], 'assume_infeasible': tot['assumed'],
            'obligations': tot['checks'], 'obligations_with_symbolic_condition': tot['checks_sym'], 'discharged': tot['discharged'],
            'queries': tot['queries'], 'query_cache_hits': tot['qhits'], 'unsat': tot['unsat'], 'sat': tot['sat'], 'unknown': tot['unknown'],
            'solver_s': round(solver_s, 2), 'max_query_s': round(maxq, 2), 'max_symbolic_vars': maxvars,
            'second_solver': dict(xsolver, solver='cvc5', meaning='sampled z3 queries answered by cvc5 as well'),
            'traces_validated_against_impl': validated,
            'entries': per_entry, 'witnesses': covers, 'unexplored': errors,
            'functions_encoded_total': len(funcs), 'functions_encoded_repo': mine,
            'bounds': [e['bound'] for e in per_entry if e['bound']], 'outside_bounds': spec.get('outside', ''),
            'samples': shown, 'known_findings': sorted(hits), 'build_s': round(tbuild, 1),
            'exhaustive': tot['left'] == 0 and not errors and tot['unknown'] == 0,
        },
        'assumptions': BASE_ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True) if not problems else None
    print('%s %s: %d paths, %d obligations (%d symbolic), %d queries, %.1fs solver, %d left, %d unexplored, %.1fs' % (prop, tier, tot['complete'], tot['checks'], tot['checks_sym'], tot['queries'], solver_s, tot['left'], sum(errors.values()), time.time() - t0))
    for k, n in sorted(errors.items(), key=lambda x: -x[1])[:8]: print('  unexplored %d: %s' % (n, k))
    if bad: sys.exit(1)
    for e in per_entry:
        if e['missing']: problems.append('%s: witness not reached: %s' % (e['entry'], ', '.join(e['missing'])))
    if problems: die('\n'.join(problems[:10]))

main()
