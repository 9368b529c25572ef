#!/usr/bin/env python3-vt
"""Runs the repository's own YAML fixtures (spec/fixtures) through the instrumenter and node.
Not a check: used to validate fixes and the oracle against the expectations the project ships."""
import yaml, json, glob, subprocess, sys, os, tempfile
H = sys.argv[1] if len(sys.argv) > 1 else '/verif/harness/target/x86_64-unknown-linux-gnu/symx/harness'
ok = bad = skip = 0
only = sys.argv[2] if len(sys.argv) > 2 else ''
for f in sorted(glob.glob('/repo/spec/fixtures/*.yaml*')):
    if only not in f: continue
    for doc in yaml.safe_load_all(open(f)):
        if not doc: continue
        io = doc.get('instrumentOpts') or {}
        with tempfile.TemporaryDirectory() as d:
            src = os.path.join(d, 'in.js'); open(src, 'w').write(doc['code'])
            r = subprocess.run([H, '--emit', src, 'report' if io.get('reportLogic') else 'no'] + (io.get('ignoreClassMethods') or []), capture_output=True, text=True)
            for t in doc.get('tests') or []:
                name = os.path.basename(f) + ' / ' + str(doc.get('name')) + ' / ' + str(t.get('name'))
                if r.returncode != 0 or (doc.get('opts') or {}).get('generateOnly'): skip += 1; print('SKIP', name, r.stdout[:50], r.stderr[-200:]); continue
                js = os.path.join(d, 'run.js')
                open(js, 'w').write('''
const {code, args, isAsync} = %s;
(async () => {
  delete globalThis.__coverage__;
  const AF = Object.getPrototypeOf(async function(){}).constructor;
  const fn = isAsync ? new AF('args', 'var output;\\n' + code + '\\nreturn output;') : new Function('args', 'var output;\\n' + code + '\\nreturn output;');
  const out = await fn(args);
  const c = (globalThis.__coverage__ || {})['a.js'];
  let lines = {};
  if (c) for (const [k, v] of Object.entries(c.statementMap)) { const l = v.start.line; if (lines[l] === undefined || lines[l] < c.s[k]) lines[l] = c.s[k]; }
  console.log(JSON.stringify(c ? {out, lines, s: c.s, f: c.f, b: c.b, bT: c.bT || {}} : {out}));
})().catch(e => console.log(JSON.stringify({err: String(e)})));
''' % json.dumps({'code': r.stdout, 'args': t.get('args'), 'isAsync': bool((doc.get('opts') or {}).get('isAsync'))}))
                q = subprocess.run(['node', js], capture_output=True, text=True)
                try: g = json.loads(q.stdout.strip().split('\n')[-1])
                except Exception: g = {'err': q.stderr[-300:]}
                if (doc.get('opts') or {}).get('noCoverage'):
                    exp = {'s': None}
                else:
                    norm = lambda x: {str(k): v for k, v in (x or {}).items()}
                    exp = {'out': t.get('out'), 'lines': norm(t.get('lines')), 's': norm(t.get('statements')), 'f': norm(t.get('functions')), 'b': norm(t.get('branches')), 'bT': norm(t.get('branchesTrue'))}
                diff = {k: (v, g.get(k)) for k, v in exp.items() if g.get(k) != v}
                if diff or g.get('err'): bad += 1; print('DIFF', name, diff, g.get('err'))
                else: ok += 1
print('ok', ok, 'diff', bad, 'skip', skip)
