#!/usr/bin/env python3
"""Check one property:  run.py C01        (VERIF_TIER=quick|thorough)
   Replay a trace:      run.py --replay evidence/replay/C01-....trace
Regenerates everything from /repo's working tree.  Exit 0 held, 1 VIOLATION, 2 no answer."""
import os, sys, json, time, subprocess, shutil, hashlib, glob, re, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'harness')); sys.dont_write_bytecode = True
import configs
BUILD = os.path.join(V, 'build'); RSX = os.path.join(BUILD, 'rsx')
CL = ['clang++-18', '-std=c++17', '-w', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-DREISER_RT_HAS_PTHREADS', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
      '-I' + V + '/rt', '-I' + V + '/rt/stub', '-I' + V + '/harness', '-I' + REPO + '/src', '-emit-llvm', '-c']
PASSES = '-passes=function(sroa,early-cse,simplifycfg,instsimplify)'
class Fail(Exception): pass
def sh(cmd, timeout=600, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if p.returncode: raise Fail(' '.join(cmd[:4]) + ' ... failed:\n' + p.stdout.decode(errors='replace')[-3000:])
    return p.stdout.decode(errors='replace')
def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    sh(['make', '-s', '-j8', '-C', V + '/engine', 'OUT=' + BUILD], 1500)
def setup():
    build_engine(); m = BUILD + '/models.bc'
    key = hashlib.sha1(b''.join(open(f, 'rb').read() for f in sorted(glob.glob(V + '/rt/*'))if os.path.isfile(f))).hexdigest()
    if not (os.path.exists(m) and os.path.exists(BUILD + '/native.o') and os.path.exists(BUILD + '/rt.key') and open(BUILD + '/rt.key').read() == key):
        t = '%s/m%d' % (BUILD, os.getpid())
        sh(CL + [V + '/rt/models.cpp', '-o', t + '0.bc']); sh(['opt-18', PASSES, t + '0.bc', '-o', t + '1.bc']); sh([RSX, 'instrument', t + '1.bc', '--mark', '-o', t + '.bc'])
        sh(['clang++-18', '-std=c++17', '-O1', '-w', '-I' + V + '/rt', '-c', V + '/rt/native.cpp', '-o', t + '.o'])
        os.replace(t + '.bc', m); os.replace(t + '.o', BUILD + '/native.o'); os.remove(t + '0.bc'); os.remove(t + '1.bc')
        open(BUILD + '/rt.key', 'w').write(key)

class Task:
    def __init__(self, prop, spec, work, srcs, deadline):
        self.prop, self.spec, self.srcs, self.deadline = prop, spec, srcs, deadline
        self.name = spec['name']; self.d = os.path.join(work, self.name); os.makedirs(self.d, exist_ok=True)
        self.res = None; self.viol = None; self.error = None; self.replays = 0; self.races = []; self.yields = []; self.rounds = 0; self.limited = None; self.seconds = 0
        self.native = {}
    def compile(self):
        b = self.d + '/'
        sh(CL + ['-D%s=%s' % kv for kv in self.spec.get('D', {}).items()] + ['-DP_' + self.prop + '=1', V + '/harness/' + self.spec['h'], '-o', b + 'h.bc'])
        sh(['llvm-link-18', b + 'h.bc'] + self.srcs + ['-o', b + 'app0.bc']); sh(['opt-18', PASSES, b + 'app0.bc', '-o', b + 'app.bc'])
    def link(self):
        b = self.d + '/'; y = ['--yield', ','.join(map(str, self.yields))] if self.yields else []
        sh([RSX, 'instrument', b + 'app.bc', '-o', b + 'e0.bc'] + y); sh(['llvm-link-18', b + 'e0.bc', BUILD + '/models.bc', '-o', b + 'eng.bc'])
    def build_native(self):
        k = tuple(self.yields)
        if k in self.native: return self.native[k]
        b = self.d + '/'; y = ['--yield', ','.join(map(str, self.yields))] if self.yields else []; out = b + 'replay%d' % len(self.native)
        sh([RSX, 'instrument', b + 'app.bc', '--native'] + ([] if self.spec.get('laps') else ['--acc']) + ['-o', b + 'n.bc'] + y); sh(['clang++-18', '-O1', '-w', b + 'n.bc', BUILD + '/native.o', '-lpthread', '-o', out])
        self.native[k] = out; return out
    def run_native(self, trace, extra=[], fill=None):
        env = dict(os.environ); 
        if fill: env['RSXN_FILL'] = fill
        env['RSXN_TIME'] = str(self.spec.get('native_s', 120))
        p = subprocess.run([self.build_native(), trace] + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    def write_trace(self, path, t, head=''):
        with open(path, 'w') as f:
            f.write(''.join('# %s\n' % l for l in head.split('\n'))); f.writelines('%d %d %d %s\n' % tuple(e) for e in t)
    def engine(self, race):
        left = self.deadline - time.time(); lim = min(left, self.spec.get('time', 1e9))
        if lim < 3: self.limited = 'no time left'; return None
        out = self.d + '/res.json'
        cmd = [RSX, self.d + '/eng.bc', '-o', out, '--time', '%d' % lim] + self.spec.get('opts', [])
        if race: cmd += ['--race-collect']
        if self.spec.get('witness', True) is False: cmd += ['--no-witness']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0: raise Fail('engine failed (%d): %s' % (p.returncode, p.stderr.decode(errors='replace')[-800:]))
        return json.load(open(out))
    def run(self):
        t0 = time.time()
        try:
            self.compile(); race = self.spec.get('race', True)
            while True:
                self.link(); r = self.engine(race)
                if r is None: break
                self.res = r; self.rounds += 1
                races = [v for v in r['violations'] if v['kind'] == 'race']; others = [v for v in r['violations'] if v['kind'] != 'race']
                if races and self.prop != 'C26' and not others:
                    new = sorted(set(s for v in races for s in v['sites']) - set(self.yields)); self.races += [v['msg'] for v in races]
                    if new and self.rounds < 5: self.yields = sorted(set(self.yields) | set(new)); continue
                    if r['status'] == 'violation': r['status'] = 'ok'  # the racing accesses are interleaved already; races themselves are C26's subject
                if self.prop == 'C26':
                    if not races and others: self.error = 'stopped by something that is no data race: %s: %s [%s]' % (others[0]['kind'], others[0]['msg'], others[0]['where']); break
                    others = races
                if others:
                    for v in others:
                        if self.confirm(v): self.viol = v; break
                    else:
                        if self.spec.get('laps'): self.limited = 'the jump over many laps is not justified for this code; the bound is not claimed'; break
                        self.error = 'counterexample not confirmed by replay: %s: %s [%s]' % (others[0]['kind'], others[0]['msg'], others[0]['where'])
                elif r['status'] == 'ok':
                    if self.spec.get('laps') and r['unreached']: self.limited = 'the jump over many laps does not apply to this code; the bound is not claimed'; break
                    self.validate(r)
                elif r['status'] == 'limit': self.limited = r['why']
                else: self.error = '%s: %s' % (r['status'], r['why'])
                break
        except Fail as e: self.error = str(e)
        except Exception as e: self.error = 'internal: %r' % e
        self.seconds = time.time() - t0
        return self
    def confirm(self, v):
        p = self.d + '/viol.trace'; self.write_trace(p, v['trace']); extra = [str(s) for s in v['sites']] if v['kind'] == 'race' else []
        v['native'] = ''
        if v['kind'] == 'race' and len(extra) == 1: extra = extra * 2
        for fill in ('0xA5', '0xFF', '0x01', '0x00')[:1 if self.spec.get('laps') else 4]:
            rc, out = self.run_native(p, extra, fill); v['native'] += out[:300]
            if rc == 10:
                rp = os.path.join(V, 'evidence', 'replay'); os.makedirs(rp, exist_ok=True); path = os.path.join(rp, '%s-%s.trace' % (self.prop, self.name))
                head = 'property %s\ntask %s\nyields %s\nraces %s\nfill %s\nviolation %s: %s\nat %s\nobserved %s' % (self.prop, self.name, ','.join(map(str, self.yields)), ' '.join(extra), fill, v['kind'], v['msg'], v['where'], out.split('\n')[0])
                self.write_trace(path, v['trace'], head); v['replay'] = path; v['observed'] = out.split('\n')[0]; return True
        return False
    def validate(self, r):
        if r['unreached']: self.error = 'vacuous: never reached ' + ', '.join(r['unreached']); return
        for lab, t in r['witnesses'].items():
            p = self.d + '/wit.trace'; self.write_trace(p, t); rc, out = self.run_native(p)
            if rc != 0 or ('REACHED ' + lab) not in out.split('\n'): self.error = 'witness of "%s" not reproduced by the real code: %s' % (lab, out[:300]); shutil.copy(p, self.d + '/badwit.trace'); return
            self.replays += 1

def sources(work):
    out = []; cmds = []
    for f in sorted(glob.glob(REPO + '/src/*.cpp')):
        o = work + '/' + os.path.basename(f)[:-4] + '.src.bc'; out.append(o); cmds.append(CL + [f, '-o', o])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, cmds))
    return out
def known():
    p = V + '/known-findings.txt'; ks = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m: ks.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return ks
def check(prop, tier, only=None, keep=False):
    t0 = time.time(); specs = [s for s in configs.CHECKS[prop] if tier == 'thorough' or s.get('tier', 'quick') == 'quick']
    if only: specs = [s for s in configs.CHECKS[prop] if re.search(only, s['name'])]
    setup(); work = '%s/run-%s-%d' % (BUILD, prop, os.getpid()); os.makedirs(work); budget = float(os.environ.get('VERIF_BUDGET', 3300 if tier == 'thorough' else 720))
    try:
        srcs = sources(work); tasks = [Task(prop, s, work, srcs, t0 + budget) for s in specs]
        with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex: list(ex.map(lambda t: t.run(), sorted(tasks, key=lambda t: -t.spec.get('cost', 1))))
        code = report(prop, tier, tasks, time.time() - t0)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)
    return code
def report(prop, tier, tasks, wall):
    code = 0; viol = 0; fn = {}; asserts = {}; tot = {}; samples = []; cfgs = []; model_fn = set()
    for t in tasks:
        r = t.res or {}
        c = {'task': t.name, 'harness': t.spec['h'], 'bounds': t.spec.get('bounds', ''), 'seconds': round(t.seconds, 1), 'status': ('violation' if t.viol else 'error' if t.error else 'not finished' if t.limited else 'held')}
        if r:
            c.update(nodes=r['nodes'], segments=r['segments'], assert_queries=r['assert_queries'], assert_sites=len(r['asserts']), queries=r['solver']['queries'], solver_s=round(r['solver']['time'] + r['solver'].get('sat_engine_time', 0), 2), witnesses_replayed=t.replays)
            for k in ('nodes', 'segments', 'assert_checks', 'assert_queries', 'race_queries', 'instructions', 'merges', 'paths'): tot[k] = tot.get(k, 0) + r[k]
            for k in ('queries', 'sat', 'unsat', 'unknown', 'time', 'model_hits', 'cache_hits', 'sat_engine', 'sat_engine_time', 'confirmed_by_z3', 'sampled_by_z3'): tot['solver_' + k] = round(tot.get('solver_' + k, 0) + r['solver'].get(k, 0), 3)
            for f in r['functions']:
                if f.get('model'): model_fn.add(f['name'])
                else: fn[f['name']] = fn.get(f['name'], 0) + f['executed']
            for k, n in r['asserts'].items(): asserts[k] = asserts.get(k, 0) + n
            if r['witnesses'] and len(samples) < 3:
                lab, tr = sorted(r['witnesses'].items())[-1]; samples.append({'task': t.name, 'reaches': lab, 'inputs': [[e[3], e[2]] for e in tr if e[0] == 1][:20], 'schedule': [e[1] for e in tr if e[0] == 0][:60]})
        if t.races: c['races_refined'] = t.races[:3]
        if t.error: c['error'] = t.error[:400]
        if t.limited: c['limit'] = t.limited
        if t.viol: c['violation'] = {k: t.viol.get(k) for k in ('kind', 'msg', 'where', 'observed')}; samples.insert(0, {'task': t.name, 'violation': t.viol['msg'], 'inputs': [[e[3], e[2]] for e in t.viol['trace'] if e[0] == 1][:20], 'schedule': [e[1] for e in t.viol['trace'] if e[0] == 0][:60]})
        cfgs.append(c)
    ks = known(); unfinished = []
    for t in tasks:
        if t.viol:
            sig = '%s|%s|%s|%s' % (t.name, t.viol['kind'], t.viol['msg'], t.viol['where']); k = [x for x in ks if x[0] == prop and x[1].search(sig)]
            if k: print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2])); continue
            viol += 1; print('%s: %s: %s\n   at %s\n   natively: %s' % (t.name, t.viol['kind'], t.viol['msg'], t.viol['where'], t.viol['observed'])); print('VIOLATION property=%s replay=%s' % (prop, t.viol['replay'])); code = 1
    if code == 0:
        for t in tasks:
            if t.error: print('ERROR %s: %s' % (t.name, t.error)); code = 2
            elif t.limited:
                unfinished.append(t.name)
                if not t.spec.get('optional'): print('ERROR %s: not finished (%s)' % (t.name, t.limited)); code = 2
                else: print('note: %s not finished within its budget (%s); its bound is not claimed' % (t.name, t.limited))
    top = sorted((f for f in fn if 'ReiserRT' in f), key=lambda f: -fn[f])
    cov = {'states': tot.get('nodes', 0), 'transitions': tot.get('segments', 0), 'traces_validated_against_impl': sum(t.replays for t in tasks), 'samples': samples or [{'note': 'no sample'}],
           'exhaustive': False, 'explanation': 'states: merged symbolic scheduling states; transitions: symbolic segments executed between scheduling points; every input and schedule within the stated bounds is covered by each.',
           'bounds': [{'task': t.name, 'bounds': t.spec.get('bounds', '')} for t in tasks], 'functions_encoded': {'count': len(fn), 'modelled_environment': len(model_fn), 'reiserrt': [f[:140] for f in top[:80]]},
           'assert_checks': tot.get('assert_checks', 0), 'assert_queries': tot.get('assert_queries', 0), 'asserts': dict(list(asserts.items())[:80]), 'race_queries': tot.get('race_queries', 0), 'solver': {k[7:]: v for k, v in tot.items() if k.startswith('solver_')},
           'instructions': tot.get('instructions', 0), 'unfinished': unfinished, 'tasks': cfgs}
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov, 'assumptions': configs.ASSUME + configs.ASSUME_P.get(prop, []), 'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(V + '/evidence', exist_ok=True); s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov['functions_encoded']['reiserrt']: cov['functions_encoded']['reiserrt'] = cov['functions_encoded']['reiserrt'][:len(cov['functions_encoded']['reiserrt']) // 2]; s = json.dumps(ev, indent=1)
    open(V + '/evidence/%s.json' % prop, 'w').write(s)
    for c in cfgs: print('  %-28s %-12s %6.1fs nodes %-6s queries %-7s replays %s' % (c['task'], c['status'], c['seconds'], c.get('nodes', '-'), c.get('queries', '-'), c.get('witnesses_replayed', '-')))
    print('%s: %s in %.1fs' % (prop, {0: 'held', 1: 'VIOLATED', 2: 'no answer'}[code], wall)); return code
def replay(path):
    h = dict(re.findall(r'^# (\w+) ?(.*)$', open(path).read(), re.M)); setup(); work = '%s/replay-%d' % (BUILD, os.getpid()); os.makedirs(work)
    try:
        spec = [s for s in configs.CHECKS[h['property']] if s['name'] == h['task']][0]; t = Task(h['property'], spec, work, sources(work), time.time() + 600)
        t.yields = [int(x) for x in h['yields'].split(',') if x]; t.compile(); rc, out = t.run_native(path, h['races'].split(), h['fill']); print(out); return {10: 1, 0: 0}.get(rc, 2)
    finally: shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--setup': setup(); sys.exit(0)
    if a and a[0] == '--replay': sys.exit(replay(os.path.abspath(a[1])))
    keep = '--keep' in a; a = [x for x in a if x != '--keep']
    try: sys.exit(check(a[0], os.environ.get('VERIF_TIER', 'quick'), a[1] if len(a) > 1 else None, keep))
    except Fail as e: print('ERROR', e); sys.exit(2)
