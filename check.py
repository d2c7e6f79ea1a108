#!/usr/bin/env python3
"""Runs the check of one property.

  check.py PROPERTY            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  check.py --replay HARNESS FLAVOUR INSTANCE HEX ARGS...   runs one input against the real code
  check.py --setup             builds engine, instrumented and native objects ahead of time

Exit 0: held on everything explored; 1: VIOLATION printed; 2: no answer (the machinery failed).
"""
import fnmatch, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V)
import build
from checks import CHECKS
JOBS = build.JOBS

def known():
    r = {}
    with open(V + '/known-findings.txt') as f:
        for l in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l.strip())
            if m:
                r[m.group(2)] = (m.group(1), m.group(3))
    return r

def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE, timeout=60)
        return r.stdout.decode(errors='replace').split('\n')
    except Exception:
        return names

COUNT = __import__('itertools').count()
class Job:
    """One harness with its arguments, explored by JOBS workers."""
    def __init__(self, prop, spec, tier, seed, tmp, knownids):
        self.prop, self.spec, self.tier, self.seed, self.tmp = prop, spec, tier, seed, tmp
        a = spec['args'].get(tier) if isinstance(spec.get('args'), dict) else spec.get('args', '')
        if a is None:
            a = spec['args']['quick']
        self.args = shlex.split(a.replace('$SEED', str(seed)))
        self.h = spec['harness']; self.uid = '%s-%d' % (self.h, next(COUNT))
        self.cmd = bool(spec.get('cmd'))
        self.extra = tuple(spec.get('extra', ()))
        self.flav = spec.get('confirm', ['native', 'asan'])
        self.env = dict(os.environ, LG_KNOWN=','.join(knownids))
        self.records, self.fns, self.viol, self.notes = [], set(), [], []
    def build(self, tree):
        self.exe = build.build_sym(tree, self.h, with_cmd=self.cmd, extra=self.extra)
        self.nat = {'native': build.build_native(tree, self.h, with_cmd=self.cmd, extra=self.extra)}
    def native(self, tree, flav):
        if flav not in self.nat:
            self.nat[flav] = build.build_native(tree, self.h, with_cmd=self.cmd, extra=self.extra, flavour=flav)
        return self.nat[flav]
    def natenv(self):
        return dict(self.env, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1')
    def replay(self, tree, inst, hx, tmo=60):
        """-> (confirmed, flavour, output)"""
        for fl in self.flav:
            exe = self.native(tree, fl)
            try:
                r = subprocess.run([exe, '--replay', inst, hx] + self.args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, env=self.natenv(), cwd=self.tmp)
                out, rc = r.stdout.decode(errors='replace'), r.returncode
            except subprocess.TimeoutExpired as e:
                return True, fl, 'does not return within %d s' % tmo
            if rc not in (0, 3):
                return True, fl, out[-4000:] + '\nexit status %d' % rc
        return False, None, out[-2000:]
    def start(self, total, budget):
        self.claim = tempfile.mktemp(dir=self.tmp)
        with open(self.claim, 'wb') as f:
            f.write(b'\0' * 4096)
        self.t0 = time.time(); self.total = total
        self.base = [self.exe, '--claim', self.claim, '--budget', str(budget), '--fns', '--pathsecs', str(self.spec.get('pathsecs', 20))]
        self.outs, self.pos, self.procs, self.respawns, self.bad = [], {}, [], 0, []
        for i in range(JOBS):
            self.spawn(i)
    def spawn(self, i):
        left = self.total - (time.time() - self.t0)
        o = '%s/out.%s.%d' % (self.tmp, self.uid, i)
        if o not in self.outs:
            self.outs.append(o); self.pos[o] = 0
        err = open('%s/err.%s.%d' % (self.tmp, self.uid, i), 'ab')
        p = subprocess.Popen(self.base + ['--total', '%.1f' % max(left, 0.1), '--out', o] + self.args, stdout=subprocess.DEVNULL, stderr=err, env=self.env, start_new_session=True, cwd=self.tmp)
        err.close()
        self.procs.append([p, i])
    def poll(self):
        """reads new records; -> new records"""
        new = []
        for o in self.outs:
            try:
                with open(o, 'rb') as f:
                    f.seek(self.pos[o]); d = f.read()
            except OSError:
                continue
            k = d.rfind(b'\n') + 1
            self.pos[o] += k
            for l in d[:k].split(b'\n'):
                if not l.strip():
                    continue
                try:
                    r = json.loads(l.decode(errors='replace'))
                except ValueError:
                    self.bad.append('unreadable record'); continue
                if 'functions' in r:
                    self.fns.update(r['functions'])
                else:
                    self.records.append(r); new.append(r)
        for pi in list(self.procs):
            rc = pi[0].poll()
            if rc is None:
                if time.time() - self.t0 > self.total + 60:
                    self.kill1(pi[0])
                continue
            self.procs.remove(pi)
            if rc == 0:
                continue
            self.respawns += 1
            if rc != 7:
                self.bad.append('worker ended with %s' % rc)
            if self.respawns < 400 and len(self.bad) < 40 and time.time() - self.t0 < self.total:
                self.spawn(pi[1])
        return new
    def kill1(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    def kill(self):
        for p, _ in self.procs:
            self.kill1(p)
        self.procs = []

def batch(job, tree, cases, flav, tmo):
    """runs (instance, hex) pairs natively -> list of dicts in order (None: not run)"""
    exe = job.native(tree, flav)
    n = max(1, min(JOBS, len(cases) // 8 + 1))
    parts = [cases[i::n] for i in range(n)]
    end = time.time() + tmo
    def go(part):
        res = {}; i = 0
        while i < len(part) and time.time() < end:
            fn = tempfile.mktemp(dir=job.tmp)
            with open(fn, 'w') as f:
                for a, b in part[i:]:
                    f.write('%s\t%s\n' % (a, b))
            p = subprocess.Popen([exe, '--batch', fn] + job.args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=job.natenv(), cwd=job.tmp)
            try:
                out, _ = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); out, _ = p.communicate()
                to = True
            else:
                to = False
            cur = None; k = i - 1; txt = out.decode(errors='replace')
            for l in txt.split('\n'):
                if l.startswith('CASE '):
                    k += 1; cur = {'case': part[k], 'fail': None, 'out': None, 'assume': False, 'done': False}
                    res[k] = cur
                elif cur is None:
                    continue
                elif l.startswith('FAIL '):
                    cur['fail'] = l[5:]
                elif l.startswith('ASSUME'):
                    cur['assume'] = True
                elif l.startswith('OUT '):
                    cur['out'] = l[4:]; cur['done'] = True
                elif l.startswith('NOINSTANCE'):
                    cur['done'] = True; cur['out'] = 'none'
            if k >= i and cur and not cur['done']:
                if to:
                    res.pop(k); break
                cur['fail'] = 'ended by %s: %s' % (p.returncode, txt[-1500:])
                i = k + 1
            elif to or k < i:
                break
            else:
                i = k + 1
        return list(res.values())
    with ThreadPoolExecutor(n) as ex:
        return [x for l in ex.map(go, parts) for x in l]

def main():
    if sys.argv[1] == '--setup':
        t = build.Tree(); build.engine(); t.generate(); print('ok'); return 0
    if sys.argv[1] == '--replay':
        h, fl, inst, hx = sys.argv[2:6]
        t = build.Tree(); exe = build.build_native(t, h.split('+')[0], with_cmd='+cmd' in h, flavour=fl)
        return subprocess.call([exe, '--replay', inst, hx] + sys.argv[6:])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    os.makedirs(V + '/build', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=V + '/build')
    ev = V + '/evidence/%s.json' % prop
    try:
        os.unlink(ev)
    except OSError:
        pass
    kn = known()
    ids = [k for k, v in kn.items() if v[0] == prop]
    jobs = []
    try:
        return run(prop, chk, tier, seed, tmp, ev, kn, ids, jobs, t0)
    finally:
        for j in jobs:
            j.kill() if hasattr(j, 'procs') else None
        shutil.rmtree(tmp, ignore_errors=True)
        build.prune()

def run(prop, chk, tier, seed, tmp, ev, kn, ids, jobs, t0):
    tree = build.Tree()
    specs = [s for s in chk['jobs'] if tier in s.get('tiers', ('quick', 'thorough'))]
    total = chk.get('total', {}).get(tier, 150 if tier == 'quick' else 700)
    for s in specs:
        jobs.append(Job(prop, s, tier, seed, tmp, ids))
    try:
        for j in jobs:
            j.build(tree)
    except build.BuildError as e:
        print('check %s: cannot build: %s' % (prop, e)); return 2
    tb = time.time() - t0
    hard = t0 + (840 if tier == 'thorough' else 800)
    found = None; unrep = []; seenkey = {}
    nrep = 0
    for n, j in enumerate(jobs):
        share = (total - (time.time() - t0 - tb)) * j.spec.get('weight', 1) / sum(x.spec.get('weight', 1) for x in jobs[n:])
        share = max(5.0, min(share, hard - time.time() - 60))
        j.start(share, j.spec.get('budget', {}).get(tier, 60 if tier == 'quick' else 300))
        while True:
            new = j.poll()
            for r in new:
                for v in r.get('violations', []):
                    key = (j.h, r['instance'], v['msg'])
                    if seenkey.get(key, 0) >= 2 or nrep > 60:
                        continue
                    seenkey[key] = seenkey.get(key, 0) + 1; nrep += 1
                    ok, fl, out = j.replay(tree, r['instance'], v['input'], 30)
                    if ok:
                        found = (j, r['instance'], v, fl, out); break
                    unrep.append((j.h, r['instance'], v, out[-300:]))
                if found:
                    break
            if found or not j.procs:
                break
            time.sleep(0.2)
        j.kill()
        if found:
            break
        for r in j.poll() if not j.procs else []:
            pass
    # paths run again against the native build
    val = {'run': 0, 'agree': 0, 'mismatch': [], 'asan': 0}
    if not found:
        cap = chk.get('validate', {}).get(tier, 2500 if tier == 'quick' else 20000)
        for j in jobs:
            cases, want = [], {}
            rs = [r for r in j.records if r.get('samples')]
            per = max(2, cap // max(1, len(rs)) // len(jobs))
            for r in rs:
                s = r['samples']
                if len(s) > per:
                    st = len(s) / per
                    s = [s[int(i * st)] for i in range(per)]
                for hx, dg in s:
                    cases.append((r['instance'], hx)); want[(r['instance'], hx)] = dg
            if not cases:
                continue
            for fl in j.spec.get('validate', ['native']):
                cs = cases if fl == 'native' else cases[::max(1, len(cases) // (cap // 2) or 1)]
                left = hard - time.time() - 20
                if left < 5:
                    break
                for c in batch(j, tree, cs, fl, min(left, 60 if tier == 'quick' else 200)):
                    val['run' if fl == 'native' else 'asan'] += 1
                    if c['fail']:
                        ok, f2, out = j.replay(tree, c['case'][0], c['case'][1], 30)
                        if ok:
                            found = (j, c['case'][0], {'msg': 'a path representative fails natively: ' + c['fail'].split('\n')[0][:200], 'note': '', 'input': c['case'][1]}, f2, out); break
                    if fl == 'native' and c['out'] is not None:
                        if c['out'] == want[c['case']]:
                            val['agree'] += 1
                        else:
                            val['mismatch'].append(c['case'])
                if found:
                    break
            if found:
                break
    recs = [r for j in jobs for r in j.records if 'paths' in r]
    skipped = [r for j in jobs for r in j.records if 'skipped' in r]
    tot = lambda k: sum(r.get(k, 0) for r in recs)
    cover = {}
    for r in recs:
        for k, v in r['cover'].items():
            cover[k] = cover.get(k, 0) + v
    complete = [r for r in recs if r['complete']]
    undecided = [[r['instance'], r['why'], r.get('engine_msg', '')[:200]] for r in recs if not r['complete']]
    missing = [c for j in jobs for c in j.spec.get('covers', []) if not cover.get(c)]
    sk = {}
    for r in skipped:
        sk[r['skipped']] = sk.get(r['skipped'], 0) + 1
    fns = sorted(set().union(*[j.fns for j in jobs])) if jobs else []
    dm = [x for x in demangle(fns) if x and not x.startswith(('std::', '__gnu_cxx', 'boost::', 'void std::', 'harness', 'ref::', 'bool std::', 'auto std::', 'decltype'))]
    samples = []
    for r in recs[::max(1, len(recs) // 6)][:6]:
        samples.append({'instance': r['instance'], 'paths': r['paths'], 'queries': r['queries'], 'unsat': r['unsat'], 'solver_s': r['solver_s'], 'inputs_of_some_paths': [s[0] for s in r['samples'][:3]]})
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 1), 'violations': 1 if found else 0,
         'assumptions': chk.get('assumptions', []),
         'coverage': {'states': tot('paths') + tot('assumed_away'), 'transitions': tot('branches'), 'traces_validated_against_impl': val['agree'],
             'traces_run_under_sanitizers': val['asan'], 'samples': samples, 'bounds': chk.get('bounds', {}).get(tier, chk.get('bounds', '')) if isinstance(chk.get('bounds'), dict) else chk.get('bounds', ''),
             'instances': len(recs), 'instances_explored_completely': len(complete), 'instances_undecided': undecided[:60], 'n_undecided': len(undecided), 'instances_skipped': sk,
             'paths': tot('paths'), 'solver_queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'answered_from_cache': tot('cache_hits'), 'decided_without_solver': tot('implied'),
             'solver_s': round(tot('solver_s'), 1), 'max_query_s': max([r['max_query_s'] for r in recs] or [0]), 'pinned_values': tot('pins'), 'witnesses_reached': cover,
             'functions_executed_symbolically': len(dm), 'functions': dm[:400], 'build_s': round(tb, 1), 'exhaustive': bool(recs) and not undecided,
             'harnesses': [{'harness': j.h, 'args': j.args, 'respawns': j.respawns, 'worker_errors': j.bad[:5]} for j in jobs if hasattr(j, 'respawns')],
             'digest_mismatches': [list(x) for x in val['mismatch'][:10]], 'unreproduced_counterexamples': [[h, i, v['msg'], v['note'], v['input']] for h, i, v, o in unrep[:10]]}}
    with open(ev + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(ev + '.tmp', ev)
    for k in sorted(cover):
        if k.startswith('known:') and k[6:] in ids:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, k[6:], kn[k[6:]][1]))
    c = e['coverage']
    print('%s %s: %d instances (%d complete), %d paths, %d branches, %d queries, %.1f s solver, %d paths agree with the native build, %.1f s' % (prop, tier, c['instances'], c['instances_explored_completely'], c['paths'], c['transitions'], c['solver_queries'], c['solver_s'], val['agree'], e['wall_s']))
    if found:
        j, inst, v, fl, out = found
        d = V + '/build/replay'; os.makedirs(d, exist_ok=True)
        hh = hashlib.sha256((j.h + inst + v['input'] + v['msg']).encode()).hexdigest()[:12]
        path = '%s/%s-%s.sh' % (d, prop, hh)
        with open(path, 'w') as f:
            f.write('#!/bin/sh\n# %s\n# %s\n# input bytes (hex): %s\n' % (v['msg'], (v['note'] or '').replace('\n', ' '), v['input']))
            f.write('exec python3 %s/check.py --replay %s %s %s %s %s\n' % (V, j.h + ('+cmd' if j.cmd else ''), fl, shlex.quote(inst), v['input'] or "''", ' '.join(shlex.quote(a) for a in j.args)))
            f.write(''.join('# ' + l + '\n' for l in out.split('\n')[-40:]))
        os.chmod(path, 0o755)
        print('%s: %s: %s %s input=%s' % (prop, inst, v['msg'], v['note'], v['input']))
        print(''.join('  | ' + l + '\n' for l in out.strip().split('\n')[-8:]), end='')
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if unrep:
        print('%d counterexamples did not reproduce against the real code: %s' % (len(unrep), unrep[0][:3]))
    if val['mismatch']:
        print('%d paths behave differently in the native build, e.g. %s' % (len(val['mismatch']), val['mismatch'][0]))
    if not complete or missing or val['mismatch'] or unrep:
        print('%s: no answer (complete=%d, witnesses not reached: %s)' % (prop, len(complete), missing))
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
