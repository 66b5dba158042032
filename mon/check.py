#!/usr/bin/env python3
"""Runner of one check:  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--case JSON]

1. stages /repo's working tree in a scratch folder and compiles its native backend there (one build per sanitizer variant),
2. feeds the cases of mon/props/<id>.py to worker processes that import the staged package and run the monitors,
3. judges: 0 held on everything observed, 1 violated (VIOLATION line), 2 inconclusive or an error of the machinery.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', *sys.argv])
from mon import stage  # noqa: E402

VENV = '/opt/venv/bin/python'
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(EVIDENCE, 'replay')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
WALL_TOTAL = {'quick': 700.0, 'thorough': 3600.0*3}
CASE_WALL = 450.0


def known_findings(prop):
    """Lines `finding: property=C01 key=<mechanism> <what fails>` (lines `fixed: ...` suppress nothing)."""
    found = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('finding:') and f'property={prop} ' in line:
                parts = dict(w.split('=', 1) for w in line.split() if '=' in w)
                if 'key' in parts:
                    found[parts['key']] = line[len('finding:'):].strip()
    return found


class Worker:
    """A process that imports the staged package and runs cases one at a time."""

    def __init__(self, prop, folder, variant, threads, scratch, seed, tier, n, cpu):
        self.scratch = scratch
        self.err_path = os.path.join(scratch, f'stderr-{variant}-{threads}-{n}')
        self.err = open(self.err_path, 'w+b')
        env = {k: v for k, v in os.environ.items()
               if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
        env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
                   OMP_NUM_THREADS='1', TRACEON_LOG_LEVEL='silent', TRACEON_THREADS=str(threads),
                   PYTHONPATH=folder + ':' + VERIF, PYTHONUTF8='1', HOME='/root', LANG='C.UTF-8',
                   MON_SCRATCH=scratch, MON_SEED=str(seed), MON_TIER=tier, MON_VARIANT=variant, MON_CPU=str(cpu),
                   MON_STAGE=folder)
        if variant == 'asan':
            env['LD_PRELOAD'] = stage.runtime('asan')
            env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=100000000:malloc_fill_byte=255'
            env['UBSAN_OPTIONS'] = 'halt_on_error=1:print_stacktrace=1:exitcode=66'
            env['PYTHONMALLOC'] = 'malloc'
        if variant == 'tsan':
            env['LD_PRELOAD'] = stage.runtime('tsan')
            env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'
        r_child, self.w = os.pipe()
        self.r, w_child = os.pipe()
        self.p = subprocess.Popen([VENV, '-m', 'mon.worker', prop, str(r_child), str(w_child)], env=env,
                                  stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                  pass_fds=(r_child, w_child), cwd=scratch, start_new_session=True)
        os.close(r_child)
        os.close(w_child)
        self.buf = b''

    def read_line(self, deadline):
        while b'\n' not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                return 'timeout'
            ready, _, _ = select.select([self.r], [], [], min(left, 5.0))
            if ready:
                chunk = os.read(self.r, 1 << 16)
                if not chunk:
                    return 'eof'
                self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def send(self, obj):
        try:
            os.write(self.w, (json.dumps(obj) + '\n').encode())
        except BrokenPipeError:
            pass

    def stderr(self):
        self.err.flush()
        data = open(self.err_path, 'rb').read().decode(errors='replace')
        return data

    def end(self, kill=False):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        if kill:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            rc = self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            rc = self.p.wait()
        self.err.close()
        return rc


class Run:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module('mon.props.' + prop.lower())
        self.cases = only if only is not None else self.mod.cases(tier, seed)
        for i, c in enumerate(self.cases):
            c.setdefault('n', i)
            c.setdefault('variant', 'prod')
            c.setdefault('threads', (1, 2, 3, 4)[i % 4])
        self.lock = threading.Lock()
        self.results, self.violations, self.errors, self.skipped = [], [], [], 0
        self.inconclusive = []
        self.started = time.monotonic()
        self.deadline = self.started + float(os.environ.get('MON_WALL', WALL_TOTAL[tier]))

    def violate(self, case, monitor, msg, data=None, key=None):
        with self.lock:
            self.violations.append(dict(case=case, monitor=monitor, message=msg, data=data, key=key or monitor))

    def queue_worker(self, q, folder, variant, threads, scratch, n):
        w = None
        cpu = getattr(self.mod, 'CPU_LIMIT', 240)
        starts = 0
        try:
            while True:
                with self.lock:
                    if not q:
                        return
                    if time.monotonic() > self.deadline or len(self.violations) > 12 or len(self.errors) > 12:
                        self.skipped += len(q)
                        q.clear()
                        return
                    case = q.popleft()
                if w is None:
                    starts += 1
                    w = Worker(self.prop, folder, variant, threads, scratch, self.seed, self.tier, f'{n}-{starts}', cpu)
                    hello = w.read_line(time.monotonic() + 120)
                    if hello != {'hello': 1}:
                        with self.lock:
                            self.errors.append(f'worker did not start: {hello}: {w.stderr()[-3000:]}')
                        w.end(kill=True)
                        w = None
                        return
                w.send(case)
                res = w.read_line(time.monotonic() + CASE_WALL)
                if isinstance(res, dict):
                    with self.lock:
                        res['case'] = case
                        self.results.append(res)
                        for v in res['violations']:
                            self.violations.append(dict(case=case, **v))
                        if res.get('error'):
                            self.errors.append(f'case {json.dumps(case)}: {res["error"]}')
                    continue
                if res == 'timeout':
                    with self.lock:
                        self.inconclusive.append(f'case {json.dumps(case)} exceeded the wall-clock watchdog')
                    w.end(kill=True)
                    w = None
                    continue
                rc = w.end()
                try:
                    text = open(w.err_path, 'rb').read().decode(errors='replace')
                except OSError:
                    text = ''
                w = None
                san = [ln for ln in text.splitlines()
                       if 'runtime error:' in ln or 'ERROR: AddressSanitizer' in ln or 'WARNING: ThreadSanitizer' in ln]
                if san:
                    i = text.find(san[0])
                    kind = 'data race' if 'ThreadSanitizer' in san[0] else 'memory/UB'
                    self.violate(case, 'sanitizer', f'{kind} report: {san[0].strip()[:300]}', data=text[i:i + 3500])
                elif rc == 72:
                    with self.lock:
                        self.inconclusive.append(f'case {json.dumps(case)}: the harness needed more than {cpu} s of CPU time')
                elif rc in (71, -signal.SIGXCPU):
                    self.violate(case, 'bounded-progress', f'no result within {cpu} s of CPU time in one call (cases of this kind need a few seconds)', data=text[-2500:])
                elif rc in (-signal.SIGKILL, -signal.SIGTERM):
                    with self.lock:
                        self.inconclusive.append(f'case {json.dumps(case)}: worker ended from outside (signal {-rc})')
                elif rc < 0:
                    self.violate(case, 'process-alive', f'the process died of signal {signal.Signals(-rc).name}', data=text[-2500:])
                else:
                    self.violate(case, 'process-alive', f'the process exited with status {rc} in the middle of a case', data=text[-2500:])
        except Exception:
            with self.lock:
                self.errors.append('runner: ' + traceback.format_exc())
        finally:
            if w is not None:
                w.end()

    def go(self):
        scratch = tempfile.mkdtemp(prefix='traceon-mon-')
        try:
            try:
                folders = {v: stage.stage(v, scratch) for v in sorted({c['variant'] for c in self.cases})}
            except stage.BuildError as e:
                self.errors.append('build failed: ' + str(e))
                return
            groups = collections.OrderedDict()
            for c in self.cases:
                groups.setdefault((c['variant'], c['threads']), collections.deque()).append(c)
            slots = int(os.environ.get('MON_JOBS', '8'))
            total = len(self.cases)
            threads = []
            alloc = {}
            for k, q in groups.items():
                alloc[k] = max(1, min(len(q), round(slots*len(q)/max(total, 1))))
            for k, q in groups.items():
                for n in range(alloc[k]):
                    t = threading.Thread(target=self.queue_worker, args=(q, folders[k[0]], k[0], k[1], scratch, n))
                    t.start()
                    threads.append(t)
            for t in threads:
                t.join()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    # -------------------------------------------------------------- verdict
    def summary(self):
        mons, events, states, keys, worst = (collections.Counter(), collections.Counter(), collections.defaultdict(set), set(), {})
        for r in self.results:
            mons.update(r['monitors'])
            events.update(r['events'])
            for k, v in r['states'].items():
                states[k].update(v)
            keys.update(r['keys'])
            for k, v in r['worst'].items():
                if k not in worst or v > worst[k]:
                    worst[k] = v
        return mons, events, states, keys, worst

    def finish(self, write_evidence=True):
        mons, events, states, keys, worst = self.summary()
        findings = known_findings(self.prop)
        listed = [v for v in self.violations if v.get('key') in findings]
        fresh = [v for v in self.violations if v.get('key') not in findings]
        os.makedirs(REPLAY, exist_ok=True)
        for k in sorted({v['key'] for v in listed}):
            print(f'KNOWN-FINDING: {findings[k]}')
        paths = []
        for v in fresh:
            h = hashlib.sha1(json.dumps([self.prop, v['case'], v['monitor']], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(REPLAY, f'{self.prop}-{h}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **v), f, indent=1)
            paths.append((path, v))
        missing = []
        required = getattr(self.mod, 'REQUIRED', {})
        for name, n in required.items():
            if mons[name] + events[name] < n:
                missing.append(f'{name}: observed {mons[name] + events[name]}, needs {n}')
        wall = time.monotonic() - self.started
        if write_evidence:
            os.makedirs(EVIDENCE, exist_ok=True)
            samples = []
            kinds = set()
            for r in self.results:
                k = r['case'].get('kind')
                if k in kinds and len(samples) >= 3:
                    continue
                kinds.add(k)
                samples.append(dict(case=r['case'], observed=r['sample'], monitors=r['monitors']))
                if len(samples) >= 12:
                    break
            ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration',
                      coverage=dict(evaluations=len(self.results), distinct_nontrivial=len(keys), rule=self.mod.RULE,
                                    samples=samples, oracle_evaluations=dict(mons), events=dict(events),
                                    distinct_states={k: len(v) for k, v in states.items()},
                                    worst_error_over_tolerance={k: float(f'{v:.3g}') for k, v in worst.items()},
                                    case_kinds=dict(collections.Counter(str(c.get('kind')) for c in self.cases)),
                                    cases_planned=len(self.cases), cases_skipped=self.skipped,
                                    inconclusive=self.inconclusive[:20], required_observations=dict(required),
                                    builds=sorted({c['variant'] for c in self.cases})),
                      assumptions=getattr(self.mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(fresh))
            with open(os.path.join(EVIDENCE, f'{self.prop}.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print(f'{self.prop} {self.tier} seed={self.seed}: {len(self.results)}/{len(self.cases)} cases, '
              f'{sum(mons.values())} oracle evaluations, {len(keys)} distinct non-trivial, {wall:.1f} s')
        if os.environ.get('MON_VERBOSE'):
            for k in sorted(mons):
                print(f'   {k:45s} {mons[k]:7d}  worst err/tol {worst.get(k, float("nan")):.3g}')
            for k in sorted(events):
                print(f'   event {k:39s} {events[k]:7d}')
            for k in sorted(states):
                print(f'   states {k:38s} {len(states[k]):7d}')
            slow = sorted(self.results, key=lambda r: -r['wall'])[:4]
            tot = collections.Counter()
            for r in self.results:
                tot[str(r['case'].get('prop', '')) + str(r['case'].get('sub', r['case']).get('kind'))] += r['wall']
            print('   wall: ' + ', '.join(f'{k} {v:.0f}s' for k, v in tot.most_common(14)))
            print('   slowest: ' + ', '.join(f'{r["case"].get("kind")}#{r["case"]["n"]} {r["wall"]:.1f}s' for r in slow))
        if fresh:
            for path, v in paths[:15]:
                print(f'  {v["monitor"]}: {v["message"][:600]}   case={json.dumps(v["case"])[:300]}')
            for path, v in paths[:15]:
                print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print('ERROR of the check: ' + e[-3500:], file=sys.stderr)
            return 2
        if missing or (self.inconclusive and not self.results):
            print('INCONCLUSIVE: monitors not reached often enough: ' + '; '.join(missing + self.inconclusive[:3]), file=sys.stderr)
            return 2
        if self.inconclusive:
            print('INCONCLUSIVE cases: ' + '; '.join(self.inconclusive[:5]), file=sys.stderr)
            return 2
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--kind', help='only the cases of this kind (for development)')
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        case = dict(rec['case'])
        run = Run(rec['property'], rec['tier'], rec['seed'], only=[case])
        run.go()
        mod_required = getattr(run.mod, 'REQUIRED', None)
        if mod_required:
            run.mod.REQUIRED = {}
        sys.exit(run.finish(write_evidence=False))
    run = Run(a.prop, a.tier, a.seed)
    if a.kind:
        run.cases = [c for c in run.cases if c.get('kind') == a.kind]
        run.mod.REQUIRED = {}
    run.go()
    sys.exit(run.finish(write_evidence=not a.kind))


if __name__ == '__main__':
    main()
