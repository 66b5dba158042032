"""A worker process: imports the staged traceon, runs the cases it is sent, answers with what the monitors observed."""
import importlib
import json
import os
import signal
import sys
import time
import traceback


class Violated(Exception):
    """Raised to end a case whose remaining observations make no sense after a violation."""


class Ctx:
    def __init__(self, case, seed, tier):
        import numpy as np
        self.case, self.seed, self.tier = case, seed, tier
        self.np = np
        self.monitors, self.events, self.states, self.worst = {}, {}, {}, {}
        self.violations, self.keys, self.sample = [], set(), {}
        self.rng = np.random.default_rng([seed & 0x7fffffff, int(case.get('s', case['n'])), 7919])
        self.scratch = os.environ['MON_SCRATCH']

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def state(self, name, value):
        s = self.states.setdefault(name, [])
        v = str(value)[:80]
        if v not in s and len(s) < 400:
            s.append(v)

    def nontrivial(self, *parts):
        """Count a distinct non-trivial input: the key is built from the values that make it distinct."""
        np = self.np

        def norm(p):
            if isinstance(p, np.ndarray):
                return p.tobytes().hex()[:4000]
            return repr(p)
        import hashlib
        self.keys.add(hashlib.sha1('|'.join(norm(p) for p in parts).encode()).hexdigest()[:12])

    def note(self, **kw):
        for k, v in kw.items():
            if k not in self.sample and len(self.sample) < 14:
                self.sample[k] = v if isinstance(v, (int, str, bool)) else str(v)[:200]

    def violation(self, monitor, msg, key=None, data=None):
        if len(self.violations) < 6:
            self.violations.append(dict(monitor=monitor, message=str(msg)[:1500], key=key or monitor, data=data))

    def check(self, monitor, ok, msg='', key=None):
        self.monitors[monitor] = self.monitors.get(monitor, 0) + 1
        if not ok:
            self.violation(monitor, msg() if callable(msg) else msg, key)
        return bool(ok)

    def close(self, monitor, got, want, tol, msg='', key=None):
        """|got - want| <= tol (elementwise, absolute); records how near the tolerance the worst observation came."""
        np = self.np
        got, want, tol = np.asarray(got, float), np.asarray(want, float), np.asarray(tol, float)
        self.monitors[monitor] = self.monitors.get(monitor, 0) + max(1, int(got.size))
        if got.shape != want.shape and got.size != want.size and want.size != 1:
            self.violation(monitor, f'{msg}: shape {got.shape} where {want.shape} was expected', key)
            return False
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
            ratio = np.where(np.isfinite(err), err/np.maximum(tol, 1e-300), np.inf)
        r = float(np.max(ratio)) if ratio.size else 0.0
        self.worst[monitor] = max(self.worst.get(monitor, 0.0), min(r, 1e30))
        if not r <= 1.0:
            i = np.unravel_index(int(np.argmax(ratio)), ratio.shape) if ratio.ndim else ()
            g = got[i] if got.ndim else got
            w = np.broadcast_to(want, ratio.shape)[i] if ratio.ndim else want
            t = np.broadcast_to(tol, ratio.shape)[i] if ratio.ndim else tol
            self.violation(monitor, f'{msg() if callable(msg) else msg}: got {g!r}, expected {w!r}, tolerance {t!r}', key)
            return False
        return True

    def require(self, monitor, ok, msg=''):
        if not self.check(monitor, ok, msg):
            raise Violated()

    def raises(self, monitor, fun, msg='', exc=Exception):
        try:
            fun()
        except exc:
            return self.check(monitor, True)
        return self.check(monitor, False, msg)


STUCK, SLOW = 71, 72


def watchdog(folder, cpu):
    """After cpu seconds of CPU time, look twice: the same call into traceon still running -> STUCK, otherwise the harness
    is what is slow -> SLOW. A call that never comes back from native code is ended by the hard CPU limit."""
    import resource
    seen = []

    def outermost(frame):
        found = None
        while frame is not None:
            if os.path.realpath(frame.f_code.co_filename).startswith(folder + '/'):
                found = frame
            frame = frame.f_back
        return found

    def fired(signum, frame):
        seen.append(outermost(frame))
        if len(seen) >= 2:
            sys.stderr.write(''.join(traceback.format_stack(frame))[-3000:])
            sys.stderr.flush()
            os._exit(STUCK if seen[0] is not None and seen[0] is seen[1] else SLOW)
    if cpu == 0:
        signal.setitimer(signal.ITIMER_PROF, 0)
        resource.setrlimit(resource.RLIMIT_CPU, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        return
    signal.signal(signal.SIGPROF, fired)
    signal.setitimer(signal.ITIMER_PROF, cpu, 20)
    r = resource.getrusage(resource.RUSAGE_SELF)
    resource.setrlimit(resource.RLIMIT_CPU, (int(r.ru_utime + r.ru_stime + cpu + 60), resource.RLIM_INFINITY))


def main():
    prop, r_fd, w_fd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    seed, tier, cpu = int(os.environ['MON_SEED']), os.environ['MON_TIER'], float(os.environ['MON_CPU'])
    sys.dont_write_bytecode = True
    folder = os.path.realpath(os.environ['MON_STAGE'])
    import numpy as np
    import traceon
    import traceon.backend  # noqa: F401
    real = os.path.realpath(traceon.__file__)
    assert real.startswith(folder + '/'), (real, folder)
    for name in ('excitation', 'focus', 'geometry', 'interpolation', 'logging', 'mesher', 'solver', 'tracing', 'util'):
        importlib.import_module('traceon.' + name)
    mod = importlib.import_module('mon.props.' + prop.lower())
    rf = os.fdopen(r_fd, 'r')
    os.write(w_fd, b'{"hello": 1}\n')
    for line in rf:
        case = json.loads(line)
        ctx = Ctx(case, seed, tier)
        t0 = time.monotonic()
        error = None
        np.random.seed((seed*1000003 + case['n']) % (2**32 - 1))
        watchdog(folder, cpu)
        try:
            mod.run_case(ctx, case)
        except Violated:
            pass
        except BaseException as e:   # noqa: B902  (what the code under test raises is an observation)
            frames = traceback.extract_tb(e.__traceback__)
            owner = None
            for f in frames:
                fn = os.path.realpath(f.filename)
                if fn.startswith(folder + '/'):
                    owner = 'traceon'
                elif '/mon/' in fn:
                    owner = 'harness'
            text = traceback.format_exc()[-2500:]
            if owner == 'traceon' and not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                last = [f for f in frames if os.path.realpath(f.filename).startswith(folder + '/')][-1]
                ctx.violation('no-exception', f'{type(e).__name__}: {str(e)[:300]} raised on valid input '
                              f'(in {os.path.basename(last.filename)}:{last.name})', data=text)
            elif ctx.violations:
                pass    # fallout of a violation that is already recorded
            else:
                error = text
        finally:
            watchdog(folder, 0)
        out = dict(monitors=ctx.monitors, events=ctx.events, states=ctx.states, worst=ctx.worst, keys=sorted(ctx.keys),
                   violations=ctx.violations, sample=ctx.sample, error=error, wall=time.monotonic() - t0)
        os.write(w_fd, (json.dumps(out, default=str) + '\n').encode())


if __name__ == '__main__':
    main()
