"""C17: work that is split over threads is observed chunk by chunk under injected delays and failures, solves are repeated with many thread counts, and the
ThreadSanitizer build watches the memory accesses of concurrent solves, evaluations and traces."""
import os
import sys
import threading
import time

import numpy as np

RULE = ('functions with delays and failures split over 1..64 threads; radial and three dimensional electrostatic, magnetostatic and dielectric problems of 1..200 elements '
        'solved with up to N+40 threads; axial derivatives of few and many points; concurrent solves, evaluations and traces on the ThreadSanitizer build; non-trivial '
        'when more than one thread did work')
ASSUMPTIONS = ['ThreadSanitizer sees the accesses of the native backend, not those of numpy and the interpreter (which hold the interpreter lock)',
               'native calls only race when they overlap in time: the problems on the instrumented build are made large enough for that']
REQUIRED = {'once-and-in-order': 150, 'failure-surfaces': 80, 'threads-joined': 200, 'charges-equal': 100, 'matrix-equal': 60, 'axial-equal': 60, 'tsan-solve': 10,
            'tsan-shared': 60, 'thread-count': 40, 'lost-failure-axial': 10, 'chunks-overlapping': 100}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('split', 60), ('failure', 50), ('count', 12), ('solve', 72), ('axial', 24), ('badaxial', 12), ('shared', 16)):
        for i in range(n if q else 7*n):
            out.append(dict(kind=kind, mode=i))
    for i in range(20 if q else 120):
        out.append(dict(kind='tsan', mode=i, variant='tsan', threads=8))
    for i in range(8 if q else 60):
        out.append(dict(kind='tsanshared', mode=i, variant='tsan', threads=8))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    before = os.environ.get('TRACEON_THREADS')
    try:
        globals()['run_' + case['kind']](ctx, case, ctx.rng)
    finally:
        os.environ['TRACEON_THREADS'] = before


def with_threads(n, f):
    os.environ['TRACEON_THREADS'] = str(n)
    return f()


# ------------------------------------------------------------------ split_collect itself
class Recorder:
    """The function handed out to the threads: notes what it is given and when, waits a little, and may fail."""

    def __init__(self, rng, fail=(), delays=True, log=None):
        self.seen, self.lock, self.live, self.peak, self.order = [], threading.Lock(), 0, 0, []
        self.delays = rng.exponential(.002, size=80)*(rng.random(80) < .6) if delays else np.zeros(80)
        self.fail = set(fail)
        self.raised = []

    def __call__(self, chunk):
        with self.lock:
            k = len(self.seen)
            self.seen.append((threading.get_ident(), np.array(chunk)))
            self.live += 1
            self.peak = max(self.peak, self.live)
            self.order.append(('start', chunk.flat[0] if chunk.size else -1))
        try:
            time.sleep(self.delays[k % 80])
            ids = {int(x) for x in np.asarray(chunk).reshape(len(chunk), -1)[:, 0]} if len(chunk) else set()
            bad = ids & self.fail
            if bad:
                e = [ValueError, ZeroDivisionError, KeyError, RuntimeError, AssertionError, KeyboardInterrupt][min(bad) % 6](f'injected {min(bad)}')
                self.raised.append(e)
                raise e
            return 2*np.asarray(chunk) + 1
        finally:
            with self.lock:
                self.live -= 1
                self.order.append(('end', chunk.flat[0] if chunk.size else -1))


def random_work(rng):
    n = int(rng.choice([0, 1, 2, 3, rng.integers(4, 12), rng.integers(10, 200), rng.integers(200, 3000)]))
    a = np.arange(n)
    if rng.random() < .4:
        a = np.stack([a, rng.integers(0, 9, n), -a], axis=1)
    if rng.random() < .3:
        a = a.astype(float)
    return a


def run_split(ctx, case, rng):
    from traceon import util
    sys.setswitchinterval(float(10**rng.uniform(-6, -2.3)))
    try:
        for _ in range(4):
            a, t = random_work(rng), int(rng.choice([1, 2, 3, 4, 7, 8, 16, 64]))
            keep = a.copy()
            f = Recorder(rng)
            alive = threading.active_count()
            r = with_threads(t, lambda: util.split_collect(f, a))
            ctx.check('threads-joined', f.live == 0 and threading.active_count() == alive, 'split_collect returned while threads were still at work')
            ctx.event('chunks-overlapping', f.peak if f.peak > 1 else 0)
            ctx.check('once-and-in-order', isinstance(r, list) and len(r) >= 1, f'split_collect returned {type(r)}')
            got = np.concatenate([np.asarray(x) for x in r]) if r else None
            ctx.check('once-and-in-order', got is not None and got.shape == a.shape and np.array_equal(got, 2*keep + 1),
                      f'{len(a)} elements over {t} threads: the results are not those of the elements in order')
            ids = np.sort(np.concatenate([np.asarray(c).reshape(len(c), -1)[:, 0] if len(c) else np.zeros(0) for _, c in f.seen]))
            ctx.check('once-and-in-order', np.array_equal(ids, np.arange(len(a))), f'{len(a)} elements over {t} threads: not every element was handled exactly once')
            ctx.check('once-and-in-order', len(f.seen) <= max(1, min(t, len(a))), f'{len(f.seen)} chunks for {len(a)} elements over {t} threads')
            ctx.check('once-and-in-order', f.peak <= t, f'{f.peak} chunks at the same time with {t} threads')
            ctx.check('once-and-in-order', np.array_equal(a, keep), 'split_collect changed its argument')
            ctx.state('interleaving', tuple(f.order)[:24])
            if f.peak > 1:
                ctx.nontrivial(a, t)
    finally:
        sys.setswitchinterval(.005)


def run_failure(ctx, case, rng):
    from traceon import util
    for _ in range(3):
        n, t = int(rng.integers(1, 300)), int(rng.choice([1, 2, 3, 5, 8, 33]))
        fail = rng.choice(n, size=int(rng.integers(1, min(n, 4) + 1)), replace=False)
        f = Recorder(rng, fail)
        alive = threading.active_count()
        got = None
        try:
            with_threads(t, lambda: util.split_collect(f, np.arange(n)))
        except BaseException as e:
            got = e
        ctx.check('failure-surfaces', f.raised == [] or got is not None, f'failures at {fail} of {n} elements over {t} threads were lost')
        ctx.check('failure-surfaces', len(f.raised) > 0, 'no element failed')
        if got is not None:
            same = any(got is e or got.__cause__ is e or got.__context__ is e or str(e) in str(got) for e in f.raised)
            ctx.check('failure-surfaces', same, f'{got!r} surfaced where {f.raised} was raised')
        ctx.check('threads-joined', f.live == 0 and threading.active_count() == alive, 'threads still at work after a failure')
        # nothing lingers
        r = with_threads(t, lambda: util.split_collect(Recorder(rng), np.arange(n)))
        ctx.check('once-and-in-order', np.array_equal(np.concatenate(r), 2*np.arange(n) + 1), 'results after a failure')
        ctx.nontrivial(n, t, fail)


def run_count(ctx, case, rng):
    from unittest import mock
    from traceon import util
    for n in (1, 2, 3, 17, 64):
        ctx.check('thread-count', with_threads(n, util.get_number_of_threads) == n, 'TRACEON_THREADS is not honoured')
    env = {k: v for k, v in os.environ.items() if k != 'TRACEON_THREADS'}
    with mock.patch.dict(os.environ, env, clear=True):
        for cpus in (1, 2, 3, 4, 7, 8, 64, 129):
            with mock.patch.object(os, 'sched_getaffinity', lambda pid: set(range(cpus)), create=True), mock.patch.object(os, 'cpu_count', lambda: cpus):
                n = util.get_number_of_threads()
                ctx.check('thread-count', isinstance(n, int) and 1 <= n <= cpus, f'{n} threads on {cpus} processors')
                r = util.split_collect(Recorder(rng, delays=False), np.arange(10))
                ctx.check('thread-count', np.array_equal(np.concatenate(r), 2*np.arange(10) + 1), 'wrong results without TRACEON_THREADS')
        with mock.patch.object(os, 'cpu_count', lambda: None), mock.patch.object(os, 'sched_getaffinity', lambda pid: set(), create=True):
            n = util.get_number_of_threads()
            ctx.check('thread-count', n >= 1, f'{n} threads when the number of processors is unknown')
    ctx.nontrivial('count', case['mode'])


# ------------------------------------------------------------------ solves
def problem(rng, kind, n):
    """An excitation with about n active elements."""
    import traceon.excitation as E
    from mon.lib import cluster_3d, mesh_3d, mesh_radial, radial_stack
    from traceon.geometry import Surface
    from traceon.mesher import Mesh
    if kind.startswith('tiny'):
        n = int(rng.integers(1, 7))
        if kind == 'tiny radial':
            x = np.sort(rng.uniform(.2, 2, n + 1))
            P = np.stack([x, 0*x, rng.uniform(-1, 1, n + 1)], axis=1)
            m = Mesh(P, lines=np.array([[i, i + 1] for i in range(n)]), physical_to_lines={'a': np.arange(n)}, ensure_outward_normals=False)._to_higher_order_mesh()
            exc = E.Excitation(m, E.Symmetry.RADIAL)
        else:
            P = rng.normal(size=(3*n, 3)) + np.repeat(4.*np.arange(n), 3)[:, None]
            m = Mesh(P, triangles=np.arange(3*n).reshape(n, 3), physical_to_triangles={'a': np.arange(n)}, ensure_outward_normals=False)
            exc = E.Excitation(m, E.Symmetry.THREE_D)
        exc.add_voltage(a=float(rng.uniform(1, 10)))
        return exc
    if kind.startswith('radial'):
        els = radial_stack(rng, 3)
        m = mesh_radial(els, max(3, n//3), True)
        if 'coil' in kind:
            lo = min(e.poly[:, 1].min() for e in els)
            c = Surface.rectangle_xz(.5, 1., float(lo - 3), float(lo - 2))
            c.name = 'coil'
            m = m + c.mesh(mesh_size=.5)
        exc = E.Excitation(m, E.Symmetry.RADIAL)
    else:
        els = cluster_3d(rng, 3)
        m = mesh_3d(els, mesh_size=1.0 if n < 120 else .6)
        exc = E.Excitation(m, E.Symmetry.THREE_D)
    a, b, c = [e.name for e in els]
    if 'magnet' in kind:
        exc.add_magnetostatic_potential(**{a: 3., b: -1.})
        exc.add_magnetizable(**{c: 20.})
        if 'coil' in kind:
            exc.add_current(coil=2.)
    else:
        exc.add_voltage(**{a: 10., b: -3.})
        if rng.random() < .5:
            exc.add_dielectric(**{c: 4.})
        else:
            exc.add_electrostatic_boundary(c)
    return exc


def solver_of(exc):
    import traceon.solver as S
    cls = S.ElectrostaticSolver if exc.is_electrostatic() else S.MagnetostaticSolver
    return cls


KINDS = ['tiny radial', 'tiny 3d', 'radial', '3d', 'radial magnet', '3d magnet', 'radial magnet coil', 'radial', '3d']


def charges_of(f):
    out = []
    for k in ('electrostatic', 'magnetostatic'):
        p = getattr(f, k + '_point_charges')
        out.append(np.array(p.charges, float))
    return np.concatenate(out)


def run_solve(ctx, case, rng):
    import traceon.solver as S
    kind = KINDS[case['mode'] % len(KINDS)]
    exc = problem(rng, kind, int(rng.integers(12, 150)))
    N = len(exc.get_electrostatic_active_elements()[0] if exc.is_electrostatic() else exc.get_magnetostatic_active_elements()[0])
    counts = sorted({1, 2, 3, 5, 8, int(rng.integers(4, 40)), max(N - 1, 1), N, N + 1, N + 40})
    ref = refm = None
    sup = bool(rng.random() < .3) and 'coil' not in kind
    for t in counts:
        f = with_threads(t, lambda: S.solve_direct(exc))
        q = charges_of(f)
        if ref is None:
            ref = q
            ctx.check('charges-equal', np.all(np.isfinite(ref)), 'charges')
        else:
            ctx.close('charges-equal', q, ref, 1e-8*np.abs(ref).max() + 1e-300, f'{kind}: {N} elements, charges with {t} threads and with one')
        if t in (1, 2, N, N + 40):
            m = with_threads(t, lambda: solver_of(exc)(exc).get_matrix()) if has_matrix(S) else None
            if m is not None:
                if refm is None:
                    refm = m
                ctx.close('matrix-equal', m, refm, 1e-11*np.abs(refm).max(), f'{kind}: matrix with {t} threads and with one')
        if t == 2 and sup:
            g1, g2 = (with_threads(k, lambda: S.solve_direct_superposition(exc)) for k in (1, N))
            ctx.check('charges-equal', set(g1) == set(g2), 'superposition names')
            for k in g1:
                ctx.close('charges-equal', charges_of(g2[k]), charges_of(g1[k]), 1e-8*np.abs(charges_of(g1[k])).max() + 1e-300, f'superposition of {k} with {N} threads and one')
    ctx.state('problem', kind)
    ctx.nontrivial(kind, N, ref)


def has_matrix(S):
    return hasattr(getattr(S, 'ElectrostaticSolver', None), 'get_matrix') and hasattr(S, 'MagnetostaticSolver')


def radial_field(rng, coil=True):
    import traceon.solver as S
    return S.solve_direct(problem(rng, 'radial magnet coil' if rng.random() < .5 else 'radial', 30))


def run_axial(ctx, case, rng):
    from traceon.interpolation import FieldRadialAxial
    f = radial_field(rng)
    N = int(rng.choice([3, 4, 5, 7, 20, 100, 301]))
    a = float(rng.uniform(-6, -1))
    b = float(a + rng.uniform(1, 8))
    ref = None
    for t in (1, 2, 3, 4, N - 1, N, N + 1, 50):
        ax = with_threads(max(t, 1), lambda: FieldRadialAxial(f, a, b, N))
        c = np.concatenate([np.asarray(x).ravel() for x in (ax.z, ax.electrostatic_coeffs, ax.magnetostatic_coeffs)])
        ref = c if ref is None else ref
        ctx.close('axial-equal', c, ref, 1e-9*np.abs(ref).max() + 0*c, f'axial coefficients of {N} points with {t} threads and with one')
    ctx.nontrivial(N, ref)


def run_badaxial(ctx, case, rng):
    """A derivative that cannot be computed for some positions: the interpolation fails, rather than containing values that were not computed."""
    import traceon.solver as S
    from traceon.interpolation import FieldRadialAxial
    f = radial_field(rng)
    N = int(rng.integers(5, 60))
    k = int(rng.integers(N))
    hits = []

    class Failing(type(f)):
        def get_electrostatic_axial_potential_derivatives(self, z):
            time.sleep(float(rng.exponential(.001)) if rng.random() < .5 else 0)
            if np.any(np.isclose(z, zbad, rtol=0, atol=1e-9)):
                hits.append(1)
                raise ArithmeticError(f'injected at {zbad}')
            return super().get_electrostatic_axial_potential_derivatives(z)
    zbad = float(np.linspace(-2., 3., N)[k])
    g = Failing(f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges)
    for t in (1, 2, 7, N, N + 5):
        hits.clear()
        got = None
        try:
            with_threads(t, lambda: FieldRadialAxial(g, -2., 3., N))
        except ArithmeticError as e:
            got = e
        if hits:
            ctx.check('lost-failure-axial', got is not None, f'a failure while computing derivatives over {t} threads was lost')
    ctx.nontrivial(N, k)


# ------------------------------------------------------------------ objects shared by threads of the user
def in_threads(funs):
    out, errs = [None]*len(funs), []
    start = threading.Barrier(len(funs))

    def go(i):
        try:
            start.wait()
            out[i] = funs[i]()
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(funs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


def shared_work(ctx, case, rng, size):
    """Evaluations, traces and axial potentials of one field, from several threads at once."""
    import traceon.tracing as T
    from traceon.interpolation import FieldRadialAxial
    import traceon.solver as S
    three = case['mode'] % 2
    f = S.solve_direct(problem(rng, '3d' if three else 'radial', size))
    P = rng.uniform(-4, 4, size=(12, 3))
    if three:
        import traceon.backend as B
        from scipy.interpolate import CubicSpline
        q = f.electrostatic_point_charges
        zz = np.linspace(6., 9., 12)
        cs = np.ascontiguousarray(np.moveaxis(CubicSpline(zz, B.axial_coefficients_3d(q.charges, q.jacobians, q.positions, zz)).c, 0, -1))
    funs = []
    for i in range(6):
        if i % 3 == 0:
            funs.append(lambda P=P[2*i:2*i + 2]: np.array([np.append(f.electrostatic_field_at_point(p), f.electrostatic_potential_at_point(p)) for p in P]))
        elif i % 3 == 1:
            v = T.velocity_vec(float(rng.uniform(50, 500)), [float(x) for x in rng.normal(size=3)])
            tr = f.get_tracer([(-6., 6.)]*3)
            funs.append(lambda tr=tr, p=P[i], v=v: np.concatenate([np.asarray(x).ravel() for x in tr(p, v, atol=1e-4)]))
        elif three:
            funs.append(lambda p=P[i]: np.array([f.electrostatic_field_at_point(p*s) for s in (.5, 1., 1.5)]))
            p8 = np.stack([.2*P[:8, 0], .2*P[:8, 1], rng.uniform(6., 9., 8)], axis=1)
            funs.append(lambda p8=p8: np.array([np.append(B.field_3d_derivs(p, zz, cs), B.potential_3d_derivs(p, zz, cs)) for p in p8 for _ in range(20)]))
        else:
            funs.append(lambda: np.asarray(FieldRadialAxial(f, -3., 3., 40).electrostatic_coeffs).ravel())
    return [g() for g in funs], in_threads(funs*2)


def run_shared(ctx, case, rng):
    one, many = shared_work(ctx, case, rng, 40)
    for k, m in enumerate(many):
        o = one[k % len(one)]
        if ctx.check('shared-objects', m.shape == o.shape, 'result of a concurrent call has another shape'):
            ctx.close('shared-objects', m, o, 1e-9*np.abs(o) + 1e-12*np.abs(o).max() + 1e-300, 'a concurrent call returns another result')
    ctx.nontrivial('shared', case['mode'], one[0])


# ------------------------------------------------------------------ on the ThreadSanitizer build
def run_tsan(ctx, case, rng):
    import traceon.solver as S
    from traceon.interpolation import FieldRadialAxial
    kind = [k for k in KINDS if 'tiny' not in k][case['mode'] % 7]
    exc = problem(rng, kind, int(rng.integers(60, 180)))
    f = with_threads(int(rng.choice([2, 3, 5, 8])), lambda: S.solve_direct(exc))
    ctx.check('tsan-solve', np.all(np.isfinite(charges_of(f))), 'charges')
    if kind.startswith('radial'):
        ax = with_threads(int(rng.choice([2, 5, 8])), lambda: FieldRadialAxial(f, -4., 4., 200))
        ctx.check('tsan-axial', np.all(np.isfinite(ax.electrostatic_coeffs)), 'coefficients')
    ctx.state('tsan problem', kind)
    ctx.nontrivial('tsan', kind, case['mode'])


def run_tsanshared(ctx, case, rng):
    one, many = shared_work(ctx, case, rng, 40)
    for k, m in enumerate(many):
        o = one[k % len(one)]
        ctx.check('tsan-shared', m.shape == o.shape and np.allclose(m, o, rtol=1e-8, atol=1e-11*np.abs(o).max()), 'a concurrent call returns another result')
    ctx.nontrivial('tsanshared', case['mode'])
