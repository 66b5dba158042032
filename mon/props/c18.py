"""C18: the native backend built with AddressSanitizer, UndefinedBehaviorSanitizer and poisoned (NaN) uninitialised memory runs the workloads
of the other properties and hostile ones of its own; any sanitizer report, dead process or poison in a result is a violation."""
import collections
import gc
import importlib
import math

import numpy as np

RULE = ('a sample of the workloads of all other properties, and hostile ones: special points (on elements, vertices, the axis, infinity), ends of axial intervals, '
        'strided, transposed, read-only, foreign-endian and narrow arrays, objects that outlive what they were made from, empty and single-element problems, degenerate '
        'elements, trajectories of 0 to more than 100000 rows; non-trivial when native code ran')
ASSUMPTIONS = ['reports are about the native backend; numpy, scipy and the interpreter are not instrumented',
               'uninitialised memory is observed through poison: stack variables and heap blocks are filled with NaN patterns, a NaN where a number is due is a violation',
               'values are judged by the other properties']
REQUIRED = {'borrowed': 120, 'point': 3000, 'axial-point': 1500, 'layout': 600, 'lifetime': 150, 'empty': 100, 'backend': 3000, 'rows': 100, 'long': 2}
CPU_LIMIT = 400

BORROW = {'c01': 3, 'c02': 3, 'c03': 3, 'c04': 2, 'c05': 3, 'c06': 2, 'c07': 3, 'c08': 2, 'c09': 2, 'c10': 3, 'c11': 3, 'c12': 3, 'c13': 3, 'c14': 2, 'c15': 4, 'c16': 6,
          'c17': 0, 'c19': 4, 'c20': 4, 'c21': 4, 'c22': 3}
HEAVY = {('c09', 'radial'), ('c09', 'radial-both'), ('c09', 'radial-magnetic'), ('c01', 'radial-converge'), ('c09', 'general'), ('c10', 'edge'), ('c08', 'default'), ('c06', 'limits'), ('c06', 'sphere-modes')}


def cases(tier, seed):
    q = tier == 'quick'
    rng = np.random.default_rng([seed, 18])
    out = []
    for prop, k in BORROW.items():
        try:
            m = importlib.import_module('mon.props.' + prop)
        except ModuleNotFoundError:
            continue
        if not k:
            continue
        by = collections.OrderedDict()
        for c in m.cases('quick', seed):
            if c.get('variant', 'prod') == 'prod':
                by.setdefault(c['kind'], []).append(c)
        for kind, cs in by.items():
            n = min(len(cs), (1 if (prop, kind) in HEAVY else k) if q else 4*k)
            for i in rng.choice(len(cs), n, replace=False):
                out.append(dict(kind='borrow', prop=prop, sub=cs[int(i)]))
    for kind, n in (('points', 14), ('axial', 14), ('layout', 24), ('lifetime', 16), ('empty', 8), ('backend', 16), ('rows', 8), ('long', 2), ('hostiletrace', 10)):
        for i in range(n if q else 8*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
        c['variant'] = 'asan'
        c['threads'] = 3
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


class Watch:
    """Stands in for the context of another property: its verdicts are not ours, but poison in what it observes is."""

    def __init__(self, ctx, case):
        self.__dict__.update(ctx=ctx, case=case, np=np, seed=ctx.seed, tier=ctx.tier, scratch=ctx.scratch, monitors=collections.Counter(), worst={}, violations=[],
                             events=collections.Counter(), states={}, keys=set(), sample={})
        self.rng = np.random.default_rng([ctx.seed & 0x7fffffff, int(case['s']), 7919])

    def event(self, *a, **k):
        pass

    state = nontrivial = note = violation = event

    def check(self, monitor, ok, msg='', key=None):
        self.monitors[monitor] += 1
        return bool(ok)

    def close(self, monitor, got, want, tol, msg='', key=None):
        self.monitors[monitor] += 1
        got, want, tol = np.asarray(got, float), np.asarray(want, float), np.asarray(tol, float)
        if got.shape != want.shape and want.size != 1:
            return False
        bad = np.isnan(got) & np.isfinite(want)
        self.ctx.check('poison', not bad.any(), lambda: f'{self.case}: NaN in {monitor} ({msg() if callable(msg) else msg})')
        with np.errstate(all='ignore'):
            return bool(np.all(np.abs(got - want) <= tol))

    def require(self, monitor, ok, msg=''):
        from mon.worker import Violated
        if not self.check(monitor, ok):
            raise Violated()

    def raises(self, monitor, fun, msg='', exc=Exception):
        try:
            fun()
        except exc:
            return True
        return False


def run_borrow(ctx, case, rng):
    from mon.worker import Violated
    m = importlib.import_module('mon.props.' + case['prop'])
    w = Watch(ctx, case['sub'])
    try:
        m.run_case(w, case['sub'])
    except Violated:
        pass
    except Exception as e:       # what it raises is judged by the property it was borrowed from
        ctx.event('raised ' + type(e).__name__)
    ctx.event('observations of other monitors', sum(w.monitors.values()))
    ctx.check('borrowed', True)
    ctx.state('borrowed kind', case['prop'] + '/' + case['sub']['kind'])
    ctx.nontrivial(case['prop'], case['sub'])


def attempt(ctx, monitor, f, *exc):
    """Call f; rejections are fine, what matters is what the sanitizers see."""
    ctx.monitors[monitor] = ctx.monitors.get(monitor, 0) + 1
    try:
        return f()
    except (AssertionError, ValueError, TypeError, RuntimeError, IndexError, ArithmeticError, AttributeError, KeyError) as e:
        ctx.event('rejected ' + type(e).__name__)
    except Exception as e:
        if 'ArgumentError' in type(e).__name__ or 'LinAlgError' in type(e).__name__:
            ctx.event('rejected ' + type(e).__name__)
        else:
            raise
    return None


def some_field(ctx, rng, k):
    """A small field of every kind."""
    from mon.fields import random_3d, random_magnetic, random_radial
    k = k % 5
    if k == 0:
        return random_radial(ctx, rng, n_el=int(rng.integers(1, 3)), n_per=int(rng.integers(4, 16)))
    if k == 1:
        return random_3d(ctx, rng, n_el=1, mesh_size=1.)
    if k == 2:
        return random_magnetic(ctx, rng, n_coil=int(rng.integers(1, 3)), iron=True)
    if k == 3:
        return random_magnetic(ctx, rng, n_coil=int(rng.integers(1, 3)), iron=False)
    return random_3d(ctx, rng, n_el=2, mesh_size=1.5, magnetic=True)


EVALS = ['electrostatic_field_at_point', 'electrostatic_potential_at_point', 'magnetostatic_field_at_point', 'magnetostatic_potential_at_point', 'field_at_point',
         'potential_at_point', 'current_field_at_point']


def special_points(rng, mesh):
    P = mesh.points
    ext = np.abs(P).max()
    out = [P[rng.integers(len(P))] for _ in range(4)]
    for el in (mesh.lines, mesh.triangles):
        if el is not None and len(el):
            for _ in range(4):
                e = P[el[rng.integers(len(el))].astype(int)]
                out += [e.mean(axis=0), (e[0] + e[1])/2, np.nextafter(e[0], 9e9)]
    out += [np.zeros(3), np.array([0., 0., ext]), np.array([1e-300, 0, 0]), np.array([0., 1e-13*ext, ext/3]), np.full(3, 1e150), np.array([0, 0, -1e300]),
            np.array([np.inf, 0, 0]), np.array([np.nan, 0, 0]), np.array([0, 0, np.nan]), np.array([1e10*ext, 0., 0.]), rng.normal(size=3)*ext]
    return [np.array(p, float) for p in out]


def run_points(ctx, case, rng):
    s = some_field(ctx, rng, case['mode'])
    f = s.field
    for p in special_points(rng, s.mesh):
        for name in EVALS:
            if hasattr(f, name):
                attempt(ctx, 'point', lambda: getattr(f, name)(p))
    if hasattr(f, 'area_of_element'):
        N = len(f.electrostatic_point_charges) if not s.magnetic else len(f.magnetostatic_point_charges)
        for i in (0, N - 1, N, -1, N + 5, -N, -N - 3):
            attempt(ctx, 'point', lambda: f.area_of_element(i))
            attempt(ctx, 'point', lambda: f.charge_on_element(i))
    for n in s.mesh.get_electrodes():
        idx = (s.exc.get_electrostatic_active_elements() if not s.magnetic else s.exc.get_magnetostatic_active_elements())[1].get(n)
        if idx is not None:
            attempt(ctx, 'point', lambda: f.charge_on_elements(idx))
    if case['mode'] % 5 in (0, 2, 3):
        for z in (0., 1e300, -1e300, math.inf, math.nan, 1e-300):
            attempt(ctx, 'point', lambda: f.current_potential_axial(z))
            for g in ('electrostatic', 'magnetostatic', 'current'):
                attempt(ctx, 'point', lambda: getattr(f, f'get_{g}_axial_potential_derivatives')(np.array([z, 0., 1.])))
    ctx.nontrivial('points', case['mode'], s.points)


def run_axial(ctx, case, rng):
    from traceon.interpolation import FieldRadialAxial
    s = some_field(ctx, rng, [0, 2, 3][case['mode'] % 3])
    for N in (1, 2, 3, 4, 5, int(rng.integers(6, 60)), None):
        a = float(rng.choice([0., -1e-9, -3., 1e6*rng.normal(), rng.normal()]))
        b = a + float(abs(rng.choice([1., 1e-7, 1e5, rng.uniform(.1, 3)])))
        ax = attempt(ctx, 'axial-point', lambda: FieldRadialAxial(s.field, a, b, N))
        if ax is None:
            continue
        dz = (b - a)/max(len(ax.z) - 1, 1)
        zs = [a, b, np.nextafter(a, b), np.nextafter(b, a), np.nextafter(a, -1e9), np.nextafter(b, 1e99), (a + b)/2, math.nan, math.inf, -math.inf, 1e300]
        zs += list(ax.z[:4]) + list(ax.z[-3:]) + [a + k*dz for k in rng.integers(0, len(ax.z), 4)]
        for z in zs:
            for r in (0., float(rng.uniform(0, .1)), 1e100):
                p = np.array([r, -.3*r, z])
                for name in EVALS:
                    if hasattr(ax, name):
                        attempt(ctx, 'axial-point', lambda: getattr(ax, name)(p))
        import traceon.tracing as T
        lo, hi = a - .1*(b - a), b + .1*(b - a)
        if 1e-3 < b - a < 100:
            tr = ax.get_tracer([(-1., 1.), (-1., 1.), (lo, hi)])
            t = attempt(ctx, 'axial-point', lambda: tr(np.array([0., 1e-3, a]), T.velocity_vec(1e4, [0., 0., 1.]), atol=1e-3))
            if t is not None and len(t[1]):
                ctx.check('poison', np.all(np.isfinite(t[1][0])), 'NaN at the start of a trajectory')
        g = attempt(ctx, 'axial-point', lambda: 2.*(ax + ax) - ax)
        if g is not None:
            attempt(ctx, 'axial-point', lambda: g.electrostatic_field_at_point(np.array([0., 0., b])))
    ctx.nontrivial('axial', case['mode'], s.points)


def weird(rng, a):
    """The same values in an array of another layout (or type, where the values allow it)."""
    a = np.asarray(a)
    k = int(rng.integers(9))
    if k == 0:
        b = np.zeros(tuple(2*n + 1 for n in a.shape), a.dtype)
        v = b[tuple(slice(1, 2*n + 1, 2) for n in a.shape)]
        v[...] = a
        return v
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if k == 3:
        b = a.copy()
        b.setflags(write=False)
        return b
    if k == 4:
        raw = np.zeros(a.nbytes + 9, np.uint8)
        b = raw[3:3 + a.nbytes].view(a.dtype) if False else np.frombuffer(raw.data, dtype=a.dtype, count=a.size, offset=3).reshape(a.shape)
        b = np.array(b, copy=True) if not b.flags.writeable else b
        b[...] = a
        return b
    if k == 5:
        return a.astype(a.dtype.newbyteorder())
    if k == 6:
        return a.astype(np.float32 if a.dtype.kind == 'f' else np.int32)
    if k == 7:
        return a.tolist()
    return np.broadcast_to(a, (2, *a.shape))[1]


def run_layout(ctx, case, rng):
    """Every public call that takes arrays, with arrays in all kinds of layouts."""
    import traceon.backend as B
    import traceon.excitation as E
    import traceon.solver as S
    import traceon.tracing as T
    from traceon.mesher import Mesh
    s = some_field(ctx, rng, case['mode'])
    m = s.mesh
    W = lambda a: weird(rng, a)     # noqa: E731
    for _ in range(6):
        n = attempt(ctx, 'layout', lambda: Mesh(W(m.points), lines=None if m.lines is None else W(m.lines), triangles=None if m.triangles is None else W(m.triangles),
                                                physical_to_lines={k: W(v) for k, v in m.physical_to_lines.items()},
                                                physical_to_triangles={k: W(v) for k, v in m.physical_to_triangles.items()}, ensure_outward_normals=bool(rng.integers(2))))
        if n is None:
            continue
        attempt(ctx, 'layout', n.flip_normals)
        for g in n.get_electrodes():
            attempt(ctx, 'layout', lambda: n.ensure_inward_normals(g))
            attempt(ctx, 'layout', lambda: n.flip_normals().ensure_outward_normals(g))
        attempt(ctx, 'layout', lambda: n.extract_physical_group(n.get_electrodes()[0]))
        attempt(ctx, 'layout', lambda: n.move(dx=1.).rotate(Rz=1.).mirror_xy() if n.points.shape[1] == 3 else None)
    els = [g for g in m.get_electrodes() if g.startswith('e') or g in m.physical_to_lines]
    exc = E.Excitation(m.flip_normals(), s.exc.symmetry)
    if els:
        exc.add_voltage(**{els[0]: 5.})
        attempt(ctx, 'layout', lambda: S.solve_direct(exc))
    # fields of arrays in other layouts
    f = s.field
    for attr in ('electrostatic_point_charges', 'magnetostatic_point_charges', 'current_point_charges'):
        c = getattr(f, attr, None)
        if c is None:
            continue
        d = attempt(ctx, 'layout', lambda: S.EffectivePointCharges(W(c.charges), W(c.jacobians), W(c.positions)))
        if d is not None:
            g = attempt(ctx, 'layout', lambda: type(f)(**{attr: d}))
            if g is not None:
                gc.collect()
                for name in EVALS:
                    if hasattr(g, name):
                        attempt(ctx, 'layout', lambda: getattr(g, name)(W(rng.normal(size=3))))
                attempt(ctx, 'layout', lambda: g.set_bounds(W(np.array([[-1., 1.]]*3))))
                tr = attempt(ctx, 'layout', lambda: g.get_tracer(W(np.array([[-.2, .2]]*3))))
                if tr is not None:
                    r = attempt(ctx, 'layout', lambda: tr(W(np.zeros(3)), W(T.velocity_vec(1e5, [1., 0., 0.3])), atol=1e-3))
                    if r is not None:
                        ctx.check('poison', np.all(np.isfinite(r[1][0])), 'NaN in the first row of a trajectory')
                        attempt(ctx, 'layout', lambda: T.plane_intersection(W(r[1]), W(np.zeros(3)), W(np.array([1., 0., 0.]))))
    tri = rng.normal(size=(3, 3))
    p = rng.normal(size=3)
    for _ in range(4):
        attempt(ctx, 'layout', lambda: B.potential_triangle(W(tri[0]), W(tri[1]), W(tri[2]), W(p)))
        attempt(ctx, 'layout', lambda: B.flux_triangle(W(tri[0]), W(tri[1]), W(tri[2]), W(p), W(tri[1])))
        attempt(ctx, 'layout', lambda: B.normal_3d(W(tri)))
        attempt(ctx, 'layout', lambda: B.normal_2d(W(p[:2]), W(tri[0, :2])))
        attempt(ctx, 'layout', lambda: B.triangle_areas(W(rng.normal(size=(4, 3, 3)))))
        attempt(ctx, 'layout', lambda: B.position_and_jacobian_3d(.3, .2, W(tri)))
        v = rng.normal(size=(4, 2))
        attempt(ctx, 'layout', lambda: B.position_and_jacobian_radial(.3, *[W(x) for x in v]))
        attempt(ctx, 'layout', lambda: B.higher_order_normal_radial(.3, W(v)))
    ctx.nontrivial('layout', case['mode'], s.points)


def churn(rng):
    """Reuse freed memory."""
    gc.collect()
    return [np.full(int(n), np.nan) for n in rng.integers(1, 5000, 40)]


def run_lifetime(ctx, case, rng):
    """Objects that outlive everything they were made from."""
    import traceon.tracing as T
    from traceon.interpolation import FieldRadialAxial
    k = case['mode'] % 5
    s = some_field(ctx, rng, k)
    P, p0 = s.points[:4].copy(), s.points[0].copy()
    f = s.field
    ref = [attempt(ctx, 'lifetime', lambda n=n, p=p: getattr(f, n)(p)) for n in EVALS if hasattr(f, n) for p in P]
    g = (f + f)*.5 if k != 4 else f
    g = -(-g)
    ax = FieldRadialAxial(f, -1., 1., 12) if k in (0, 2, 3) else None
    del s, f
    keep = churn(rng)
    got = [attempt(ctx, 'lifetime', lambda n=n, p=p: getattr(g, n)(p)) for n in EVALS if hasattr(g, n) for p in P]
    for a, b in zip(ref, got):
        if a is not None and b is not None:
            ctx.check('poison', not (np.isnan(b).any() and not np.isnan(a).any()), 'NaN in the field of a sum whose terms are gone')
    b = np.array([[-3., 3.]]*3)
    if hasattr(g, 'set_bounds'):
        g.set_bounds(b*2)
    tr = g.get_tracer(p0[:, None] + b*.02)
    tx = ax.get_tracer(b*.5) if ax is not None else None
    del b, g, ax
    keep = churn(rng)    # noqa: F841
    r = attempt(ctx, 'lifetime', lambda: tr(p0, T.velocity_vec(1e4, [0., 0., 1.]), atol=1e-5))
    if r is not None:
        ctx.check('poison', np.all(np.isfinite(r[1][0])) and len(r[0]) == len(r[1]), 'trajectory of a tracer that is all that is left')
    if tx is not None:
        attempt(ctx, 'lifetime', lambda: tx(np.array([0., .01, 0.]), T.velocity_vec(1e4, [0., 0., 1.]), atol=1e-5))
    # python functions as fields: the callback lives as long as the trace
    import traceon.backend as B

    def make():
        A = rng.normal(size=3)
        return lambda x, y, z, vx, vy, vz: A*1e3*(1 + x)
    for i in range(3):
        t = attempt(ctx, 'lifetime', lambda: B.trace_particle(np.zeros(3), np.array([0., 0., 1e7]), make(), [(-.3, .3)]*3, 1e-4))
        if t is not None:
            ctx.check('poison', np.all(np.isfinite(t[1])), 'NaN in a trajectory')
    attempt(ctx, 'lifetime', lambda: B.kronrod_adaptive(lambda x: gc.collect() and math.sin(x) or math.sin(x), 0., 1.))
    ctx.nontrivial('lifetime', case['mode'], P)


def run_empty(ctx, case, rng):
    import traceon.backend as B
    import traceon.excitation as E
    import traceon.solver as S
    import traceon.tracing as T
    from traceon.mesher import Mesh
    p = rng.normal(size=3)
    e2, e3 = S.EffectivePointCharges.empty_2d(), S.EffectivePointCharges.empty_3d()
    fields = [S.FieldRadialBEM(electrostatic_point_charges=e2), S.FieldRadialBEM(magnetostatic_point_charges=e2, current_point_charges=e3),
              S.Field3D_BEM(electrostatic_point_charges=e3)]
    for f in fields + [fields[0] + fields[0], 2*fields[2]]:
        for name in EVALS:
            if hasattr(f, name):
                attempt(ctx, 'empty', lambda: getattr(f, name)(p))
        for i in (0, -1, 3):
            attempt(ctx, 'empty', lambda: f.area_of_element(i))
            attempt(ctx, 'empty', lambda: f.charge_on_element(i))
        attempt(ctx, 'empty', lambda: f.charge_on_elements([]))
        t = attempt(ctx, 'empty', lambda: f.get_tracer([(-1., 1.)]*3)(np.zeros(3), T.velocity_vec(1e4, [0., 0., 1.])))
        if t is not None:
            ctx.check('poison', np.all(np.isfinite(t[1])), 'NaN in a free flight')
        attempt(ctx, 'empty', lambda: f.get_electrostatic_axial_potential_derivatives(np.zeros(0)))
        attempt(ctx, 'empty', lambda: f.get_current_axial_potential_derivatives(np.zeros(1)))
        attempt(ctx, 'empty', lambda: f.current_potential_axial(.1))
    z0, z3 = np.zeros((0, 3)), np.zeros((0, 3), np.uint64)
    for args in (dict(points=z0), dict(points=z0, lines=np.zeros((0, 2), np.uint64)), dict(points=z0, triangles=z3), dict(points=rng.normal(size=(4, 3)), triangles=z3, physical_to_triangles={'a': np.zeros(0, int)}),
                 dict(points=rng.normal(size=(4, 3)), triangles=np.array([[0, 0, 0], [1, 1, 2], [0, 1, 2]]), physical_to_triangles={'a': np.arange(3)}),
                 dict(points=rng.normal(size=(4, 3)), triangles=np.array([[0, 1, 9]]), physical_to_triangles={'a': np.arange(1)}),
                 dict(points=rng.normal(size=(4, 3)), triangles=np.array([[0, 1, 2]]), physical_to_triangles={'a': np.array([4])}),
                 dict(points=rng.normal(size=(4, 3)), lines=np.array([[0, 1, 2, 3]]), physical_to_lines={'a': np.arange(1)}),
                 dict(points=rng.normal(size=(5, 3))*[1, 0, 1], lines=np.array([[0, 1], [2, 2], [3, 4]]), physical_to_lines={'a': np.arange(3)})):
        m = attempt(ctx, 'empty', lambda: Mesh(**args))
        if m is None:
            continue
        for f in (m.flip_normals, lambda: m.move(dx=1.), lambda: m + m, lambda: m._to_higher_order_mesh(), lambda: m.ensure_outward_normals('a'), lambda: m.extract_physical_group('a')):
            attempt(ctx, 'empty', f)
        for sym in (E.Symmetry.RADIAL, E.Symmetry.THREE_D):
            def solve():
                x = E.Excitation(m, sym)
                x.add_voltage(a=1.)
                return S.solve_direct(x)
            attempt(ctx, 'empty', solve)
    attempt(ctx, 'empty', lambda: B.triangle_areas(np.zeros((0, 3, 3))))
    attempt(ctx, 'empty', lambda: B.fill_jacobian_buffer_3d(np.zeros((0, 3, 3))))
    attempt(ctx, 'empty', lambda: B.fill_jacobian_buffer_radial(np.zeros((0, 4, 3))))
    ctx.nontrivial('empty', case['mode'], p)


def extreme(rng, n=None):
    def one():
        k = rng.integers(8)
        return [0., -0., float(rng.normal()), float(10**rng.uniform(-300, 300)), math.inf, math.nan, float(rng.integers(-3, 4)), float(1 + 10**rng.uniform(-16, 0))][k]
    return one() if n is None else np.array([one() for _ in range(n)])


def run_backend(ctx, case, rng):
    """The functions of the backend with every kind of number."""
    import traceon.backend as B
    X = lambda n=None: extreme(rng, n)       # noqa: E731
    R = lambda n: rng.normal(size=n)*10**rng.uniform(-8, 8)     # noqa: E731
    for _ in range(20):
        V = X if rng.random() < .4 else R
        tri = V(9).reshape(3, 3)
        if rng.random() < .3:
            tri[rng.integers(3)] = tri[rng.integers(3)]
        p = tri[0] if rng.random() < .2 else V(3)
        # adaptive quadrature only ends for integrable integrands: the field has no value on the triangle, the potential has one (but its integrand none on the vertices)
        ok = rng.normal(size=(3, 3))
        off = [rng.normal(size=3), ok[0] + .01*rng.normal(size=3), 1e8*rng.normal(size=3)][rng.integers(3)]
        at = [ok.mean(axis=0), rng.dirichlet([1, 1, 1]) @ ok, off][rng.integers(3)]
        for f in (lambda: B.ellipk(X()), lambda: B.ellipe(X()), lambda: B.ellipkm1(X()), lambda: B.ellipem1(X()),
                  lambda: B.potential_triangle(*ok, at), lambda: B.self_potential_triangle_v0(tri[0], tri[1], tri[2]),
                  lambda: B.self_potential_triangle(tri[0], tri[1], tri[2], tri.mean(axis=0)), lambda: B.flux_triangle(*ok, off, B.normal_3d(rng.normal(size=(3, 3)))),
                  lambda: B.normal_3d(tri), lambda: B.normal_2d(tri[0, :2], tri[1, :2]), lambda: B.triangle_areas(tri[None]),
                  lambda: B.position_and_jacobian_3d(X(), X(), tri), lambda: B.potential_radial_ring(X(), X(), X(), X()),
                  lambda: B.dr1_potential_radial_ring(X(), X(), X(), X()), lambda: B.dz1_potential_radial_ring(X(), X(), X(), X()),
                  lambda: B.current_field_radial_ring(X(), X(), X(), X()), lambda: B.backend_lib.current_potential_axial_radial_ring(X(), X(), X()),
                  lambda: B.potential_3d_point(*V(6)), lambda: B.position_and_jacobian_radial(X(), *V(8).reshape(4, 2)),
                  lambda: B.higher_order_normal_radial(X(), V(8).reshape(4, 2)), lambda: B.flux_density_to_charge_factor(X()),
                  lambda: B.combine_elec_magnetic_field(V(3), V(3), V(3), V(3)), lambda: B.charge_radial(V(12).reshape(4, 3)*[1, 0, 1], X())):
            attempt(ctx, 'backend', f)
        lines = rng.normal(size=(3, 4, 3))*[1, 0, 1] + [3, 0, 0]
        jac, pos = B.fill_jacobian_buffer_radial(lines)
        q = V(3)
        for f in (lambda: B.potential_radial(p, q, jac, pos), lambda: B.field_radial(p, q, jac, pos), lambda: B.axial_derivatives_radial(V(5), q, jac, pos),
                  lambda: B.potential_radial(p, q[:2], jac, pos), lambda: B.field_radial(p, q, jac[:2], pos), lambda: B.axial_derivatives_radial(V(1), q, jac[:1], pos)):
            attempt(ctx, 'backend', f)
        T3 = rng.normal(size=(3, 3, 3))
        jac, pos = B.fill_jacobian_buffer_3d(T3)
        for f in (lambda: B.potential_3d(p, q, jac, pos), lambda: B.field_3d(p, q, jac, pos), lambda: B.current_field(p, q, jac, pos),
                  lambda: B.current_potential_axial(X(), q, jac, pos), lambda: B.current_axial_derivatives_radial(V(4), q, jac, pos),
                  lambda: B.axial_coefficients_3d(q, jac, pos, rng.normal(size=4)),
                  lambda: B.potential_3d(p, q, jac[:2], pos), lambda: B.field_3d(p, q[:1], jac, pos), lambda: B.current_field(p, q, jac, pos[:2])):
            attempt(ctx, 'backend', f)
        z = np.linspace(0, 1, int(rng.integers(2, 6)))
        C = rng.normal(size=(len(z) - 1, 9, 6))
        D = rng.normal(size=(len(z) - 1, 2, B.NU_MAX, B.M_MAX, 4))
        for zz in (0., 1., np.nextafter(1., 2), X(), rng.uniform(-.1, 1.1)):
            pt = np.array([X(), X(), zz])
            for f in (lambda: B.potential_radial_derivs(pt, z, C), lambda: B.field_radial_derivs(pt, z, C), lambda: B.potential_3d_derivs(pt, z, D), lambda: B.field_3d_derivs(pt, z, D)):
                attempt(ctx, 'backend', f)
    ctx.nontrivial('backend', case['mode'], p)


def run_rows(ctx, case, rng):
    """Intersections of trajectories with few rows and special values."""
    import traceon.tracing as T
    for _ in range(8):
        for n in (0, 1, 2, 3, 10):
            P = rng.normal(size=(n, 6))
            if rng.random() < .3 and n:
                P[rng.integers(n)] = extreme(rng, 6)
            if rng.random() < .3:
                P[:, 2] = 0.
            attempt(ctx, 'rows', lambda: T.plane_intersection(P, rng.normal(size=3), extreme(rng, 3) if rng.random() < .3 else rng.normal(size=3)))
            attempt(ctx, 'rows', lambda: T.xy_plane_intersection(P, 0.))
            attempt(ctx, 'rows', lambda: T.xz_plane_intersection(P[::2], extreme(rng)))
            attempt(ctx, 'rows', lambda: T.yz_plane_intersection(np.asfortranarray(P), float(rng.normal())))
            attempt(ctx, 'rows', lambda: T.axis_intersection(P))
    ctx.nontrivial('rows', case['mode'], P)


def run_hostiletrace(ctx, case, rng):
    """Launches at, on and outside the bounds, with large and small steps and fields that end somewhere."""
    import traceon.backend as B
    import traceon.tracing as T
    s = some_field(ctx, rng, case['mode'])
    f = s.field
    p0 = s.points[0]
    for _ in range(6):
        w = 10**rng.uniform(-4, -.5)
        b = np.stack([p0 - w*rng.uniform(0, 1, 3), p0 + w*rng.uniform(0, 1, 3)], axis=1)
        start = [p0, b[:, 0], b[:, 1], b[:, 1] + 1., np.array([p0[0], p0[1], b[2, 1]])][rng.integers(5)]
        if rng.random() < .5:
            f.set_bounds([b, b*.5, [[0, 0]]*3, [[-np.inf, np.inf]]*3, b[:, ::-1]][rng.integers(5)])
        v = T.velocity_vec(float(10**rng.uniform(3, 6)), rng.normal(size=3))
        t = attempt(ctx, 'trace', lambda: f.get_tracer(b)(start, v, atol=float(10**rng.uniform(-6, 2))))
        if t is not None:
            ctx.check('poison', np.all(np.isfinite(t[1][0])), 'NaN at the start')
    t = attempt(ctx, 'trace', lambda: B.trace_particle([0, 0, 0], [0, 0, 1e7], lambda *a: np.zeros(3), [(-.1, .1)]*3, 1e-3))
    attempt(ctx, 'trace', lambda: B.trace_particle(np.zeros(3), np.array([0., 0., 1e7]), lambda *a: np.zeros(3), np.array([(-.1, .1)]*3, order='F'), 1e-3))
    ctx.nontrivial('hostiletrace', case['mode'], p0)


def run_long(ctx, case, rng):
    """More rows than fit in one block."""
    import traceon.solver as S
    import traceon.tracing as T
    e2, e3 = S.EffectivePointCharges.empty_2d(), S.EffectivePointCharges.empty_3d()
    f = S.FieldRadialBEM(electrostatic_point_charges=e2) if case['mode'] % 2 else S.Field3D_BEM(electrostatic_point_charges=e3)
    L = float(rng.choice([999.985, 999.995, 1000.005, 1500., 2100.]))
    t, P = f.get_tracer([(-1., 1.), (-1., 1.), (0., L)])(np.array([0., 0., 0.]), T.velocity_vec(100., [0., 0., 1.]))
    ctx.check('long', len(t) > 90000 and np.all(np.isfinite(P)), f'{len(t)} rows')
    ctx.nontrivial('long', L)
