"""C10: bookkeeping of traces: start, times, bounds, rows of very long traces, field bounds."""
import math

import numpy as np
from scipy.constants import e as QE, m_e

from mon.fields import random_3d, random_magnetic, random_radial
from mon.lib import cluster_3d, mesh_3d

RULE = ('every tracer class with random starts, energies, directions and boxes (starts inside, on every face, outside, boxes left through every face), drifts '
        'of up to 3.5 blocks of 1e5 rows ending around block edges, random field bounds of radial, 3D and summed fields; non-trivial when a row was judged')
ASSUMPTIONS = ['rows at which the position is on a bound count as inside', 'a step of which both ends lie outside the field bounds and whose segment misses them sees no field']
REQUIRED = {'start': 100, 'times': 100, 'inside': 100, 'last-outside': 60, 'start-outside': 20, 'start-on-bound': 12, 'drift': 40, 'block-edge': 8,
            'field-bounds-straight': 40, 'field-bounds-inside': 40, 'face': 24, 'shape': 100, 'continuation': 4, 'bounds-again': 40}
CPU_LIMIT = 200
K = QE/m_e


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(40 if q else 600):
        out.append(dict(kind='book', which=i % 7))
    for i in range(16 if q else 160):
        out.append(dict(kind='drift', which=i % 4))
    edges = [1, 2, 99999, 100000, 100001, 100002, 199998, 199999, 200000, 200001, 300000, 350001]
    for i, n in enumerate(edges if q else edges*3 + list(range(99990, 100012)) + list(range(199990, 200010))):
        out.append(dict(kind='edge', rows=n, which=i % 3))
    for i in range(6 if q else 40):
        out.append(dict(kind='continuation'))
    for i in range(30 if q else 400):
        out.append(dict(kind='field-bounds', which=i % 5))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def inside(b, p):
    return bool(np.all(b[:, 0] <= p) and np.all(p <= b[:, 1]))


def book(ctx, t, P, p, v, b, label):
    """The bookkeeping every trace has to satisfy."""
    ctx.check('shape', t.ndim == 1 and P.shape == (len(t), 6) and len(t) >= 1, f'{label}: shapes {t.shape} and {P.shape}')
    ctx.check('start', t[0] == 0. and np.array_equal(P[0, :3], p), f'{label}: first row {t[0]}, {P[0]} for a start at {p}')
    ctx.close('start', P[0, 3:], v, 1e-12*np.linalg.norm(v), f'{label}: initial velocity')
    ctx.check('times', bool(np.all(np.diff(t) > 0)) and np.all(np.isfinite(P)), f'{label}: times not strictly increasing or rows not finite')
    ins = np.all((b[:, 0] <= P[:, :3]) & (P[:, :3] <= b[:, 1]), axis=1)
    ctx.check('inside', bool(np.all(ins[:-1])), lambda: f'{label}: row {int(np.argmin(ins[:-1]))} of {len(t)} at {P[int(np.argmin(ins[:-1])), :3]} is outside {b.tolist()} but not the last')
    if len(t) > 1:
        ctx.check('last-outside', not ins[-1], f'{label}: the last row {P[-1]} is inside {b.tolist()}')
        # every row follows from the one before: displacement between mean velocities
        dt = np.diff(t)[:, None]
        step = np.diff(P[:, :3], axis=0)
        dv = np.abs(np.diff(P[:, 3:], axis=0)).max(axis=1)[:, None]
        vm = (P[1:, 3:] + P[:-1, 3:])/2
        sc = np.abs(P[:, :3]).max()
        bad = np.abs(step - vm*dt) > 10*dv*dt + 1e-3*np.linalg.norm(step, axis=1)[:, None] + 1e-12*sc
        ctx.check('times', not np.any(bad), lambda: f'{label}: row {int(np.argmax(bad.any(axis=1)))} does not follow from the one before')
    ctx.event('rows', len(t))


class Zero:
    """A field with a tracer that exerts no force: everything is outside its field bounds, or the interval of the series is elsewhere."""

    @staticmethod
    def make(rng, which):
        import traceon.backend as B
        import traceon.excitation as Ex
        import traceon.solver as S
        import traceon.tracing as T
        if which == 0:
            els = cluster_3d(rng, 1, kinds=('box',))
            exc = Ex.Excitation(mesh_3d(els, mesh_size=2.), Ex.Symmetry.THREE_D)
            exc.add_voltage(el0=1.)
            f = S.solve_direct(exc)
            f.set_bounds(((1e6, 1e6 + 1), (1e6, 1e6 + 1), (1e6, 1e6 + 1)))
            return f.get_tracer
        if which == 1:
            s = random_radial(None, rng, n_el=1, n_per=8, ho=False)
            s.field.set_bounds(((1e6, 1e6 + 1), (1e6, 1e6 + 1), (1e6, 1e6 + 1)))
            return s.field.get_tracer
        if which == 2:
            import traceon.interpolation as I
            s = random_radial(None, rng, n_el=1, n_per=8, ho=False)
            ax = I.FieldRadialAxial(s.field, 1e6, 1e6 + 1, N=6)
            return ax.get_tracer
        fld = type('F', (), {})()
        fld.z = np.linspace(1e6, 1e6 + 1, 5)
        fld.electrostatic_coeffs = np.ones((4, 2, B.NU_MAX, B.M_MAX, 4))
        fld.magnetostatic_coeffs = np.ones((4, 2, B.NU_MAX, B.M_MAX, 4))
        return lambda b: T.Tracer3DAxial(fld, b)


def velocity(T, eV, d):
    return T.velocity_vec(eV, d), math.sqrt(2*K*eV)*d/np.linalg.norm(d)


def run_case(ctx, case):
    import traceon.backend as B
    import traceon.interpolation as I
    import traceon.solver as S
    import traceon.tracing as T
    rng, kind = ctx.rng, case['kind']

    if kind == 'book':
        w = case['which']
        if w in (0, 1):
            s = random_radial(ctx, rng, n_el=2, n_per=16)
            get, label = s.field.get_tracer, 'radial'
        elif w == 2:
            s = random_3d(ctx, rng, n_el=2, mesh_size=.9)
            get, label = s.field.get_tracer, '3d'
        elif w == 3:
            s = random_magnetic(ctx, rng, n_coil=1, iron=False)
            f = s.field
            get, label = (1e-2*f).get_tracer, 'coil'
        elif w == 4:
            s = random_radial(ctx, rng, n_el=2, n_per=16)
            zc = s.points[0][2]
            ax = I.FieldRadialAxial(s.field, zc - s.size, zc + s.size, N=20)
            get, label = ax.get_tracer, 'axial'
        elif w == 5:
            s = random_3d(ctx, rng, n_el=1, mesh_size=.9)
            fld = type('F', (), {})()
            fld.z = np.linspace(-s.size, s.size, 12)
            fld.electrostatic_coeffs = 1e-1*rng.normal(size=(11, 2, B.NU_MAX, B.M_MAX, 4))
            fld.magnetostatic_coeffs = np.zeros((11, 2, B.NU_MAX, B.M_MAX, 4))
            get, label = (lambda b: T.Tracer3DAxial(fld, b)), '3d-axial'
        else:
            s = random_radial(ctx, rng, n_el=1, n_per=16)
            Ez = rng.normal(size=3)*.5/s.size

            class CB:
                def __init__(self, b):
                    self.b = b

                def __call__(self, p, vel, atol=1e-10):
                    e = np.linalg.norm(vel)
                    return B.trace_particle(p, vel/e*math.sqrt(2*K*e), lambda *a: Ez, self.b, atol)
            get, label = CB, 'callback'
        for k in range(5):
            p = s.points[rng.integers(len(s.points))] if label != '3d-axial' else .3*s.size*rng.uniform(-1, 1, size=3)
            # high energies compared to the voltages: no trapping
            eV = 10**rng.uniform(2.7, 4.5)
            d = rng.normal(size=3)
            if k % 2:
                d[rng.integers(3)] = 0.
                d = d if np.any(d) else np.array([0., 0., 1.])
            vel, v = velocity(T, eV, d)
            half = s.size*rng.uniform(.05, .6, size=(3, 2))
            b = np.stack([p - half[:, 0], p + half[:, 1]], axis=1)
            mode = k
            if mode == 1:
                # on a face, moving inwards
                i, j = rng.integers(3), rng.integers(2)
                b[i, j] = p[i]
                if d[i] == 0. or (d[i] > 0) != (j == 0):
                    d[i] = (1 if j == 0 else -1)*max(abs(d[i]), .3)
                    vel, v = velocity(T, eV, d)
                t, P = get(b)(p, vel)
                ctx.check('start-on-bound', len(t) > 2 or half.min() < .02 or np.linalg.norm(P[-1, 3:] - P[0, 3:]) > .1*np.linalg.norm(P[0, 3:]), f'{label}: {len(t)} rows for a start on face {i}, {j} going inwards')
            elif mode == 2:
                # outside by very little and by much
                i, j = rng.integers(3), rng.integers(2)
                b[i] = [p[i] + .1*s.size, p[i] + s.size] if j == 0 else [p[i] - s.size, p[i] - 1e-12*(abs(p[i]) + s.size)]
                t, P = get(b)(p, vel)
                ctx.check('start-outside', len(t) == 1, f'{label}: {len(t)} rows for a start outside the bounds')
            else:
                bb = b.tolist() if mode == 3 else b if mode == 0 else tuple(map(tuple, b))
                atol = 10**rng.uniform(-12, -6)
                if label == 'callback':
                    bb = b
                t, P = get(bb)(p, vel, atol=atol)
            book(ctx, t, P, p, v, b, label)
            ctx.nontrivial(label, p, vel, len(t))
        # integer input
        p = np.array([0, 0, int(10*s.size) + 5])
        b = np.array([[-1, 1], [-1, 1], [p[2] - 1, p[2] + 1]])
        if label not in ('callback',):
            vel = np.array([0, 0, -5000])
            t, P = get(b)(p, vel)
            book(ctx, t, P, p.astype(float), np.array([0, 0, -math.sqrt(2*K*5000)]), b.astype(float), label + ' (integers)')
        ctx.state('tracer', label)
        ctx.note(tracer=label, rows=len(t))

    elif kind == 'drift':
        get = Zero.make(rng, case['which'])
        for k in range(6):
            i, j = k//2, k % 2
            size = 10**rng.uniform(-2, 1)
            p = size*rng.uniform(-1, 1, size=3)
            b = np.stack([p - 50*size, p + 50*size], axis=1)
            d = rng.uniform(-.3, .3, size=3)
            d[i] = 1 if j else -1
            b[i, j] = p[i] + (1 if j else -1)*size*rng.uniform(.01, 3)
            eV = 10**rng.uniform(-1, 4.5)
            vel, v = velocity(T, eV, d)
            t, P = get(b)(p, vel)
            book(ctx, t, P, p, v, b, 'drift')
            sc = np.abs(P[:, :3]).max() + size
            ctx.close('drift', P[:, :3], p + t[:, None]*v, 1e-11*sc, 'positions of a drift')
            ctx.check('drift', bool(np.all(P[:, 3:] == P[0, 3:])), 'velocity of a drift')
            out = (P[-1, :3] < b[:, 0]) | (P[-1, :3] > b[:, 1])
            ctx.check('face', out[i] and out.sum() == 1 and (P[-1, i] > b[i, 1]) == bool(j), f'left through {out.tolist()}, aimed at face {i}, {j}')
            ctx.close('drift', np.sum(P[:, 3:]**2, axis=1)/(2*K), eV, 1e-9*eV, 'kinetic energy')
            # it ends with the first step that leaves the box
            ctx.close('drift', t[-1], abs(b[i, j] - p[i])/abs(v[i]), np.diff(t)[-1]*(1 + 1e-9), 'time at which the box is left')
            ctx.nontrivial('drift', p, vel)
        ctx.note(which=case['which'], rows=len(t))

    elif kind == 'edge':
        # a drift of a given number of rows: the step of a field free trace is a constant distance
        get = Zero.make(rng, case['which'])
        n = case['rows']
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        p = rng.uniform(-1, 1, size=3)
        eV = 10**rng.uniform(0, 4)
        vel, v = velocity(T, eV, d)
        speed = np.linalg.norm(v)
        big = np.stack([p - .5, p + .5], axis=1)
        t, P = get(big)(p, vel)
        h = np.linalg.norm(P[1, :3] - P[0, :3])
        i = int(np.argmax(np.abs(d)))
        b = np.stack([p - 1e7, p + 1e7], axis=1)
        reach = (n - 1.5)*h*abs(d[i]) if n > 1 else -1.
        b[i] = [p[i] - 1e7, p[i] + reach] if d[i] > 0 else [p[i] - reach, p[i] + 1e7]
        t, P = get(b)(p, vel)
        ctx.check('block-edge', len(t) == n and len(P) == n, f'{len(t)} rows, {len(P)} positions, expected {n}')
        book(ctx, t, P, p, v, b, f'{n} rows')
        k = np.arange(len(t))
        ctx.close('block-edge', t, k*h/speed, 1e-8*(h/speed)*n**.5 + 1e-9*n*h/speed, 'times of a field free trace')
        ctx.close('block-edge', P[:, :3], p + t[:, None]*v, 1e-9*n*h + 1e-12, 'positions of a field free trace')
        ctx.check('block-edge', len(np.unique(t)) == len(t), 'a time occurs twice')
        ctx.event('long-rows', len(t))
        ctx.nontrivial('edge', n, p)
        ctx.note(rows=n, step=h)

    elif kind == 'continuation':
        # more than a block in a uniform field: a parabola in closed form, without a kink at the edges
        E = rng.normal(size=3)
        d = rng.normal(size=3)
        eV = 10**rng.uniform(0, 2)
        vel, v = velocity(T, eV, d)
        n = rng.uniform(1.05, 1.6)*1e5
        Tm = n*.01/np.linalg.norm(v)
        E *= eV/(n*.01)/np.linalg.norm(E)*rng.uniform(.05, .15)
        p = rng.uniform(-1, 1, size=3)
        i = int(np.argmax(np.abs(v)))
        end = p[i] + v[i]*Tm - K*E[i]*Tm**2/2
        b = np.stack([p - 1e6, p + 1e6], axis=1)
        b[i, 1 if v[i] > 0 else 0] = end
        t, P = B.trace_particle(p, v, lambda x, y, z, vx, vy, vz: E, b, 1e-8)
        book(ctx, t, P, p, v, b, 'long parabola')
        ctx.check('continuation', len(t) > 1e5, f'{len(t)} rows')
        want = p + t[:, None]*v - K*E*t[:, None]**2/2
        ctx.close('continuation', P[:, :3], want, 1e-6*n*.01, 'parabola through block edges')
        ctx.close('continuation', P[:, 3:], v - K*E*t[:, None], 1e-7*np.linalg.norm(v), 'velocity through block edges')
        ctx.event('long-rows', len(t))
        ctx.nontrivial('continuation', p, E)
        ctx.note(rows=len(t))

    else:
        w = case['which']
        if w in (0, 1):
            s = random_radial(ctx, rng, n_el=2, n_per=16)
            f = s.field
        elif w == 2:
            s = random_3d(ctx, rng, n_el=2, mesh_size=.9)
            f = s.field
        elif w == 3:
            s = random_magnetic(ctx, rng, n_coil=1, iron=True)
            f = 1e-2*s.field
        else:
            s = random_3d(ctx, rng, n_el=2, mesh_size=.9)
            m = random_3d(ctx, rng, n_el=1, mesh_size=.9, magnetic=True)
            f = s.field + 1e-3*m.field
        g = 1*f
        c = s.points[rng.integers(len(s.points))]
        half = s.size*rng.uniform(.05, .25, size=(3, 2))
        fb = np.stack([c - half[:, 0], c + half[:, 1]], axis=1)
        g.set_bounds(fb if rng.random() < .5 else fb.tolist())
        kept = fb.copy()
        for k in range(8):
            eV = 10**rng.uniform(2.7, 4)
            if k % 4 == 0:
                p = c + rng.uniform(-.5, .5, size=3)*half.min(axis=1)      # inside
                d = rng.normal(size=3)
            elif k % 4 == 1:
                # through a face from outside
                i, j = rng.integers(3), rng.integers(2)
                p = c.copy()
                p[i] += (1 if j else -1)*1.5*half[i, j]
                d = c - p + .2*half.min()*rng.normal(size=3)
            elif k % 4 == 2:
                # passes by
                i = rng.integers(3)
                p = c + 2*s.size*rng.normal(size=3)
                j = (i + 1) % 3
                p[i] = fb[i, 1] + .02*s.size
                d = c - p
                d[i] = abs(d[i])*.1
                d[j] += 1e-3
            else:
                p = c + rng.uniform(-.9, .9, size=3)*half.min(axis=1)
                d = np.zeros(3)
                d[k//2 % 3] = rng.choice([-1., 1.])
            vel, v = velocity(T, eV, d)
            b = np.stack([np.minimum(c, p) - 2*s.size, np.maximum(c, p) + 2*s.size], axis=1)
            t, P = g.get_tracer(b)(p, vel)
            book(ctx, t, P, p, v, b, 'field bounds')
            X = P[:, :3]
            # segments that miss the box: separated along one coordinate (sufficient)
            lo, hi = np.minimum(X[:-1], X[1:]), np.maximum(X[:-1], X[1:])
            miss = np.any((hi <= fb[:, 0]) | (lo >= fb[:, 1]), axis=1)
            same = np.all(P[1:, 3:] == P[:-1, 3:], axis=1)
            dt = np.diff(t)[:, None]
            ctx.check('field-bounds-straight', bool(np.all(same[miss])), lambda: f'velocity changes outside the field bounds in row {int(np.argmax(miss & ~same))}')
            line = np.abs(X[1:] - X[:-1] - dt*P[:-1, 3:]) <= 1e-11*(np.abs(X).max() + s.size)
            ctx.check('field-bounds-straight', bool(np.all(line[miss])), 'not a straight line outside the field bounds')
            ctx.event('straight-segments', int(miss.sum()))
            ctx.event('inside-segments', int((~miss).sum()))
            if k % 4 == 0 or k % 4 == 3:
                # as long as it is inside, the bounds change nothing
                t2, P2 = f.get_tracer(fb)(p, vel)
                t3, P3 = g.get_tracer(fb)(p, vel)
                n = min(len(t2), len(t3))
                # drop the rows of which the steps touched the outside
                ins = np.all((fb[:, 0] < P2[:, :3]) & (P2[:, :3] < fb[:, 1]), axis=1)
                n = min(n, int(np.argmin(ins)) if not ins.all() else n)
                step = np.linalg.norm(np.diff(P2[:n, :3], axis=0), axis=1) if n > 1 else np.zeros(0)
                gap = np.minimum(P2[:n, :3] - fb[:, 0], fb[:, 1] - P2[:n, :3]).min(axis=1)
                # a rejected trial step may have been up to the largest step long: compare rows whose surroundings are inside
                ok = int(np.argmax(gap < .0101)) if np.any(gap < .0101) else n
                if ok > 1:
                    ctx.close('field-bounds-inside', P3[:ok], P2[:ok], 1e-12*np.abs(P2[:ok]).max(axis=0), 'inside the field bounds the trace is the same')
                ctx.event('inside-rows', ok)
                far = np.stack([c - 1e4, c + 1e4], axis=1)
                h = 1*f
                h.set_bounds(far)
                t4, P4 = h.get_tracer(fb)(p, vel)
                ctx.check('field-bounds-inside', np.array_equal(t4, t2) and np.array_equal(P4, P2), 'field bounds far away change a trace')
            ctx.nontrivial('fb', w, p, vel)
        # bounds set again on the same field: everything follows the last bounds
        p = c + rng.uniform(-.5, .5, size=3)*half.min(axis=1)
        vel, v = velocity(T, 10**rng.uniform(2.7, 4), rng.normal(size=3))
        b = np.stack([c - 2*s.size, c + 2*s.size], axis=1)
        g2 = 1*f
        old = g2.get_tracer(b)
        seq = [None, fb, np.stack([c - .3*half[:, 0], c + .4*half[:, 1]], axis=1), fb + .2*half.min(), fb]
        seq = [seq[i] for i in rng.permutation(len(seq))] if rng.random() < .5 else seq
        for k, q in enumerate(seq):
            if q is None:
                if k:
                    continue
                fresh = 1*f
            else:
                g2.set_bounds(q)
                fresh = 1*f
                fresh.set_bounds(q)
            tw, Pw = fresh.get_tracer(b)(p, vel)
            for tr, what in ((g2.get_tracer(b), 'a new tracer'), (old, 'a tracer made before')):
                tg, Pg = tr(p, vel)
                ctx.check('bounds-again', np.array_equal(tg, tw) and np.array_equal(Pg, Pw), f'{what} does not follow the last field bounds (setting {k})')
        # the field itself
        for _ in range(12):
            q = c + rng.uniform(-1.6, 1.6, size=3)*half.max()
            strictly = bool(np.all(fb[:, 0] < q) and np.all(q < fb[:, 1]))
            fun, ref = (g.magnetostatic_field_at_point, f.magnetostatic_field_at_point) if w == 3 else (g.electrostatic_field_at_point, f.electrostatic_field_at_point)
            ctx.check('field-bounds-inside' if strictly else 'field-bounds-straight', np.array_equal(fun(q), ref(q) if strictly else np.zeros(3)),
                      f'field at {q} {"inside" if strictly else "outside"} the field bounds')
        ctx.check('field-bounds-inside', np.array_equal(fb, kept), 'the array given as field bounds was modified')
        ctx.state('tracer', type(g.get_tracer(b)).__name__)
        ctx.note(which=w, bounds=fb.tolist())
