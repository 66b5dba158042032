"""C11: plane intersections and focus against their geometric definition."""
import math

import numpy as np

from mon.fields import random_radial

RULE = ('random polylines with none, one and many crossings (also real traces, vertices exactly on the plane, duplicated points, strided arrays) and random '
        'planes with normals and reference points of any scale; random beams (exact, noisy, real); non-trivial when a crossing or a focus exists')
ASSUMPTIONS = ['a polyline that only touches the plane may or may not be reported']
REQUIRED = {'on-plane': 300, 'on-last-crossing': 300, 'invariant': 300, 'none-reported': 100, 'axis-aligned': 100, 'focus': 60, 'focus-exact': 60,
            'single-row': 10, 'real-trace': 20, 'unchanged': 100}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(80 if q else 1200):
        out.append(dict(kind='plane', mode=i % 8))
    for i in range(24 if q else 300):
        out.append(dict(kind='lattice'))
    for i in range(60 if q else 900):
        out.append(dict(kind='focus', mode=i % 5))
    for i in range(12 if q else 150):
        out.append(dict(kind='real'))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def reference(P, p0, n):
    """Index of the last segment that strictly crosses the plane, signed distances."""
    d = (P[:, :3] - p0) @ (n/np.linalg.norm(n))
    cr = np.flatnonzero((d[:-1] > 0) & (d[1:] < 0) | (d[:-1] < 0) & (d[1:] > 0))
    return (int(cr[-1]) if len(cr) else None), d


def judge(ctx, fun, P, p0, n, label, aligned=None):
    """Compare one call with the definition; returns the result or None."""
    keep = P.copy()
    k, d = reference(P, p0, n)
    touching = np.flatnonzero(d == 0)
    sc = np.abs(P[:, :3] - p0).max() + 1e-300
    near = np.min(np.abs(d)) < 1e-12*(sc + np.abs(p0).max())
    try:
        r = fun()
    except ValueError:
        r = None
    ctx.check('unchanged', np.array_equal(keep, P), 'the trajectory was modified')
    if k is None and not len(touching) and not near:
        ctx.check('none-reported', r is None, lambda: f'{label}: an intersection {r} is reported for a trajectory on one side of the plane')
        return None
    if k is None or near:
        ctx.event('touching')
        if r is not None:
            ctx.close('on-plane', (r[:3] - p0) @ n/np.linalg.norm(n), 0., 1e-11*(sc + np.abs(p0).max()), f'{label}: not on the plane')
        return r
    if not ctx.check('on-last-crossing', r is not None and r.shape == (6,), f'{label}: no intersection reported although segment {k} of {len(P) - 1} crosses'):
        return None
    f = d[k]/(d[k] - d[k + 1])
    want = P[k] + f*(P[k + 1] - P[k])
    # rounding of the signed distances moves the point along the segment
    slack = 1e-13*(sc + np.abs(p0).max())/abs(d[k] - d[k + 1])
    tol = slack*np.abs(P[k + 1] - P[k]) + 1e-12*(np.abs(P[k]) + np.abs(P[k + 1]))
    ctx.close('on-last-crossing', r, want, tol, f'{label}: last crossing (segment {k} of {len(P) - 1}, crossings {int(np.sum(np.diff(np.sign(d)) != 0))})')
    ctx.close('on-plane', (r[:3] - p0) @ n/np.linalg.norm(n), 0., 1e-11*(sc + np.abs(p0).max()), f'{label}: not on the plane')
    if aligned is not None:
        ctx.close('axis-aligned', r[aligned], p0[aligned], 1e-11*(sc + np.abs(p0).max()), f'{label}: coordinate of the plane')
    return r


def polyline(rng, mode):
    N = int(rng.choice([2, 3, 5, 20, 200, 3000, 40000, 150000], p=[.16, .16, .16, .16, .17, .16, .02, .01]))
    size = 10**rng.uniform(-6, 3)
    c = size*rng.normal(size=3)*rng.choice([0, 1, 30])
    if mode % 4 == 0:
        X = np.cumsum(rng.normal(size=(N, 3)), axis=0)/math.sqrt(N)
    elif mode % 4 == 1:
        t = np.linspace(0, 1, N)[:, None]
        X = np.array([math.cos(1), .3, 2.]) + t*rng.normal(size=3)*3 + .3*np.sin(t*rng.uniform(0, 30, size=3))
    elif mode % 4 == 2:
        t = np.linspace(0, 1, N)[:, None]
        X = rng.normal(size=3) + t*rng.normal(size=3)*2
    else:
        X = rng.normal(size=(N, 3))
    V = rng.normal(size=(N, 3))*10**rng.uniform(3, 8)
    return np.concatenate([c + size*X, V], axis=1), size, c


def run_case(ctx, case):
    import traceon.focus as Fo
    import traceon.tracing as T
    rng, kind = ctx.rng, case['kind']

    if kind == 'plane':
        for _ in range(12):
            P, size, c = polyline(rng, case['mode'])
            n = rng.normal(size=3)
            if rng.random() < .3:
                n = np.eye(3)[rng.integers(3)]*rng.choice([-1., 1.])
            u = n/np.linalg.norm(n)
            h = P[:, :3] @ u
            lvl = rng.uniform(h.min(), h.max()) if rng.random() < .75 else (h.max() + size*10**rng.uniform(-6, 1) if rng.random() < .5 else h.min() - size*10**rng.uniform(-6, 1))
            w = np.cross(u, rng.normal(size=3))
            p0 = u*lvl + w*size*rng.uniform(-1, 1)
            if rng.random() < .2:
                P = np.repeat(P, 2, axis=0)     # duplicated rows
            arr = P
            if case['mode'] >= 4:
                big = np.zeros((2*len(P), 8))
                big[::2, 1:7] = P
                arr = big[::2, 1:7] if case['mode'] % 2 else np.asfortranarray(P)
            r = judge(ctx, lambda: T.plane_intersection(arr, p0, n), P, p0, n, 'plane')
            if r is not None:
                ctx.nontrivial(P[:3], p0, n)
                k, d = reference(P, p0, n)
                if k is None or np.min(np.abs(d)) < 1e-9*(size + np.abs(p0).max()):
                    continue
                q0 = p0 + size*np.cross(u, rng.normal(size=3))
                for m, q in ((n*10**rng.uniform(-9, 9), p0), (-n, p0), (-3.7*n, q0), (n, q0)):
                    s = T.plane_intersection(arr, q, m)
                    dk = abs(d[k] - d[k + 1])
                    tol = 1e-12*(size + np.abs(p0).max() + np.abs(q0).max())/dk*np.abs(P[k + 1] - P[k]) + 1e-12*(np.abs(P[k]) + np.abs(P[k + 1]))
                    ctx.close('invariant', s, r, tol, 'scale or sign of the normal or reference point in the plane')
                if len(P) == 2:
                    continue
            ctx.raises('single-row', lambda: T.plane_intersection(P[:1], p0, n), 'an intersection of a single position', ValueError)
        for ax, fun in ((2, T.xy_plane_intersection), (1, T.xz_plane_intersection), (0, T.yz_plane_intersection)):
            for _ in range(3):
                P, size, c = polyline(rng, case['mode'])
                lvl = float(rng.uniform(P[:, ax].min() - .2*size, P[:, ax].max() + .2*size))
                p0 = np.zeros(3)
                p0[ax] = lvl
                judge(ctx, lambda: fun(P, lvl), P, p0, np.eye(3)[ax], fun.__name__, aligned=ax)
        P, size, c = polyline(rng, case['mode'])
        P[:, 0] -= P[:, 0].mean() + .1*size*rng.normal()
        k, d = reference(P, np.zeros(3), np.array([1., 0, 0]))
        if k is not None:
            z = T.axis_intersection(P)
            f = d[k]/(d[k] - d[k + 1])
            ctx.close('axis-aligned', z, P[k, 2] + f*(P[k + 1, 2] - P[k, 2]), 1e-9*np.abs(P[:, 2]).max()/min(1., abs(d[k] - d[k + 1])/size) + 1e-12, 'axis_intersection')
        else:
            ctx.raises('none-reported', lambda: T.axis_intersection(P), 'axis_intersection without a crossing', ValueError)
        ctx.note(mode=case['mode'])

    elif kind == 'lattice':
        # everything exactly representable: vertices on the plane, touching, running in the plane
        for _ in range(40):
            N = int(rng.integers(2, 9))
            P = np.concatenate([rng.integers(-2, 3, size=(N, 3)), rng.integers(-4, 5, size=(N, 3))*1e5], axis=1).astype(float)
            ax = int(rng.integers(3))
            n = np.eye(3)[ax]*float(rng.choice([-4., -1., .5, 1., 8.]))
            p0 = rng.integers(-2, 3, size=3).astype(float)
            d = P[:, ax] - p0[ax]
            k, _ = reference(P, p0, n)
            try:
                r = T.plane_intersection(P, p0, n)
            except ValueError:
                r = None
            if not np.any(d == 0):
                if k is None:
                    ctx.check('none-reported', r is None, f'intersection {r} reported for {P[:, ax].tolist()} and the plane at {p0[ax]}')
                    continue
                if not ctx.check('on-last-crossing', r is not None, 'no intersection reported'):
                    continue
                f = d[k]/(d[k] - d[k + 1])
                ctx.close('on-last-crossing', r, P[k] + f*(P[k + 1] - P[k]), 1e-12*(np.abs(P[k]) + np.abs(P[k + 1])) + 1e-14, f'{P[:, ax].tolist()}, plane at {p0[ax]}')
                ctx.nontrivial(P, p0)
                continue
            # passing from one side to the other through vertices on the plane is a crossing as well
            s = np.sign(d)
            nz = s[s != 0]
            passes = len(nz) > 1 and np.any(nz[1:] != nz[:-1])
            if passes:
                ctx.check('on-last-crossing', r is not None, f'no intersection reported for {P[:, ax].tolist()} and the plane at {p0[ax]}')
            if not passes and not np.any(d == 0):
                ctx.check('none-reported', r is None, 'reported')
            if r is not None:
                ctx.check('on-plane', r[ax] == p0[ax], f'{r} is not on the plane at {p0[ax]}')
                # on a segment that meets the plane, not before the last passage
                idx = np.flatnonzero(nz[1:] != nz[:-1])
                first = 0
                if len(idx):
                    where = np.flatnonzero(s != 0)
                    first = int(where[idx[-1]])
                ok = False
                for i in range(first, N - 1):
                    if d[i]*d[i + 1] > 0:
                        continue
                    e = P[i + 1] - P[i]
                    den = e[:3] @ e[:3]
                    ts = [f for f in (((r[:3] - P[i, :3]) @ e[:3])/den if den else 0., d[i]/(d[i] - d[i + 1]) if d[i] != d[i + 1] else 0., 0., 1.) if -1e-12 <= f <= 1 + 1e-12]
                    if any(np.all(np.abs(P[i] + f*e - r) <= 1e-12*(np.abs(P[i]) + np.abs(P[i + 1])) + 1e-14) for f in ts):
                        ok = True
                ctx.check('on-last-crossing', ok, f'{r} is not on a segment that meets the plane in or after the last passage: {P.tolist()}, plane {ax} at {p0[ax]}')
            ctx.nontrivial(P, p0)
        ctx.note(lattice=True)

    elif kind == 'focus':
        mode = case['mode']
        for _ in range(8):
            M = int(rng.choice([2, 3, 5, 40, 300, 3000], p=[.19, .19, .19, .19, .19, .05]))
            size = 10**rng.uniform(-4, 2)
            F = size*rng.normal(size=3)*rng.choice([1., 20.])
            opening = 10**rng.uniform(-8, 0)
            trajs, X, A = [], [], []
            for i in range(M):
                v = np.array([opening*rng.normal(), opening*rng.normal(), 1.])
                if mode == 1 and i % 2:
                    v = -v*np.array([1, 1, 1])
                if mode == 4:
                    v[2] = -v[2]
                v *= 10**rng.uniform(4, 7)
                q = F + v/abs(v[2])*size*rng.uniform(.1, 5)*rng.choice([-1, 1])
                if mode in (2, 3):
                    q = q + opening*size*rng.normal(size=3)*rng.uniform(0, 1)
                rows = int(rng.integers(1, 6))
                t = np.concatenate([rng.normal(size=(rows - 1, 6)), np.concatenate([q, v])[None]])
                trajs.append(t)
                X.append(q), A.append(v[:2]/v[2])
            X, A = np.array(X), np.array(A)
            got = Fo.focus_position(trajs if rng.random() < .5 else tuple(trajs))
            M3 = np.zeros((2*M, 3))
            M3[:M, 0] = 1
            M3[M:, 1] = 1
            M3[:M, 2], M3[M:, 2] = -A[:, 0], -A[:, 1]
            rhs = np.concatenate([X[:, 0] - A[:, 0]*X[:, 2], X[:, 1] - A[:, 1]*X[:, 2]])
            # conditioning of the z coordinate
            Ac = A - A.mean(axis=0)
            s = math.sqrt(np.sum(Ac**2))
            if s < 1e-10:
                ctx.event('parallel-beam')
                continue
            amp = 1e-13*(np.abs(X).max() + size)
            tolz = 200*amp*(1/s**2*np.abs(A).max() + 1/s)*math.sqrt(M)
            tolx = tolz*np.abs(A).max() + 200*amp
            if mode in (0, 1, 4):
                ctx.close('focus-exact', got, F, [tolx, tolx, tolz], f'common point of {M} lines, opening {opening:.2g}')
            # the stationary point of the sum of squares, from centred equations
            mx, my = A.mean(axis=0)
            b1, b2 = rhs[:M] - rhs[:M].mean(), rhs[M:] - rhs[M:].mean()
            z = -(Ac[:, 0] @ b1 + Ac[:, 1] @ b2)/s**2
            x, y = rhs[:M].mean() + mx*z, rhs[M:].mean() + my*z
            ctx.close('focus', got, [x, y, z], [tolx, tolx, tolz], f'least squares point of {M} lines, opening {opening:.2g}, mode {mode}')
            perm = [trajs[i] for i in rng.permutation(M)]
            ctx.close('focus', Fo.focus_position(perm), got, [tolx, tolx, tolz], 'order of the trajectories')
            ctx.nontrivial(F, M, opening)
        ctx.note(mode=mode, lines=M)

    else:
        s = random_radial(ctx, rng, n_el=2, n_per=16)
        p = s.points[rng.integers(len(s.points))]
        trs = []
        for k in range(4):
            d = np.array([.05*rng.normal(), .05*rng.normal(), -1.])
            b = np.stack([p - 2*s.size, p + 2*s.size], axis=1)
            t, P = s.field.get_tracer(b)(p, T.velocity_vec(5000., d))
            trs.append(P)
            zc = float(rng.uniform(P[-1, 2], P[0, 2]))
            r = judge(ctx, lambda: T.xy_plane_intersection(P, zc), P, np.array([0, 0, zc]), np.array([0, 0, 1.]), 'real trace', aligned=2)
            if r is not None:
                i = int(np.argmax(P[:, 2] < zc)) - 1
                ctx.check('real-trace', np.all(r >= np.minimum(P[i], P[i + 1]) - 1e-9*np.abs(P[i])) and np.all(r <= np.maximum(P[i], P[i + 1]) + 1e-9*np.abs(P[i])), 'between the rows around the plane')
            n = rng.normal(size=3)
            judge(ctx, lambda: T.plane_intersection(P, p - .3*s.size*np.array([0, 0, 1]), n), P, p - .3*s.size*np.array([0, 0, 1]), n, 'real trace, oblique plane')
        F = Fo.focus_position(trs)
        last = np.array([P[-1] for P in trs])
        a, bq = last[:, 3]/last[:, 5], last[:, 4]/last[:, 5]

        def cost(q):
            return np.sum((last[:, 0] + a*(q[2] - last[:, 2]) - q[0])**2 + (last[:, 1] + bq*(q[2] - last[:, 2]) - q[1])**2)
        c0 = cost(F)
        h = 1e-3*s.size
        ctx.check('focus', all(cost(F + sgn*h*np.eye(3)[i]) >= c0*(1 - 1e-9) for i in range(3) for sgn in (-1, 1)), 'the focus of real traces is not a minimum of the sum of squares')
        ctx.nontrivial('real', F)
        ctx.note(focus=list(F))
