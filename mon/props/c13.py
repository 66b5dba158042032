"""C13: surfaces are compared with the point set their construction describes, closed constructions with the volume they enclose."""
import math

import numpy as np

from mon.props.c12 import Ref, new_path, ref_line, rigid, rot

RULE = ('random paths (lines, arcs, circles, rectangles, polylines with breakpoints) that are revolved, extruded, spanned or used as boundary; primitives with '
        'random sizes; boundary extrusions and revolutions of flat shapes; non-trivial when the surface has a breakpoint, is partial or encloses a volume')
ASSUMPTIONS = ['the parametrisation along the generating path follows its length; across a revolution only its direction, ends and range are prescribed']
REQUIRED = {'revolve-radius': 1000, 'revolve-angle': 200, 'revolve-ends': 200, 'extrude': 1000, 'extrude-by-path': 500, 'spanned': 500, 'boundary-contained': 500,
            'primitive-on': 1000, 'primitive-covered': 500, 'breakpoints': 200, 'enclosed-volume': 40, 'enclosed-edges': 40, 'rigid': 100, 'collection': 30,
            'boundary-paths': 60, 'open-not-enclosed': 10, 'lengths': 100, 'name': 100}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (("revolve", 120), ("extrude", 120), ("spanned", 100), ("boundary", 80), ("primitive", 126), ("enclose", 120), ("collection", 40)):
        for i in range(n if q else 10*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


def profile(rng, scale, off_axis=None):
    """A path of one or more pieces, with its model."""
    P, R, what = new_path(rng, scale)
    for _ in range(int(rng.integers(0, 3))):
        q = R(R.L) + scale*rng.normal(size=3)
        P, R = P.line_to(q), R.join(ref_line(R(R.L), q))
        what += '.line_to'
    if rng.random() < .3:
        P, R, w = rigid(rng, scale, P, R)
        what += '.' + w
    return P, R, what


def size_of(R):
    return max(np.abs(R(f*R.L)).max() for f in (0., .13, .3, .5, .7, .9, 1.)) + R.L


def check_breaks(ctx, got, want, L, label):
    """Every wanted break is there (inside the range), and nothing else."""
    got = [float(b) for b in got]
    tol = 1e-9*L
    ctx.check('breakpoints', got == sorted(got) and all(-tol <= b <= L + tol for b in got), f'{label}: breakpoints {got} of a parameter range of length {L}')
    for w in want:
        if tol < w < L - tol:
            ctx.check('breakpoints', any(abs(b - w) <= tol for b in got), lambda: f'{label}: no breakpoint at {w}, only {got}')
    for b in got:
        ctx.check('breakpoints', min([b, L - b] + [abs(b - w) for w in want]) <= tol, lambda: f'{label}: breakpoint at {b}, expected {list(map(float, want))}')


def run_revolve(ctx, case, rng):
    scale = 10**rng.uniform(-5, 2)
    P, R, what = profile(rng, scale)
    ax = 'xyz'[rng.integers(3)]
    k = 'xyz'.index(ax)
    i, j = [(1, 2), (2, 0), (0, 1)][k]
    full = rng.random() < .4
    ang = 2*math.pi if full else float(rng.uniform(.1, 2*math.pi) if rng.random() < .8 else -rng.uniform(.1, 3))
    fs = np.linspace(0, 1, 400)
    pts = np.array([R(f*R.L) for f in fs])
    rad = np.hypot(pts[:, i], pts[:, j])
    if rad.max() < 1e-3*scale:
        return
    P.name = 'rev' if rng.random() < .5 else None
    S = getattr(P, 'revolve_' + ax)() if full else getattr(P, 'revolve_' + ax)(ang)
    label = f'{what}.revolve_{ax}({ang:.4f})'
    size = size_of(R)
    ctx.check('name', S.name == P.name, f'{label}: name {S.name!r} instead of {P.name!r}')
    L1, L2 = float(S.path_length1), float(S.path_length2)
    ctx.close('lengths', L1, R.L, 1e-9*R.L, f'{label}: length along the path')
    ctx.check('lengths', L2 > 0 and L2 <= 2*math.pi*rad.max()*1.01, f'{label}: length {L2} around the axis')
    check_breaks(ctx, S.breakpoints1, R.breaks, R.L, label)
    check_breaks(ctx, S.breakpoints2, [], L2, label)
    us = list(rng.uniform(0, 1, size=6)) + [0., 1.] + [b/R.L for b in R.breaks[:3]]
    for f in us:
        u = min(float(f)*L1, L1)
        p = R(f*R.L)
        r = math.hypot(p[i], p[j])
        th = [0.]
        vs = np.concatenate([[0.], np.sort(rng.uniform(0, 1, size=10)), [1.]])
        prev, last = 0., None
        for g in vs:
            q = np.asarray(S(u, min(float(g*L2), L2)))
            ctx.close('revolve-radius', [math.hypot(q[i], q[j]), q[k]], [r, p[k]], 1e-10*size, f'{label}: radius and position along the axis')
            if r > 1e-6*size:
                d = math.atan2(q[j]*p[i] - q[i]*p[j], q[i]*p[i] + q[j]*p[j])     # turned by this much, anti-clockwise, modulo a turn
                if last is not None:
                    step = (d - last + math.pi*7) % (2*math.pi) - math.pi
                    # between neighbouring samples the turn is less than half a revolution in the right direction
                    want_step = ang*(g - prev)
                    n = round((want_step - step)/(2*math.pi))
                    th.append(th[-1] + step + 2*math.pi*n)
                prev, last = g, d
        if r > 1e-6*size:
            if ang > 0:
                ctx.check('revolve-angle', min(np.diff(th)) >= -1e-8, lambda: f'{label}: the angle is not increasing: {th}')
            else:
                ctx.check('revolve-angle', max(np.diff(th)) <= 1e-8, lambda: f'{label}: the angle is not decreasing: {th}')
            M = rot(ax, ang)
            e = 1e-10*size
            ctx.close('revolve-ends', S(u, 0.), p, e, f'{label}: starts at the path')
            ctx.close('revolve-ends', S(u, L2), M @ p, e, f'{label}: ends at the path turned by the angle')
            # halfway it has turned by half the angle or at least by something in between
            a = abs(th[-1])
            ctx.close('revolve-angle', a, abs(ang), 1e-7, f'{label}: total angle')
            for g, t in zip(vs, th):
                ctx.check('revolve-angle', abs(t - ang*g) <= .3*abs(ang), lambda: f'{label}: turned by {t} at fraction {g} of the surface')
    ctx.state('revolve', (ax, what.split('.')[0]))
    ctx.nontrivial(label, R.L)


def run_extrude(ctx, case, rng):
    scale = 10**rng.uniform(-5, 2)
    P, R, what = profile(rng, scale)
    size = size_of(R)
    P.name = 'ext'
    if rng.random() < .5:
        v = scale*rng.normal(size=3)
        if rng.random() < .3:
            v = np.rint(3*rng.normal(size=3)) + np.array([0, 0, 7.])
            arg = [int(x) for x in v] if rng.random() < .5 else v.astype(int)
        else:
            arg = [list(map(float, v)), tuple(v), np.array(v)][rng.integers(3)]
        S = P.extrude(arg)
        size += np.abs(v).max()
        label = f'{what}.extrude'
        L1, L2 = float(S.path_length1), float(S.path_length2)
        ctx.close('lengths', [L1, L2], [R.L, np.linalg.norm(v)], 1e-9*size, f'{label}: lengths')
        check_breaks(ctx, S.breakpoints1, R.breaks, R.L, label)
        check_breaks(ctx, S.breakpoints2, [], L2, label)
        for f in list(rng.uniform(0, 1, size=12)) + [0., 1.] + [b/R.L for b in R.breaks[:4]]:
            g = float(rng.choice([rng.uniform(), 0., 1.]))
            ctx.close('extrude', S(min(f*L1, L1), g*L2), R(f*R.L) + g*v, 1e-10*size, f'{label}: point ({f}, {g})')
    else:
        Q, W, w2 = profile(rng, scale)
        size += size_of(W)
        S = P.extrude_by_path(Q)
        label = f'{what}.extrude_by_path({w2})'
        L1, L2 = float(S.path_length1), float(S.path_length2)
        ctx.close('lengths', [L1, L2], [R.L, W.L], 1e-9*size, f'{label}: lengths')
        check_breaks(ctx, S.breakpoints1, R.breaks, R.L, label)
        check_breaks(ctx, S.breakpoints2, W.breaks, W.L, label)
        for f in list(rng.uniform(0, 1, size=12)) + [0., 1.] + [b/R.L for b in R.breaks[:4]]:
            for g in [rng.uniform(), 0., 1.] + [b/W.L for b in W.breaks[:2]]:
                ctx.close('extrude-by-path', S(min(f*L1, L1), min(g*L2, L2)), R(f*R.L) + W(g*W.L) - W(0.), 1e-10*size, f'{label}: point ({f}, {g})')
    ctx.check('name', S.name == 'ext', f'{label}: name {S.name!r}')
    ctx.nontrivial(label, R.L)
    T, X, w = rigid(rng, scale, S, Ref([(lambda s: np.zeros(3), 1.)]))
    ctx.check('rigid', T.name == 'ext' and list(T.breakpoints1) == list(S.breakpoints1) and list(T.breakpoints2) == list(S.breakpoints2)
              and T.path_length1 == S.path_length1 and T.path_length2 == S.path_length2, f'{w} of a surface changes its name, lengths or breakpoints')
    A = [np.asarray(S(f*L1, g*L2)) for f, g in ((0, 0), (.3, .1), (.9, .6), (.5, 1.))]
    B = [np.asarray(T(f*L1, g*L2)) for f, g in ((0, 0), (.3, .1), (.9, .6), (.5, 1.))]
    o = X(0.)
    for a, b in zip(A, B):
        ctx.close('rigid', np.linalg.norm(b - o), np.linalg.norm(a), 1e-9*(size + np.abs(o).max()), f'{w} of a surface')
    d = scale*rng.normal(size=3)
    M = S.move(*[float(x) for x in d])
    ctx.close('rigid', [M(f*L1, g*L2) for f, g in ((0, 0), (.3, .1), (.9, .6), (.5, 1.))], np.array(A) + d, 1e-11*(size + np.abs(d).max()), 'move of a surface')
    ax, a = 'xyz'[rng.integers(3)], float(rng.uniform(-3, 3))
    M = S.rotate(**{'R' + ax: a}, origin=list(map(float, d)))
    ctx.close('rigid', [M(f*L1, g*L2) for f, g in ((0, 0), (.3, .1), (.9, .6), (.5, 1.))], [d + rot(ax, a) @ (p - d) for p in A], 1e-10*(size + np.abs(d).max()), 'rotation of a surface')


def run_spanned(ctx, case, rng):
    from traceon.geometry import Surface
    scale = 10**rng.uniform(-5, 2)
    P, R, w1 = profile(rng, scale)
    Q, W, w2 = profile(rng, scale)
    if max(np.linalg.norm(R(0.) - W(0.)), np.linalg.norm(R(R.L) - W(W.L))) < 1e-3*scale:
        return
    S = Surface.spanned_by_paths(P, Q)
    label = f'spanned_by_paths({w1}, {w2})'
    size = size_of(R) + size_of(W)
    L1, L2 = float(S.path_length1), float(S.path_length2)
    check_breaks(ctx, S.breakpoints1, [b/R.L*L1 for b in R.breaks] + [b/W.L*L1 for b in W.breaks], L1, label)
    check_breaks(ctx, S.breakpoints2, [], L2, label)
    for f in list(rng.uniform(0, 1, size=10)) + [0., 1.] + [b/R.L for b in R.breaks[:3]] + [b/W.L for b in W.breaks[:3]]:
        a, b = R(f*R.L), W(f*W.L)
        u = min(f*L1, L1)
        ctx.close('boundary-contained', [S(u, 0.), S(u, L2)], [a, b], 1e-10*size, f'{label}: contains its paths (at {f})')
        for g in rng.uniform(0, 1, size=2):
            p = np.asarray(S(u, g*L2))
            t = np.clip((p - a) @ (b - a)/max((b - a) @ (b - a), 1e-300), 0, 1)
            ctx.close('spanned', p, a + t*(b - a), 1e-10*size, f'{label}: on the straight line between the paths')
            ctx.close('spanned', t, g, .3, f'{label}: progress between the paths') if np.linalg.norm(b - a) > 1e-3*size else None
    ctx.nontrivial(label, R.L, W.L)


def run_boundary(ctx, case, rng):
    """Four paths forming a loop."""
    from traceon.geometry import Path, Surface
    scale = 10**rng.uniform(-4, 2)
    C = scale*(np.array([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]) + .2*rng.normal(size=(4, 3)))
    flat = rng.random() < .4
    if flat:
        C[:, 2] = C[0, 2]
    paths, models = [], []
    for n in range(4):
        a, b = C[n], C[(n + 1) % 4]
        k = rng.integers(3) if not flat else 0
        if k == 0:
            paths.append(Path.line(a, b))
            models.append(ref_line(a, b))
        elif k == 1:
            m = (a + b)/2 + .2*scale*rng.normal(size=3)
            paths.append(Path.line(a, m).line_to(b))
            models.append(ref_line(a, m).join(ref_line(m, b)))
        else:
            d = (b - a)/2
            e = np.cross(d, rng.normal(size=3))
            e *= rng.uniform(.5, 2)*np.linalg.norm(d)/np.linalg.norm(e)
            c = (a + b)/2 - e
            r = np.linalg.norm(a - c)
            ex = (a - c)/r
            ey = (b - c) - ((b - c) @ ex)*ex
            ey /= np.linalg.norm(ey)
            th = math.atan2((b - c) @ ey, (b - c) @ ex)
            paths.append(Path.arc(c, a, b))
            models.append(Ref([(lambda s, c=c, r=r, ex=ex, ey=ey: c + r*(math.cos(s/r)*ex + math.sin(s/r)*ey), r*th)]))
    S = Surface.from_boundary_paths(*paths)
    L1, L2 = float(S.path_length1), float(S.path_length2)
    size = np.abs(C).max() + 3*scale
    M = models
    for f in list(rng.uniform(0, 1, size=8)) + [0., 1.]:
        e = 1e-10*size
        ctx.close('boundary-contained', S(f*L1, 0.), M[0](f*M[0].L), e, 'first boundary path')
        ctx.close('boundary-contained', S(L1, f*L2), M[1](f*M[1].L), e, 'second boundary path')
        ctx.close('boundary-contained', S((1 - f)*L1, L2), M[2](f*M[2].L), e, 'third boundary path')
        ctx.close('boundary-contained', S(0., (1 - f)*L2), M[3](f*M[3].L), e, 'fourth boundary path')
    if flat:
        for _ in range(10):
            p = np.asarray(S(rng.uniform(0, L1), rng.uniform(0, L2)))
            ctx.close('boundary-contained', p[2], C[0, 2], 1e-10*size, 'a surface with flat boundary lies in its plane')
            s = [np.cross(C[(n + 1) % 4] - C[n], p - C[n])[2] for n in range(4)]
            convex = all(np.cross(C[(n + 1) % 4] - C[n], C[(n + 2) % 4] - C[n])[2] > 0 for n in range(4))
            if convex:
                ctx.check('boundary-contained', min(s) >= -1e-9*size*scale, 'point outside the flat quadrilateral')
    check_breaks(ctx, S.breakpoints1, [b/M[0].L*L1 for b in M[0].breaks] + [(1 - b/M[2].L)*L1 for b in M[2].breaks], L1, 'from_boundary_paths, first direction')
    check_breaks(ctx, S.breakpoints2, [b/M[1].L*L2 for b in M[1].breaks] + [(1 - b/M[3].L)*L2 for b in M[3].breaks], L2, 'from_boundary_paths, second direction')
    # the boundary paths of the surface are the four given ones
    got = S.get_boundary_paths()
    closed = [p for p in got.paths if np.linalg.norm(p.endpoint() - p.starting_point()) < 1e-9*scale]
    if not closed and ctx.check('boundary-paths', len(got.paths) == 4, f'{len(got.paths)} boundary paths'):
        for m in M:
            best = min(min(max(np.linalg.norm(np.asarray(p(f*p.path_length)) - m(f*m.L)) for f in (0., .3, .7, 1.)),
                           max(np.linalg.norm(np.asarray(p((1 - f)*p.path_length)) - m(f*m.L)) for f in (0., .3, .7, 1.))) for p in got.paths)
            ctx.close('boundary-paths', best, 0., 1e-9*size, 'every given path is a boundary path')
        for p in got.paths:
            check_breaks(ctx, p.breakpoints, p.breakpoints, p.path_length, 'boundary path')
    ctx.nontrivial(C)


def grid(S, n=41):
    L1, L2 = float(S.path_length1), float(S.path_length2)
    b1 = [0.] + [float(b) for b in S.breakpoints1] + [L1]
    u = np.concatenate([np.linspace(a, b, n) for a, b in zip(b1[:-1], b1[1:]) if b > a])
    b2 = [0.] + [float(b) for b in S.breakpoints2] + [L2]
    v = np.concatenate([np.linspace(a, b, n) for a, b in zip(b2[:-1], b2[1:]) if b > a])
    return np.array([np.asarray(S(min(a, L1), min(b, L2))) for a in u for b in v])


def run_primitive(ctx, case, rng):
    from traceon.geometry import Surface
    scale = 10**rng.uniform(-5, 2)
    kind = ['sphere', 'box', 'disk_xz', 'disk_yz', 'disk_xy', 'rectangle_xz', 'rectangle_yz', 'rectangle_xy', 'aperture'][case['mode'] % 9]
    a, b = scale*rng.normal(size=2)
    N = 60
    # also slender and flat ones
    asp = 10**rng.uniform(-2, 2, size=3) if rng.random() < .4 else np.ones(3)
    per = None
    if kind == 'sphere':
        r = float(scale*rng.uniform(.3, 2))
        S = Surface.sphere(r)
        dist = lambda p: abs(np.linalg.norm(p) - r)        # noqa: E731
        X = rng.normal(size=(N, 3))
        X = r*X/np.linalg.norm(X, axis=1)[:, None]
        X[0], X[1] = [0, 0, r], [0, 0, -r]
        ext, area = r, 4*math.pi*r*r
    elif kind == 'box':
        p0, p1 = scale*rng.normal(size=3), scale*rng.normal(size=3)
        p1 = p0 + asp*np.where(np.abs(p1 - p0) < .1*scale, .3*scale, p1 - p0)
        S = Surface.box(list(map(float, p0)), p1 if rng.random() < .5 else tuple(map(float, p1)))
        lo, hi = np.minimum(p0, p1), np.maximum(p0, p1)
        d = hi - lo

        def dist(p):
            q = np.abs(p - (lo + hi)/2) - d/2
            return float(np.linalg.norm(np.maximum(q, 0))) if q.max() > 0 else -q.max()
        X = lo + d*rng.uniform(0, 1, size=(N, 3))
        for n in range(N):
            k = n % 6
            X[n, k % 3] = lo[k % 3] if k < 3 else hi[k % 3]
        X[:2] = lo, hi
        per = d
        ext, area = d.max(), 2*(d[0]*d[1] + d[1]*d[2] + d[2]*d[0])
    elif kind.startswith('disk'):
        r = float(scale*rng.uniform(.3, 2))
        S = getattr(Surface, kind)(float(a), float(b), r)
        i, j, k = {'xz': (0, 2, 1), 'yz': (1, 2, 0), 'xy': (0, 1, 2)}[kind[-2:]]

        def dist(p):
            return math.hypot(max(math.hypot(p[i] - a, p[j] - b) - r, 0), p[k])
        X = np.zeros((N, 3))
        t, rr = rng.uniform(0, 2*math.pi, size=N), r*np.sqrt(rng.uniform(0, 1, size=N))
        rr[:2] = 0., r
        X[:, i], X[:, j] = a + rr*np.cos(t), b + rr*np.sin(t)
        ext, area = r, math.pi*r*r
    elif kind.startswith('rectangle'):
        w, h = scale*rng.uniform(.2, 2, size=2)*asp[:2]
        S = getattr(Surface, kind)(float(a), float(a + w), float(b), float(b + h))
        i, j, k = {'xz': (0, 2, 1), 'yz': (1, 2, 0), 'xy': (0, 1, 2)}[kind[-2:]]

        def dist(p):
            return math.sqrt(max(abs(p[i] - a - w/2) - w/2, 0)**2 + max(abs(p[j] - b - h/2) - h/2, 0)**2 + p[k]**2)
        X = np.zeros((N, 3))
        X[:, i], X[:, j] = a + w*rng.uniform(0, 1, size=N), b + h*rng.uniform(0, 1, size=N)
        X[0, [i, j]], X[1, [i, j]] = [a, b], [a + w, b + h]
        ext, area = max(w, h), w*h
        per = np.full(3, max(w, h))
        per[[i, j]] = w, h
    else:
        h, r, z = asp[0]*scale*rng.uniform(.2, 2), scale*rng.uniform(.2, 1), float(b)
        e = r + scale*rng.uniform(.3, 2)
        if rng.random() < .4:
            z = 0.
            S = Surface.aperture(float(h), float(r), float(e))
        else:
            S = Surface.aperture(float(h), float(r), float(e), z=z)

        def dist(p):
            q = math.hypot(p[0], p[1])
            dz = p[2] - z
            return min(math.hypot(q - r, max(abs(dz) - h/2, 0)), math.hypot(max(q - e, r - q, 0), abs(dz) - h/2))
        X = np.zeros((N, 3))
        t = rng.uniform(0, 2*math.pi, size=N)
        q, dz = rng.uniform(r, e, size=N), np.where(rng.random(N) < .5, h/2, -h/2)
        q[::3], dz[::3] = r, rng.uniform(-h/2, h/2, size=len(q[::3]))
        X = np.array([q*np.cos(t), q*np.sin(t), z + dz]).T
        ext, area = max(h, e), None
    parts = S.surfaces if hasattr(S, 'surfaces') else [S]
    if not ctx.check('primitive-covered', all(T.path_length1 > 0 and T.path_length2 > 0 for T in parts), f'{kind}: a side has no extent'):
        return
    G = np.concatenate([grid(T) for T in parts])
    size = ext + np.abs(G).max()
    ctx.close('primitive-on', [dist(p) for p in G[rng.integers(0, len(G), size=200)]], 0., 1e-10*size, f'{kind}: every point lies on the shape')
    d = np.array([np.sqrt(((G - x)**2).sum(axis=1).min()) for x in X])
    ctx.close('primitive-covered', d, 0., .13*ext, f'{kind}: the whole shape is covered')
    if per is not None:         # every side of a slender box as well
        d1 = np.array([np.sqrt((((G - x)/per)**2).sum(axis=1).min()) for x in X])
        ctx.close('primitive-covered', d1, 0., .2, f'{kind} of {per}: the whole shape is covered')
    if kind != 'aperture':      # poles, corners, centre: end points of the parametrisation
        m = 1 if kind.startswith('disk') else 2
        ctx.close('primitive-covered', d[:m], 0., 1e-9*size, f'{kind}: the shape reaches its extreme points')
    if area is not None and case['mode'] % 2:
        A = sum(area_of(T) for T in parts)
        ctx.close('primitive-covered', A, area, .01*area, f'{kind}: area, covered once')
    ctx.state('primitive', kind)
    ctx.nontrivial(kind, ext)


def area_of(S, n=24):
    """Area by cross products of central differences on the grid of section midpoints."""
    tot = 0.
    L1, L2 = float(S.path_length1), float(S.path_length2)
    b1 = [0.] + [float(b) for b in S.breakpoints1] + [L1]
    b2 = [0.] + [float(b) for b in S.breakpoints2] + [L2]
    for u0, u1 in zip(b1[:-1], b1[1:]):
        for v0, v1 in zip(b2[:-1], b2[1:]):
            hu, hv = (u1 - u0)/n, (v1 - v0)/n
            for k in range(n):
                for m in range(n):
                    u, v = u0 + (k + .5)*hu, v0 + (m + .5)*hv
                    du = (np.asarray(S(u + .3*hu, v)) - S(u - .3*hu, v))/.6
                    dv = (np.asarray(S(u, v + .3*hv)) - S(u, v - .3*hv))/.6
                    tot += np.linalg.norm(np.cross(du, dv))
    return tot


def flat_shape(rng, scale, plane, pos):
    """A flat surface in a coordinate plane around pos: (surface, area, centroid, disk?)."""
    from traceon.geometry import Path, Surface
    i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[plane]
    k = rng.integers(3)
    c = np.zeros(3)
    c[i], c[j] = pos
    if k == 0:
        w, h = scale*rng.uniform(.3, .9, size=2)
        S = getattr(Surface, 'rectangle_' + plane)(float(c[i] - w/2), float(c[i] + w/2), float(c[j] - h/2), float(c[j] + h/2))
        return S, w*h, c, 'rectangle'
    if k == 1:
        r = float(scale*rng.uniform(.2, .45))
        return getattr(Surface, 'disk_' + plane)(float(c[i]), float(c[j]), r), math.pi*r*r, c, 'disk'
    # a spanned quadrilateral (trapezium)
    Q = np.zeros((4, 3))
    w = scale*rng.uniform(.15, .45, size=4)
    Q[:, i] = c[i] + np.array([-w[0], w[1], w[2], -w[3]])
    h = scale*rng.uniform(.2, .45)
    Q[:, j] = c[j] + np.array([-h, -h, h, h])
    S = Surface.spanned_by_paths(Path.line(Q[0], Q[1]), Path.line(Q[3], Q[2]))
    p, q = Q[:, i], Q[:, j]
    cr = p*np.roll(q, -1) - np.roll(p, -1)*q
    A = cr.sum()/2
    c[i], c[j] = ((p + np.roll(p, -1))*cr).sum()/(6*A), ((q + np.roll(q, -1))*cr).sum()/(6*A)
    return S, abs(A), c, 'trapezium'


def signed_volume(mesh):
    t = mesh.points[mesh.triangles]
    t = t - t.mean(axis=(0, 1))
    return float(np.sum(np.cross(t[:, 0], t[:, 1])*t[:, 2])/6)


def unmatched_length(parts, n=33):
    """Length of the edges of the surface pieces that coincide with no other edge (of any piece), and that are not shrunk to a point."""
    E = []
    for S in parts:
        L1, L2 = float(S.path_length1), float(S.path_length2)
        t = np.linspace(0, 1, n)
        for e in ([S(a*L1, 0.) for a in t], [S(a*L1, L2) for a in t], [S(0., a*L2) for a in t], [S(L1, a*L2) for a in t]):
            e = np.array(e)
            ln = np.linalg.norm(np.diff(e, axis=0), axis=1).sum()
            E.append((e, ln))
    big = max(ln for _, ln in E)
    tot = 0.
    for m, (e, ln) in enumerate(E):
        if ln < 1e-9*big:
            continue
        for q, (f, _) in enumerate(E):
            if q != m and min(np.abs(e - f).max(), np.abs(e - f[::-1]).max()) < 1e-7*big:
                break
        else:
            tot += ln
    return tot, big


def run_enclose(ctx, case, rng):
    scale = 10**rng.uniform(-4, 2)
    plane = ['xz', 'yz', 'xy'][rng.integers(3)]
    i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[plane]
    k = 3 - i - j
    mode = case['mode'] % 6
    from traceon.geometry import Path
    if mode <= 2:
        pos = scale*rng.normal(size=2)*rng.choice([0., 2.])
        S, A, c, what = flat_shape(rng, scale, plane, pos)
        v = scale*rng.normal(size=3)
        v[k] = scale*rng.uniform(.3, 1.5)*rng.choice([-1, 1])
        vol = abs(A*v[k])
        S.name = 'cap'
        if mode == 0 or mode == 1:
            op, C, O = 'extrude_boundary', S.extrude_boundary(list(map(float, v)) if mode else v), S.extrude_boundary(v, enclose=False)
        else:
            m = v*rng.uniform(.3, .7)
            start = scale*rng.normal(size=3)
            p = Path.line(start, start + m).line_to(start + v)
            op, C, O = 'extrude_boundary_by_path', S.extrude_boundary_by_path(p), S.extrude_boundary_by_path(p, enclose=False)
        end = [np.asarray(S(f*S.path_length1, g*S.path_length2)) + v for f, g in ((0, 0), (.4, .2), (1, 1), (.7, .1))]
        ntrue = False
    else:
        # revolve around one of the two axes in the plane of the shape, away from it (or touching it)
        ax = i if rng.random() < .5 else j
        other = j if ax == i else i
        pos = scale*rng.normal(size=2)
        touching = mode == 5
        q = scale*rng.uniform(.6, 2)
        pos = (pos[0], q) if ax == i else (q, pos[1])
        S, A, c, what = flat_shape(rng, scale, plane, pos)
        if touching:
            from traceon.geometry import Surface
            w, h = scale*rng.uniform(.3, 1, size=2)
            b = [0., 0., 0., 0.]
            lo = float(scale*rng.normal())
            # on the axis, or close to it
            off = 0. if rng.random() < .4 else float(w*10**rng.uniform(-4, -.7))
            b = [lo, lo + float(h), off, off + float(w)] if ax == i else [off, off + float(w), lo, lo + float(h)]
            S, A = getattr(Surface, 'rectangle_' + plane)(*b), w*h
            c = np.zeros(3)
            c[other] = off + w/2
            what = 'rectangle touching the axis' if off == 0. else f'rectangle {off/w} of its width from the axis'
            ctx.event('close-to-axis', off > 0)
        S.name = 'cap'
        ntrue = rng.random() < .3
        ang = 2*math.pi if ntrue else float(rng.uniform(.3, 5.5))
        near = not ntrue and rng.random() < .35
        if near:
            # nearly closed: the caps are there all the same
            ang = 2*math.pi - 10**float(rng.uniform(-3, -.3))
            ctx.event('nearly-full')
        vol = A*ang*abs(c[other])
        name = 'revolve_boundary_' + 'xyz'[ax]
        turn = () if ntrue and rng.random() < .5 else (ang,)
        op, C, O = name, getattr(S, name)(*turn), getattr(S, name)(*turn, enclose=False)
        M = rot('xyz'[ax], ang)
        end = [M @ np.asarray(S(f*S.path_length1, g*S.path_length2)) for f, g in ((0, 0), (.4, .2), (1, 1), (.7, .1))]
    label = f'{what} in {plane}: {op}'
    parts = C.surfaces
    # the base is contained, and the moved or rotated copy is the other end cap
    F = ((0, 0), (.4, .2), (1, 1), (.7, .1))

    def contains(pts):
        return any(max(np.linalg.norm(np.asarray(T(f*T.path_length1, g*T.path_length2)) - p) for (f, g), p in zip(F, pts)) < 1e-9*scale*10 for T in parts)
    ctx.check('enclosed-edges', contains([np.asarray(S(f*S.path_length1, g*S.path_length2)) for f, g in F]), f'{label}: the base surface is not part of the result')
    if not ntrue:
        ctx.check('enclosed-edges', contains(end), f'{label}: the end cap is missing or in the wrong place')
        tot, big = unmatched_length(O.surfaces)
        ctx.check('open-not-enclosed', tot > 1e-3*big, f'{label}: not enclosed, but no edge is free')
    ctx.check('name', all(T.name == 'cap' for T in C.surfaces), f'{label}: names {[T.name for T in C.surfaces]}')
    tot, big = unmatched_length(parts)
    if not touching_full(op, what, ntrue):
        ctx.close('enclosed-edges', tot, 0., 1e-6*big, f'{label}: edges of the pieces that meet no other piece')
    # consistent closed surface: the volume enclosed
    if case['mode'] % 3 != 1 or mode == 4:
        if not ntrue:
            msh = C.mesh(mesh_size=scale*(.07 if what == 'disk' else .12), name='body')
            V = signed_volume(msh)
            tolerance = .06*vol if ('revolve' in op or what == 'disk') else 1e-6*vol
            ctx.close('enclosed-volume', V, vol, tolerance, f'{label}: enclosed volume')
    ctx.state('enclose', (op, what))
    ctx.nontrivial(label, A)


def touching_full(op, what, full):
    return full and what == 'rectangle touching the axis'


def run_collection(ctx, case, rng):
    from traceon.geometry import Path, Surface, SurfaceCollection
    scale = 10**rng.uniform(-3, 2)
    S = [Surface.rectangle_xy(0., scale, 0., 2*scale), Surface.sphere(float(scale)), Surface.disk_yz(0., 0., float(scale))]
    rng.shuffle(S)
    A, B, C = S
    D = A + B
    ctx.check('collection', isinstance(D, SurfaceCollection) and D.surfaces == [A, B], 'sum of two surfaces')
    E = D + C
    ctx.check('collection', E.surfaces == [A, B, C] and D.surfaces == [A, B], 'collection + surface')
    G = C + D
    ctx.check('collection', G.surfaces == [C, A, B] and D.surfaces == [A, B], 'surface + collection')
    H = D + E
    ctx.check('collection', H.surfaces == [A, B, A, B, C] and D.surfaces == [A, B] and E.surfaces == [A, B, C], 'collection + collection')
    H += C
    H += D
    ctx.check('collection', H.surfaces == [A, B, A, B, C, C, A, B] and D.surfaces == [A, B], '+=')
    v = scale*rng.normal(size=3)
    M = E.move(*[float(x) for x in v])
    a = float(rng.uniform(-3, 3))
    N = E.rotate(Rz=a)
    for s, m, n in zip(E.surfaces, M.surfaces, N.surfaces):
        p = np.asarray(s(.3*s.path_length1, .6*s.path_length2))
        ctx.close('collection', m(.3*s.path_length1, .6*s.path_length2), p + v, 1e-11*(scale + np.abs(v).max()), 'move of a collection')
        ctx.close('collection', n(.3*s.path_length1, .6*s.path_length2), rot('z', a) @ p, 1e-11*scale, 'rotation of a collection')
    E.name = 'xyz'
    ctx.check('name', E.name == 'xyz' and all(s.name == 'xyz' for s in E.surfaces), 'naming a collection names its surfaces')
    # paths: what a collection of paths revolves and extrudes to
    P1, R1, _ = profile(rng, scale)
    P2, R2, _ = profile(rng, scale)
    PC = P1 + P2
    d = scale*rng.normal(size=3)
    X = PC.extrude(d)
    ctx.check('collection', isinstance(X, SurfaceCollection) and len(X.surfaces) == 2, 'extruding a collection of paths')
    Y = PC.extrude_by_path(Path.line(np.zeros(3), d))
    ax = 'xyz'[rng.integers(3)]
    full = rng.random() < .3
    ang = 2*math.pi if full else float(rng.uniform(.2, 6))
    i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[ax]
    rev = None
    if all(max(np.hypot(R(f*R.L)[i], R(f*R.L)[j]) for f in np.linspace(0, 1, 50)) > 1e-3*scale for R in (R1, R2)):
        rev = getattr(PC, 'revolve_' + ax)() if full else getattr(PC, 'revolve_' + ax)(ang)
    for n, R in enumerate((R1, R2)):
        size = size_of(R) + np.abs(d).max()
        for f in (0., .31, 1.):
            p = R(f*R.L)
            T = X.surfaces[n]
            ctx.close('collection', T(f*T.path_length1, T.path_length2), p + d, 1e-10*size, 'extruding a collection of paths')
            T = Y.surfaces[n]
            ctx.close('collection', T(f*T.path_length1, T.path_length2), p + d, 1e-10*size, 'extruding a collection of paths by a path')
            if rev is not None:
                T = rev.surfaces[n]
                ctx.close('collection', T(f*T.path_length1, T.path_length2), rot(ax, ang) @ p, 1e-9*size, 'revolving a collection of paths')
                mid = np.asarray(T(f*T.path_length1, T.path_length2/2))
                r = math.hypot(p[i], p[j])
                if full and r > 1e-3*size:      # a whole turn, not none: half of it lies on the other side
                    ctx.check('collection', mid[i]*p[i] + mid[j]*p[j] < 0, 'revolving a collection of paths all the way')
    ctx.raises('collection', lambda: A + 3, 'surface + number')
    ctx.nontrivial(scale, ax)
