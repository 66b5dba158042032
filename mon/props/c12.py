"""C12: paths are compared with an independent piecewise model that undergoes the same operations."""
import bisect
import math

import numpy as np

from mon.lib import gauss

RULE = ('random programs of 3-12 path operations (constructors, joining, closing, line_to, arc_to, cutting, phase shifts, moves, rotations, mirrors) at '
        'scales 1e-6..1e3, every intermediate path is compared with the model; non-trivial when the path has a breakpoint')
ASSUMPTIONS = ['paths built from irregular functions and splines are compared within the accuracy of their sampling (N points)']
REQUIRED = {'points': 3000, 'length': 300, 'unit-speed': 1000, 'breakpoints': 300, 'closed': 300, 'average': 60, 'ends': 300, 'operand-unchanged': 300,
            'cut': 60, 'phase': 15, 'join': 100, 'rigid': 100, 'irregular': 60, 'collection': 30, 'rejects': 20, 'constructor': 60}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(400 if q else 6000):
        out.append(dict(kind='program'))
    for i in range(100 if q else 1200):
        out.append(dict(kind='irregular', mode=i % 5))
    for i in range(24 if q else 300):
        out.append(dict(kind='constructors'))
    for i in range(24 if q else 300):
        out.append(dict(kind='collection'))
    for i in range(10 if q else 60):
        out.append(dict(kind='rejects'))
    for i, c in enumerate(out):
        c['s'] = i
    return out


# ------------------------------------------------------------------ the model
class Ref:
    """Pieces (fun of arc length, length) one after another; breaks: positions of the points that have to be marked."""

    def __init__(self, pieces, breaks=(), eps=0., err=None):
        self.pieces = [p for p in pieces if p[1] > 0]
        self.breaks = sorted(breaks)
        self.L = sum(p[1] for p in self.pieces)
        # relative accuracy of the speed, absolute accuracy of the points to which the path is known to follow the model
        self.eps, self.err = eps, eps*self.L if err is None else err

    def __call__(self, s):
        for f, length in self.pieces[:-1]:
            if s <= length:
                return f(s)
            s -= length
        return self.pieces[-1][0](min(s, self.pieces[-1][1]))

    def map(self, g):
        return Ref([(lambda s, f=f: g(f(s)), n) for f, n in self.pieces], self.breaks, self.eps, self.err)

    def join(self, o):
        return Ref(self.pieces + o.pieces, self.breaks + [self.L] + [self.L + b for b in o.breaks], max(self.eps, o.eps), self.err + o.err)

    def cut(self, c):
        a, b = [], []
        pos = 0.
        for f, n in self.pieces:
            if pos + n <= c:
                a.append((f, n))
            elif pos >= c:
                b.append((f, n))
            else:
                a.append((f, c - pos))
                b.append((lambda s, f=f, d=c - pos: f(s + d), n - (c - pos)))
            pos += n
        return (Ref(a, [x for x in self.breaks if x < c], self.eps, self.err), Ref(b, [x - c for x in self.breaks if x > c], self.eps, self.err))

    def phase(self, ph):
        ph = ph % self.L
        if ph == 0:
            return Ref(self.pieces, self.breaks + [0.], self.eps, self.err)
        a, b = self.cut(ph)
        return Ref(b.pieces + a.pieces, [(x - ph) % self.L for x in self.breaks + [0.]], self.eps, self.err)

    def average(self, fun):
        x, w = gauss(24)
        tot = 0.
        for f, n in self.pieces:
            for k in range(4):
                for xi, wi in zip(x, w):
                    tot += wi*n/8*fun(f(n*(k + .5 + .5*xi)/4))
        return tot/self.L


def ref_line(p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    n = np.linalg.norm(q - p)
    return Ref([(lambda s: p + (q - p)*(s/n), n)])


def ref_arc(c, r, ex, ey, th0, th1):
    n = r*abs(th1 - th0)
    return Ref([(lambda s: c + r*(math.cos(th0 + (th1 - th0)*s/n)*ex + math.sin(th0 + (th1 - th0)*s/n)*ey), n)])


def rot(axis, a):
    c, s = math.cos(a), math.sin(a)
    i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[axis]
    M = np.eye(3)
    M[i, i] = M[j, j] = c
    M[i, j], M[j, i] = -s, s
    return M


# ------------------------------------------------------------------ judging one path
def judge(ctx, P, R, scale, label, npts=8, avg=False):
    rng = ctx.rng
    size = scale + max(np.abs(R(0.)).max(), np.abs(R(R.L)).max())
    eps = max(R.err, 1e-11*size)
    if not ctx.close('length', P.path_length, R.L, max(eps, 1e-12*R.L), f'{label}: path length'):
        return False
    L = float(P.path_length)
    us = np.concatenate([rng.uniform(0, L, size=npts), [0., L, L/2], [b for b in R.breaks if 0 <= b <= L][:6]])
    ok = True
    for u in us:
        u = min(max(float(u), 0.), L)
        ok &= ctx.close('points', P(u), R(u*R.L/L), 2*eps, f'{label}: point at {u/L:.6f} of the length')
        if not ok:
            return False
    ctx.close('ends', [P.starting_point(), P.middle_point(), P.endpoint()], [R(0.), R(R.L/2), R(R.L)], 2*eps, f'{label}: start, middle and end')
    # unit speed, away from the breaks
    inner = sorted([0., L] + list(np.cumsum([n for _, n in R.pieces])[:-1]*L/R.L) + [b for b in R.breaks if 0 < b < L])
    for u in rng.uniform(0, L, size=4):
        k = bisect.bisect(inner, u)
        nxt = inner[k] if k < len(inner) else L
        h = min(u - inner[k - 1], nxt - u, 1e-3*(nxt - inner[k - 1]))
        if h < 1e-6*L:
            continue
        u, h = float(u), float(h)
        v = np.linalg.norm(np.asarray(P(u + h)) - P(u - h))/(2*h)
        ctx.close('unit-speed', v, 1., 2e-5 + 400*R.eps + 1e-13*size/h, f'{label}: speed at {u/L:.4f} of the length')
    # breakpoints
    bs = [float(b) for b in P.breakpoints]
    tol = 1e-9*L + 2*eps
    ctx.check('breakpoints', bs == sorted(bs) and all(-tol <= b <= L + tol for b in bs), lambda: f'{label}: breakpoints {bs} of a path of length {L}')
    for want in R.breaks:
        if want <= 0 or want >= R.L:
            continue
        ctx.check('breakpoints', any(abs(b - want) <= tol for b in bs), lambda: f'{label}: no breakpoint at {want} (length {L}), only {bs}')
    for b in bs:
        ctx.check('breakpoints', min(b, L - b, *[abs(b - w) for w in R.breaks + [0.]]) <= tol, lambda: f'{label}: breakpoint at {b} where the path is smooth, expected {R.breaks}')
    # closedness
    gap = np.linalg.norm(R(0.) - R(R.L))
    if gap <= 1e-12*scale and R.eps == 0:
        ctx.check('closed', bool(P.is_closed()), f'{label}: ends coincide but is_closed() is False')
        ctx.state('closed', True)
    elif gap > 1e-3*scale and gap > 1e-6 and gap > 1e-3*size:
        ctx.check('closed', not P.is_closed(), f'{label}: ends are {gap} apart but is_closed() is True')
        ctx.state('closed', False)
    if avg:
        w, c = rng.normal(size=3), rng.normal(size=3)
        c0 = R(0.)

        def fun(p):
            d = (np.asarray(p) - c0)/scale
            return float(1. + w @ d + math.sin(c @ d))
        ctx.close('average', P.average(fun), R.average(fun), 1e-6*(1 + np.abs(w).sum()*3) + R.eps*1e3, f'{label}: average')
    if [b for b in R.breaks if 0 < b < R.L]:
        ctx.nontrivial(label, R.L, np.array(R.breaks))
    return ok


# ------------------------------------------------------------------ building blocks
def orthonormal(rng):
    ex = rng.normal(size=3)
    ex /= np.linalg.norm(ex)
    ey = np.cross(ex, rng.normal(size=3))
    return ex, ey/np.linalg.norm(ey)


def lst(rng, p):
    """The same point as list, tuple or array."""
    k = rng.integers(3)
    return [list(map(float, p)), tuple(map(float, p)), np.array(p, float)][k]


def new_arc(rng, scale, start):
    """An arc that starts in the given point: (center, end, reverse), model."""
    ex, ey = orthonormal(rng)
    r = scale*rng.uniform(.2, 1.5)
    c = start - r*ex
    th = rng.uniform(.1, math.pi - .1)
    end = c + r*(math.cos(th)*ex + math.sin(th)*ey)
    rev = bool(rng.random() < .4)
    return c, end, rev, ref_arc(c, r, ex, ey, 0., th - 2*math.pi if rev else th)


def new_path(rng, scale, start=None):
    from traceon.geometry import Path
    p0 = scale*rng.normal(size=3)*rng.choice([0., 1., 5.]) if start is None else np.asarray(start)
    k = rng.integers(9 if start is None else 2)
    if k == 0:
        q = p0 + scale*rng.normal(size=3)
        return Path.line(lst(rng, p0), lst(rng, q)), ref_line(p0, q), 'line'
    if k == 1:
        c, end, rev, R = new_arc(rng, scale, p0)
        return Path.arc(lst(rng, c), lst(rng, p0), lst(rng, end), reverse=rev), R, 'arc'
    e = np.eye(3)
    if k in (2, 3, 4):
        a, b = scale*rng.normal(size=2)
        r = scale*rng.uniform(.3, 2)
        full = rng.random() < .5
        ang = 2*math.pi if full else rng.uniform(.2, 6)
        args = (float(a), float(b), float(r)) + (() if full else (float(ang),))
        if k == 2:
            return Path.circle_xz(*args), ref_arc(np.array([a, 0, b]), r, e[0], e[2], 0., ang), 'circle_xz'
        if k == 3:
            return Path.circle_yz(*args), ref_arc(np.array([0, a, b]), r, e[1], e[2], 0., ang), 'circle_yz'
        return Path.circle_xy(*args), ref_arc(np.array([a, b, 0]), r, e[0], e[1], 0., ang), 'circle_xy'
    if k in (5, 6, 7):
        a0, b0 = scale*rng.normal(size=2)
        a1, b1 = a0 + scale*rng.uniform(.2, 2), b0 + scale*rng.uniform(.2, 2)
        name = ['xz', 'yz', 'xy'][k - 5]
        P = getattr(Path, 'rectangle_' + name)(float(a0), float(a1), float(b0), float(b1))
        i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[name]
        C = np.zeros((4, 3))
        C[:, i], C[:, j] = [a0, a1, a1, a0], [b0, b0, b1, b1]
        if np.linalg.norm(np.asarray(P(float(1e-3*scale))) - C[0] - 1e-3*scale*e[i]) > 1e-6*scale:   # the direction is not prescribed
            C = C[[0, 3, 2, 1]]
        R = ref_line(C[0], C[1])
        for m in range(1, 4):
            R = R.join(ref_line(C[m], C[(m + 1) % 4]))
        return P, R, 'rectangle_' + name
    h, rad, z = scale*rng.uniform(.2, 2), scale*rng.uniform(.2, 1), float(scale*rng.normal())
    ext = rad + scale*rng.uniform(.3, 2)
    if rng.random() < .4:
        z = 0.
        P = Path.aperture(float(h), float(rad), float(ext))
    else:
        P = Path.aperture(float(h), float(rad), float(ext), z=z)
    R = ref_line([ext, 0, z - h/2], [rad, 0, z - h/2]).join(ref_line([rad, 0, z - h/2], [rad, 0, z + h/2])).join(ref_line([rad, 0, z + h/2], [ext, 0, z + h/2]))
    return P, R, 'aperture'


def rigid(rng, scale, P, R):
    k = rng.integers(6)
    if k <= 1:
        d = scale*rng.normal(size=3)
        keys = ['dx', 'dy', 'dz']
        use = [i for i in range(3) if rng.random() < .7]
        v = np.array([d[i] if i in use else 0. for i in range(3)])
        return P.move(**{keys[i]: float(d[i]) for i in use}), R.map(lambda p: p + v), 'move'
    if k <= 3:
        ax = 'xyz'[rng.integers(3)]
        a = float(rng.choice([0., math.pi/2, -math.pi, rng.uniform(-7, 7), rng.uniform(-7, 7)]))
        M = rot(ax, a)
        if rng.random() < .5:
            o = scale*rng.normal(size=3)
            return P.rotate(**{'R' + ax: a}, origin=lst(rng, o)), R.map(lambda p: o + M @ (p - o)), 'rotate about a point'
        return P.rotate(**{'R' + ax: a}), R.map(lambda p: M @ p), 'rotate'
    name, i = [('xz', 1), ('yz', 0), ('xy', 2)][rng.integers(3)]
    S = np.ones(3)
    S[i] = -1
    return getattr(P, 'mirror_' + name)(), R.map(lambda p: S*p), 'mirror_' + name


def snapshot(P):
    return [np.array(P(0.)), np.array(P(P.path_length*.37)), np.array(P(P.path_length))], list(P.breakpoints), float(P.path_length), P.name


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a[0], b[0])) and a[1:] == b[1:]


def run_case(ctx, case):
    rng = ctx.rng
    globals()['run_' + case['kind']](ctx, case, rng)


def run_program(ctx, case, rng):
    from traceon.geometry import Path
    scale = 10**rng.uniform(-6, 3) if rng.random() < .6 else 1.
    P, R, what = new_path(rng, scale)
    ctx.check('constructor', P.name is None, f'{what}: a new path has the name {P.name!r}')
    if rng.random() < .5:
        P.name = 'el'
    name = P.name
    label = what
    judge(ctx, P, R, scale, label)
    kept = [(P, snapshot(P), label)]
    for step in range(int(rng.integers(3, 10))):
        k = rng.integers(9)
        if k == 0:
            q = R(R.L) + scale*rng.normal(size=3)
            P, R, what = P.line_to(lst(rng, q)), R.join(ref_line(R(R.L), q)), 'line_to'
            ctx.event('join')
        elif k == 1:
            c, end, rev, A = new_arc(rng, scale, R(R.L))
            P, R, what = P.arc_to(lst(rng, c), lst(rng, end), reverse=rev), R.join(A), 'arc_to'
            ctx.event('join')
        elif k == 2:
            gap = np.linalg.norm(R(0.) - R(R.L))
            if gap < 1e-2*scale:
                continue
            P, R, what = P.close(), R.join(ref_line(R(R.L), R(0.))), 'close'
            ctx.event('join')
        elif k == 3:     # join with a path that is itself composed
            Q, S, _ = new_path(rng, scale, start=R(R.L))
            for _ in range(int(rng.integers(0, 3))):
                q = S(S.L) + scale*rng.normal(size=3)
                Q, S = Q.line_to(q), S.join(ref_line(S(S.L), q))
            sq = snapshot(Q)
            P, R, what = P >> Q, R.join(S), '>>'
            ctx.check('operand-unchanged', same(sq, snapshot(Q)), 'the right operand of >> was modified')
            ctx.event('join')
        elif k == 4:     # cut, keep one half or put the halves back together
            inner = [b for b in R.breaks if 1e-3*R.L < b < R.L*(1 - 1e-3)]
            at_break = bool(inner) and rng.random() < .3
            c = inner[rng.integers(len(inner))] if at_break else rng.uniform(.05, .95)*R.L
            if inner and not at_break and rng.random() < .5:
                # just before or after a breakpoint
                c = inner[rng.integers(len(inner))] + rng.choice([-1, 1])*10**rng.uniform(-4, -2)*R.L
                if not .001*R.L < c < .999*R.L:
                    continue
            if not at_break and any(abs(c - b) < 1e-6*R.L for b in R.breaks):
                continue
            cP = c
            if at_break:
                cP = min(P.breakpoints, key=lambda b: abs(b - c))
                if abs(cP - c) > 1e-8*R.L + R.err:
                    ctx.check('breakpoints', False, f'{label}: no breakpoint at {c}, only {P.breakpoints}')
                    return
            a, b = P.cut(float(cP))
            A, B = R.cut(c)
            judge(ctx, a, A, scale, label + ', first part of cut', npts=4)
            judge(ctx, b, B, scale, label + ', second part of cut', npts=4)
            ctx.check('cut', a.name == P.name and b.name == P.name, f'cutting changed the name {P.name!r} to {a.name!r}, {b.name!r}')
            m = rng.integers(3)
            if m == 0:
                P, R, what = a, A, 'cut[0]'
            elif m == 1:
                P, R, what = b, B, 'cut[1]'
            else:
                P, R, what = a >> b, A.join(B), 'cut and joined'
        elif k == 5:
            if np.linalg.norm(R(0.) - R(R.L)) > 1e-12*scale:
                ctx.raises('rejects', lambda: P.add_phase(.3*R.L), 'phase added to an open path') if np.linalg.norm(R(0.) - R(R.L)) > 1e-2*scale and scale > 1e-4 and np.abs(R(0.)).max() < 10*scale else None
                continue
            ph = float(rng.choice([rng.uniform(0, 1), rng.uniform(-2, 3), 0., 1.])*R.L)
            if any(abs((ph - b) % R.L) < 1e-9*R.L or abs((ph - b) % R.L) > R.L*(1 - 1e-9) for b in R.breaks + [0.]):
                continue      # the start would coincide with a breakpoint up to rounding
            P, R, what = P.add_phase(ph), R.phase(ph), 'add_phase'
            ctx.event('phase')
            ctx.check('phase', True)
        else:
            P, R, what = rigid(rng, scale, P, R)
            ctx.event('rigid')
            ctx.check('rigid', P.name == name, f'{what} changed the name {name!r} to {P.name!r}')
        if k in (0, 1, 2, 3, 4, 5):
            ctx.check('join', P.name == name, f'{what} changed the name {name!r} to {P.name!r}')
        label += '.' + what
        if not judge(ctx, P, R, scale, label[-200:], npts=6, avg=step % 3 == 0):
            return
        kept.append((P, snapshot(P), label))
        ctx.state('operations', what)
        if len(R.pieces) > 40:
            break
    for Q, s, lab in kept:
        ctx.check('operand-unchanged', same(s, snapshot(Q)), f'{lab[-150:]}: changed by later operations on it')
    ctx.note(program=label)
    assert Path is not None


def arclength_model(f, n=4000, breaks=(), eps=0.):
    """Model of a path given by an arbitrary parametrisation on [0, 1]: arc length by composite Gauss integration of |f'|."""
    knots = np.unique(np.concatenate([np.linspace(0, 1, n//8 + 1), list(breaks)]))
    x, w = gauss(8)
    seg = []
    for a, b in zip(knots[:-1], knots[1:]):
        h = (b - a)*1e-4
        m = a + (b - a)*(x + 1)/2
        d = [np.linalg.norm(8*(f(t + h) - f(t - h)) - (f(t + 2*h) - f(t - 2*h)))/(12*h) for t in m]
        seg.append((b - a)/2*np.dot(w, d))
    cum = np.concatenate([[0.], np.cumsum(seg)])

    from scipy.interpolate import PchipInterpolator
    inv = PchipInterpolator(cum, knots)
    return Ref([(lambda s: f(float(inv(s))), cum[-1])], [float(np.interp(b, knots, cum)) for b in breaks], eps)


def run_irregular(ctx, case, rng):
    from traceon.geometry import Path
    scale = 10**rng.uniform(-5, 2)
    mode = case['mode']
    if mode == 0:      # smooth closed curve
        A, B = rng.normal(size=(3, 2)), .15*rng.normal(size=(3, 2))
        c = rng.normal(size=3)

        def f(u):
            t = 2*math.pi*u
            return scale*(c + A @ np.array([math.cos(t), math.sin(t)]) + B @ np.array([math.cos(2*t), math.sin(2*t)]))
        N = int(rng.choice([100, 200, 400]))
        sp = min(np.linalg.norm(f(t + 1e-5) - f(t - 1e-5)) for t in np.linspace(0, 1, 200))/2e-5/scale
        if sp < 1.:
            ctx.event('slow-curve')
            return
        P = Path.from_irregular_function(f if rng.random() < .5 else (lambda u: list(f(u))), N=N) if N != 100 else Path.from_irregular_function(f)
        R, label = arclength_model(f, 800, eps=1e-4), 'smooth irregular function'
    elif mode == 1:
        a, b = scale*rng.uniform(.5, 2), scale*rng.uniform(.5, 2)
        P = Path.ellipse(float(a), float(b))
        R, label = arclength_model(lambda u: np.array([a*math.cos(2*math.pi*u), b*math.sin(2*math.pi*u), 0.]), 800, eps=1e-5), 'ellipse'
        from scipy.special import ellipe
        ctx.close('irregular', P.path_length, 4*max(a, b)*ellipe(1 - (min(a, b)/max(a, b))**2), 1e-5*P.path_length, 'circumference of the ellipse')
    elif mode == 2:    # polyline parametrised at uneven speed, kinks announced as breakpoints
        n = int(rng.integers(1, 4))
        us = np.sort(rng.uniform(.15, .85, size=n))
        if n > 1 and np.diff(us).min() < .15:
            us = np.linspace(.2, .8, n)
        K = np.concatenate([[0], us, [1]])
        V = scale*np.cumsum(rng.normal(size=(n + 2, 3)) + 1., axis=0)

        def f(u):
            return np.array([np.interp(u, K, V[:, i]) for i in range(3)])
        P = Path.from_irregular_function(f, N=400, breakpoints=[float(u) for u in us])
        cum = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(V, axis=0), axis=1))])
        R = ref_line(V[0], V[1])
        for i in range(1, n + 1):
            R = R.join(ref_line(V[i], V[i + 1]))
        tol = .01*R.L
        ctx.close('irregular', P.path_length, R.L, tol, 'length of the polyline')
        if ctx.check('irregular', len(P.breakpoints) == n, f'{len(P.breakpoints)} breakpoints where {n} were given'):
            ctx.close('irregular', P.breakpoints, cum[1:-1], tol, 'breakpoints in terms of length')
            ctx.close('irregular', [P(b) for b in P.breakpoints], V[1:-1], tol, 'breakpoints are the given points')
        for u in rng.uniform(0, 1, size=8):
            ctx.close('irregular', P(float(u*P.path_length)), R(u*R.L), 2*tol, f'point at {u}')
        ctx.nontrivial(V)
        return
    elif mode == 3:    # spline
        n = int(rng.integers(4, 9))
        X = np.cumsum(scale*(rng.normal(size=(n, 3))*.35 + [1, .3, 0]), axis=0)
        P = Path.spline_through_points(X if rng.random() < .5 else X.tolist(), N=300)
        # through the points, in order
        ts = np.linspace(0, P.path_length, 3000)
        pts = np.array([P(float(t)) for t in ts])
        pos = []
        for x in X:
            d = np.linalg.norm(pts - x, axis=1)
            i = int(np.argmin(d))
            pos.append(ts[i])
            ctx.close('irregular', d[i], 0., 2*P.path_length/3000, 'the spline passes through the given points')
        ctx.check('irregular', all(np.diff(pos) > 0), f'the points are passed in the order {pos}')
        ctx.close('irregular', [P.starting_point(), P.endpoint()], [X[0], X[-1]], 1e-6*P.path_length, 'ends of the spline')
        ch = np.linalg.norm(np.diff(pts, axis=0), axis=1).sum()
        ctx.close('irregular', P.path_length, ch, 2e-3*ch, 'length of the spline')
        ctx.close('unit-speed', np.linalg.norm(np.diff(pts, axis=0), axis=1)/(ts[1] - ts[0]), 1., .05, 'speed along the spline')
        ctx.nontrivial(X)
        return
    else:              # arbitrary end points of a monotone curve
        k = rng.uniform(.5, 3)

        def f(u):
            return scale*np.array([u*(1 + .5*u), math.sin(k*u), .3*math.cos(2*u)])
        P = Path.from_irregular_function(f)
        R, label = arclength_model(f, 800, eps=1e-6), 'open irregular function'
        # announced breakpoints are points of the function, whether or not it has a kink there
        ub = np.sort(rng.uniform(.01, .99, size=int(rng.integers(1, 6))))
        PB = Path.from_irregular_function(f, N=200, breakpoints=[float(u) for u in ub])
        if ctx.check('irregular', len(PB.breakpoints) == len(ub), f'{len(PB.breakpoints)} breakpoints where {len(ub)} were given'):
            ctx.close('irregular', [PB(b) for b in PB.breakpoints], [f(u) for u in ub], 1e-7*R.L, 'announced breakpoints are the points of the function')
    ctx.close('irregular', P.path_length, R.L, R.eps*R.L, f'{label}: length')
    judge(ctx, P, R, scale, label, avg=True)
    P2, R2, what = rigid(rng, scale, P, R)
    judge(ctx, P2, R2, scale, label + '.' + what)
    c = rng.uniform(.2, .8)
    P3, P4 = P.cut(float(c*P.path_length))
    R3, R4 = R.cut(c*R.L)
    judge(ctx, P3, R3, scale, label + ' cut')
    judge(ctx, P4, R4, scale, label + ' cut')
    judge(ctx, P3 >> P4, R3.join(R4), scale, label + ' cut and joined')
    ctx.nontrivial(label, P.path_length)


def run_constructors(ctx, case, rng):
    """All constructors with the numbers a user would write (integers, lists)."""
    from traceon.geometry import Path
    e = np.eye(3)
    r, x, z = int(rng.integers(1, 5)), int(rng.integers(-3, 4)), int(rng.integers(-3, 4))
    judge(ctx, Path.circle_xz(x, z, r), ref_arc(np.array([x, 0., z]), r, e[0], e[2], 0., 2*math.pi), r, 'circle_xz of integers', avg=True)
    judge(ctx, Path.circle_yz(x, z, r), ref_arc(np.array([0., x, z]), r, e[1], e[2], 0., 2*math.pi), r, 'circle_yz of integers')
    judge(ctx, Path.circle_xy(x, z, r), ref_arc(np.array([x, z, 0.]), r, e[0], e[1], 0., 2*math.pi), r, 'circle_xy of integers')
    p, q = rng.integers(-3, 4, size=3), rng.integers(4, 9, size=3)
    judge(ctx, Path.line(p.tolist(), q.tolist()), ref_line(p, q), 3., 'line between integer lists', avg=True)
    judge(ctx, Path.line(p, q).line_to([0, 0, 0]), ref_line(p, q).join(ref_line(q, [0, 0, 0])), 3., 'line between integer arrays')
    judge(ctx, Path.arc([0, 0, 0], [r, 0, 0], [0, 0, r]), ref_arc(np.zeros(3), r, e[0], e[2], 0., math.pi/2), r, 'quarter arc of integers')
    judge(ctx, Path.arc([0, 0, 0], [r, 0, 0], [0, 0, r], reverse=True), ref_arc(np.zeros(3), r, e[0], e[2], 0., -1.5*math.pi), r, 'reversed quarter arc of integers')
    P = Path.line([x, 0, z], [x + r, 0, z]).arc_to([x + r, 0, z + r], [x + 2*r, 0, z + r]).line_to([x, 0, z + 2*r]).close()
    R = ref_line([x, 0, z], [x + r, 0, z]).join(ref_arc(np.array([x + r, 0., z + r]), r, -e[2], e[0], 0., math.pi/2))
    R = R.join(ref_line([x + 2*r, 0, z + r], [x, 0, z + 2*r])).join(ref_line([x, 0, z + 2*r], [x, 0, z]))
    judge(ctx, P, R, r, 'profile of integers', avg=True)
    ctx.check('closed', P.is_closed() and Path.circle_xz(x, z, r).is_closed(), 'closed profiles')
    judge(ctx, P.rotate(Rz=0), R, r, 'rotation by zero')
    judge(ctx, P.move(), R, r, 'move by nothing')
    judge(ctx, P.move(dx=1).move(dx=-1), R, r, 'move there and back')
    judge(ctx, P.add_phase(.5*r), R.phase(.5*r), r, 'phase')
    judge(ctx, P.mirror_xy().mirror_xz().mirror_yz(), R.map(lambda v: -v), r, 'three mirrors')
    ctx.check('constructor', True)


def run_collection(ctx, case, rng):
    from traceon.geometry import Path, PathCollection
    scale = 10**rng.uniform(-3, 2)
    n = int(rng.integers(2, 5))
    Ps, Rs = [], []
    for i in range(n):
        P, R, _ = new_path(rng, scale)
        Ps.append(P)
        Rs.append(R)
    snaps = [snapshot(P) for P in Ps]
    C = Ps[0] + Ps[1]
    for P in Ps[2:]:
        C = C + P if rng.random() < .5 else C + (P + P)
    if len(Ps) > 2 and len(C.paths) != n:
        flat = [Ps[0], Ps[1]]
        k = 2
        for P in Ps[2:]:
            m = 2 if k + 1 < len(C.paths) and C.paths[k] is C.paths[k + 1] else 1
            flat += [P]*m
            k += m
    else:
        flat = Ps
    ctx.check('collection', isinstance(C, PathCollection) and len(C.paths) == len(flat) and all(a is b for a, b in zip(C.paths, flat)),
              f'a sum of paths holds {len(C.paths)} paths instead of {len(flat)}')
    before = list(C.paths)
    D = Ps[0] + C
    ctx.check('collection', len(D.paths) == len(before) + 1 and list(C.paths) == before, 'adding a collection to a path')
    E2 = C + C
    ctx.check('collection', len(E2.paths) == 2*len(before) and list(C.paths) == before, 'adding a collection to itself')
    M, RR, what = rigid(rng, scale, C, Ref([(lambda s: np.zeros(3), 1.)]))
    g = RR.pieces[0][0]
    ctx.check('collection', isinstance(M, PathCollection) and len(M.paths) == len(before), f'{what} of a collection')
    base = {id(P): R for P, R in zip(Ps, Rs)}
    # recover the point map from the reference (it was composed with the constant zero): apply it to every path instead
    state = rng.bit_generator.state
    for P, Q in zip(before, M.paths):
        R = base[id(P)]
        for u in (0., .3, .8, 1.):
            d = np.linalg.norm(np.asarray(Q(float(u*P.path_length))) - np.asarray(Q(0.)))
            d0 = np.linalg.norm(R(u*R.L) - R(0.))
            ctx.close('collection', d, d0, 1e-10*(scale + np.abs(R(0.)).max() + np.abs(g(0.)).max()), f'{what} of a collection is not rigid')
        ctx.check('collection', len(Q.breakpoints) == len(P.breakpoints) and Q.path_length == P.path_length, f'{what} of a collection')
    rng.bit_generator.state = state
    v = scale*rng.normal(size=3)
    M = C.move(*[float(x) for x in v])
    for P, Q in zip(before, M.paths):
        judge(ctx, Q, base[id(P)].map(lambda p: p + v), scale, 'collection.move', npts=3)
    ax = 'xyz'[rng.integers(3)]
    a = float(rng.uniform(-3, 3))
    M = C.rotate(**{'R' + ax: a})
    for P, Q in zip(before, M.paths):
        judge(ctx, Q, base[id(P)].map(lambda p: rot(ax, a) @ p), scale, 'collection.rotate', npts=3)
    ctx.check('collection', all(s[0][0] is not None and same(s, snapshot(P)) for s, P in zip(snaps, Ps)), 'a path was modified by collecting it')
    C.name = 'abc'
    ctx.check('collection', C.name == 'abc' and all(P.name == 'abc' for P in C.paths), 'naming a collection names its paths')
    F = Path.line([0., 0., 0.], [1., 0., 0.]) + Path.line([0., 0., 0.], [0., 1., 0.])
    k0 = list(F.paths)
    F += Ps[0]
    F += (Ps[0] + Ps[1])
    ctx.check('collection', F.paths == k0 + [Ps[0], Ps[0], Ps[1]], '+= appends the paths in order')
    ctx.nontrivial(n, scale, what)


def run_rejects(ctx, case, rng):
    from traceon.geometry import Path
    a, b = Path.line([0., 0., 0.], [1., 0., 0.]), Path.line([1., .01*(1 + rng.random()), 0.], [2., 0., 0.])
    ctx.raises('rejects', lambda: a >> b, 'joining paths that do not touch')
    ctx.raises('rejects', lambda: b >> a, 'joining paths that do not touch')
    ctx.raises('rejects', lambda: a >> 3, 'joining a path with a number')
    ctx.raises('rejects', lambda: a.add_phase(.3), 'adding a phase to an open path')
    ctx.raises('rejects', lambda: a.line_to([1., 2.]), 'a two dimensional point')
    ctx.raises('rejects', lambda: a.rotate(Rx=1., Ry=1.), 'rotating around two axes')
    ctx.raises('rejects', lambda: a + 3, 'adding a number to a path')
    ctx.nontrivial(case['s'])
