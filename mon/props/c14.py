"""C14: meshes are checked element by element against the path or surface they were made from."""
import math

import numpy as np

from mon.props.c12 import arclength_model
from mon.props.c13 import area_of, grid, profile, rigid, size_of

RULE = ('random paths (lines, arcs, circles, polygons, ellipses) and surfaces (revolved, extruded, spanned, boundary, primitives, collections, enclosed shapes) '
        'meshed with random mesh sizes and factors at scales 1e-5..1e2; non-trivial when the mesh has breakpoints or curved elements')
ASSUMPTIONS = ['neighbouring elements of a surface mesh need not share complete edges (the mesher makes hanging nodes); only coverage is required']
REQUIRED = {'cell-size': 3000, 'vertex-on-path': 2000, 'path-order': 100, 'element-length': 1000, 'path-breakpoint': 100, 'line-group': 100, 'higher-order-nodes': 300,
            'same-count': 60, 'vertex-on-surface': 1500, 'area': 60, 'edge-length': 1000, 'surface-breakpoint': 60, 'triangle-group': 100, 'refinement': 60,
            'collection': 20, 'no-lines': 50, 'cell-centre': 800, 'cover-exact': 20}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('path', 150), ('smooth', 40), ('surface', 110), ('primitive', 54), ('collection', 30), ('cells', 60)):
        for i in range(n if q else 10*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


# ------------------------------------------------------------------ paths
class Locator:
    """Finds the arc length at which a point lies on a model path (all of them if the path passes there more than once)."""

    def __init__(self, R, n=1500):
        self.R = R
        ends = np.concatenate([[0.], np.cumsum([m for _, m in R.pieces])])
        s = [np.linspace(a, b, max(20, int(n*(b - a)/R.L)) + 1) for a, b in zip(ends[:-1], ends[1:])]
        self.s = np.unique(np.concatenate(s))
        self.P = np.array([R(x) for x in self.s])

    def near(self, p):
        """(distance, arc length) of the best positions."""
        d = np.linalg.norm(self.P - p, axis=1)
        out = []
        h = np.diff(self.s).max()
        idx = np.flatnonzero(d <= d.min() + 1e-9*self.R.L + 1e-4*h)
        for k in ([int(np.argmin(d))] + [int(i) for i in idx])[:4]:
            lo, hi = self.s[max(k - 1, 0)], self.s[min(k + 1, len(self.s) - 1)]
            # stay on one side of a corner: minimise on both halves
            for a, b in ((lo, self.s[k]), (self.s[k], hi)):
                if b <= a:
                    continue
                f = lambda x: np.linalg.norm(self.R(x) - p)         # noqa: E731
                g = (math.sqrt(5) - 1)/2
                x1, x2 = b - g*(b - a), a + g*(b - a)
                f1, f2 = f(x1), f(x2)
                for _ in range(60):
                    if f1 < f2:
                        b, x2, f2 = x2, x1, f1
                        x1 = b - g*(b - a)
                        f1 = f(x1)
                    else:
                        a, x1, f1 = x1, x2, f2
                        x2 = a + g*(b - a)
                        f2 = f(x2)
                out.append((f((a + b)/2), (a + b)/2))
                out.append((f(self.s[k]), self.s[k]))
        return min(out)


def walk(ctx, lines, first, label):
    """Vertices in order along the chain of elements starting at the given vertex; None if it is not a chain."""
    nxt = {}
    for n, ln in enumerate(lines):
        for a, b in ((int(ln[0]), int(ln[1])), (int(ln[1]), int(ln[0]))):
            nxt.setdefault(a, []).append((b, n))
    order, used, at = [first], [], first
    while True:
        cand = [(b, n) for b, n in nxt.get(at, []) if n not in used]
        if not cand:
            break
        if len(cand) > 1 and at != first:
            return None, None     # the path crosses itself
        b, n = cand[0]
        order.append(b)
        used.append(n)
        at = b
        if len(order) > len(lines) + 1:
            return None, None
    return (order, used) if len(used) == len(lines) else (None, None)


def judge_path_mesh(ctx, P, R, m, scale, label, ms=None, factor=None, ho=False, name=None):
    size = size_of(R)
    tol = max(1e-10*size, 2*R.err)
    lines, pts = m.lines.astype(int), m.points
    ctx.check('no-lines', len(m.triangles) == 0, f'{label}: a path mesh contains triangles')
    if not ctx.check('line-group', lines.shape[1] == (4 if ho else 2), f'{label}: elements with {lines.shape[1]} points'):
        return
    if name is None:
        ctx.check('line-group', not m.physical_to_lines, f'{label}: groups {list(m.physical_to_lines)} in a mesh without name')
    else:
        ctx.check('line-group', list(m.physical_to_lines) == [name] and sorted(m.physical_to_lines[name]) == list(range(len(lines))),
                  f'{label}: not all {len(lines)} elements are in the group {name}: {({k: len(v) for k, v in m.physical_to_lines.items()})}')
    loc = Locator(R)
    # positions of the elements along the path: every element joins two neighbouring positions
    ends = [0.] + [b for b in R.breaks if 1e-9*R.L < b < R.L*(1 - 1e-9)] + [R.L]
    closed = np.linalg.norm(R(0.) - R(R.L)) < 1e-9*scale
    s = np.empty(len(pts))
    dist = np.empty(len(pts))
    for i, p in enumerate(pts):
        dist[i], s[i] = loc.near(p)
    ctx.close('vertex-on-path', dist, 0., tol, f'{label}: a vertex is not on the path')
    used = np.unique(lines)
    ctx.check('vertex-on-path', len(used) == len(pts), f'{label}: {len(pts) - len(used)} points belong to no element')
    for b in ends:
        d = np.linalg.norm(pts - R(b), axis=1).min()
        ctx.close('path-breakpoint', d, 0., 2*tol, f'{label}: no vertex at the breakpoint or end at {b} of {R.L}')
    # walk along the chain from the start
    first = int(np.argmin(np.linalg.norm(pts - R(0.), axis=1)))
    cover = 0.
    touches = crosses(R, loc, scale)      # then a vertex may have several positions
    for ln in lines if not touches else []:
        # length of the piece of the path the element stands for
        a, b = s[ln[0]], s[ln[1]]
        d = abs(a - b)
        if closed and d > R.L/2:
            d = R.L - d
        cover += d
        if ms is not None:
            ctx.check('element-length', d <= ms*(1 + 1e-6) + 3*R.err, lambda: f'{label}: an element spans {d} of the path, mesh size {ms}')
        if ho:
            lo, hi = min(a, b), max(a, b)
            if closed and hi - lo > R.L/2:
                continue
            q2, q3 = (ln[2], ln[3]) if a < b else (ln[3], ln[2])
            want = [R(lo + (hi - lo)/3), R(lo + 2*(hi - lo)/3)]
            ctx.close('higher-order-nodes', [pts[q2], pts[q3]], want, 3*tol, f'{label}: inner nodes of a curved element')
    if not touches:
        ctx.close('path-order', cover, R.L, 1e-6*R.L + 4*R.err*len(lines), f'{label}: the elements cover {cover} of a path of length {R.L}')
        order, _ = walk(ctx, lines[:, :2], first, label)
        ctx.check('path-order', order is not None, f'{label}: the {len(lines)} elements do not form a chain from the start of the path')
        if order is not None and not closed:
            ss = s[order]
            ctx.check('path-order', np.all(np.diff(ss) > 0), f'{label}: the chain of elements is not in the order of the path')
            # every section has at least three elements
            for a, b in zip(ends[:-1], ends[1:]):
                n = int(np.sum((ss > a - 1e-7*R.L) & (ss < b + 1e-7*R.L))) - 1
                ctx.check('element-length', n >= 3, f'{label}: only {n} elements between the breakpoints at {a} and {b}')
    else:
        ctx.event('self-touching path')
    chord = np.linalg.norm(pts[lines[:, 0]] - pts[lines[:, 1]], axis=1)
    ctx.check('element-length', chord.min() > 0 and chord.sum() <= R.L*(1 + 1e-9) + 4*R.err, f'{label}: total length {chord.sum()} of the elements of a path of length {R.L}')
    if ms is not None:
        ctx.check('element-length', chord.max() <= ms*(1 + 1e-6) + 3*R.err, lambda: f'{label}: an element has length {chord.max()}, mesh size {ms}')


def crosses(R, loc, scale):
    """The path touches itself somewhere (other than start = end)."""
    n = 400
    t = np.linspace(0, R.L, n)
    X = np.array([R(x) for x in t])
    D = np.linalg.norm(X[:, None] - X[None], axis=2)
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    gap = abs(i - j)
    if np.linalg.norm(X[0] - X[-1]) < 1e-9*scale:
        gap = np.minimum(gap, n - gap)
    return bool(np.any(D[gap > 6] < 1.5*R.L/n))


def run_path(ctx, case, rng):
    scale = 10**rng.uniform(-5, 2)
    P, R, what = profile(rng, scale)
    P.name = 'el' if rng.random() < .7 else None
    name = P.name
    kw = {}
    if rng.random() < .3:
        kw['name'] = name = 'other'
    oo = {} if rng.random() < .5 else dict(ensure_outward_normals=bool(rng.random() < .5))
    if rng.random() < .7:
        ms = float(R.L/rng.uniform(1, 60))
        args = dict(mesh_size=ms)
        fac = None
    else:
        ms, fac = None, int(rng.choice([1, 2, 3, 5]))
        args = dict(mesh_size_factor=fac)
    m1 = P.mesh(**args, **kw, **oo)
    m2 = P.mesh(**args, **kw, **oo, higher_order=True)
    label = f'{what}.mesh({args})'
    judge_path_mesh(ctx, P, R, m1, scale, label, ms=ms, factor=fac, name=name)
    judge_path_mesh(ctx, P, R, m2, scale, label + ' higher order', ms=ms, factor=fac, ho=True, name=name)
    ctx.check('same-count', len(m1.lines) == len(m2.lines), f'{label}: {len(m1.lines)} straight but {len(m2.lines)} curved elements')
    # the end points of the elements are the same
    a = m1.points[np.unique(m1.lines.astype(int))]
    b = m2.points[np.unique(m2.lines[:, :2].astype(int))]
    D = np.linalg.norm(a[:, None] - b[None], axis=2)
    ctx.check('same-count', a.shape == b.shape and max(D.min(axis=0).max(), D.min(axis=1).max()) < 1e-9*size_of(R), f'{label}: straight and curved elements have different end points')
    # refinement
    finer = P.mesh(mesh_size=ms/2.5) if ms is not None else P.mesh(mesh_size_factor=fac*2)
    ctx.check('refinement', len(finer.lines) >= len(m1.lines) and (ms is None or R.L/ms < 4*(len(R.breaks) + 1) or len(finer.lines) > 1.5*len(m1.lines)) and (fac is None or len(finer.lines) > len(m1.lines)),
              f'{label}: refining changes the number of elements from {len(m1.lines)} to {len(finer.lines)}')
    if ms is not None:
        upper = sum(max(math.ceil((b - a)/ms - 1e-9), 3) for a, b in zip([0.] + R.breaks, R.breaks + [R.L]))
        ctx.check('refinement', len(m1.lines) <= 2*upper + 2, f'{label}: {len(m1.lines)} elements where {upper} suffice')
    ctx.nontrivial(label, R.L)
    ctx.state('path', what.split('.')[0])


def run_smooth(ctx, case, rng):
    from traceon.geometry import Path
    scale = 10**rng.uniform(-4, 2)
    a, b = scale*rng.uniform(.5, 2), scale*rng.uniform(.5, 2)
    if case['mode'] % 2:
        P = Path.ellipse(float(a), float(b))
        R = arclength_model(lambda u: np.array([a*math.cos(2*math.pi*u), b*math.sin(2*math.pi*u), 0.]), 800, eps=1e-5)
    else:
        P = Path.from_irregular_function(lambda u: np.array([a*u*(1 + u), b*math.sin(2*u), .2*a*math.cos(3*u)]))
        R = arclength_model(lambda u: np.array([a*u*(1 + u), b*math.sin(2*u), .2*a*math.cos(3*u)]), 800, eps=1e-5)
    ms = float(R.L/rng.uniform(5, 40))
    for ho in (False, True):
        m = P.mesh(mesh_size=ms, higher_order=ho, name='s')
        judge_path_mesh(ctx, P, R, m, scale, 'smooth path', ms=ms*(1 + 1e-4), ho=ho, name='s')
        if not ho:
            n = len(m.lines)
        else:
            ctx.check('same-count', len(m.lines) == n, 'number of elements of a smooth path')
    ctx.nontrivial(a, b)


# ------------------------------------------------------------------ surfaces
class SurfaceLocator:
    def __init__(self, parts, n=25):
        self.parts = parts
        self.UV, self.P = [], []
        for k, S in enumerate(parts):
            L1, L2 = float(S.path_length1), float(S.path_length2)
            b1 = [0.] + [float(b) for b in S.breakpoints1] + [L1]
            b2 = [0.] + [float(b) for b in S.breakpoints2] + [L2]
            for u0, u1 in zip(b1[:-1], b1[1:]):
                for v0, v1 in zip(b2[:-1], b2[1:]):
                    if u1 <= u0 or v1 <= v0:
                        continue
                    for u in u0 + (u1 - u0)*(np.arange(n) + .5)/n:
                        for v in v0 + (v1 - v0)*(np.arange(n) + .5)/n:
                            self.UV.append((k, u, v, u0, u1, v0, v1))
                            self.P.append(np.asarray(S(min(u, L1), min(v, L2))))
        self.P = np.array(self.P)

    def distance(self, p, size):
        d = np.linalg.norm(self.P - p, axis=1)
        best = np.inf
        order = np.argsort(d)
        seeds, seen = list(order[:8]), set()
        for k in order[:400]:       # and the nearest point of every other patch
            key = self.UV[int(k)][:1] + self.UV[int(k)][3:]
            if key not in seen:
                seen.add(key)
                seeds.append(k)
        for k in seeds[:24]:
            n, u, v, u0, u1, v0, v1 = self.UV[int(k)]
            S = self.parts[n]
            x = np.array([u, v])
            r = np.asarray(S(*x)) - p
            for _ in range(12):
                if np.linalg.norm(r) < 1e-12*size:
                    break
                h = 1e-6*np.array([u1 - u0, v1 - v0])
                J = np.empty((3, 2))
                for c in range(2):
                    y = x.copy()
                    sg = 1. if y[c] + h[c] <= (u1, v1)[c] else -1.
                    y[c] += sg*h[c]
                    J[:, c] = (np.asarray(S(*y)) - p - r)/(sg*h[c])
                st = np.linalg.lstsq(J, -r, rcond=1e-7)[0]
                y = np.clip(x + st, [u0, v0], [u1, v1])
                r2 = np.asarray(S(*y)) - p
                t = 0
                while np.linalg.norm(r2) > np.linalg.norm(r) and t < 8:
                    st = st/2
                    y = np.clip(x + st, [u0, v0], [u1, v1])
                    r2 = np.asarray(S(*y)) - p
                    t += 1
                if np.linalg.norm(r2) >= np.linalg.norm(r):
                    break
                x, r = y, r2
            best = min(best, np.linalg.norm(r))
            if best < 1e-9*size:
                break
        if best > 1e-8*size:          # near a fold: more starting points and a slower but safer search
            from scipy.optimize import least_squares
            for k in order[:40]:
                n, u, v, u0, u1, v0, v1 = self.UV[int(k)]
                S = self.parts[n]
                w = np.array([u1 - u0, v1 - v0])
                o = np.array([u0, v0])
                q = least_squares(lambda y: (np.asarray(S(*np.clip(o + y*w, o, [u1, v1]))) - p)/size, (np.array([u, v]) - o)/w, bounds=([0, 0], [1, 1]), xtol=1e-15, ftol=1e-15, gtol=1e-15)
                best = min(best, size*np.linalg.norm(q.fun))
                if best < 1e-8*size:
                    break
        return best


def curve_covered(ctx, S, first, b, pts, edges, size, label):
    """The line u = b (or v = b) of the surface is made of edges of the mesh."""
    L1, L2 = float(S.path_length1), float(S.path_length2)
    f = (lambda t: np.asarray(S(b, min(t*L2, L2)))) if first else (lambda t: np.asarray(S(min(t*L1, L1), b)))
    t = np.linspace(0, 1, 800)
    X = np.array([f(x) for x in t])
    seg = np.linalg.norm(np.diff(X, axis=0), axis=1)
    total = seg.sum()
    if total < 1e-6*size:
        return
    cand = np.flatnonzero(np.array([np.linalg.norm(X - p, axis=1).min() for p in pts]) < 1.01*seg.max())
    par = {}
    for i in cand:
        # all positions at which the curve passes through the vertex
        dist = np.linalg.norm(X - pts[i], axis=1)
        pad = np.concatenate([[np.inf], dist, [np.inf]])
        for k in np.flatnonzero((dist <= pad[:-2]) & (dist <= pad[2:]) & (dist < 1.01*seg.max())):
            a, c = t[max(k - 1, 0)], t[min(k + 1, len(t) - 1)]
            for _ in range(45):
                x1, x2 = a + .382*(c - a), a + .618*(c - a)
                if np.linalg.norm(f(x1) - pts[i]) < np.linalg.norm(f(x2) - pts[i]):
                    c = x2
                else:
                    a = x1
            for x in ((a + c)/2, t[k]):
                if np.linalg.norm(f(x) - pts[i]) < 3e-7*size:
                    par.setdefault(int(i), []).append(x)
                    break
    closed = np.linalg.norm(X[0] - X[-1]) < 1e-7*size
    cum = np.concatenate([[0], np.cumsum(seg)])/total
    iv = []
    for a, c in edges:
        if int(a) not in par or int(c) not in par:
            continue
        for x in par[int(a)]:
            for y in par[int(c)]:
                x0, y0 = min(x, y), max(x, y)
                # an edge along the curve, not a chord between two far apart points of it
                arc = (np.interp(y0, t, cum) - np.interp(x0, t, cum))*total
                chord = np.linalg.norm(pts[a] - pts[c])
                if chord > .75*arc:
                    iv.append((x0, y0))
                if closed and chord > .75*(total - arc):
                    iv += [(y0, 1.), (0., x0)]
    iv.sort()
    reach, hole = 0., 0.
    for x, y in iv:
        if x > reach + 1e-4:
            hole += x - reach
        reach = max(reach, y)
    hole += max(0., 1 - reach - 1e-4)
    ctx.close('surface-breakpoint', hole, 0., 1e-3, f'{label}: part of the breakpoint line at {b} ({"first" if first else "second"} direction) is not made of element edges')


def judge_surface_mesh(ctx, parts, m, scale, label, ms=None, name=None, area=None, area_tol=1e-9, rng=None, breaks=True, nv=25):
    tri, pts = m.triangles.astype(int), m.points
    ctx.check('no-lines', len(m.lines) == 0, f'{label}: a surface mesh contains lines')
    if name is None:
        ctx.check('triangle-group', not m.physical_to_triangles, f'{label}: groups in a mesh without name')
    else:
        ctx.check('triangle-group', list(m.physical_to_triangles) == [name] and sorted(m.physical_to_triangles[name]) == list(range(len(tri))),
                  f'{label}: not all {len(tri)} elements are in the group {name}: {({k: len(v) for k, v in m.physical_to_triangles.items()})}')
    size = np.abs(pts).max() + np.ptp(pts, axis=0).max()
    loc = SurfaceLocator(parts, 25 if len(parts) < 3 else 17)
    for i in rng.choice(len(pts), size=min(nv, len(pts)), replace=False):
        ctx.close('vertex-on-surface', loc.distance(pts[i], size), 0., 1e-7*size, f'{label}: vertex {pts[i]} is not on the surface')
    T = pts[tri]
    e = np.stack([np.linalg.norm(T[:, 1] - T[:, 0], axis=1), np.linalg.norm(T[:, 2] - T[:, 1], axis=1), np.linalg.norm(T[:, 0] - T[:, 2], axis=1)], axis=1)
    if ms is not None:
        ctx.close('edge-length', np.maximum(e.max(axis=1), 1.5*ms), 1.5*ms, .6*ms, f'{label}: an element is larger than the mesh size {ms} allows')
        ctx.close('edge-length', np.maximum(np.sort(e, axis=1)[:, 0], ms), ms, 1e-6*ms, f'{label}: all sides of an element are larger than the mesh size {ms}')
    A = np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1)/2
    want = sum(area_of(S) for S in parts) if area is None else area
    ctx.close('area', A.sum(), want, area_tol*want, f'{label}: area of the {len(tri)} elements')
    if breaks:
        edges = np.unique(np.sort(np.concatenate([tri[:, [0, 1]], tri[:, [1, 2]], tri[:, [2, 0]]]), axis=1), axis=0)
        for S in parts:
            for first, bs in ((True, S.breakpoints1), (False, S.breakpoints2)):
                for b in list(bs)[:2]:
                    curve_covered(ctx, S, first, float(b), pts, edges, size, label)


def folded(S, A, n=16):
    """The surface turns back on itself (its area element vanishes somewhere inside), where a mesh approximates the area badly."""
    L1, L2 = float(S.path_length1), float(S.path_length2)
    low = np.inf
    h = 1e-5
    N = np.empty((n, n, 3))
    for i, u in enumerate((np.arange(n) + .5)/n):
        for j, v in enumerate((np.arange(n) + .5)/n):
            du = (np.asarray(S((u + h)*L1, v*L2)) - np.asarray(S((u - h)*L1, v*L2)))/2/h
            dv = (np.asarray(S(u*L1, (v + h)*L2)) - np.asarray(S(u*L1, (v - h)*L2)))/2/h
            c = np.cross(du, dv)
            low = min(low, np.linalg.norm(c))
            N[i, j] = c/max(np.linalg.norm(c), 1e-300)
    flip = min(np.sum(N[1:]*N[:-1], axis=2).min(), np.sum(N[:, 1:]*N[:, :-1], axis=2).min())
    return low < .1*A or flip < -.7


def iso_edges(ctx, parts, m, ms, label, depth=6):
    """Sides of elements along lines of constant u or v are sides of the cells of the mesher, which may not exceed the mesh size."""
    pts, tri = m.points, m.triangles.astype(int)
    size = np.abs(pts).max() + np.ptp(pts, axis=0).max()
    edges = np.unique(np.sort(np.concatenate([tri[:, [0, 1]], tri[:, [1, 2]], tri[:, [2, 0]]]), axis=1), axis=0)
    length = np.linalg.norm(pts[edges[:, 0]] - pts[edges[:, 1]], axis=1)
    n = 2**depth
    seen = 0
    for S in parts:
        b1 = [0.] + [float(b) for b in S.breakpoints1] + [float(S.path_length1)]
        b2 = [0.] + [float(b) for b in S.breakpoints2] + [float(S.path_length2)]
        for u0, u1 in zip(b1[:-1], b1[1:]):
            for v0, v1 in zip(b2[:-1], b2[1:]):
                where = {}
                for i in range(n + 1):
                    row = np.array([np.asarray(S(u0 + (u1 - u0)*i/n, v0 + (v1 - v0)*j/n)) for j in range(n + 1)])
                    D = np.abs(row[:, None] - pts[None]).max(axis=2)
                    for j, k in zip(*np.nonzero(D < 1e-9*size)):
                        where.setdefault(int(k), []).append((i, int(j)))
                for (a, b), ln in zip(edges, length):
                    for i, j in where.get(int(a), []):
                        for k, o in where.get(int(b), []):
                            if i == k or j == o:
                                seen += 1
                                ctx.check('cell-size', ln <= ms*(1 + 1e-9), lambda: f'{label}: a cell has a side of {ln}, mesh size {ms}')
    return seen


def run_surface(ctx, case, rng):
    from traceon.geometry import Surface
    from mon.props.c12 import new_path
    scale = 10**rng.uniform(-5, 2)
    P, R, what = profile(rng, scale)
    kind = case['mode'] % 5
    flat = False
    if kind == 0:
        ax = 'xyz'[rng.integers(3)]
        i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[ax]
        fs = np.array([R(f*R.L) for f in np.linspace(0, 1, 300)])
        if np.hypot(fs[:, i], fs[:, j]).min() < .03*scale:
            P, R, _ = new_path(rng, scale)
            P, R = P.move(**{'d' + 'xyz'[i]: 12.*scale}), R.map(lambda p: p + 12.*scale*np.eye(3)[i])
        ang = 2*math.pi if rng.random() < .5 else float(rng.uniform(.5, 6))
        S = getattr(P, 'revolve_' + ax)(ang)
        label = f'{what}.revolve_{ax}({ang:.3f})'
    elif kind == 1:
        v = scale*rng.normal(size=3)
        S = P.extrude(v)
        label = f'{what}.extrude'
    elif kind == 2:
        Q, W, w2 = new_path(rng, scale)
        S = P.extrude_by_path(Q)
        label = f'{what}.extrude_by_path({w2})'
    elif kind == 3:
        v = scale*rng.normal(size=3)
        Q = P.move(*[float(x) for x in v]) if rng.random() < .5 else new_path(rng, scale)[0]
        S = Surface.spanned_by_paths(P, Q)
        label = f'spanned_by_paths({what})'
    else:
        C = scale*(np.array([[0., 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]) + .1*rng.normal(size=(4, 3)))
        flat = rng.random() < .5
        if flat:
            C[:, 2] = 0
        from traceon.geometry import Path
        ps = []
        for n in range(4):
            a, b = C[n], C[(n + 1) % 4]
            if rng.random() < .5:
                ps.append(Path.line(a, (2*a + b)/3 if rng.random() < .5 else (a + b)/2).line_to(b))
            else:
                ps.append(Path.line(a, b))
        S = Surface.from_boundary_paths(*ps)
        label = 'from_boundary_paths'
    A = area_of(S, 16)
    tolA = (.15, .04) if not folded(S, A) else (1., 1.)
    S.name = 'sf'
    ext = max(np.ptp(grid(S, 7), axis=0).max(), 1e-300)
    m0 = ext*rng.uniform(.06, .2)
    if A/m0**2 > 2500:
        m0 = math.sqrt(A/2500)
    ms = float(m0)
    oo = {} if rng.random() < .5 else dict(ensure_outward_normals=False)
    m = S.mesh(mesh_size=ms, **oo)
    judge_surface_mesh(ctx, [S], m, scale, label, ms=ms, name='sf', area=A, area_tol=tolA[0], rng=rng)
    if rng.random() < .35:
        m2 = max(ms/4, math.sqrt(A/5000))
        fine = S.mesh(mesh_size=m2, name='x')
        judge_surface_mesh(ctx, [S], fine, scale, label + ' refined', ms=m2, name='x', area=A, area_tol=tolA[1], rng=rng, breaks=False, nv=8)
        ctx.check('refinement', len(fine.triangles) >= len(m.triangles),
                  f'{label}: halving the mesh size changes the number of elements from {len(m.triangles)} to {len(fine.triangles)}')
    if len(S.breakpoints1) + len(S.breakpoints2) <= 3 and rng.random() < .3:
        iso_edges(ctx, [S], m, ms, label)
    if rng.random() < .3:
        # a mesh size that varies over the surface
        k = rng.normal(size=3)
        k *= .15/np.linalg.norm(k)
        low = ms
        fun = lambda x, y, z: low*(1 + .6*math.tanh(float(k @ [x, y, z])/low/.6))       # noqa: E731
        mv = S.mesh(mesh_size=fun, name='v')
        T = mv.points[mv.triangles.astype(int)]
        e = np.sort(np.stack([np.linalg.norm(T[:, n] - T[:, n - 1], axis=1) for n in range(3)], axis=1), axis=1)
        loc = np.array([fun(*c) for c in T.mean(axis=1)])
        ctx.close('edge-length', np.maximum(e[:, 0]/loc, 1.), 1., .25, f'{label}: a side of an element against a mesh size varying between {loc.min()} and {loc.max()}')
        ctx.close('edge-length', np.maximum(e[:, 2]/loc, 1.5), 1.5, 1.0, f'{label}: longest side of an element against a mesh size varying between {loc.min()} and {loc.max()}')
        judge_surface_mesh(ctx, [S], mv, scale, label + ' varying mesh size', name='v', area=A, area_tol=2*tolA[0], rng=rng, breaks=False, nv=4)
        mc = S.mesh(mesh_size=lambda x, y, z: low)
        ctx.check('edge-length', mc.points.shape == m.points.shape and np.array_equal(mc.points, m.points) and len(mc.triangles) == len(m.triangles),
                  f'{label}: mesh size {low} given as a function gives another mesh than given as a number')
        ctx.event('varying mesh size')
    if rng.random() < .4 and min(S.path_length1, S.path_length2) > .02*max(S.path_length1, S.path_length2):
        f1, f2 = S.mesh(mesh_size_factor=1), S.mesh(mesh_size_factor=8)
        d = S.mesh()
        ctx.check('refinement', len(d.triangles) == len(f1.triangles), f'{label}: the default mesh has {len(d.triangles)} elements, with factor one {len(f1.triangles)}')
        ctx.check('refinement', len(f2.triangles) >= len(f1.triangles), f'{label}: factor 1: {len(f1.triangles)}, factor 8: {len(f2.triangles)} elements')
        T = f2.points[f2.triangles.astype(int)]
        ctx.close('area', np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1).sum()/2, A, max(.1, tolA[0])*A, f'{label}: area with mesh size factor')
    ctx.state('surface', kind)
    if len(S.breakpoints1) or len(S.breakpoints2):
        ctx.nontrivial(label, A)


def run_cells(ctx, case, rng):
    """Surfaces of which the sides differ in length: no side of a cell exceeds the mesh size at the centre of the cell, and the triangles tile the surface."""
    from traceon.geometry import Path, Surface
    scale = float(10**rng.uniform(-5, 2))
    mode = case['mode'] % 6
    M = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    o = scale*rng.normal(size=3)
    f = lambda a, b: o + M @ (scale*np.array([a, b, 0.]))       # noqa: E731
    short, long_, h = rng.uniform(.02, .3), rng.uniform(1, 2), rng.uniform(.3, 2)
    shift = rng.uniform(-.5, 1.)
    if mode == 0:
        a, b = Path.line(f(0, 0), f(short, 0)), Path.line(f(shift, h), f(shift + long_, h))
        S, label = Surface.spanned_by_paths(*((a, b) if rng.random() < .5 else (b, a))), 'fan'
    elif mode == 1:
        # the same fan, spanned between its legs
        a, b = Path.line(f(0, 0), f(shift, h)), Path.line(f(short, 0), f(shift + long_, h))
        if rng.random() < .5:
            a, b = Path.line(f(shift, h), f(0, 0)), Path.line(f(shift + long_, h), f(short, 0))
        S, label = Surface.spanned_by_paths(*((a, b) if rng.random() < .5 else (b, a))), 'fan between its legs'
    elif mode == 2:
        C = [f(0, 0), f(short, 0), f(shift + long_, h), f(shift, h)]
        k = int(rng.integers(4))
        C = C[k:] + C[:k]
        S, label = Surface.from_boundary_paths(*[Path.line(C[n], C[(n + 1) % 4]) for n in range(4)]), f'trapezoid {k}'
    elif mode == 3:
        a = [short*scale, 0., 0.]
        b = [long_*scale, 0., (shift + 1)*scale]
        S = (Path.line(a, b) if rng.random() < .5 else Path.line(b, a)).revolve_z(float(rng.uniform(.3, 3.)))
        S, label = S.rotate(Rx=float(rng.uniform(0, 6))).move(*[float(x) for x in o]), 'cone'
    elif mode == 4:
        S, label = Path.line(f(0, 0), f(long_, 0)).extrude(M @ (scale*np.array([shift, h, 0.]))), 'parallelogram'
    else:
        C = [f(0, 0), f(1 + rng.uniform(-.3, 1), 0), f(1 + rng.uniform(-.3, .3), 1 + rng.uniform(-.3, 1)), f(0, 1)]
        S, label = Surface.from_boundary_paths(*[Path.line(C[n], C[(n + 1) % 4]) for n in range(4)]), 'quadrangle'
    L1, L2 = float(S.path_length1), float(S.path_length2)
    depth = 6
    n = 2**depth
    lat = np.array([[np.asarray(S(min(L1*i/n, L1), min(L2*j/n, L2))) for j in range(n + 1)] for i in range(n + 1)])
    size = np.abs(lat).max() + np.ptp(lat.reshape(-1, 3), axis=0).max()
    ext = np.ptp(lat.reshape(-1, 3), axis=0).max()
    ms = float(ext*rng.uniform(.06, .3))
    how = int(rng.integers(3))
    if how == 0:
        fun, arg = (lambda x: ms), ms
    else:
        k = rng.normal(size=3)
        k = M @ [math.cos(k[0]), math.sin(k[0]), 0.] if mode != 3 else k/np.linalg.norm(k)
        c = lat[tuple(rng.integers(n//4, 3*n//4, size=2))]
        r = rng.uniform(1.5, 4)
        if how == 1:
            fun = lambda x: ms*(r if k @ (np.asarray(x) - c) > 0 else 1.)       # noqa: E731
        else:
            fun = lambda x: ms*(1 + r*abs(k @ (np.asarray(x) - c))/ext)     # noqa: E731
        arg = lambda x, y, z: float(fun([x, y, z]))       # noqa: E731
    m = S.mesh(mesh_size=arg, name='c')
    label += ['', ', step in the mesh size', ', graded mesh size'][how]
    pts, tri = m.points, m.triangles.astype(int)[:, :3]
    flat = lat.reshape(-1, 3)
    pos = np.full((len(pts), 2), -1)
    for a in range(len(pts)):
        d = np.abs(flat - pts[a]).max(axis=1)
        hit = np.flatnonzero(d < 1e-9*size)
        if len(hit) == 1:
            pos[a] = divmod(int(hit[0]), n + 1)
    T = pos[tri]
    known = np.all(T >= 0, axis=(1, 2))
    if known.all():
        d1, d2 = T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]
        total = np.abs(d1[:, 0]*d2[:, 1] - d1[:, 1]*d2[:, 0]).sum()
        ctx.check('cover-exact', total == 2*n*n, f'{label}: the triangles cover {total/2/n/n} of the surface')
    boxes = {}
    for t in np.flatnonzero(known):
        lo, hi = T[t].min(axis=0), T[t].max(axis=0)
        corners = {(int(x), int(y)) for x in (lo[0], hi[0]) for y in (lo[1], hi[1])}
        if {tuple(map(int, q)) for q in T[t]} <= corners:
            boxes.setdefault((*map(int, lo), *map(int, hi)), []).append(t)
    for (i0, j0, i1, j1), ts in boxes.items():
        if len(ts) != 2 or i1 == i0 or j1 == j0:
            continue        # part of a cell with a point on one of its sides
        p1, p2, p3, p4 = lat[i0, j0], lat[i0, j1], lat[i1, j0], lat[i1, j1]
        side = max(np.linalg.norm(p1 - p2), np.linalg.norm(p3 - p4), np.linalg.norm(p1 - p3), np.linalg.norm(p2 - p4))
        centre = (p1 + p2 + p3 + p4)/4
        if how == 1 and abs(k @ (centre - c)) < 1e-6*size:
            continue
        want = fun(centre)
        ctx.check('cell-centre', side <= want*(1 + 1e-6), lambda: f'{label}: a cell has a side of {side}, the mesh size at its centre is {want}')
    ctx.event('cells', len(boxes))
    ctx.state('cells', f'{label}')
    ctx.nontrivial(label, lat[0, 0])


def run_primitive(ctx, case, rng):
    from traceon.geometry import Surface
    scale = 10**rng.uniform(-5, 2)
    kind = ['sphere', 'box', 'disk_xz', 'disk_yz', 'disk_xy', 'rectangle_xz', 'rectangle_yz', 'rectangle_xy', 'aperture'][case['mode'] % 9]
    a, b = scale*rng.normal(size=2)*rng.choice([0., 1., 1.])
    tol = .03
    if kind == 'sphere':
        r = float(scale*rng.uniform(.5, 2))
        S, area, ext = Surface.sphere(r), 4*math.pi*r*r, r
    elif kind == 'box':
        d = scale*rng.uniform(.3, 2, size=3)
        p = scale*rng.normal(size=3)
        S, area, ext, tol = Surface.box(p, p + d), 2*(d[0]*d[1] + d[1]*d[2] + d[2]*d[0]), d.max(), 1e-8
    elif kind.startswith('disk'):
        r = float(scale*rng.uniform(.5, 2))
        S, area, ext = getattr(Surface, kind)(float(a), float(b), r), math.pi*r*r, r
    elif kind.startswith('rect'):
        w, h = scale*rng.uniform(.3, 2, size=2)
        S, area, ext, tol = getattr(Surface, kind)(float(a), float(a + w), float(b), float(b + h)), w*h, max(w, h), 1e-8
    else:
        h, r = scale*rng.uniform(.2, 1), scale*rng.uniform(.3, 1)
        e = r + scale*rng.uniform(.3, 1)
        S, area, ext = Surface.aperture(float(h), float(r), float(e), z=float(b)), 2*math.pi*(e*e - r*r) + 2*math.pi*r*h, e
    parts = S.surfaces if hasattr(S, 'surfaces') else [S]
    S.name = 'prim'
    ms = float(ext*rng.uniform(.07, .2))
    m = S.mesh(mesh_size=ms)
    judge_surface_mesh(ctx, parts, m, scale, kind, ms=ms, name='prim', area=area, area_tol=tol, rng=rng, nv=15)
    if rng.random() < .4 and kind.startswith(('disk', 'rect')):
        iso_edges(ctx, parts, m, ms, kind)
    m2 = S.mesh(mesh_size=ms/2)
    T = m2.points[m2.triangles.astype(int)]
    A2 = np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1).sum()/2
    ctx.close('area', A2, area, tol*area*.35 if tol > 1e-6 else tol*area, f'{kind}: area of the refined mesh')
    ctx.state('primitive', kind)
    ctx.nontrivial(kind, ext)


def run_collection(ctx, case, rng):
    from traceon.geometry import Path, Surface
    scale = 10**rng.uniform(-4, 2)
    if case['mode'] % 2:
        A, B = Surface.disk_xy(0., 0., float(scale)), Surface.rectangle_xz(0., float(scale), 0., float(2*scale)).move(dy=5.*scale)
        A.name, B.name = 'a', 'b'
        ms = float(scale*rng.uniform(.15, .4))
        C = A + B
        m = C.mesh(mesh_size=ms)
        na, nb = len(A.mesh(mesh_size=ms).triangles), len(B.mesh(mesh_size=ms).triangles)
        g = m.physical_to_triangles
        ctx.check('collection', sorted(g) == ['a', 'b'] and len(g['a']) == na and len(g['b']) == nb and len(m.triangles) == na + nb,
                  lambda: f'collection of named surfaces: {({k: len(v) for k, v in g.items()})}, expected a: {na}, b: {nb}')
        for nm, y in (('a', 0.), ('b', 5*scale)):
            p = m.points[m.triangles.astype(int)[g[nm]]]
            ok = np.abs(p[..., 2]).max() < 1e-9*scale if nm == 'a' else np.abs(p[..., 1] - y).max() < 1e-9*scale
            ctx.check('collection', ok, f'elements of group {nm} are in the wrong place')
        m = C.mesh(mesh_size=ms, name='all')
        ctx.check('collection', list(m.physical_to_triangles) == ['all'] and len(m.physical_to_triangles['all']) == na + nb == len(m.triangles), 'name given to mesh() of a collection')
        C.name = 'c'
        m = C.mesh(mesh_size=ms)
        ctx.check('collection', list(m.physical_to_triangles) == ['c'] and sorted(m.physical_to_triangles['c']) == list(range(na + nb)), 'name of a collection')
    else:
        P = Path.line([0., 0., 0.], [float(scale), 0., 0.])
        Q = Path.circle_xz(float(3*scale), 0., float(scale))
        P.name, Q.name = 'p', 'q'
        ho = bool(rng.random() < .5)
        C = P + Q
        ms = float(scale*rng.uniform(.1, .5))
        m = C.mesh(mesh_size=ms, higher_order=ho)
        na, nb = len(P.mesh(mesh_size=ms, higher_order=ho).lines), len(Q.mesh(mesh_size=ms, higher_order=ho).lines)
        g = m.physical_to_lines
        ctx.check('collection', sorted(g) == ['p', 'q'] and len(g['p']) == na and len(g['q']) == nb and len(m.lines) == na + nb,
                  lambda: f'collection of named paths: {({k: len(v) for k, v in g.items()})}, expected p: {na}, q: {nb}')
        p = m.points[m.lines.astype(int)[g['p']]]
        ctx.check('collection', np.abs(p[..., 2]).max() < 1e-9*scale, 'elements of group p are in the wrong place')
        q = m.points[m.lines.astype(int)[g['q']]] - [3*scale, 0, 0]
        ctx.close('collection', np.linalg.norm(q, axis=-1), scale, 1e-9*scale, 'elements of group q')
        m = C.mesh(mesh_size=ms, higher_order=ho, name='all')
        ctx.check('collection', list(m.physical_to_lines) == ['all'] and len(m.physical_to_lines['all']) == na + nb == len(m.lines), 'name given to mesh() of a collection')
        C.name = 'c'
        m = C.mesh(mesh_size=ms, higher_order=ho)
        ctx.check('collection', list(m.physical_to_lines) == ['c'], 'name of a collection')
        f = C.mesh(mesh_size_factor=2, higher_order=ho)
        ctx.check('collection', len(f.lines) == len(P.mesh(mesh_size_factor=2).lines) + len(Q.mesh(mesh_size_factor=2).lines), 'mesh size factor of a collection')
    ctx.nontrivial(case['mode'] % 2, scale)


assert rigid
