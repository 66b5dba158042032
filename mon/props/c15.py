"""C15: random programs of mesh operations run next to a model that holds the elements as plain coordinates."""
import copy
import itertools
import os
import pickle

import numpy as np

RULE = ('random meshes (lines of 2/4 points, triangles of 3/6 points, shared vertices, overlapping and empty groups, zero-area triangles) put through random sequences of '
        'operations and file formats; non-trivial when the mesh has groups and at least three operations were applied')
ASSUMPTIONS = ['the order of elements and points is free', 'a 6-node triangle has its midpoints in the usual order (edges 0-1, 1-2, 2-0)',
               'named elements may be reversed by the operations documented to orient normals, unnamed elements may not',
               'file formats are used only for what they can store (groups: abaqus only; curved elements: vtk and vtu only)']
REQUIRED = {'elements-conserved': 1500, 'groups-conserved': 1500, 'names-conserved': 500, 'operand-unchanged': 1500, 'no-aliasing': 1000, 'points-known': 1000, 'merged': 300,
            'orientation-kept': 500, 'kind': 500, 'degenerate-removed': 50, 'rejects': 60}

TRI = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
TRI6 = [(0, 1, 2, 3, 4, 5), (1, 2, 0, 4, 5, 3), (2, 0, 1, 5, 3, 4), (0, 2, 1, 5, 4, 3), (2, 1, 0, 4, 3, 5), (1, 0, 2, 3, 5, 4)]
PERMS = {2: [(0, 1), (1, 0)], 4: [(0, 1, 2, 3), (1, 0, 3, 2)], 3: TRI, 6: TRI6}
SAME = {2: 1, 4: 1, 3: 3, 6: 3}        # the first so many permutations keep the orientation
FORMATS = {'vtk': (2, 4, 3, 6), 'vtu': (2, 4, 3, 6), 'inp': (2, 3), 'ply': (2, 3), 'mesh': (2, 3), 'off': (3,), 'obj': (3,), 'avs': (2, 3), 'stl': (3,)}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('program', 600), ('construct', 160), ('reject', 20)):
        for i in range(n if q else 8*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


class Model:
    """Elements as (coordinates, groups); lines and triangles separately."""

    def __init__(self, lines=(), triangles=(), free=()):
        self.el = {'line': [(np.array(c, float), frozenset(g)) for c, g in lines], 'triangle': [(np.array(c, float), frozenset(g)) for c, g in triangles]}
        self.free = [np.array(p, float) for p in free]     # points that belong to no element

    def copy(self):
        return copy.deepcopy(self)

    def map(self, f):
        m = self.copy()
        for k in m.el:
            m.el[k] = [(np.array([f(p) for p in c]), g) for c, g in m.el[k]]
        m.free = [f(p) for p in m.free]
        return m

    def add(self, o):
        m = self.copy()
        for k in m.el:
            m.el[k] += copy.deepcopy(o.el[k])
        m.free += copy.deepcopy(o.free)
        return m

    def without(self, kind):
        m = self.copy()
        m.free += [p for c, _ in m.el[kind] for p in c]
        m.el[kind] = []
        return m

    def extract(self, name):
        m = Model()
        for k in m.el:
            m.el[k] = [(c.copy(), frozenset([name])) for c, g in self.el[k] if name in g]
        return m

    def flip(self):
        m = self.copy()
        for k in m.el:
            m.el[k] = [(c[list(PERMS[len(c)][SAME[len(c)]])], g) for c, g in m.el[k]]
        return m

    def raised(self):
        m = self.copy()
        m.el['line'] = [(c if len(c) == 4 else np.array([c[0], c[1], (2*c[0] + c[1])/3, (c[0] + 2*c[1])/3]), g) for c, g in m.el['line']]
        return m

    def groups(self, kind):
        return sorted({n for _, g in self.el[kind] for n in g})

    def points(self):
        P = [p for k in self.el for c, _ in self.el[k] for p in c] + self.free
        return np.array(P).reshape(-1, 3)


def elements_of(m, kind):
    A = (m.lines if kind == 'line' else m.triangles).astype(int)
    groups = m.physical_to_lines if kind == 'line' else m.physical_to_triangles
    member = [set() for _ in A]
    for n, idx in groups.items():
        for i in np.asarray(idx).astype(int):
            member[i].add(n)
    return m.points[A], member


def compare(ctx, M, m, label, oriented=True, groups=True, tol=1e-9):
    """The mesh holds exactly the elements of the model."""
    P = M.points()
    size = max(np.abs(P).max() if len(P) else 1., 1e-300)
    good = True
    for kind in ('line', 'triangle'):
        want = M.el[kind]
        C, member = elements_of(m, kind)
        if not ctx.check('elements-conserved', len(C) == len(want), f'{label}: {len(C)} {kind}s where {len(want)} are expected'):
            good = False
            continue
        if not len(want):
            continue
        nodes = {len(c) for c, _ in want}
        if not ctx.check('elements-conserved', nodes == {C.shape[1]}, f'{label}: {kind}s have {C.shape[1]} points, expected {nodes}'):
            good = False
            continue
        n = C.shape[1]
        W = np.array([c for c, _ in want])
        D = np.full((len(W), len(C)), np.inf)
        R = np.zeros((len(W), len(C)), int)
        for k, perm in enumerate(PERMS[n]):
            d = np.abs(W[:, None] - C[None][:, :, list(perm)]).max(axis=(2, 3))
            R = np.where(d < D, k, R)
            D = np.minimum(D, d)
        free = np.ones(len(C), bool)
        now = []
        for i in range(len(W)):
            cand = np.flatnonzero(free & (D[i] < tol*size))
            if not ctx.check('elements-conserved', len(cand), lambda: f'{label}: {kind} {W[i].tolist()} is missing, the nearest is {C[np.argmin(D[i])].tolist()}'):
                good = False
                break
            # among identical elements take the one that agrees most
            def score(j):
                return (groups and member[j] != want[i][1], oriented and R[i, j] >= SAME[n])
            j = min(cand, key=score)
            free[j] = False
            now.append((W[i][np.argsort(PERMS[n][R[i, j]])], want[i][1]))
            if groups:
                if not ctx.check('groups-conserved', member[j] == want[i][1], lambda: f'{label}: {kind} {W[i].tolist()} is in groups {sorted(member[j])} instead of {sorted(want[i][1])}'):
                    good = False
            # zero-length orientation (a line between coinciding points) does not occur
            if oriented is True or (oriented == 'unnamed' and not want[i][1]):
                if not ctx.check('orientation-kept', R[i, j] < SAME[n], lambda: f'{label}: {kind} {W[i].tolist()} is reversed'):
                    good = False
        if len(now) == len(want):
            M.el[kind] = now            # what was legitimately reversed
        if groups:
            have = m.physical_to_lines if kind == 'line' else m.physical_to_triangles
            for g, idx in have.items():
                idx = np.asarray(idx)
                ctx.check('groups-conserved', len(set(idx.tolist())) == len(idx), f'{label}: group {g} contains an element more than once')
    # every point is one of the points of the model
    if len(m.points):
        if ctx.check('points-known', len(P) > 0, f'{label}: unexpected points'):
            d = np.abs(m.points[:, None] - P[None]).max(axis=2).min(axis=1)
            good &= ctx.close('points-known', d, 0., tol*size, f'{label}: a point of the mesh is not one of the points of its elements')
    return good


def snapshot(m):
    return ([(a.tobytes(), a.shape, str(a.dtype)) for a in (m.points, m.lines, m.triangles)],
            {k: np.asarray(v).tobytes() for k, v in m.physical_to_lines.items()}, {k: np.asarray(v).tobytes() for k, v in m.physical_to_triangles.items()},
            list(m.physical_to_lines), list(m.physical_to_triangles))


def merged(ctx, m, label):
    """Coinciding points are stored once."""
    if len(m.points):
        n = len(np.unique(m.points, axis=0))
        ctx.check('merged', n == len(m.points), f'{label}: {len(m.points)} points, of which {n} are different')


def random_mesh(rng, scale, nodes=None, names='abc', degenerate=False, kinds=None):
    """(Mesh arguments, model)."""
    nl, nt = nodes or (int(rng.choice([2, 2, 4])), int(rng.choice([3, 3, 3, 6])))
    n = 5
    G = np.array(list(itertools.product(range(n), repeat=3)), float)[rng.permutation(n**3)[:40]]
    P = scale*(G + .3*rng.normal(size=(len(G), 3)) + (rng.normal(size=3)*3 if rng.random() < .5 else 0.))
    P[rng.random(P.shape) < .05] = 0.
    extra = []
    kinds = kinds or [k for k, p in (('line', .8), ('triangle', .8)) if rng.random() < p] or ['line']
    lines, tris = [], []
    if 'line' in kinds:
        for _ in range(rng.integers(1, 14)):
            a, b = rng.choice(len(P), 2, replace=False)
            row = [a, b]
            if nl == 4:
                for f in (1/3, 2/3):
                    extra.append(P[a] + f*(P[b] - P[a]) + .05*scale*rng.normal(size=3))
                    row.append(len(P) + len(extra) - 1)
            lines.append(row)
    if 'triangle' in kinds:
        for _ in range(rng.integers(1, 20)):
            a, b, c = rng.choice(len(P), 3, replace=False)
            if np.linalg.norm(np.cross(P[b] - P[a], P[c] - P[a])) < .02*scale**2:
                continue
            row = [a, b, c]
            if nt == 6:
                for x, y in ((a, b), (b, c), (c, a)):
                    extra.append((P[x] + P[y])/2 + .05*scale*rng.normal(size=3))
                    row.append(len(P) + len(extra) - 1)
            tris.append(row)
        if nt == 3 and rng.random() < .4:
            # a very small triangle is not a degenerate one
            a = int(rng.integers(len(P)))
            d = rng.normal(size=(2, 3))
            d[1] = np.cross(d[0], d[1])
            d /= np.linalg.norm(d, axis=1)[:, None]
            row = [a]
            for k in range(2):
                extra.append(P[a] + 1e-4*scale*d[k]*rng.uniform(.5, 2))
                row.append(len(P) + len(extra) - 1)
            tris.append(row)
    P = np.concatenate([P, np.array(extra).reshape(-1, 3)])
    flat = []
    if degenerate and tris:
        # triangles without area, with a repeated vertex or all on a line; they are documented to be removed
        for _ in range(rng.integers(1, 5)):
            a, b = rng.choice(40, 2, replace=False)
            row = [a, b, b if rng.random() < .5 else a] + ([0, 1, 2] if nt == 6 else [])
            k = int(rng.integers(0, len(tris) + 1))
            tris.insert(k, row)
            flat.append(row)
    perm = rng.permutation(len(P))
    inv = np.argsort(perm)
    P = P[perm]
    lines = [[int(inv[i]) for i in r] for r in lines]
    tris = [[int(inv[i]) for i in r] for r in tris]
    bad = [len(set(r[:3])) < 3 for r in tris]
    gl, gt = {}, {}
    for d, els in ((gl, lines), (gt, tris)):
        if not els:
            continue
        for nm in names:
            if rng.random() < .6:
                idx = np.flatnonzero(rng.random(len(els)) < rng.choice([.2, .5, 1.]))
                if len(idx) or rng.random() < .3:
                    d[nm] = rng.permutation(idx)
    M = Model([(P[r], [n for n, ix in gl.items() if i in ix]) for i, r in enumerate(lines)],
              [(P[r], [n for n, ix in gt.items() if i in ix]) for i, r in enumerate(tris) if not bad[i]], P)
    return dict(points=P, lines=lines, triangles=tris, physical_to_lines=gl, physical_to_triangles=gt), M, (nl, nt), sum(bad)


def fresh(rng, scale, **kw):
    from traceon.mesher import Mesh
    args, M, nodes, bad = random_mesh(rng, scale, **kw)
    args['lines'] = np.array(args['lines'], dtype=rng.choice(['int64', 'uint64', 'int32'])) if args['lines'] else []
    args['triangles'] = np.array(args['triangles'], dtype=rng.choice(['int64', 'uint64'])) if args['triangles'] else []
    return Mesh(**args, ensure_outward_normals=False), M, nodes, bad


def run_construct(ctx, case, rng):
    from traceon.mesher import Mesh
    scale = 10**rng.uniform(-5, 3)
    args, M, nodes, bad = random_mesh(rng, scale, degenerate=case['mode'] % 2 == 0)
    if rng.random() < .5:
        # the same vertices several times over: they are merged
        k = int(rng.integers(2, 4))
        n = len(args['points'])
        args['points'] = np.concatenate([args['points']]*k)
        for key in ('lines', 'triangles'):
            args[key] = [[int(i + n*rng.integers(k)) for i in r] for r in args[key]]
    keep = {k: copy.deepcopy(v) for k, v in args.items()}
    as_list = rng.random() < .3
    if as_list:
        args['points'] = args['points'].tolist()
    else:
        for key in ('lines', 'triangles'):
            if args[key]:
                args[key] = np.array(args[key])
    flag = bool(rng.random() < .5)
    if rng.random() < .3:
        # groups added to a mesh later do not turn up in other meshes
        other = Mesh(args['points'], args['lines'], args['triangles'])
        other.physical_to_lines['later'] = np.arange(len(other.lines))
        other.physical_to_triangles['later'] = np.arange(len(other.triangles))
        for k in [{}, dict(points=args['points'])]:
            e = Mesh(**k)
            ctx.check('no-aliasing', not e.get_electrodes(), f'a new mesh starts with the groups {e.get_electrodes()}')
    m = Mesh(**args, ensure_outward_normals=flag)
    compare(ctx, M, m, f'Mesh(ensure_outward_normals={flag})', oriented=True if not flag else 'unnamed')
    merged(ctx, m, 'Mesh()')
    ctx.check('degenerate-removed', len(m.triangles) == len(M.el['triangle']), f'{bad} triangles without area: {len(keep["triangles"])} given, {len(m.triangles)} kept')
    for k, v in keep.items():
        same = all(np.array_equal(v[g], args[k][g]) for g in v) and list(v) == list(args[k]) if isinstance(v, dict) else np.array_equal(np.array(v), np.array(args[k]))
        ctx.check('operand-unchanged', same, f'Mesh() changed the {k} passed to it')
    ctx.check('kind', m.is_higher_order() == (len(args['lines']) > 0 and nodes[0] == 4), 'is_higher_order')
    ctx.check('kind', bool(m.is_2d()) != bool(m.is_3d()) and bool(m.is_2d()) == bool(np.all(np.array(args['points'])[:, 1] == 0)), 'is_2d and is_3d')
    flatm = m.map_points(lambda p: p*[1, 0, 1])
    ctx.check('kind', bool(flatm.is_2d()) and not flatm.is_3d(), 'is_2d of a mesh in the xz plane')
    names = m.get_electrodes()
    ctx.check('kind', sorted(set(names)) == sorted(set(args['physical_to_lines']) | set(args['physical_to_triangles'])), f'get_electrodes: {names}')
    text = str(m)
    ctx.check('kind', f'points: {len(m.points)}' in text and f'lines: {len(m.lines)}' in text and f'triangles: {len(m.triangles)}' in text, f'description of the mesh: {text}')
    if bad and M.groups('triangle'):
        ctx.event('degenerate in group')
    if args['physical_to_lines'] or args['physical_to_triangles']:
        ctx.nontrivial('construct', scale, len(m.points))


def run_reject(ctx, case, rng):
    from traceon.mesher import Mesh
    args, M, nodes, _ = random_mesh(rng, 1., nodes=(2, 3), kinds=['line', 'triangle'])
    n, nl, nt = len(args['points']), len(args['lines']), len(args['triangles'])

    def broken(**kw):
        a = copy.deepcopy(args)
        a.update(kw)
        return lambda: Mesh(**a)
    ctx.raises('rejects', broken(lines=args['lines'] + [[0, n]]), 'a line pointing outside the points')
    ctx.raises('rejects', broken(triangles=args['triangles'] + [[0, 1, n]]), 'a triangle pointing outside the points')
    ctx.raises('rejects', broken(physical_to_lines={'a': np.array([nl])}), 'a group pointing outside the lines')
    ctx.raises('rejects', broken(physical_to_triangles={'a': np.array([nt])}), 'a group pointing outside the triangles')
    ctx.raises('rejects', broken(lines=[[0, 1, 2]], physical_to_lines={}), 'a line with three points')
    m = Mesh(**args)
    ctx.raises('rejects', lambda: m.extract_physical_group('nobody'), 'extracting an unknown group')
    ctx.raises('rejects', lambda: m + m._to_higher_order_mesh(), 'adding straight and curved lines')
    ctx.raises('rejects', lambda: m + 3, 'adding a number to a mesh')


def affine(rng, scale):
    A = np.linalg.qr(rng.normal(size=(3, 3)))[0]@np.diag(rng.uniform(.5, 2, size=3))@np.linalg.qr(rng.normal(size=(3, 3)))[0]
    b = scale*rng.normal(size=3)
    return lambda p: A@p + b


def operations(ctx, rng, m, M, nodes, scale):
    """(name, callable giving a mesh, model, orientation check)."""
    d = [float(x) for x in scale*rng.normal(size=3)]
    ax, ang = 'xyz'[rng.integers(3)], float(rng.uniform(-7, 7))
    o = (scale*rng.normal(size=3)).tolist()
    c, s = np.cos(ang), np.sin(ang)
    Rm = {'x': [[1, 0, 0], [0, c, -s], [0, s, c]], 'y': [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[ax]
    f = affine(rng, scale)
    plane = ['xy', 'xz', 'yz'][rng.integers(3)]
    sign = np.array({'xy': [1, 1, -1], 'xz': [1, -1, 1], 'yz': [-1, 1, 1]}[plane])
    yield 'move', lambda: m.move(*d), M.map(lambda p: p + d), 'unnamed'
    yield 'rotate', lambda: m.rotate(**{'R' + ax: ang}, origin=o), M.map(lambda p: o + np.array(Rm)@(p - o)), 'unnamed'
    yield 'mirror', lambda: getattr(m, 'mirror_' + plane)(), M.map(lambda p: p*sign), 'unnamed'
    yield 'map_points', lambda: m.map_points(f), M.map(f), 'unnamed'
    yield 'flip_normals', lambda: m.flip_normals(), M.flip(), True
    yield 'remove_lines', lambda: m.remove_lines(), M.without('line'), 'unnamed'
    yield 'remove_triangles', lambda: m.remove_triangles(), M.without('triangle'), 'unnamed'
    yield '_to_higher_order_mesh', lambda: m._to_higher_order_mesh(), M.raised(), True
    yield 'meshio', lambda: type(m).from_meshio(m.to_meshio()), M, 'unnamed'
    yield 'pickle', lambda: pickle.loads(pickle.dumps(m)), M, True
    yield 'deepcopy', lambda: copy.deepcopy(m), M, True
    names = sorted(set(M.groups('line')) | set(M.groups('triangle')))
    if names:
        nm = str(rng.choice(names))
        yield 'extract_physical_group', lambda: m.extract_physical_group(nm), M.extract(nm), False


def run_program(ctx, case, rng):
    from traceon.mesher import Mesh
    scale = 10**rng.uniform(-4, 2)
    m, M, nodes, _ = fresh(rng, scale)
    steps = []
    for step in range(int(rng.integers(3, 9))):
        before = snapshot(m)
        r = rng.random()
        groups = True
        if r < .25:
            nl = m.lines.shape[1] if len(m.lines) else nodes[0]
            nt = m.triangles.shape[1] if len(m.triangles) else nodes[1]
            m2, M2, nn, _ = fresh(rng, scale, nodes=(nl, nt), names='bcd')
            nodes = nn
            b2 = snapshot(m2)
            what = 'add'
            if rng.random() < .5:
                new, Mn = m + m2, M.add(M2)
            else:
                new, Mn = m2 + m, M2.add(M)
            ctx.check('operand-unchanged', snapshot(m2) == b2, 'adding meshes changed the second mesh')
            orient = 'unnamed'
        elif r < .45:
            have = {c.shape[0] for k in M.el for c, _ in M.el[k]}
            ok = [f for f, n in FORMATS.items() if have and have <= set(n)]
            if not ok:
                continue
            ext = str(rng.choice(ok))
            fn = os.path.join(ctx.scratch, f'm{os.getpid()}.{ext}')
            what = 'file ' + ext
            given = None
            try:
                (m.write_file if rng.random() < .5 else m.write)(fn)
                if rng.random() < .5:
                    given = str(rng.choice(['a', 'new']))
                    new = Mesh.read_file(fn, name=given)
                elif rng.random() < .5:
                    new = Mesh.read(fn)
                else:
                    new = Mesh.read_file(fn)
            finally:
                if os.path.exists(fn):
                    os.unlink(fn)
            Mn = M.copy()
            # the abaqus reader of meshio keeps the groups of lines or triangles, but not of both
            groups = ext != 'inp' or not (M.el['line'] and M.el['triangle'])
            for k in Mn.el:
                Mn.el[k] = [(c, (g if ext == 'inp' else frozenset()) | ({given} if given else set())) for c, g in Mn.el[k]]
            orient = 'unnamed'
            ctx.state('format', ext)
            if ext == 'stl':
                # one precision down, and every triangle has its own corners
                Q = Mn
                ok = compare(ctx, Q, new, 'stl', oriented='unnamed', tol=3e-6)
                ctx.check('operand-unchanged', snapshot(m) == before, f'{what} changed the mesh')
                steps.append(what)
                continue
        elif r < .52:
            names = m.get_electrodes()
            if not names:
                continue
            nm = str(rng.choice(names))
            what = 'ensure_normals'
            new = copy.deepcopy(m)
            (new.ensure_inward_normals if rng.random() < .5 else new.ensure_outward_normals)(nm)
            Mn, orient = M, None
            # only the elements of the group may be reversed
            old = copy.deepcopy(m)
            for k, A, B, g in (('line', old.lines, new.lines, m.physical_to_lines), ('triangle', old.triangles, new.triangles, m.physical_to_triangles)):
                other = np.ones(len(A), bool)
                other[np.asarray(g.get(nm, np.zeros(0, int))).astype(int)] = False
                ctx.check('orientation-kept', np.array_equal(A[other], B[other]), f'orienting group {nm} changed {k}s of other groups')
        else:
            ops = list(operations(ctx, rng, m, M, nodes, scale))
            what, fun, Mn, orient = ops[rng.integers(len(ops))]
            new = fun()
        steps.append(what)
        label = ' > '.join(steps)
        ctx.check('operand-unchanged', snapshot(m) == before, f'{what} changed the mesh it was applied to ({label})')
        if not compare(ctx, Mn, new, label, oriented=orient if orient is not None else False, groups=groups):
            return
        merged(ctx, new, label)
        if what in ('move', 'rotate', 'mirror', 'map_points', 'flip_normals', 'pickle', 'deepcopy', '_to_higher_order_mesh', 'ensure_normals', 'add'):
            # names stay, also those of groups without elements
            for k in ('physical_to_lines', 'physical_to_triangles'):
                want = set(getattr(m, k)) | (set(getattr(m2, k)) if what == 'add' else set())
                ctx.check('names-conserved', set(getattr(new, k)) == want, f'{label}: {k} has the names {sorted(getattr(new, k))} instead of {sorted(want)}')
                ctx.event('empty-group', sum(not len(v) for v in getattr(m, k).values()))
        # the result is independent of the mesh it was made from
        if what != 'ensure_normals':
            other = copy.deepcopy(new)
            for nm in new.get_electrodes():
                (new.ensure_inward_normals if rng.random() < .5 else new.ensure_outward_normals)(nm)
            if len(new.points):
                new.points *= 1.7
            for a in (new.lines, new.triangles):
                if len(a):
                    a[:] = a[::-1].copy()
            new.physical_to_lines['__later'] = np.arange(len(new.lines))
            new.physical_to_triangles.pop('a', None)
            new.physical_to_triangles['__later'] = np.arange(len(new.triangles))
            ctx.check('no-aliasing', snapshot(m) == before, f'changing the result of {what} changes the mesh it was made from')
            new = other
        ctx.state('operation', what)
        if not groups:
            for k, g in (('line', new.physical_to_lines), ('triangle', new.physical_to_triangles)):
                _, member = elements_of(new, k)
                Mn.el[k] = list(zip(elements_of(new, k)[0], map(frozenset, member)))
        m = new
        # the mesh holds rounded coordinates; continue from what the model says
        M = Mn
        if not len(m.lines) and not len(m.triangles):
            break
    if len(steps) >= 3 and m.get_electrodes():
        ctx.nontrivial(case['s'], *steps)
