"""C04: the result does not depend on labels, order, position, orientation and scale."""
import math

import numpy as np

from mon.fields import coil_surface
from mon.lib import (Electrode2D, Electrode3D, cluster_3d, mesh_3d, mesh_radial, outside_3d, outside_points, radial_electrode, radial_stack, rotation)

RULE = ('random geometries solved twice, before and after relabelling, splitting, permuting, reversing, re-adding, moving, rotating, mirroring or '
        'scaling; the fields at corresponding points are compared; non-trivial when the field differs from zero')
ASSUMPTIONS = ['near and far quadrature rules of the 3D matrix differ by less than 1e-5', 'electrodes are closed surfaces or profiles',
               'scales between a micron and hundreds of metres']
REQUIRED = {'rename': 40, 'split': 40, 'permute': 40, 'reverse': 40, 'order': 40, 'move': 40, 'rotate': 30, 'mirror': 40, 'scale': 40,
            'radial-3d': 10, 'move:magnetic': 10, 'mirror:magnetic': 10, 'scale:magnetic': 10, 'slender': 120}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    ops = ['rename', 'split', 'permute', 'reverse', 'order', 'move', 'mirror', 'scale']
    for i in range(32 if q else 320):
        out.append(dict(kind='radial', op=ops[i % 8], ho=(i//8) % 2 == 0))
    ops3 = ops[:6] + ['rotate', 'mirror', 'scale']
    for i in range(18 if q else 220):
        out.append(dict(kind='3d', op=ops3[i % 9]))
    for i in range(12 if q else 120):
        out.append(dict(kind='magnetic', op=['move', 'mirror', 'scale', 'permute', 'split', 'order'][i % 6]))
    for i in range(4 if q else 30):
        out.append(dict(kind='radial-3d'))
    for i in range(6 if q else 60):
        out.append(dict(kind='geometry-3d', op=['move', 'rotate', 'mirror'][i % 3]))
    for i in range(12 if q else 120):
        out.append(dict(kind='slender', mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def permuted(mesh, rng, keep_orientation=True):
    """The same mesh with points, elements and index lists in another order."""
    from traceon.mesher import Mesh
    n = len(mesh.points)
    perm = rng.permutation(n)
    inv = np.argsort(perm)
    kw = dict(points=mesh.points[perm])
    for el, ph in (('lines', 'physical_to_lines'), ('triangles', 'physical_to_triangles')):
        e = getattr(mesh, el)
        if not len(e):
            continue
        order = rng.permutation(len(e))
        where = np.argsort(order)
        kw[el] = inv[e[order].astype(int)]
        names = list(getattr(mesh, ph).items())
        names = [names[i] for i in rng.permutation(len(names))]
        kw[ph] = {k: rng.permutation(where[v]) for k, v in names}
    return Mesh(**kw)


def reversed_elements(mesh, rng):
    """A random half of the elements reversed (triangles also rotated), without reorientation."""
    from traceon.mesher import Mesh
    lines, tris = mesh.lines.copy(), mesh.triangles.copy()
    for i in range(len(lines)):
        if rng.random() < 0.5:
            l = lines[i]
            lines[i] = l[[1, 0, 3, 2]] if len(l) == 4 else l[[1, 0]]
    for i in range(len(tris)):
        t = tris[i]
        if rng.random() < 0.5:
            t = t[[0, 2, 1]]
        tris[i] = np.roll(t, rng.integers(3))
    return Mesh(mesh.points, lines, tris, mesh.physical_to_lines, mesh.physical_to_triangles, ensure_outward_normals=False)


def renamed(mesh, table):
    from traceon.mesher import Mesh
    return Mesh(mesh.points, mesh.lines, mesh.triangles, {table.get(k, k): v for k, v in mesh.physical_to_lines.items()},
                {table.get(k, k): v for k, v in mesh.physical_to_triangles.items()})


def split(mesh, rng, name):
    """Divide a named group over two names."""
    from traceon.mesher import Mesh
    pl, pt = dict(mesh.physical_to_lines), dict(mesh.physical_to_triangles)
    for d in (pl, pt):
        if name in d:
            v = rng.permutation(d.pop(name))
            k = int(rng.integers(1, len(v)))
            d[name + '_a'], d[name + '_b'] = v[:k], v[k:]
    return Mesh(mesh.points, mesh.lines, mesh.triangles, pl, pt, ensure_outward_normals=False)


def solve(mesh, symmetry, kinds):
    import traceon.excitation as E
    import traceon.solver as S
    exc = E.Excitation(mesh, symmetry)
    for k, v in kinds.items():
        if v:
            getattr(exc, 'add_' + k)(**v)
    return S.solve_direct(exc)


def judge(ctx, mon, f, g, pts, qts, vec, magnetic=False, rel=1e-6, size=1., potscale=1., fieldscale=1.):
    """f at p against g at q: potentials equal (times potscale), fields mapped by vec (times fieldscale)."""
    F = f.magnetostatic_field_at_point if magnetic else f.electrostatic_field_at_point
    G = g.magnetostatic_field_at_point if magnetic else g.electrostatic_field_at_point
    P = f.magnetostatic_potential_at_point if magnetic else f.electrostatic_potential_at_point
    Q = g.magnetostatic_potential_at_point if magnetic else g.electrostatic_potential_at_point
    fs = [np.asarray(F(p)) for p in pts]
    us = [P(p) for p in pts]
    mf, mu = max(np.linalg.norm(x) for x in fs), max(abs(u) for u in us)
    for p, q, x, u in zip(pts, qts, fs, us):
        ctx.close(mon, G(q), fieldscale*vec(x), rel*mf*abs(fieldscale), f'field at {q} corresponding to {p}')
        ctx.close(mon, Q(q), potscale*u, rel*mu*abs(potscale) + 1e-300, f'potential at {q} corresponding to {p}')
    ctx.nontrivial(mon, np.array(us), mf)


def identity(x):
    return x


def slender_box(rng, centre, size, ratio):
    """The surface of a box in triangles of which one leg is much longer than the other."""
    P, T = [], []
    for ax in range(3):
        i, j = [a for a in range(3) if a != ax]
        n = [1 + int(rng.random() < .3), 1 + int(rng.random() < .3)]
        n[rng.integers(2)] = max(2, int(round(ratio)))
        for side in (-.5, .5):
            o = len(P)
            for u in range(n[0] + 1):
                for v in range(n[1] + 1):
                    x = np.empty(3)
                    x[ax], x[i], x[j] = side, u/n[0] - .5, v/n[1] - .5
                    P.append(centre + size*x)
            for u in range(n[0]):
                for v in range(n[1]):
                    a, b = o + u*(n[1] + 1) + v, o + (u + 1)*(n[1] + 1) + v
                    new = [[a, b, b + 1], [a, b + 1, a + 1]] if rng.random() < .5 else [[a, b, a + 1], [b, b + 1, a + 1]]
                    # (u, v, ax) is right handed for ax = 0 and 2
                    out = (side > 0) == (ax != 1)
                    T += [t if out else t[::-1] for t in new]
    return np.array(P), np.array(T)


def run_slender(ctx, case, rng):
    """Which corner of a triangle comes first does not matter, also when its sides differ much in length."""
    import traceon.excitation as E
    from traceon.mesher import Mesh
    ratio = float(10**rng.uniform(.3, 1.3))
    Ps, Ts, groups, o = [], [], {}, 0
    for k, name in enumerate(('a', 'b', 'c')):
        P, T = slender_box(rng, np.array([0., 0., 1.4*k]) + rng.uniform(-.2, .2, size=3)*[1, 1, 0], rng.uniform(.6, 1.1, size=3), ratio)
        groups[name] = np.arange(sum(map(len, Ts)), sum(map(len, Ts)) + len(T))
        Ps.append(P)
        Ts.append(T + o)
        o += len(P)
    P, T = np.concatenate(Ps), np.concatenate(Ts)
    magnetic = case['mode'] % 4 == 3
    if magnetic:
        kinds = dict(magnetostatic_potential=dict(a=float(rng.uniform(1, 5)), c=float(rng.uniform(-5, -1))), magnetizable=dict(b=float(rng.uniform(2, 50))))
    elif case['mode'] % 2:
        kinds = dict(voltage=dict(a=float(rng.uniform(1, 5)), c=float(rng.uniform(-5, -1))), dielectric=dict(b=float(rng.uniform(2, 10))))
    else:
        kinds = dict(voltage=dict(a=float(rng.uniform(1, 5)), b=0., c=float(rng.uniform(-5, 5))))
    rows = np.arange(3)

    def field(shift):
        S = T[np.arange(len(T))[:, None], (rows + np.reshape(shift, (-1, 1))) % 3]
        return solve(Mesh(P, triangles=S, physical_to_triangles=groups, ensure_outward_normals=False), E.Symmetry.THREE_D, kinds)
    f = field(0)
    pts = np.array([.9, 0., 1.4]) + rng.uniform(-.2, .2, size=(3, 3))*[.5, 1, 5]
    pts = np.concatenate([pts, [[0., 0., 3.8], [.1, .1, -1.2]]])
    for shift in (int(rng.integers(1, 3)), rng.integers(3, size=len(T))):
        g = field(shift)
        judge(ctx, 'slender', f, g, pts, pts, identity, magnetic, 2e-6)
        if not magnetic:
            q = [np.array([x.charge_on_elements(groups[n]) for n in groups]) for x in (f, g)]
            ctx.close('slender', q[1], q[0], 2e-6*np.abs(q[0]).max(), f'charges with the corners shifted, ratio {ratio:.3g}')
    ctx.event('slender-ratio', int(ratio > 6))
    ctx.note(ratio=ratio, kinds=kinds)


def run_case(ctx, case):
    if case['kind'] == 'slender':
        return run_slender(ctx, case, ctx.rng)
    import traceon.excitation as E
    from traceon.mesher import Mesh
    rng = ctx.rng
    k, op = case['kind'], case.get('op')
    rad = k in ('radial', 'magnetic')
    if k in ('radial', '3d'):
        if k == 'radial':
            els = radial_stack(rng, 3, scale=10**rng.uniform(-0.5, 0.3))
            parts = [e.path.mesh(mesh_size=e.path.path_length/24, higher_order=case['ho'], name=e.name) for e in els]
            pts = outside_points(els, rng, 8, 0.15)
            symm = E.Symmetry.RADIAL
        else:
            els = cluster_3d(rng, 3)
            parts = [e.surface.mesh(mesh_size=0.5*e.size, name=e.name) for e in els]
            pts = outside_3d(els, rng, 8, 0.25, 3.5)
            symm = E.Symmetry.THREE_D
        mesh = parts[0] + parts[1] + parts[2]
        v = rng.uniform(-100, 100, size=3)
        kinds = dict(voltage={'el0': float(v[0]), 'el1': float(v[1])}, dielectric={'el2': float(10**rng.uniform(-1, 1.3))})
        if op == 'reverse' or rng.random() < 0.3:
            kinds = dict(voltage={f'el{i}': float(v[i]) for i in range(3)})
        f = solve(mesh, symm, kinds)
        tol = 1e-7 if k == 'radial' else 2e-5
        size = els[0].size
        g, q, vec, ps, fs = None, pts, identity, 1., 1.
        if op == 'rename':
            new = [['zz', 'el0', 'A b c'], ['el1', 'el2', 'el0'], ['x', 'y', 'z'], ['él', 'a-b', '0']][rng.integers(4)]
            table = {f'el{i}': new[i] for i in range(3)}
            g = solve(renamed(mesh, table), symm, {a: {table[n]: w for n, w in reversed(list(b.items()))} for a, b in kinds.items()})
        elif op == 'split':
            name = f'el{rng.integers(3)}'
            g = solve(split(mesh, rng, name), symm, {a: {m: w for n, w in b.items() for m in ([n + '_a', n + '_b'] if n == name else [n])} for a, b in kinds.items()})
        elif op == 'permute':
            g = solve(permuted(mesh, rng), symm, kinds)
        elif op == 'reverse':
            g = solve(reversed_elements(mesh, rng), symm, kinds)
        elif op == 'order':
            o = rng.permutation(3)
            g = solve(parts[o[0]] + (parts[o[1]] + parts[o[2]]), symm, {a: b for a, b in reversed(list(kinds.items()))})
        elif op == 'move':
            d = rng.uniform(-3, 3, size=3)*size
            if k == 'radial':
                d[:2] = 0
            g = solve(mesh.move(*[float(x) for x in d]), symm, kinds)
            q = pts + d
        elif op == 'rotate':
            ax = int(rng.integers(3))
            th = float(rng.uniform(-np.pi, np.pi))
            o = rng.uniform(-1, 1, size=3)
            R = _R(ax, th)
            g = solve(mesh.rotate(**{['Rx', 'Ry', 'Rz'][ax]: th}, origin=list(o)), symm, kinds)
            q = o + (pts - o) @ R.T
            vec = lambda x: R @ x     # noqa: E731
        elif op == 'mirror':
            ax = 2 if k == 'radial' else int(rng.integers(3))
            D = np.ones(3)
            D[ax] = -1
            g = solve(getattr(mesh, ['mirror_yz', 'mirror_xz', 'mirror_xy'][ax])(), symm, kinds)
            q = pts*D
            vec = lambda x: D*x     # noqa: E731
        elif op == 'scale':
            s = float(10**(-6 + 8.5*((case['s']//8 % 4 + rng.random())/4)))
            near = [p + [.02*size*rng.random() + .002*size, 0, 0] for p in pts if p[0] == p[1] == 0]
            pts = np.concatenate([pts, np.array(near).reshape(-1, 3)])
            # closer to the axis than a tenth of a nanometre is on the axis
            pts = np.array([p for p in pts if not 0 < math.hypot(p[0], p[1]) < 1e-3])
            q = pts*s
            g = solve(mesh.map_points(lambda p: s*p), symm, kinds)
            q = pts*s
            fs = 1/s
        judge(ctx, op, f, g, pts, q, vec, rel=tol, size=size, potscale=ps, fieldscale=fs)
        ctx.state('op', f'{k}:{op}:' + '+'.join(sorted(kinds)))
        ctx.note(op=op, kinds=kinds, elements=[e.kind for e in els])
    elif k == 'magnetic':
        e = radial_electrode(rng, 0., 1., 'el0')
        w, h = rng.uniform(.2, .4, size=2)
        s, _, _, _ = coil_surface(rng, w + rng.uniform(.3, 1), 2., w, h)
        s.name = 'coil'
        e2 = radial_electrode(rng, 4., 1., 'el1')
        parts = [e.path.mesh(mesh_size=e.path.path_length/24, higher_order=True, name='el0'), s.mesh(mesh_size=0.3),
                 e2.path.mesh(mesh_size=e2.path.path_length/24, higher_order=True, name='el1')]
        mesh = parts[0] + parts[1] + parts[2]
        kinds = dict(current=dict(coil=float(rng.uniform(1, 5))), magnetizable=dict(el0=float(rng.uniform(2, 50))))
        if rng.random() < 0.5:
            kinds['magnetostatic_potential'] = dict(el1=float(rng.uniform(1, 5)))
        symm = E.Symmetry.RADIAL
        pts = np.array([p for p in outside_points([e, e2], rng, 12, 0.2) if abs(p[2] - 2) > 0.7])
        if len(pts) < 3:
            pts = np.array([[0.1, 0.2, 3.2 - 0.05*i] for i in range(3)])
            pts = np.array([p for p in pts if not e2.contains(math.hypot(p[0], p[1]), p[2])])
        f = solve(mesh, symm, kinds)
        if op == 'move':
            dz = float(rng.uniform(-5, 5))
            g = solve(mesh.move(dz=dz), symm, kinds)
            judge(ctx, 'move:magnetic', f, g, pts, pts + [0, 0, dz], identity, True, 1e-7)
        elif op == 'mirror':
            # H is a pseudovector: the mirrored current loop has the same current, H_z stays and H_r changes sign
            kinds2 = dict(kinds)
            if 'magnetostatic_potential' in kinds:
                kinds2['magnetostatic_potential'] = {n: -v for n, v in kinds['magnetostatic_potential'].items()}
            g = solve(mesh.mirror_xy(), symm, kinds2)
            judge(ctx, 'mirror:magnetic', f, g, pts, pts*[1, 1, -1], lambda x: x*[-1, -1, 1], True, 1e-7, potscale=-1.)
        elif op == 'scale':
            # at fixed current H scales as 1/s; a potential difference is in Ampere, so the same
            sc = float(10**(-6 + 8.5*((case['s']//6 % 2 + rng.random())/2)))
            near = [p + [.02*rng.random() + .002, 0, 0] for p in pts if p[0] == p[1] == 0]
            pts = np.concatenate([pts, np.array(near).reshape(-1, 3)])
            pts = np.array([p for p in pts if not 0 < math.hypot(p[0], p[1]) < 1e-3])
            g = solve(mesh.map_points(lambda p: sc*p), symm, kinds)
            judge(ctx, 'scale:magnetic', f, g, pts, pts*sc, identity, True, 1e-7, fieldscale=1/sc)
        elif op == 'permute':
            judge(ctx, 'permute', f, solve(permuted(mesh, rng), symm, kinds), pts, pts, identity, True, 1e-7)
        elif op == 'split':
            # two coils with the current in proportion to their area are the coil
            n = 'coil'
            m = split(mesh, rng, n)
            area = {}
            for x in ('coil_a', 'coil_b'):
                t = m.points[m.triangles[m.physical_to_triangles[x]]]
                area[x] = np.sum(np.linalg.norm(np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]), axis=1))
            tot = sum(area.values())
            kinds2 = dict(kinds, current={x: float(kinds['current']['coil']*a/tot) for x, a in area.items()})
            judge(ctx, 'split', f, solve(m, symm, kinds2), pts, pts, identity, True, 1e-7)
        else:
            o = rng.permutation(3)
            judge(ctx, 'order', f, solve(parts[o[0]] + (parts[o[1]] + parts[o[2]]), symm, kinds), pts, pts, identity, True, 1e-7)
        ctx.state('op', f'{k}:{op}:' + '+'.join(sorted(kinds)))
        ctx.note(op=op, kinds=kinds)
    elif k == 'radial-3d':
        from traceon.geometry import Path
        R1, R2, gap = rng.uniform(0.4, 0.7), rng.uniform(0.3, 0.6), rng.uniform(0.5, 0.8)

        def prof(kind, R, z):
            if kind == 0:
                return Path.arc([0., 0., z], [0., 0., z - R], [R, 0., z]).arc_to([0., 0., z], [0., 0., z + R])
            if kind == 1:
                return Path.circle_xz(1.2, z, 0.5*R)
            return Path.line([0., 0., z - R], [R, 0., z - R]).line_to([R, 0., z + R]).line_to([0., 0., z + R])
        ks = rng.integers(3, size=2)
        profs = [prof(ks[0], R1, 0.), prof(ks[1], R2, R1 + R2 + gap)]
        v = [float(rng.uniform(1, 10)), float(rng.uniform(-10, 10))]
        m2 = profs[0].mesh(mesh_size=0.05, higher_order=True, name='a') + profs[1].mesh(mesh_size=0.05, higher_order=True, name='b')
        f = solve(m2, E.Symmetry.RADIAL, dict(voltage=dict(a=v[0], b=v[1])))
        surf = [p.revolve_z() for p in profs]
        m3 = surf[0].mesh(mesh_size=0.17, name='a') + surf[1].mesh(mesh_size=0.17, name='b')
        g = solve(m3, E.Symmetry.THREE_D, dict(voltage=dict(a=v[0], b=v[1])))
        ctx.note(profiles=list(map(int, ks)), triangles=len(m3.triangles))
        els = [Electrode2D(p, 'x', (0, 0), 'x', R) for p, R in zip(profs, (R1, R2))]
        pts = outside_points(els, rng, 8, 0.5)
        big = max(abs(v[0]), abs(v[1]))
        for p in pts:
            ctx.close('radial-3d', g.electrostatic_potential_at_point(p), f.electrostatic_potential_at_point(p), 0.04*big, f'3D against radial potential at {p}')
            ctx.close('radial-3d', g.electrostatic_field_at_point(p), f.electrostatic_field_at_point(p), 0.12*big/0.5, f'3D against radial field at {p}')
        ctx.nontrivial('r3', np.array(v), ks)
    else:
        # the geometry (not the mesh) is transformed before meshing
        els = cluster_3d(rng, 2)
        v = rng.uniform(-100, 100, size=2)
        kinds = dict(voltage={'el0': float(v[0]), 'el1': float(v[1])})
        pts = outside_3d(els, rng, 8, 0.25, 3.5)
        f = solve(mesh_3d(els, mesh_size=0.5), E.Symmetry.THREE_D, kinds)
        if op == 'move':
            d = rng.uniform(-3, 3, size=3)
            T = lambda s: s.move(*[float(x) for x in d])     # noqa: E731
            q, vec = pts + d, identity
        elif op == 'rotate':
            ax, th, o = int(rng.integers(3)), float(rng.uniform(-np.pi, np.pi)), rng.uniform(-1, 1, size=3)
            R = _R(ax, th)
            T = lambda s: s.rotate(**{['Rx', 'Ry', 'Rz'][ax]: th}, origin=o)     # noqa: E731
            q, vec = o + (pts - o) @ R.T, lambda x: R @ x
        else:
            ax = int(rng.integers(3))
            D = np.ones(3)
            D[ax] = -1
            T = lambda s: getattr(s, ['mirror_yz', 'mirror_xz', 'mirror_xy'][ax])()     # noqa: E731
            q, vec = pts*D, lambda x: D*x
        m = None
        for e in els:
            me = T(e.surface).mesh(mesh_size=0.5*e.size)
            m = me if m is None else m + me
        judge(ctx, op, f, solve(m, E.Symmetry.THREE_D, kinds), pts, q, vec, rel=1e-4)
        ctx.note(op=op)


def _R(ax, th):
    c, s = math.cos(th), math.sin(th)
    return [np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]), np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])][ax]


_unused = (Electrode3D, mesh_radial, rotation)
