"""C22: what plot_mesh, plot_trajectories, plot_equipotential_lines and plot_charge_density put in a figure is read back from the figure (geometry, colours, scalars)
and compared with the object that was plotted; show() runs against a stand-in that records what would be drawn; log messages are collected at every level."""
import io
import contextlib
import os
import subprocess
import sys

import numpy as np

RULE = ('random meshes with overlapping, unnamed, line-only and triangle-only groups and meshes made by the mesher, random colours for a random subset of the groups; random trajectories '
        'and limits; flat and curved surfaces over solved and analytic fields; electrostatic and magnetostatic solutions with and without coils; every log level; distinct figures are counted')
ASSUMPTIONS = ['vedo stores coordinates in single precision', 'two groups given the same colour may share an entry in the legend', 'an element in two coloured groups may have the colour of either',
               'the arrow showing a normal has the size of the element up to a factor of twenty', 'normals of lines mean something in the xz plane only',
               'a trajectory leaving the limits and coming back may or may not be joined over the gap']
REQUIRED = {'triangles': 60, 'lines': 60, 'colour': 1500, 'legend': 60, 'normals': 1000, 'trajectory': 300, 'grid': 3000, 'isolines': 20, 'charge-3d': 800, 'charge-radial': 400, 'figures': 40,
            'show': 40, 'axes': 10, 'log': 900, 'log-session': 12}
COLOURS = ['red', 'blue', 'green', 'orange', 'purple', 'brown', '#123456', '#00ff7f', 'yellow', 'cyan']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('mesh', 80), ('figures', 40), ('trajectories', 16), ('grid', 48), ('charge', 48), ('logging', 8), ('env', 1)):
        for i in range(n if q or kind == 'env' else 8*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


# ------------------------------------------------------------------ reading figures
def flat(things):
    for t in things:
        if isinstance(t, (list, tuple)):
            yield from flat(t)
        else:
            yield t


def rgb(o):
    """The colour of an object."""
    return np.round(255*np.asarray(o.color(), float)).astype(int)


def sort_out(objects):
    """Triangle soups, line soups and arrows among the objects in a figure."""
    tri, lines, arrows, grids = [], [], [], []
    for o in flat(objects):
        name = type(o).__name__
        if name == 'Arrows':
            arrows.append(o)
        elif name == 'Grid':
            grids.append(o)
        elif name in ('Lines', 'Line'):
            lines.append(o)
        else:
            tri.append(o)
    return tri, lines, arrows, grids


def line_cells(o):
    c = o.lines if not callable(o.lines) else o.lines()
    return [[int(a), int(b)] for x in c for a, b in zip(x[:-1], x[1:])]     # also polylines


def canon(P, scale, digits=4):
    return tuple(tuple(int(v) for v in np.round(np.asarray(p, float)/scale*10**digits)) for p in P)


def match_elements(ctx, monitor, got, want, scale, msg):
    """Pairs elements drawn (list of point arrays) with elements wanted; -> index of the drawn element for each wanted one, or None. Each is (k, 3), same order of points up to rotation."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.check(monitor, len(got) == len(want), lambda: f'{msg}: {len(got)} drawn for {len(want)} in the mesh')
    if len(got) != len(want) or not len(want):
        return None
    used = np.zeros(len(got), bool)
    out = np.full(len(want), -1)
    k = want.shape[1]
    for i, w in enumerate(want):
        best = np.full(len(got), np.inf)
        for r in range(k):
            best = np.minimum(best, np.abs(got - np.roll(w, r, axis=0)).reshape(len(got), -1).max(axis=1))
        best[used] = np.inf
        j = int(np.argmin(best))
        if best[j] < 2e-6*scale:
            out[i] = j
            used[j] = True
    missing = np.flatnonzero(out < 0)
    ctx.check(monitor, not len(missing), lambda: f'{msg}: element {missing[0]} of the mesh, {want[missing[0]].tolist()}, is not drawn')
    return None if len(missing) else out


def check_colours(ctx, out, colours_drawn, groups, chosen, N, msg):
    import vedo.colors
    allowed = [set() for _ in range(N)]
    all_colours = {n: tuple(np.round(255*np.array(vedo.colors.get_color(c))).astype(int)) for n, c in chosen.items()}
    for n, idx in groups.items():
        if n in chosen:
            for i in idx:
                allowed[int(i)].add(all_colours[n])
    plain = set()
    for i in range(N):
        c = tuple(int(x) for x in colours_drawn[out[i]])
        if allowed[i]:
            ctx.check('colour', c in allowed[i], lambda: f'{msg}: element {i} is {c}, its groups have {sorted(allowed[i])}')
        else:
            plain.add(c)
            ctx.check('colour', c not in all_colours.values(), lambda: f'{msg}: element {i} has the colour {c} of a group it is not in')
    ctx.check('colour', len(plain) <= 1, lambda: f'{msg}: elements without colour are {plain}')


def arrow_tips(ctx, o, middles, msg):
    """The points the arrows at middles point to."""
    V = np.asarray(o.vertices, float)
    n = len(middles)
    ctx.check('normals', len(V) % n == 0 and len(V) >= 2*n, lambda: f'{msg}: {len(V)} vertices in the arrows of {n} elements')
    if len(V) % n or len(V) < 2*n:
        return None
    V = V.reshape(n, -1, 3)
    d = np.linalg.norm(V - middles[:, None], axis=2)
    return V[np.arange(n), np.argmax(d, axis=1)]


def check_normals(ctx, o, P, normals, msg):
    scale = np.abs(P).max()
    mid = P.mean(axis=1)
    tips = arrow_tips(ctx, o, mid, msg)
    if tips is None:
        return
    d = tips - mid
    L = np.linalg.norm(d, axis=1)
    size = np.linalg.norm(P - np.roll(P, 1, axis=1), axis=2).max(axis=1)
    ok = np.isfinite(d).all(axis=1) & (L > 0)
    ctx.check('normals', ok.all(), lambda: f'{msg}: arrow {d[~ok][0]} for a normal')
    if not ok.all():
        return
    u = d/L[:, None]
    err = np.linalg.norm(u - normals, axis=1)
    tol = 1e-4 + 4e-6*scale/L
    clear = tol < .3
    bad = clear & (err > tol)
    ctx.check('normals', not bad.any(), lambda: f'{msg}: arrow along {u[bad][0]}, the normal is {normals[bad][0]}')
    area_size = L/size
    ctx.check('normals', ((area_size < 20) & (L > 1e-9*scale)).all(), lambda: f'{msg}: arrow of {area_size.max()} times the element')
    ctx.event('normals', int(clear.sum()))


def check_mesh(ctx, objects, legend, mesh, chosen, normals, msg):
    """The objects are exactly the given mesh in the given colours."""
    tri, lines, arrows, grids = sort_out(objects)
    pts = np.asarray(mesh.points, float)
    scale = np.abs(pts).max()
    nt, nl = len(mesh.triangles), len(mesh.lines)
    got, colour = [], []
    for o in tri:
        V = np.asarray(o.vertices, float)
        for c in o.cells:
            got.append(V[np.asarray(c)])
            colour.append(rgb(o))
    T = pts[mesh.triangles[:, :3]] if nt else np.zeros((0, 3, 3))
    out = match_elements(ctx, 'triangles', got, T, scale, f'{msg} triangles')
    if out is not None:
        check_colours(ctx, out, colour, mesh.physical_to_triangles, chosen, nt, f'{msg} triangles')
    got, colour = [], []
    for o in lines:
        V = np.asarray(o.vertices, float)
        for c in line_cells(o):
            got.append(V[np.asarray(c)])
            colour.append(rgb(o))
    Ls = pts[mesh.lines[:, :2]] if nl else np.zeros((0, 2, 3))
    out = match_elements(ctx, 'lines', got, Ls, scale, f'{msg} lines')
    if out is not None:
        check_colours(ctx, out, colour, mesh.physical_to_lines, chosen, nl, f'{msg} lines')
    # the legend names each coloured object after a group with that colour
    import vedo.colors
    named = {}
    for n, c in chosen.items():
        named.setdefault(tuple(np.round(255*np.array(vedo.colors.get_color(c))).astype(int)), set()).add(n)
    for o in flat(legend):
        entry, c = o.info.get('legend'), tuple(int(x) for x in rgb(o))
        ctx.check('legend', (entry in named[c]) if c in named else not entry, lambda: f'{msg}: legend {entry!r} for the colour {c} of {named.get(c)}')
    have = {o.info.get('legend') for o in flat(legend)}
    for n, c in chosen.items():
        shared = named[tuple(np.round(255*np.array(vedo.colors.get_color(c))).astype(int))]
        only = [i for i in mesh.physical_to_triangles.get(n, []) if sum(int(i) in np.asarray(v) for v in mesh.physical_to_triangles.values()) == 1]
        only += [i for i in mesh.physical_to_lines.get(n, []) if sum(int(i) in np.asarray(v) for v in mesh.physical_to_lines.values()) == 1]
        if len(only):
            ctx.check('legend', bool(have & shared), lambda: f'{msg}: {n} is not in the legend {have}')
    if not normals:
        ctx.check('normals', not arrows, lambda: f'{msg}: normals without being asked for')
    else:
        if nt:
            c = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
            check_normals(ctx, arrows[0], T, c/np.linalg.norm(c, axis=1)[:, None], f'{msg} triangles')
        if nl and not np.any(pts[:, 1]):
            d = Ls[:, 1] - Ls[:, 0]
            N = np.stack([d[:, 2], 0*d[:, 0], -d[:, 0]], axis=1)
            check_normals(ctx, arrows[-1], Ls, N/np.linalg.norm(N, axis=1)[:, None], f'{msg} lines')
        ctx.check('normals', len(arrows) == bool(nt) + bool(nl), lambda: f'{msg}: {len(arrows)} sets of arrows')


def mesher_mesh(rng):
    from mon.lib import cluster_3d, mesh_3d
    from mon.props.c21 import named_shapes
    if rng.random() < .5:
        return mesh_3d(cluster_3d(rng, 2, kinds=('sphere', 'box', 'cylinder')), mesh_size=1.2)
    return named_shapes(rng, False, 2)[0]


def some_mesh(rng):
    from mon.props.c21 import random_mesh
    for _ in range(50):
        m = mesher_mesh(rng) if rng.random() < .35 else random_mesh(rng)[0]
        if rng.random() < .3:       # neighbouring groups that share their points
            m = split_groups(rng, m)
        if len(m.lines) or len(m.triangles):
            return m


def split_groups(rng, mesh):
    """Another mesh of the same elements, with neighbouring groups that touch and unnamed elements surrounded by named ones."""
    from mon.lib import cluster_3d, mesh_3d
    from traceon.mesher import Mesh
    m = mesh_3d(cluster_3d(rng, 1, kinds=('sphere', 'box')), mesh_size=1.2) if rng.random() < .6 else mesh
    def parts(N, prefix):
        if not N:
            return {}
        cut = np.sort(rng.integers(0, N + 1, size=3))
        keep = rng.random(N) < .9
        return {f'{prefix}{i}': np.array([j for j in range(a, b) if keep[j]], dtype=int) for i, (a, b) in enumerate(zip([0, *cut], [*cut, N])) if keep[a:b].any()}
    return Mesh(points=m.points, lines=m.lines, triangles=m.triangles, physical_to_lines=parts(len(m.lines), 'l'), physical_to_triangles=parts(len(m.triangles), 't'), ensure_outward_normals=False)


def some_colours(rng, mesh):
    names = sorted(set(mesh.physical_to_lines) | set(mesh.physical_to_triangles))
    pool = list(rng.permutation(COLOURS))
    chosen = {}
    for i, n in enumerate(names):
        if rng.random() < .7:
            chosen[n] = str(pool[i % len(pool)]) if rng.random() < .85 or not chosen else str(rng.choice(list(chosen.values())))
    if rng.random() < .2:
        chosen['nobody'] = 'pink'
    return chosen


def run_mesh(ctx, case, rng):
    import traceon.plotting as P
    for k in range(3):
        mesh, normals = some_mesh(rng), bool(rng.integers(2))
        chosen = some_colours(rng, mesh)
        before = mesh.points.copy(), mesh.lines.copy(), mesh.triangles.copy()
        f = P.Figure()
        f.plot_mesh(mesh, show_normals=normals, **chosen)
        msg = f'mesh {k} ({len(mesh.points)} points, groups {sorted(mesh.physical_to_lines)} {sorted(mesh.physical_to_triangles)}, colours {chosen})'
        check_mesh(ctx, f.to_plot, f.legend_entries, mesh, chosen, normals, msg)
        ctx.check('unchanged', all(np.array_equal(a, b) for a, b in zip(before, (mesh.points, mesh.lines, mesh.triangles))), f'{msg} was changed')
        ctx.nontrivial('mesh', mesh.points, sorted(chosen.items()))
    from traceon.mesher import Mesh
    ctx.raises('empty', lambda: P.Figure().plot_mesh(Mesh()), 'plotting an empty mesh')


class Recorder:
    """Stands in for vedo.Plotter: records what would have been drawn."""
    made = []

    def __init__(self, *args, **kwargs):
        self.things, self.shown, self.axes = [], 0, []
        Recorder.made.append(self)

    def __iadd__(self, other):
        self.things.append(other)
        return self

    def add(self, *others):
        self.things.extend(others)
        return self

    def show(self, *others, **kwargs):
        self.things.extend(others)
        self.shown += 1
        return self

    def add_global_axes(self, *args, **kwargs):
        self.axes.append((args, kwargs))
        return self

    def look_at(self, *args, **kwargs):
        return self

    def close(self):
        return self


def run_figures(ctx, case, rng):
    """Figures keep apart what is plotted in them, and show() draws all of it, once."""
    import vedo
    import traceon.plotting as P
    real = vedo.Plotter
    vedo.Plotter = Recorder
    try:
        P.show()
        Recorder.made = []
        P.show()
        ctx.check('show', not Recorder.made, 'figures were shown twice')
        model, current = [], None
        for step in range(int(rng.integers(3, 9))):
            op = rng.integers(4)
            if op == 0 or (op == 1 and current is None):
                legend = bool(rng.integers(2))
                f = P.new_figure(legend) if rng.integers(2) else P.new_figure(show_legend=legend)
                ctx.check('figures', all(f is not g[0] for g in model) and not f.to_plot, 'a new figure is empty')
                current = (f, [], legend)
                model.append(current)
            elif op == 1:
                ctx.check('figures', P.get_current_figure() is current[0], 'the current figure is the last one made')
            else:
                if current is None:
                    current = (P.get_current_figure(), [], True)
                    model.append(current)
                if op == 2:
                    mesh = some_mesh(rng)
                    chosen = some_colours(rng, mesh)
                    P.plot_mesh(mesh, **chosen)
                    current[1].append(('mesh', mesh, chosen))
                else:
                    t = [rng.normal(size=(int(rng.integers(2, 9)), 6)) for _ in range(int(rng.integers(1, 4)))]
                    P.plot_trajectories(t)
                    current[1].append(('trajectories', t))
        for f, content, legend in model:
            tri, lines, arrows, grids = sort_out(f.to_plot)
            drawn = sum(len(o.cells) for o in tri) + sum(len(line_cells(o)) for o in lines)
            want = sum(sum(len(t) - 1 for t in c[1]) if c[0] == 'trajectories' else len(c[1].triangles) + len(c[1].lines) for c in content)
            ctx.check('figures', drawn == want, lambda: f'{drawn} elements in a figure of {want}')
        P.show()
        drawn = [m for m in Recorder.made if m.shown]
        ctx.check('show', len(drawn) == len(model), lambda: f'{len(drawn)} figures shown of {len(model)}')
        references = []
        for r, (f, content, legend) in zip(drawn, model):
            things = list(flat(r.things))
            boxes = [t for t in things if type(t).__name__ == 'LegendBox']
            ctx.check('show', r.shown == 1 and bool(boxes) == legend, lambda: f'{len(boxes)} legends, asked for: {legend}')
            for o in flat(f.to_plot):
                ctx.check('show', sum(t is o for t in things) == 1, 'an object of the figure was not shown, or more than once')
            ctx.check('show', len(things) == len(boxes) + len(list(flat(f.to_plot))), 'nothing else is shown')
            flatness = [bool(np.all(np.asarray(c[1].points)[:, 1] == 0.)) for c in content if c[0] == 'mesh']
            if flatness:
                k = flatness.index(False) if False in flatness else 0
                references.append((r, [c for c in content if c[0] == 'mesh'][k][1], flatness))
        # One spatial mesh makes the figure spatial, whatever else is plotted before or after it
        for r, mesh, flatness in references:
            Recorder.made = []
            P.new_figure().plot_mesh(mesh)
            P.show()
            ctx.check('axes', r.axes == Recorder.made[0].axes, lambda: f'axes of a figure of meshes (planar: {flatness}): {r.axes}')
        Recorder.made = []
        P.show()
        ctx.check('show', not Recorder.made, 'figures were shown twice')
        f = P.get_current_figure()
        ctx.check('figures', all(f is not g[0] for g in model) and not f.to_plot, 'after show() a figure starts empty')
        P.show()
        ctx.nontrivial('figures', [[c[0] for c in m[1]] for m in model], rng.random())
    finally:
        vedo.Plotter = real


def run_trajectories(ctx, case, rng):
    import vedo.colors
    import traceon.plotting as P
    for k in range(12):
        T = []
        for _ in range(int(rng.integers(1, 5))):
            n = int(rng.integers(2, 60))
            t = np.cumsum(rng.normal(size=(n, 6)), axis=0)*float(10**rng.uniform(-3, 3))
            T.append(t[:, :3] if rng.random() < .2 else t)
        if rng.random() < .2:
            T.insert(int(rng.integers(len(T) + 1)), np.zeros((0, 6)))
        lim = {}
        for i, ax in enumerate('xyz'):
            for side in ('min', 'max'):
                if rng.random() < .3:
                    t = T[int(rng.integers(len(T)))]
                    v = float(rng.choice(t[:, i])) if len(t) and rng.random() < .5 else float(rng.normal()*np.abs(np.concatenate([t[:, i], [0]])).max())
                    lim[ax + side] = 0.0 if rng.random() < .15 else v
        colour = str(rng.choice(COLOURS))
        before = [t.copy() for t in T]
        f = P.Figure()
        f.plot_trajectories(T if rng.integers(2) else tuple(T), **lim, **({'color': colour} if rng.integers(2) else {}))
        ctx.check('unchanged', all(np.array_equal(a, b) for a, b in zip(before, T)), 'trajectories were changed')
        got = []
        for o in flat(f.to_plot):
            if not len(o.vertices):
                continue
            V = np.asarray(o.vertices, float)
            got.append([V[np.asarray(c)] for c in line_cells(o)])
        segs = [s for g in got for s in g]
        msg = f'trajectories {[len(t) for t in T]} with {lim}'
        want, gaps = [], []
        for t in T:
            keep = np.ones(len(t), bool)
            for i, ax in enumerate('xyz'):
                if ax + 'min' in lim:
                    keep &= t[:, i] >= lim[ax + 'min']
                if ax + 'max' in lim:
                    keep &= t[:, i] <= lim[ax + 'max']
            idx = np.flatnonzero(keep)
            for a, b in zip(idx[:-1], idx[1:]):
                (want if b == a + 1 else gaps).append(t[[a, b], :3])
        scale = max([np.abs(t[:, :3]).max() for t in T if len(t)] + [0])
        S = np.array(segs).reshape(-1, 2, 3)
        used = np.zeros(len(S), bool)
        def take(w):
            if not len(S):
                return False
            size = np.abs(w).max()
            e = np.where(used, np.inf, np.minimum(np.abs(S - w).max(axis=(1, 2)), np.abs(S - w[::-1]).max(axis=(1, 2))))
            j = int(np.argmin(e))
            if e[j] < 1e-6*size:
                used[j] = True
                return True
            return False
        for w in want:
            ctx.check('trajectory', take(w), lambda: f'{msg}: the step {w.tolist()} is not drawn')
        for w in gaps:
            take(w)
        ctx.check('trajectory', used.all(), lambda: f'{msg}: drawn but not in the trajectories or not inside of the limits: {S[~used][0].tolist()}')
        ctx.nontrivial('trajectory', sorted(lim.items()), [len(t) for t in T])


def run_grid(ctx, case, rng):
    """The grid has the shape of the surface and the potential of the field at its points."""
    import traceon.plotting as P
    from traceon.geometry import Path, Surface
    from mon.fields import random_3d, random_radial
    kind = case['mode'] % 4
    size = float(10**rng.uniform(-3, 3))
    def pt(y=True):
        return rng.normal(size=3)*[1, y, 1]*size
    linear = None
    if kind == 0:
        linear = rng.normal(size=3), float(rng.normal())*size
        field = type('Linear', (), dict(potential_at_point=lambda self, p: float(np.dot(linear[0], p) + linear[1])))()
    elif kind == 1:
        k = rng.normal(size=3)/size
        field = type('Wave', (), dict(potential_at_point=lambda self, p: float(np.sin(np.dot(k, p)) + np.dot(p, p)/size**2)))()
    else:
        s = random_radial(ctx, rng, n_el=1, n_per=10, scale=size) if kind == 2 else random_3d(ctx, rng, n_el=1, mesh_size=1.)
        field, size = s.field, s.size
    shape = rng.integers(5) if kind != 2 else rng.integers(3)
    if shape == 0:
        surf = Path.line(pt(False), pt(False)).line_to(pt(False)).extrude(np.array([0., size, 0.])*rng.normal())
    elif shape == 1:
        p = Path.line(pt(), pt())
        for _ in range(int(rng.integers(0, 4))):
            p = p.line_to(pt())
        surf = p.extrude(pt())
    elif shape == 2:
        a, b = np.sort(rng.uniform(.2, 3, size=2))*size
        c, d = np.sort(rng.uniform(-3, 3, size=2))*size
        surf = Surface.rectangle_xz(a, b, c, d)
    elif shape == 3:
        surf = Path.line([0., 0., -size], [size*rng.uniform(.2, 2), 0., 0.]).line_to([size*rng.uniform(.2, 2), 0., size]).revolve_z()
    else:
        surf = Surface.annulus_xy(0., 0., size*.3, size*rng.uniform(.5, 2)) if hasattr(Surface, 'annulus_xy') else Surface.sphere(size)
    N0, N1 = int(rng.integers(2, 16)), int(rng.integers(2, 16))
    f = P.Figure()
    n_iso = int(rng.integers(2, 30))
    f.plot_equipotential_lines(field, surf, N0=N0, N1=N1, N_isolines=n_iso, **({'color_map': 'jet'} if rng.integers(2) else {}))
    tri, lines, arrows, grids = sort_out(f.to_plot)
    ctx.check('grid', len(grids) == 1 and len(tri) == 1, lambda: f'{[type(o) for o in flat(f.to_plot)]} in the figure')
    if not grids:
        return
    g = grids[0]
    msg = f'{N0} by {N1} points of surface {shape}'
    want = np.array([[surf(u, v) for u in np.linspace(0, surf.path_length1, N0)] for v in np.linspace(0, surf.path_length2, N1)]).reshape(-1, 3)
    V = np.asarray(g.vertices, float)
    scale = np.abs(want).max()
    ctx.check('grid', V.shape == want.shape, lambda: f'{msg}: {len(V)} points')
    if V.shape != want.shape:
        return
    d = np.abs(V[:, None] - want[None]).max(axis=2)
    at = np.argmin(d, axis=1)
    ctx.close('grid', V, want[at], 2e-5*scale, f'{msg}: points')    # the parameters, too, may have been in single precision
    ctx.check('grid', (d.min(axis=0) < 2e-5*scale).all(), f'{msg}: a point of the surface is not in the grid')
    pots = np.array([field.potential_at_point(p) for p in want])
    vals = np.asarray(g.pointdata['z'] if 'z' in g.pointdata.keys() else g.pointdata[g.pointdata.keys()[0]], float)
    spread = max(np.ptp(pots), 1e-300)
    cells = [list(c) for c in g.cells]
    local = np.zeros(len(V))        # how much the potential changes around a point
    for c in cells:
        r = np.ptp(pots[at[c]])
        local[c] = np.maximum(local[c], r)
    ctx.close('grid', vals, pots[at], 1e-4*local + 1e-9*np.abs(pots).max() + 1e-3*(d.min(axis=1) > 1e-6*scale)*spread, f'{msg}: potential at the points')
    quads = {tuple(sorted((i + a) + N0*(j + b) for a in (0, 1) for b in (0, 1))) for i in range(N0 - 1) for j in range(N1 - 1)}
    if len(np.unique(np.round(want/scale*1e4), axis=0)) == len(want):
        have = {tuple(sorted(int(at[k]) for k in c)) for c in cells}
        ctx.check('grid', have == quads and len(cells) == len(quads), lambda: f'{msg}: cells do not join neighbours')
    iso = tri[0]
    if len(iso.vertices) and linear is not None and shape in (1, 2):
        level = np.asarray(iso.vertices, float) @ linear[0] + linear[1]
        q = np.round(level/spread*1e3).astype(int)
        levels = sorted(set(q.tolist()))
        merged = [levels[0]]
        for x in levels[1:]:
            if x - merged[-1] > 3:
                merged.append(x)
        ctx.check('isolines', n_iso - 2 <= len(merged) <= n_iso, lambda: f'{msg}: {len(merged)} equipotential lines, asked for {n_iso}')
        ctx.check('isolines', level.min() >= pots.min() - 1e-4*spread and level.max() <= pots.max() + 1e-4*spread, lambda: f'{msg}: equipotential lines outside of the potentials')
        for c in line_cells(iso):
            ctx.check('isolines', np.ptp(level[c]) < 2e-3*spread, lambda: f'{msg}: potential changes along an equipotential line')
    ctx.nontrivial('grid', N0, N1, pots)


def run_charge(ctx, case, rng):
    """Every charged element is drawn once, with the colour of its own charge."""
    import vedo.colors
    import traceon.excitation as E
    import traceon.plotting as P
    import traceon.solver as S
    from mon.props.c21 import named_shapes
    three, magnetic, coil = case['mode'] % 2 == 0, case['mode'] % 3 == 2, case['mode'] % 4 == 1
    mesh, names = named_shapes(rng, three, int(rng.integers(1, 4)) if rng.random() < .7 else int(rng.integers(4, 7)))
    if three and rng.random() < .5:
        from traceon.geometry import Path
        wire = Path.line([0., 0., 0.], [1., 2., 3.]).line_to([1., 4., 3.])
        wire.name = 'wire'
        mesh = mesh + wire.mesh(mesh_size=1.)
    exc = E.Excitation(mesh, E.Symmetry.THREE_D if three else E.Symmetry.RADIAL)
    active = [n for n in names if rng.random() < .8] or names[:1]
    for i, n in enumerate(active):
        if magnetic:
            if i and rng.random() < .4:
                exc.add_magnetizable(**{n: float(rng.uniform(2, 9))})
            else:
                exc.add_magnetostatic_potential(**{n: float(rng.normal()*10)})
        elif i and rng.random() < .3:
            exc.add_dielectric(**{n: float(rng.uniform(2, 9))})
        else:
            exc.add_voltage(**{n: float(rng.normal()*10)})
    if magnetic and not three and coil:
        exc.add_current(coil=float(rng.normal()))
    field = S.solve_direct(exc)
    cmap = str(rng.choice(['coolwarm', 'jet', 'viridis']))
    f = P.Figure()
    f.plot_charge_density(exc, field, color_map=cmap)
    tri, lines, arrows, grids = sort_out(f.to_plot)
    monitor = 'charge-3d' if three else 'charge-radial'
    pts, total = np.asarray(mesh.points, float), (mesh.physical_to_triangles if three else mesh.physical_to_lines)
    els = mesh.triangles if three else mesh.lines
    want_idx = np.concatenate([np.asarray(total[n], int) for n in active])
    W = pts[els[want_idx][:, :3 if three else 2]]
    charges = (field.magnetostatic_point_charges if magnetic else field.electrostatic_point_charges)
    act, act_names = exc.get_magnetostatic_active_elements() if magnetic else exc.get_electrostatic_active_elements()
    msg = f'{active} in {"3d" if three else "radial"} symmetry, {"magnetic" if magnetic else "electric"}'
    scale = np.abs(W).max()
    got, shade, value = [], [], []
    for o in (tri if three else lines):
        V = np.asarray(o.vertices, float)
        cells = [list(c) for c in o.cells] if three else line_cells(o)
        if three:
            col = np.asarray(o.cellcolors)[:, :3]
        else:
            lo, hi = o.mapper.GetScalarRange()
            d = np.asarray(o.pointdata['Scalars'] if 'Scalars' in o.pointdata.keys() else o.pointdata[o.pointdata.keys()[-1]], float)
        for i, c in enumerate(cells):
            got.append(V[np.asarray(c)])
            if three:
                shade.append(col[i])
            else:
                ctx.check(monitor, np.ptp(d[c]) == 0., f'{msg}: charge changes along a line')
                value.append((d[c[0]], lo, hi))
    ctx.check(monitor, not (lines if three else tri), lambda: f'{msg}: elements that cannot be charged are drawn')
    out = match_elements(ctx, monitor, got, W, scale, msg)
    if out is None:
        return
    # own charges of the elements: by position, through the solution and not through the names
    C = np.asarray(charges.charges, float)
    first = np.asarray(act, float)[:, :3 if three else 2]
    q = np.empty(len(W))
    for i, w in enumerate(W):
        q[i] = C[int(np.argmin(np.abs(first - w).reshape(len(first), -1).max(axis=1)))]
    lo, hi = C.min(), C.max()
    if hi - lo > 0:
        if three:
            want = np.round(255*np.array(vedo.colors.color_map(q, name=cmap, vmin=lo, vmax=hi)))
            have = np.array(shade, float)[out]
            ctx.close(monitor, have, want, 1.5, f'{msg}: colours of the charges')
        else:
            v = np.array(value)[out]
            ctx.close(monitor, v[:, 0], q, 1e-6*np.abs(C).max(), f'{msg}: charges')
            ctx.close(monitor, v[:, 1:], np.tile([lo, hi], (len(v), 1)), 1e-6*np.abs(C).max(), f'{msg}: range of the colours')
        ctx.event(monitor, len(W))
    ctx.nontrivial('charge', C)


# ------------------------------------------------------------------ logging
LEVELS = ['debug', 'info', 'warning', 'error', 'silent']


def run_logging(ctx, case, rng):
    """A message is printed exactly when its level is at least the level set."""
    import traceon.excitation as E
    import traceon.logging as L
    import traceon.solver as S
    import traceon.tracing as T
    from mon.props.c21 import named_shapes
    try:
        for _ in range(60):
            i = int(rng.integers(5))
            L.set_log_level(L.LogLevel[LEVELS[i].upper()])
            for j, name in enumerate(LEVELS[:4]):
                text = f'message {rng.integers(10**9)} of {name}'
                said = io.StringIO()
                with contextlib.redirect_stdout(said), contextlib.redirect_stderr(said):
                    getattr(L, 'log_' + name)(text)
                ctx.check('log', said.getvalue().count(text) == (j >= i), lambda: f'log_{name} at level {LEVELS[i]} printed {said.getvalue()!r}')
                if j >= i and name != 'info':
                    ctx.check('log', name.upper() in said.getvalue(), lambda: f'log_{name} printed {said.getvalue()!r}')
                if j < i:
                    ctx.check('log', said.getvalue() == '', lambda: f'log_{name} at level {LEVELS[i]} printed {said.getvalue()!r}')
            ctx.nontrivial('log', i, _)
        ctx.check('log', [int(L.LogLevel[x.upper()]) for x in LEVELS] == sorted(int(x) for x in L.LogLevel), 'levels are ordered')
        for bad in (None, 'debug', 'INFO'):
            ctx.raises('log-rejected', lambda: L.set_log_level(bad), f'set_log_level({bad!r})')
        # what the library says while it works
        three = bool(case['mode'] % 2)
        mesh, names = named_shapes(rng, three, 1)
        for i, name in enumerate(LEVELS):
            L.set_log_level(L.LogLevel[name.upper()])
            exc = E.Excitation(mesh, E.Symmetry.THREE_D if three else E.Symmetry.RADIAL)
            exc.add_voltage(**{names[0]: 1.})
            said = io.StringIO()
            with contextlib.redirect_stdout(said):
                S.solve_direct(exc)
                quiet = said.getvalue()
                T.velocity_vec(50e3, [0, 0, 1.])
            loud = said.getvalue()[len(quiet):]
            ctx.check('log-session', bool(quiet.strip()) == (i <= 1), lambda: f'solving at level {name} printed {quiet!r}')
            ctx.check('log-session', bool(loud.strip()) == (i <= 2), lambda: f'the warning for 50 keV at level {name} printed {loud!r}')
    finally:
        L.set_log_level(L.LogLevel.SILENT)


def run_env(ctx, case, rng):
    """TRACEON_LOG_LEVEL sets the level the library starts with."""
    import traceon.logging as L
    folder = os.path.dirname(os.path.dirname(os.path.abspath(L.__file__)))
    prog = ('import traceon.logging as L\n' + ''.join(f'L.log_{n}("message of {n}")\n' for n in LEVELS[:4]) + 'print(int(L.LogLevel.SILENT))')
    for value, i in [(None, 1), ('nonsense', 1), ('', 1)] + [(f(n), k) for k, n in enumerate(LEVELS) for f in (str, str.upper, str.capitalize)]:
        env = {k: v for k, v in os.environ.items() if k not in ('TRACEON_LOG_LEVEL', 'LD_PRELOAD')}
        env['PYTHONPATH'] = folder
        if value is not None:
            env['TRACEON_LOG_LEVEL'] = value
        r = subprocess.run([sys.executable, '-c', prog], env=env, cwd=folder, capture_output=True, text=True, timeout=120)
        ctx.require('env', r.returncode == 0, f'TRACEON_LOG_LEVEL={value}: {r.stderr[-300:]}')
        got = [n for n in LEVELS[:4] if f'message of {n}' in r.stdout]
        ctx.check('log', got == LEVELS[i:4], lambda: f'TRACEON_LOG_LEVEL={value}: messages of {got} printed')
        ctx.nontrivial('env', str(value))
