"""C19: random sessions of public operations are run twice, in different orders, while every object alive is fingerprinted before and after each operation; arrays
handed in are scribbled over afterwards, handed in with other types and layouts, and whole sessions are repeated in processes with another hash seed."""
import json
import os
import pickle
import subprocess
import sys

import numpy as np

RULE = ('sessions of random operations on geometries, meshes, excitations, fields, axial fields, trajectories and figures, each repeated later in the session; every function '
        'that takes or returns arrays with those arrays modified afterwards; points, velocities, bounds and tables as float64 of every layout, lists, tuples and integers; '
        'non-trivial when objects were fingerprinted around an operation or an array was modified after use')
ASSUMPTIONS = ['in-place operations are those documented as such: flip_normals, remove_lines, remove_triangles, ensure_outward_normals, ensure_inward_normals (also through '
               'add_*_boundary), set_bounds, PathCollection/SurfaceCollection names, +=',
               'to_meshio may share its arrays with the mesh; arithmetic in single precision on float32 arrays is allowed (1e-6)',
               'repeated computations may differ by rounding only (1e-9 relative); unchanged means bitwise']
REQUIRED = {'unchanged': 9000, 'repeatable': 400, 'alias-in': 120, 'alias-out': 120, 'layout': 2000, 'table-layout': 200, 'process': 30, 'history': 150, 'untouched-argument': 2000}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('session', 24), ('aliasin', 16), ('aliasout', 16), ('layout', 30), ('tables', 16), ('process', 4), ('history', 2)):
        for i in range(n if q else 8*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


# ------------------------------------------------------------------ fingerprints
def kind_of(o):
    for k in type(o).__mro__:
        if k.__module__.startswith('traceon.'):
            return k.__name__
    return type(o).__name__


class Attributes(dict):
    """Public attributes of an object. What an object remembers besides (a cache) is its own business: now == before if all there was before is as before."""

    def __eq__(now, before):
        return all(k in now and dict.__getitem__(now, k) == v for k, v in before.items())

    def __ne__(now, before):
        return not now == before

    __hash__ = None


def finger(o, seen=None):
    """Everything there is to an object: arrays bit by bit, geometries by where their points are."""
    seen = seen or ()
    if isinstance(o, np.ndarray):
        return ('array', str(o.dtype), o.shape, o.tobytes() if o.dtype != object else tuple(finger(x, seen) for x in o.ravel()))
    if isinstance(o, dict):
        return ('dict', tuple((k, finger(v, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(finger(v, seen) for v in o))
    if isinstance(o, (int, float, str, bool, type(None), np.generic, bytes)):
        return repr(o)
    if id(o) in seen:
        return 'cycle'
    s = seen + (id(o),)
    name = type(o).__name__
    if name == 'Path':
        L = o.path_length
        return ('Path', L, finger(list(o.breakpoints), s), o.name, tuple(np.asarray(o(t), float).tobytes() for t in np.linspace(0, L, 9)))
    if name == 'Surface':
        a, b = o.path_length1, o.path_length2
        return ('Surface', a, b, finger(list(o.breakpoints1), s), finger(list(o.breakpoints2), s), o.name,
                tuple(np.asarray(o(u, v), float).tobytes() for u in np.linspace(0, a, 4) for v in np.linspace(0, b, 4)))
    if type(o).__module__.startswith('traceon'):
        return (name, Attributes({k: finger(v, s) for k, v in vars(o).items() if not k.startswith('_')}), getattr(o, 'name', None) if '_name' in vars(o) else None)
    if callable(o):
        return ('function', id(o))
    return (name, repr(o)[:200])


def observe(o, pts):
    """What a user sees of a result, as numbers."""
    name = kind_of(o)
    if isinstance(o, np.ndarray):
        return [o.astype(float)]
    if isinstance(o, (int, float, np.generic)):
        return [np.array(float(o))]
    if isinstance(o, str):
        return [np.frombuffer(o.encode(), np.uint8).astype(float)]
    if isinstance(o, dict):
        return [x for k in sorted(o) for x in observe(str(k), pts) + observe(o[k], pts)]
    if isinstance(o, (list, tuple)):
        return [x for v in o for x in observe(v, pts)]
    if o is None:
        return []
    if name == 'Path':
        return [np.array([o(t) for t in np.linspace(0, o.path_length, 7)]), np.array(o.path_length), np.array(sorted(o.breakpoints), float)]
    if name == 'Surface':
        return [np.array([o(u, v) for u in np.linspace(0, o.path_length1, 4) for v in np.linspace(0, o.path_length2, 4)]), np.array([o.path_length1, o.path_length2])]
    if name == 'PathCollection':
        return observe(list(o.paths), pts)
    if name == 'SurfaceCollection':
        return observe(list(o.surfaces), pts)
    if name == 'Mesh':
        return [o.points, o.lines.astype(float), o.triangles.astype(float)] + observe(o.physical_to_lines, pts) + observe(o.physical_to_triangles, pts)
    if hasattr(o, 'electrostatic_field_at_point'):
        out = []
        for p in pts:
            for f in ('electrostatic_field_at_point', 'electrostatic_potential_at_point', 'magnetostatic_field_at_point', 'magnetostatic_potential_at_point'):
                out.append(np.asarray(getattr(o, f)(p), float))
        return out
    if name == 'Excitation':
        return observe({k: (int(t), v if not callable(v) else 0.) for k, (t, v) in o.excitation_types.items()}, pts) + observe(o.mesh, pts)
    return []


def same(a, b, rel=1e-9):
    if len(a) != len(b):
        return f'{len(a)} values became {len(b)}'
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return f'shape {x.shape} became {y.shape}'
        if x.size and not np.allclose(x, y, rtol=rel, atol=rel*(np.nanmax(np.abs(x)) if np.isfinite(x).any() else 1.), equal_nan=True):
            i = int(np.nanargmax(np.abs(x - y)))
            return f'{x.ravel()[i]!r} became {y.ravel()[i]!r}'
    return None


# ------------------------------------------------------------------ sessions
def profile(rng, z=0., r=.5):
    """A closed or open profile in the xz-plane, off the axis."""
    from traceon.geometry import Path
    k = rng.integers(5)
    w, h = rng.uniform(.3, .8, size=2)
    if k == 0:
        return Path.rectangle_xz(r, r + w, z, z + h)
    if k == 1:
        return Path.circle_xz(r + 1, z, w/2)
    if k == 2:
        return Path.line([r, 0., z], [r + w, 0., z + h]).line_to([r, 0., z + 2*h])
    if k == 3:
        return Path.spline_through_points([[r, 0., z], [r + w, 0., z + .3*h], [r + .5*w, 0., z + h], [r, 0., z + 1.5*h]])
    return Path.arc([r + w, 0., z], [r + w/2, 0., z], [r + w, 0., z + w/2])


def build_pool(rng, kind):
    import traceon.excitation as E
    from traceon.geometry import Path, Surface
    pool = {}
    if kind == 'radial':
        a, b, c = profile(rng, 0.), profile(rng, 2.), Surface.rectangle_xz(2.5, 3., 4., 4.6)
        a.name, b.name, c.name = 'a', 'b', 'c'
        pool.update(a=a, b=b, c=c, col=a + b, col2=profile(rng, 5.) + profile(rng, 7.), scol=c + Surface.rectangle_xz(4., 5., 0., 1.))
        pool['scol2'] = c.extrude_boundary([0., 1., 0.])
        pool['mesh'] = a.mesh(mesh_size=.12) + b.mesh(mesh_size=.15) + c.mesh(mesh_size=.4)
        pool['ho'] = a.mesh(mesh_size=.15, higher_order=True) + b.mesh(mesh_size=.2, higher_order=True)
        e = E.Excitation(pool['mesh'], E.Symmetry.RADIAL)
        k = rng.integers(3)
        if k == 0:
            e.add_voltage(a=3., b=lambda x, y, z: 1. + z)
        elif k == 1:
            e.add_voltage(a=-2.)
            e.add_dielectric(b=3.)
            e.add_current(c=1.5)
        else:
            e.add_current(c=2.)
            e.add_magnetizable(a=5.)
            e.add_magnetostatic_potential(b=1.)
        pool['exc'] = e
        e2 = E.Excitation(pool['ho'], E.Symmetry.RADIAL)
        e2.add_voltage(a=1., b=-4.)
        pool['exc2'] = e2
    else:
        a = Surface.sphere(.8)
        b = Surface.box([1.5, -.4, -.4], [2.3, .5, .6])
        a.name, b.name = 'a', 'b'
        pool.update(a=a, b=b, c=Path.circle_xy(0., 0., .7), col=Surface.disk_xy(0., 0., 1.) + Surface.rectangle_xy(2., 3., 0., 1.))
        pool['scol'] = Surface.box([5., 5., 5.], [6., 6., 6.])
        pool['mesh'] = a.mesh(mesh_size=.7) + b.mesh(mesh_size=.6)
        e = E.Excitation(pool['mesh'], E.Symmetry.THREE_D)
        k = rng.integers(3)
        if k == 0:
            e.add_voltage(a=3., b=lambda x, y, z: x*y + z)
        elif k == 1:
            e.add_voltage(a=-2.)
            e.add_dielectric(b=3.)
        else:
            e.add_magnetostatic_potential(a=1.)
            e.add_magnetizable(b=4.)
        pool['exc'] = e
        e2 = E.Excitation(pool['mesh'], E.Symmetry.THREE_D)
        e2.add_voltage(a=1., b=-4.)
        pool['exc2'] = e2
    return pool


def operations(pool, rng, kind, scratch):
    """A bag of operations on the pool: (name, function of no arguments, names of the objects it may change)."""
    import traceon.plotting as P
    import traceon.solver as S
    import traceon.tracing as T
    from traceon.excitation import Excitation, Symmetry
    from traceon.interpolation import FieldRadialAxial
    from traceon.mesher import Mesh
    A = []

    def op(name, f):
        A.append((name, f))
    d = [float(x) for x in rng.normal(size=3)]
    t = float(rng.uniform(.2, 2.))
    ms = float(rng.uniform(.3, .6))
    geo = ['a', 'b', 'c', 'col', 'mesh']
    for g in geo:
        o = lambda g=g: pool[g]     # noqa: E731
        op(f'{g}.move', lambda o=o: o().move(*d))
        op(f'{g}.rotate', lambda o=o: o().rotate(Ry=t, origin=np.array(d)))
        op(f'{g}.mirror', lambda o=o: [o().mirror_xz(), o().mirror_yz(), o().mirror_xy()])
        op(f'{g}.map_points', lambda o=o: o().map_points(lambda p: p*2 + 1))
        op(f'str({g})', lambda o=o: str(o()))
    for g in ['a', 'b', 'c', 'col']:
        o = lambda g=g: pool[g]     # noqa: E731
        op(f'{g}.mesh', lambda o=o: o().mesh(mesh_size=ms))
        op(f'{g}.mesh(name)', lambda o=o: o().mesh(mesh_size_factor=1, name='other'))
        if type(pool[g]).__name__ in ('Path', 'PathCollection'):
            op(f'{g}.revolve', lambda o=o: o().revolve_z(t))
            op(f'{g}.revolve_x', lambda o=o: o().revolve_x())
            op(f'{g}.extrude', lambda o=o: o().extrude(d))
            op(f'{g}.mesh(ho)', lambda o=o: o().mesh(mesh_size=ms, higher_order=True))
        if type(pool[g]).__name__ == 'Path':
            p = lambda g=g: pool[g]     # noqa: E731
            op(f'{g}.cut', lambda p=p: p().cut(p().path_length/3))
            op(f'{g} >>', lambda p=p: p().line_to(d) if kind != 'radial' else p().line_to([d[0], 0., d[2]]))
            op(f'{g}.add_phase', lambda p=p: p().add_phase(.3) if p().is_closed() else p().close())
            op(f'{g}.average', lambda p=p: p().average(lambda q: q[2]))
            op(f'{g} points', lambda p=p: [p().starting_point(), p().middle_point(), p().endpoint(), p()(p().path_length*.3)])
        if type(pool[g]).__name__ == 'Surface':
            p = lambda g=g: pool[g]     # noqa: E731
            op(f'{g}.boundary', lambda p=p: p().get_boundary_paths())
            op(f'{g}.extrude_boundary', lambda p=p: p().extrude_boundary([0., 1., 0.]))
    if type(pool['a']) is type(pool['b']):
        op('a + b', lambda: pool['a'] + pool['b'])
    # collections and single pieces in any order, also of collections with themselves
    many = {}
    for g in ['a', 'b', 'c', 'col', 'col2', 'scol', 'scol2']:
        if g in pool:
            many.setdefault('path' if 'Path' in type(pool[g]).__name__ else 'surface', []).append(g)
    for group in many.values():
        for g in group:
            for h in group:
                if 'col' in g or 'col' in h:
                    op(f'{g} + {h}', lambda g=g, h=h: pool[g] + pool[h])
    op('mesh + mesh', lambda: pool['mesh'] + pool['mesh'].move(dz=20.))
    op('mesh + ho', lambda: pool['ho'] + pool['ho'].move(dz=20.)) if 'ho' in pool else None
    op('extract', lambda: pool['mesh'].extract_physical_group('a'))
    op('to_meshio', lambda: Mesh.from_meshio(pool['mesh'].to_meshio()))
    op('electrodes', lambda: sorted(pool['mesh'].get_electrodes()))

    def written(ext):
        f = os.path.join(scratch, f'c19-{os.getpid()}{ext}')
        pool['mesh'].write_file(f)
        m = Mesh.read_file(f)
        os.remove(f)
        return m
    op('vtk file', lambda: written('.vtk'))
    op('pickled', lambda: [pickle.loads(pickle.dumps(q)) for q in [pool['mesh']] + [pool[k] for k in pool if k.startswith('field')]])
    if kind == 'radial':
        op('higher order', lambda: pool['mesh'].extract_physical_group('a')._to_higher_order_mesh())
    for e in ('exc', 'exc2'):
        x = lambda e=e: pool[e]     # noqa: E731
        op(f'solve {e}', lambda x=x: S.solve_direct(x()))
        op(f'{e} elements', lambda x=x: [x().get_electrostatic_active_elements(), x().get_magnetostatic_active_elements()])
        op(f'{e} asks', lambda x=x: [x().is_electrostatic(), x().is_magnetostatic(), x().has_current(), str(x())[:0]])
    op('superposition', lambda: S.solve_direct_superposition(pool['exc2']))

    def fresh_excitation():
        e = Excitation(pool['mesh'], Symmetry.RADIAL if kind == 'radial' else Symmetry.THREE_D)
        e.add_voltage(a=1.)
        e.add_voltage(a=2., b=-1.)
        return e
    op('new excitation', fresh_excitation)
    fields = [k for k in pool if k.startswith('field')]
    s = float(rng.uniform(-2, 2))
    for k in fields:
        f = lambda k=k: pool[k]     # noqa: E731
        op(f'{k} arithmetic', lambda f=f: [f()*s, 2*f(), -f(), f() + f(), f() - f()*.5])
        op(f'str {k}', lambda f=f: str(f()))
        if k.startswith('field_bem'):
            op(f'{k} areas', lambda f=f: [f().area_of_element(0), f().charge_on_element(0), f().charge_on_elements(np.arange(1))] if len(f().electrostatic_point_charges) else 0)
        start = np.array([.1, .05, 8.]) if kind == 'radial' else np.array([.1, .3, 3.])
        v = T.velocity_vec(150., [.01, 0., -1.])
        bounds = [[-9., 9.], [-9., 9.], [6. if kind == 'radial' else 1.5, 9.]]
        op(f'{k} trace', lambda f=f, start=start, v=v, bounds=bounds: [q for q in f().get_tracer(bounds)(start, v)])
    for a in fields:
        for b in fields:
            if a < b and type(pool[a]) is type(pool[b]):
                def total(a=a, b=b):
                    bounds = [getattr(pool[k], 'field_bounds', None) for k in (a, b)]
                    try:
                        return [pool[a] + pool[b], pool[a] - pool[b]]
                    except (AssertionError, ValueError):
                        if np.array_equal(bounds[0], bounds[1]):
                            raise
                        return 'different field bounds'
                op(f'{a} + {b}', total)
    if kind == 'radial':
        for k in [q for q in fields if q.startswith('field_bem')]:
            op(f'{k} axial', lambda k=k: FieldRadialAxial(pool[k], 5., 8., 30))
            op(f'{k} derivatives', lambda k=k: [pool[k].get_electrostatic_axial_potential_derivatives(np.linspace(5, 6, 4)),
                                                pool[k].get_magnetostatic_axial_potential_derivatives(np.linspace(5, 6, 4)),
                                                pool[k].current_potential_axial(5.5)])

    def figure(what):
        fig = P.Figure()
        what(fig)
        return [getattr(t, 'npoints', 0) for t in fig.to_plot if not isinstance(t, list)]
    op('plot mesh', lambda: figure(lambda f: f.plot_mesh(pool['mesh'], show_normals=True, a='red')))
    if fields and pool[fields[0]].is_electrostatic() != pool[fields[0]].is_magnetostatic():
        from traceon.geometry import Surface
        srf = Surface.rectangle_xz(.2, .4, 7., 8.)
        op('plot potential', lambda: figure(lambda f: f.plot_equipotential_lines(pool[fields[0]], srf, N0=5, N1=6)))
    return A


def quiet(f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def run_session(ctx, case, rng):
    """Operations in random order, twice each; nothing alive may change and results may not depend on what came before."""
    import traceon.solver as S
    from traceon.interpolation import FieldRadialAxial
    kind = ['radial', '3d'][case['mode'] % 2]
    pool = build_pool(rng, kind)
    early = {k: finger(v) for k, v in pool.items()}
    pool['field_bem1'] = S.solve_direct(pool['exc'])
    pool['field_bem2'] = S.solve_direct(pool['exc2'])
    pool['field_bem2'].set_bounds([[-5., 5.], [-5., 5.], [-5., 12.]])
    if rng.random() < .6:
        pool['field_bem1'].set_bounds([[-5., 5.], [-5., 5.], [-5., 12.]])
    if kind == 'radial':
        pool['field_ax1'] = FieldRadialAxial(pool['field_bem1'], 5., 9., 25)
        pool['field_ax2'] = FieldRadialAxial(pool['field_bem2'], 5., 9., 25)
    for k, v in early.items():
        ctx.check('unchanged', finger(pool[k]) == v, lambda: f'solving changed {k} ({kind})')
    pts = np.array([[.1, .2, 7.], [-.3, .1, 7.5]]) if kind == 'radial' else np.array([[.1, .2, 2.], [-.3, 1.5, -2.]])
    ops = operations(pool, rng, kind, ctx.scratch)
    pick = list(rng.permutation(len(ops))[:26])
    order = pick + [pick[i] for i in rng.permutation(len(pick))]
    first = {}
    held = []
    prints = {k: finger(v) for k, v in pool.items()}
    for i in order:
        name, f = ops[i]
        rs = np.random.get_state()[1].tobytes()
        result = quiet(f)
        got = [np.array(x, float) for x in observe(result, pts)]
        for k, v in pool.items():
            now = finger(v)
            if not ctx.check('unchanged', now == prints[k], lambda: f'{name} changed {k} ({kind})'):
                prints[k] = now
        ctx.check('no-global-random', np.random.get_state()[1].tobytes() == rs, lambda: f'{name} used the global random state')
        if i in first:
            d = same(first[i], got)
            ctx.check('repeatable', d is None, lambda: f'{name} gave another result the second time: {d} ({kind})')
        else:
            first[i] = got
        # results that stay around must not change because of what happens later
        for hn, ho, hf in held:
            ctx.check('unchanged', finger(ho) == hf, lambda: f'{name} changed the result of {hn} ({kind})')
        held.append((name, result, finger(result)))
        if len(held) > 5:
            held.pop(int(rng.integers(len(held))))
        ctx.event('operation')
        ctx.state('operation', kind + ' ' + name)
    ctx.nontrivial('session', kind, case['mode'], pick)


# ------------------------------------------------------------------ what is handed in
def scribble(rng, *arrays):
    for a in arrays:
        if isinstance(a, list):
            for i in range(len(a)):
                if isinstance(a[i], (list, np.ndarray)):
                    scribble(rng, a[i])
                elif isinstance(a[i], float):
                    a[i] = a[i] + 41.7
        elif isinstance(a, dict):
            a.clear()
        elif a.dtype.kind == 'f':
            a[...] = a + 41. + rng.random(a.shape)
        else:
            a[...] = a[::-1].copy() if len(a) > 1 else 0


def run_aliasin(ctx, case, rng):
    """Objects made from arrays are not affected when those arrays are modified afterwards."""
    import traceon.excitation as E
    import traceon.solver as S
    import traceon.tracing as T
    from traceon.geometry import Path, Surface
    from traceon.mesher import Mesh
    V = lambda: [float(x) for x in rng.normal(size=3)] if rng.random() < .3 else rng.normal(size=3)     # noqa: E731
    pts = rng.normal(size=(2, 3)) + [0, 0, 9]

    def test(name, make, *args):
        obj = make(*args)
        before = [np.array(x, float) for x in observe(obj, pts)]
        ctx.check('alias-in', len(before) > 0, name)
        scribble(rng, *args)
        d = same(before, [np.array(x, float) for x in observe(obj, pts)], 0.)
        ctx.check('alias-in', d is None, lambda: f'{name} depends on later changes of its argument: {d}')
        ctx.state('made from arrays', name)
    base = Path.line([.5, 0., 0.], [1.5, 0., 1.])
    test('Path.line', Path.line, V(), V())
    test('line_to', base.line_to, V())
    test('Path.arc', lambda c, s, e: Path.arc(c, s, e), np.zeros(3), np.array([1., 0., 0.]), np.array([0., 0., 1.]))
    test('arc_to', lambda c, e: Path.line([0., 0., 0.], [1., 0., 0.]).arc_to(c, e), np.array([0., 0., 0.]), np.array([0., 1., 0.]))
    test('spline', lambda p: Path.spline_through_points(p), rng.normal(size=(6, 3)).cumsum(axis=0))
    test('spline list', lambda p: Path.spline_through_points(p), [[0., 0., 0.], [1., 0., 0.], [1., 2., 0.], [3., 2., 1.]])
    test('extrude', base.extrude, V())
    test('rotate', lambda o: base.rotate(Ry=.7, origin=o), V())
    test('rotate surface', lambda o: Surface.sphere(1.).rotate(Rz=.7, origin=o), V())
    test('box', lambda a, b: Surface.box(a, b), np.array([-1., -1., -1.]), np.array([1., 2., 3.]))
    test('extrude_boundary', lambda v: Surface.rectangle_xz(0., 1., 0., 1.).extrude_boundary(v), np.array([0., 1., .5]))
    test('Path breakpoints', lambda b: Path(lambda t: np.array([t, 0., t*t]), 2., b), [.5, 1.])
    test('Surface breakpoints', lambda b, c: Surface(lambda u, v: np.array([u, v, 0.]), 1., 1., b, c), [.5], [.25])
    # a collection is not the list it is made from, nor the collections it is added up from
    from traceon.geometry import PathCollection, SurfaceCollection
    for cls, items, attr in ((PathCollection, [Path.line(V(), V()) for _ in range(4)], 'paths'),
                             (SurfaceCollection, [Path.line(V(), V()).extrude(V()) for _ in range(4)], 'surfaces')):
        given = items[:2]
        c = cls(given)
        c2 = c + items[2]
        c3 = c + cls(items[2:])
        n0 = [len(getattr(x, attr)) for x in (c, c2, c3)]
        c += items[3]
        ctx.check('alias-in', len(given) == 2 and given[0] is items[0], f'adding to a {cls.__name__} changed the list it was made from')
        given.append(items[3])
        given.clear()
        ctx.check('alias-in', n0 == [2, 3, 4] and [len(getattr(x, attr)) for x in (c, c2, c3)] == [3, 3, 4], f'{cls.__name__} depends on later changes of what it was made from')
        c2 += c3
        ctx.check('alias-in', [len(getattr(x, attr)) for x in (c, c2, c3)] == [3, 7, 4], f'adding to a {cls.__name__} changed another one')
        ctx.state('made from arrays', cls.__name__)
    P = rng.normal(size=(30, 3))
    L = np.array([[i, i + 1] for i in range(20)], dtype=np.uint64)
    Tr = np.array([[i, i + 1, i + 2] for i in range(20)], dtype=np.uint64)
    g1, g2 = np.arange(5, 12), np.arange(3, 9)
    d1, d2 = {'x': g1}, {'y': g2}
    test('Mesh', lambda p, ll, t, a, b, c, d: Mesh(p, ll, t, c, d, ensure_outward_normals=False), P, L, Tr, g1, g2, d1, d2)
    m = Mesh(rng.normal(size=(30, 3)), np.array([[i, i + 1] for i in range(20)]), np.array([[i, i + 1, i + 2] for i in range(20)]),
             {'x': np.arange(4)}, {'y': np.arange(6)}, ensure_outward_normals=False)
    for name, f in (('move', lambda: m.move(dx=1.)), ('+', lambda: m + Mesh()), ('+ reversed', lambda: Mesh() + m), ('+ mesh', lambda: m + m.move(dx=50.)),
                    ('extract', lambda: m.extract_physical_group('y')), ('higher order', lambda: m._to_higher_order_mesh()), ('mirror', m.mirror_xy)):
        r = f()
        before = [np.array(x, float) for x in observe(r, pts)]
        keep = [a.copy() for a in (m.points, m.lines, m.triangles, m.physical_to_lines['x'], m.physical_to_triangles['y'])]
        scribble(rng, m.points, m.lines, m.triangles, m.physical_to_lines['x'], m.physical_to_triangles['y'])
        d = same(before, [np.array(x, float) for x in observe(r, pts)], 0.)
        ctx.check('alias-in', d is None, lambda: f'the result of mesh {name} depends on later changes of the mesh: {d}')
        for a, k in zip((m.points, m.lines, m.triangles, m.physical_to_lines['x'], m.physical_to_triangles['y']), keep):
            a[...] = k
    # fields and what they are made of
    from mon.fields import random_3d, random_magnetic, random_radial
    k = case['mode'] % 4
    s = random_radial(ctx, rng, n_el=1, n_per=10, scale=1.) if k == 0 else random_3d(ctx, rng, n_el=1, mesh_size=1., scale=1.) if k == 1 else \
        random_magnetic(ctx, rng, 1, iron=k == 2, scale=1.)
    f = s.field
    fp = s.points[:3]
    before = [np.array(x, float) for x in observe(f, fp)]
    tr = f.get_tracer([[-9, 9], [-9, 9], [-9, 9]])
    exc = s.exc
    keep = exc.mesh.points.copy()
    scribble(rng, exc.mesh.points)
    if len(exc.mesh.triangles):
        scribble(rng, exc.mesh.triangles)
    scribble(rng, exc.excitation_types)
    d = same(before, [np.array(x, float) for x in observe(f, fp)], 0.)
    ctx.check('alias-in', d is None, lambda: f'a solved field depends on later changes of the mesh or excitation: {d}')
    del keep, tr
    c, j, p = [np.array(a) for a in (f.electrostatic_point_charges.charges, f.electrostatic_point_charges.jacobians, f.electrostatic_point_charges.positions)]
    test('EffectivePointCharges', lambda c, j, p: type(f)(electrostatic_point_charges=S.EffectivePointCharges(c, j, p)), c, j, p)
    b = np.array([[-30., 30.], [-30., 30.], [-30., 30.]])

    def bounded(b):
        g = f*1
        g.set_bounds(b)
        return g
    pts = fp
    test('set_bounds', bounded, b)
    b = np.array([[-5., 5.], [-5., 5.], [-5., 5.]])
    x0, v0 = np.array([0.1, .2, .3]), T.velocity_vec(100., [0., .1, 1.])
    t = T.Tracer(f, b)
    trc = f.get_tracer(b)
    far = type(f)()
    tr0 = far.get_tracer(b)
    r1 = tr0(x0, v0)
    r1 = (r1[0].copy(), r1[1].copy())
    xk, vk = x0.copy(), v0.copy()
    r2 = tr0(x0, v0)
    scribble(rng, x0, v0, b)
    ctx.check('alias-in', np.array_equal(r1[0], r2[0]) and np.array_equal(r1[1], r2[1]), 'a trajectory depends on later changes of its start')
    r3 = tr0(xk, vk)
    ctx.check('alias-in', np.array_equal(r1[1], r3[1]) and np.all(t.bounds == [[-5, 5]]*3) and np.all(trc.bounds == [[-5, 5]]*3), 'a tracer depends on later changes of its bounds')
    del E
    ctx.nontrivial('aliasin', case['mode'], P)


def run_aliasout(ctx, case, rng):
    """What is returned can be modified without affecting what it was obtained from; in-place operations stay with their object."""
    from mon.fields import random_3d, random_magnetic, random_radial
    k = case['mode'] % 4
    s = random_radial(ctx, rng, n_el=2, n_per=10, scale=1.) if k == 0 else random_3d(ctx, rng, n_el=2, mesh_size=1., scale=1.) if k == 1 else \
        random_magnetic(ctx, rng, 1, iron=k == 2, scale=1.)
    f, mesh, exc = s.field, s.mesh, s.exc
    pool = dict(field=f, mesh=mesh, exc=exc)
    prints = {n: finger(o) for n, o in pool.items()}

    def unchanged(what):
        for n, o in pool.items():
            now = finger(o)
            if not ctx.check('alias-out', now == prints[n], lambda: f'modifying {what} changed the {n}'):
                prints[n] = now
        ctx.state('modified', what)
    els, names = exc.get_electrostatic_active_elements()
    scribble(rng, els, *names.values())
    names.clear()
    unchanged('the active elements')
    els, names = exc.get_magnetostatic_active_elements()
    scribble(rng, els, *names.values())
    unchanged('the magnetostatic active elements')
    for op in ('move', 'mirror', 'add', 'extract', 'pickle', 'higher'):
        if op == 'move':
            m = mesh.move(dx=0., dy=0., dz=.5)
        elif op == 'mirror':
            m = mesh.mirror_xy()
        elif op == 'add':
            m = mesh + type(mesh)() if rng.random() < .5 else type(mesh)() + mesh
        elif op == 'extract':
            g = sorted(mesh.get_electrodes())
            m = mesh.extract_physical_group(g[rng.integers(len(g))])
        elif op == 'higher':
            if mesh.is_3d():
                continue
            m = mesh._to_higher_order_mesh() if not mesh.is_higher_order() else mesh.move(dz=1.)
        else:
            m = pickle.loads(pickle.dumps(mesh))
        for what in ('flip', 'orient', 'scribble', 'remove'):
            if what == 'flip':
                m.flip_normals()
            elif what == 'orient':
                for e in sorted(m.get_electrodes()):
                    m.ensure_inward_normals(e)
            elif what == 'scribble':
                for a in list(m.physical_to_lines.values()) + list(m.physical_to_triangles.values()):
                    if len(a):
                        a[...] = a[::-1].copy()
                m.points += 1
                m.physical_to_lines.clear()
                m.physical_to_triangles.clear()
            else:
                m.remove_lines()
                m.remove_triangles()
            unchanged(f'the mesh from {op} ({what})')
    for n, g in (('f*2', f*2), ('-f', -f), ('f+f', f + f), ('f*1', 1*f), ('f-f', f - f)):
        for c in (g.electrostatic_point_charges, g.magnetostatic_point_charges, g.current_point_charges):
            scribble(rng, c.charges, c.jacobians, c.positions)
        g.set_bounds([[-1e-3, 1e-3]]*3)
        unchanged('the field ' + n)
    p = s.points[0]
    for n in ('electrostatic_field_at_point', 'magnetostatic_field_at_point'):
        r = getattr(f, n)(p)
        keep = r.copy()
        r[...] = 7.
        ctx.check('alias-out', np.array_equal(getattr(f, n)(p), keep), f'modifying the result of {n} changes the next one')
    far = type(f)()
    tr = far.get_tracer([[-5, 5]]*3)
    t1, x1 = tr([.1, .2, .3], [1., 2., 3.])
    keep = x1.copy()
    x1[...] = 0.
    t1[...] = 0.
    ctx.check('alias-out', np.array_equal(tr([.1, .2, .3], [1., 2., 3.])[1], keep), 'modifying a trajectory changes the next one')
    from traceon.geometry import Path
    q = Path.line([0., 0., 0.], [1., 0., 1.])
    for g in (q, q.move(dx=1.), Path.circle_xz(0., 0., 1.), q >> Path.line([1., 0., 1.], [2., 0., 0.])):
        fp = finger(g)
        for a in (g.starting_point(), g.endpoint(), g.middle_point(), g(.5)):
            a[...] = 9.
        ctx.check('alias-out', finger(g) == fp, 'modifying a point of a path changes the path')
    d = f.get_electrostatic_axial_potential_derivatives(np.linspace(0, 1, 3)) if hasattr(f, 'get_electrostatic_axial_potential_derivatives') else np.zeros(2)
    d[...] = 3.
    unchanged('axial derivatives')
    ctx.nontrivial('aliasout', case['mode'], p)


# ------------------------------------------------------------------ types and layouts
def layouts(x):
    """The same numbers, written differently; (name, value, must be accepted)."""
    x = np.asarray(x, float)
    big = np.full(tuple(2*n for n in x.shape), 77.)
    big[tuple(slice(0, 2*n, 2) for n in x.shape)] = x
    out = [('strided', big[tuple(slice(0, 2*n, 2) for n in x.shape)], True), ('fortran', np.array(x, order='F'), True), ('reversed', x[::-1].copy()[::-1], True)]
    ro = x.copy()
    ro.flags.writeable = False
    out += [('read only', ro, True), ('swapped bytes', x.astype(x.dtype.newbyteorder()), False), ('list', x.tolist(), False),
            ('tuple', tuple(map(tuple, x.tolist())) if x.ndim > 1 else tuple(x.tolist()), False), ('long double', x.astype(np.longdouble), False)]
    if x.ndim == 1:
        out.append(('column', np.stack([x, x + 1, x - 1], axis=1)[:, 0], True))
        out.append(('numpy scalars', [np.float64(v) for v in x], False))
    else:
        out.append(('transposed', np.ascontiguousarray(x.T).T, True))
    buf = bytearray(x.nbytes + 3)
    un = np.frombuffer(buf, dtype=np.uint8)[3:3 + x.nbytes].view(np.float64) if x.nbytes else x
    un = np.frombuffer(buf, dtype=np.float64, count=x.size, offset=3).reshape(x.shape)
    un[...] = x
    out.append(('unaligned', un, True))
    if np.all(x == np.round(x)):
        i = x.astype(int)
        out += [('int', i, False), ('int32', i.astype(np.int32), False), ('int list', i.tolist(), False), ('float32', x.astype(np.float32), False)]
    return out


def try_layouts(ctx, monitor, name, f, x, must=()):
    """f must give the same for every way to write x, or reject it."""
    x = np.asarray(x, float)
    want = [np.array(a, float) for a in observe(f(x.copy()), [])]
    for lay, v, required in layouts(x):
        if lay == 'float32' and name == 'trace velocity':
            continue        # rounding of the velocity changes the steps
        before = finger(v)
        try:
            got = [np.array(a, float) for a in observe(f(v), [])]
        except Exception as e:
            ctx.check(monitor, not (required or lay in must), lambda: f'{name} rejects an array that is {lay}: {type(e).__name__} {str(e)[:200]}')
            ctx.event('rejected ' + lay)
            continue
        d = same(want, got, 1e-6 if lay == 'float32' else 1e-12)
        ctx.check(monitor, d is None, lambda: f'{name} gives another result for {lay}: {d}')
        ctx.check('untouched-argument', finger(v) == before, lambda: f'{name} modified its argument ({lay})')
        ctx.event('accepted ' + lay)


FREE = ('list', 'tuple', 'int', 'int32', 'int list', 'numpy scalars')


def run_layout(ctx, case, rng):
    import traceon.tracing as T
    from mon.fields import random_3d, random_magnetic, random_radial
    from traceon.interpolation import FieldRadialAxial
    k = case['mode'] % 6
    if k == 0:
        s = random_radial(ctx, rng, n_el=1, n_per=12, scale=1.)
    elif k == 1:
        s = random_3d(ctx, rng, n_el=1, mesh_size=1., scale=1., magnetic=bool(case['mode'] % 4 == 1))
    else:
        s = random_magnetic(ctx, rng, 1, iron=k % 2 == 0, scale=1.)
    f = s.field
    if k in (4, 5):
        f = f + random_radial(ctx, rng, n_el=1, n_per=12, scale=1.).field
    if k == 3 or k == 5:
        f = FieldRadialAxial(f, -2., 14., 40)
    P = [s.points[int(rng.integers(len(s.points)))], np.round(3*rng.normal(size=3)) + [5, 0, 1], np.array([0., 0., 7.])]
    names = ['electrostatic_field_at_point', 'electrostatic_potential_at_point', 'magnetostatic_field_at_point', 'magnetostatic_potential_at_point']
    if hasattr(f, 'current_field_at_point'):
        names.append('current_field_at_point')
    if f.is_electrostatic() != f.is_magnetostatic():
        names += ['field_at_point', 'potential_at_point']
    for p in P:
        for n in names:
            try_layouts(ctx, 'layout', f'{type(f).__name__}.{n}', getattr(f, n), p, FREE)
    if hasattr(f, 'get_electrostatic_axial_potential_derivatives'):
        for z in (rng.uniform(-3, 9, size=5), np.array([1., 4., 7.])):
            for n in ('get_electrostatic_axial_potential_derivatives', 'get_magnetostatic_axial_potential_derivatives', 'get_current_axial_potential_derivatives'):
                try_layouts(ctx, 'layout', n, getattr(f, n), z)
    b = np.array([[-6., 6.], [-7., 7.], [6., 12.]])
    x, v = np.array([0., 1., 9.]), np.array([3., -4., 120.])
    out = [g for g in (T.velocity_vec(50., [0., 0., 1.]),)]
    try_layouts(ctx, 'layout', 'trace position', lambda q: f.get_tracer(b)(q, v), x, FREE)
    try_layouts(ctx, 'layout', 'trace velocity', lambda q: f.get_tracer(b)(x, q), v)
    try_layouts(ctx, 'layout', 'trace bounds', lambda q: f.get_tracer(q)(x, v), b, FREE)
    if hasattr(f, 'set_bounds'):
        def bounded(q):
            g = f*1
            g.set_bounds(q)
            return [getattr(g, n)(p) for p in P for n in names] + list(g.get_tracer(b)(x, v))
        try_layouts(ctx, 'layout', 'set_bounds', bounded, np.array([[-2., 6.], [-3., 3.], [-20., 20.]]), FREE)
    del out
    ctx.nontrivial('layout', case['mode'], P[0])


def run_tables(ctx, case, rng):
    import traceon.excitation as E
    import traceon.focus as F
    import traceon.solver as S
    import traceon.tracing as T
    from traceon.geometry import Path, Surface
    from traceon.mesher import Mesh
    L = lambda name, f, x, must=(): try_layouts(ctx, 'table-layout', name, f, x, must)     # noqa: E731
    # trajectories
    n = int(rng.integers(3, 40))
    X = np.zeros((n, 6))
    X[:, 2] = np.linspace(5, -5, n)
    X[:, :2] = rng.normal(size=2) + np.outer(X[:, 2], rng.normal(size=2))
    X[:, 3:] = [.1, .2, -1.]
    L('xy_plane_intersection', lambda q: T.xy_plane_intersection(q, .3), X)
    L('plane_intersection', lambda q: T.plane_intersection(q, np.array([0., 0., .2]), np.array([.1, 0., 1.])), X)
    L('plane_intersection point', lambda q: T.plane_intersection(X, q, np.array([0., 0., 1.])), np.array([0., 0., 1.]), ('int', 'int32'))
    L('plane_intersection normal', lambda q: T.plane_intersection(X, np.array([0., 0., 1.]), q), np.array([0., 0., 1.]), ('int', 'int32'))
    Y = X + [.1, 0, 0, .01, 0, 0]
    L('focus_position', lambda q: F.focus_position([q, Y]), X)
    L('focus_position tuple', lambda q: F.focus_position((Y, q)), X)
    for d in (rng.normal(size=3), np.array([1., -2., 3.])):
        L('velocity_vec', lambda q: T.velocity_vec(120., q), d, FREE)
    # geometry
    a, c = np.array([1., 0., 2.]), np.array([3., 0., -1.])
    L('Path.line', lambda q: Path.line(q, c), a, FREE)
    L('Path.line end', lambda q: Path.line(a, q), c, FREE)
    L('line_to', lambda q: Path.line([0., 0., 0.], a).line_to(q), c, FREE)
    L('Path.arc', lambda q: Path.arc(q, [2., 0., 2.], [1., 0., 3.]), a, FREE)
    L('Path.arc start', lambda q: Path.arc(a, q, [1., 0., 3.]), np.array([2., 0., 2.]), FREE)
    L('extrude', lambda q: Path.line([0., 1., 0.], a).extrude(q), c, FREE)
    L('extrude_boundary', lambda q: Surface.rectangle_xz(0., 1., 0., 1.).extrude_boundary(q), np.array([0., 2., 1.]), ('list', 'tuple'))
    L('rotate', lambda q: Path.line([0., 1., 0.], a).rotate(Rz=1., origin=q), c, FREE)
    L('box', lambda q: Surface.box(q, [9., 9., 9.]).mesh(mesh_size=5.), a, FREE)
    L('spline', lambda q: Path.spline_through_points(q), np.array([[0., 0., 0.], [1., 0., 2.], [3., 0., 2.], [4., 0., 5.]]), FREE)
    # meshes
    P = np.array([[0., 0., 0.], [1., 0., 0.], [1., 0., 1.], [0., 0., 1.], [2., 0., 3.]])
    I = np.array([[0., 1.], [1., 2.], [2., 3.]])     # noqa: E741
    T3 = np.array([[0., 1., 2.], [0., 2., 3.], [2., 3., 4.]])
    L('Mesh points', lambda q: Mesh(q, I.astype(int), T3.astype(int), {'l': np.arange(3)}, {'t': np.arange(3)}), P, FREE)
    L('Mesh lines', lambda q: Mesh(P, q, T3.astype(int), {'l': np.arange(3)}), I, ('int', 'int32', 'int list'))
    L('Mesh triangles', lambda q: Mesh(P, [], q, {}, {'t': np.arange(3)}), T3, ('int', 'int32', 'int list'))
    for dt in (np.int32, np.uint64, np.int8):
        g = np.array([0, 2], dtype=dt)
        m1, m2 = Mesh(P, I.astype(int), T3.astype(int), {'l': g}, {'t': g}), Mesh(P, I.astype(int), T3.astype(int), {'l': np.array([0, 2])}, {'t': np.array([0, 2])})
        d = same(observe(m1, []), observe(m2, []))
        ctx.check('table-layout', d is None, lambda: f'groups of type {dt}: {d}')
        d = same(observe(m1 + m1.move(dy=3.), []), observe(m2 + m2.move(dy=3.), []))
        ctx.check('table-layout', d is None, lambda: f'sum of meshes with groups of type {dt}: {d}')
    # values of excitations
    mesh = Path.circle_xz(1., 0., .5).mesh(mesh_size=.3, name='a') + Surface.rectangle_xz(2., 3., 0., 1.).mesh(mesh_size=.5, name='c')
    p = np.array([.2, .1, 4.])
    want = {}
    for what in ('voltage', 'dielectric', 'current', 'magnetizable', 'pot'):
        for val in (3., 3, np.float64(3), np.int64(3), np.float32(3), np.array(3.)):
            e = E.Excitation(mesh, E.Symmetry.RADIAL)
            if what == 'current':
                e.add_current(c=val)
            elif what == 'voltage':
                try:
                    e.add_voltage(a=val)
                except NotImplementedError:
                    ctx.event('rejected voltage ' + type(val).__name__)
                    ctx.check('excitation-type', not isinstance(val, (int, float)), f'{val!r} is rejected as voltage')
                    continue
            elif what == 'pot':
                e.add_magnetostatic_potential(a=val)
            elif what == 'dielectric':
                continue
            else:
                e.add_current(c=1.)
                e.add_magnetizable(a=val)
            f = S.solve_direct(e)
            got = np.append(f.field_at_point(p), f.magnetostatic_field_at_point(p))
            w = want.setdefault(what, got)
            ctx.close('excitation-type', got, w, 1e-9*np.abs(w).max(), f'{what} given as {type(val).__name__}')
    ctx.nontrivial('tables', case['mode'], X)


# ------------------------------------------------------------------ other processes
SCRIPT = '''
import json, os, sys
import numpy as np
import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.tracing as T
from traceon.interpolation import FieldRadialAxial
seed = int(sys.argv[1])
rng = np.random.default_rng(seed)
names = ['n%d' % i for i in rng.permutation(9)[:3]]
out = []
m = None
for i, n in enumerate(names):
    p = G.Path.rectangle_xz(.5, 1. + .3*i, 2.*i, 2.*i + rng.uniform(.5, 1.))
    p.name = n
    q = p.mesh(mesh_size=.2)
    m = q if m is None else m + q
e = E.Excitation(m, E.Symmetry.RADIAL)
e.add_voltage(**{n: float(rng.normal()) for n in names[:2]})
e.add_dielectric(**{names[2]: 4.})
f = S.solve_direct(e)
out += [m.points.sum(), float(m.points.shape[0]), *f.electrostatic_field_at_point([.1, .2, 1.5]), f.electrostatic_potential_at_point([0., 0., 9.])]
out += [f.charge_on_elements(e.get_electrostatic_active_elements()[1][n]) for n in names]
ax = FieldRadialAxial(f, -1., 6., 40)
out += [*ax.electrostatic_field_at_point([.05, 0., 2.])]
t, x = f.get_tracer([[-2., 2.], [-2., 2.], [-5., 12.]])(np.array([.05, .02, 10.]), T.velocity_vec(500., [0., 0., -1.]))
out += [float(len(t)), *x[-1][:3]]
sup = S.solve_direct_superposition(e)
out += [sup[n].electrostatic_potential_at_point([.1, .1, 3.]) for n in names[:2]]
a, b = G.Surface.sphere(1.), G.Surface.box([2., -1., -1.], [3., 1., 1.])
a.name, b.name = names[:2]
m3 = a.mesh(mesh_size=.8) + b.mesh(mesh_size=.9)
e3 = E.Excitation(m3, E.Symmetry.THREE_D)
e3.add_voltage(**{names[0]: 1., names[1]: -2.})
f3 = S.solve_direct(e3)
out += [float(len(m3.points)), float(len(m3.triangles)), *f3.electrostatic_field_at_point([0., 3., 1.]), f3.charge_on_elements(e3.get_electrostatic_active_elements()[1][names[0]])]
print(json.dumps([float(v) for v in out]))
'''


HISTORY = """
import json, sys
import numpy as np
import traceon.geometry as G, traceon.excitation as E, traceon.solver as S, traceon.tracing as T, traceon.focus as F
from traceon.interpolation import FieldRadialAxial
rng = np.random.default_rng(int(sys.argv[1]))
h = rng.uniform(.5, 1., size=3)
def radial_mesh():
    m = None
    for i, n in enumerate('abc'):
        p = G.Path.rectangle_xz(.5, 1. + .3*i, 2.*i, 2.*i + h[i])
        p.name = n
        q = p.mesh(mesh_size=.25)
        m = q if m is None else m + q
    c = G.Surface.rectangle_xz(2.5, 3., -1., 1.)
    c.name = 'coil'
    return m + c.mesh(mesh_size=.5)
def solid_mesh():
    a, b = G.Surface.sphere(1.), G.Surface.box([2., -1., -1.], [3., 1., 1.])
    a.name, b.name = 'a', 'b'
    return a.mesh(mesh_size=.9) + b.mesh(mesh_size=1.1)
meshes = dict(radial=radial_mesh(), solid=solid_mesh())
def made(kind, fresh, **ex):
    m = (radial_mesh if kind == 'radial' else solid_mesh)() if fresh else meshes[kind]
    e = E.Excitation(m, E.Symmetry.RADIAL if kind == 'radial' else E.Symmetry.THREE_D)
    for k, v in ex.items():
        getattr(e, 'add_' + k)(*v) if isinstance(v, list) else getattr(e, 'add_' + k)(**v)
    return e
def read(f, kind):
    out = []
    for p in ([[.1, .2, 1.5], [.2, 0., 7.], [1.7, 0., 3.]] if kind == 'radial' else [[0., 3., 1.], [1.5, .1, .2], [-2., 0., .4]]):
        out += [*f.electrostatic_field_at_point(p), f.electrostatic_potential_at_point(p), *f.magnetostatic_field_at_point(p), f.magnetostatic_potential_at_point(p)]
    return out
def tracing(e, kind, box, fb=None):
    f = S.solve_direct(e)
    if fb is not None:
        f.set_bounds(fb)
    t, x = f.get_tracer(box)(np.array([.05, .02, 10.]) if kind == 'radial' else np.array([.3, .2, 4.]), T.velocity_vec(500., [0., 0., -1.]))
    return [float(len(t)), *x[-1], *x[len(x)//2]]
big, small = [[-9., 9.]]*3, [[-1., 1.], [-1., 1.], [3., 12.]]
jobs = {}
for kind, fresh in (('radial', False), ('radial', True), ('solid', False), ('solid', True)):
    names = 'abc' if kind == 'radial' else 'ab'
    last = names[-1]
    for label, ex in (('v1', dict(voltage=dict(zip(names, (1., -2., 3.))))), ('v2', dict(voltage=dict(zip(names, (-4., 2., 1.))))),
                      ('k3', dict(voltage=dict(a=5.), dielectric={last: 3.})), ('k7', dict(voltage=dict(a=5.), dielectric={last: 7.})),
                      ('ks', dict(voltage={last: 5.}, dielectric=dict(a=3.))), ('wall', dict(voltage=dict(a=5.), electrostatic_boundary=[last])),
                      ('fun', dict(voltage=dict(a=lambda x, y, z: z, **{last: -1.}))),
                      ('mag', dict(magnetostatic_potential=dict(a=2.), magnetizable={last: 4.})), ('mag9', dict(magnetostatic_potential=dict(a=2.), magnetizable={last: 9.}))):
        # a boundary turns the normals of its mesh: never on the mesh that is used again
        jobs[kind, fresh, label] = lambda kind=kind, fresh=fresh or label == 'wall', ex=ex: read(S.solve_direct(made(kind, fresh, **ex)), kind)
    if kind == 'radial':
        for label, i in (('i1', 1.), ('i2', -3.)):
            jobs[kind, fresh, label] = lambda kind=kind, fresh=fresh, i=i: read(S.solve_direct(made(kind, fresh, current=dict(coil=i), magnetizable=dict(b=5.))), kind)
        jobs[kind, fresh, 'i0'] = lambda kind=kind, fresh=fresh: read(S.solve_direct(made(kind, fresh, current=dict(coil=2.))), kind)
        for label, z0, z1, n in (('x1', -1., 6., 40), ('x2', -2., 6., 40), ('x3', -1., 6., 60)):
            def axial(kind=kind, fresh=fresh, z0=z0, z1=z1, n=n):
                ax = FieldRadialAxial(S.solve_direct(made(kind, fresh, voltage=dict(a=1., b=-2., c=.5))), z0, z1, n)
                return [*ax.electrostatic_field_at_point([.05, .01, 2.]), ax.electrostatic_potential_at_point([.1, .0, 5.]), *ax.electrostatic_field_at_point([.0, .1, -1.5])]
            jobs[kind, fresh, label] = axial
    for label, box, fb in (('t1', big, None), ('t2', small, None), ('t3', big, [[-.5, .5], [-.5, .5], [3., 5.]]), ('t4', big, [[-.5, .5], [-.5, .5], [1., 3.5]])):
        jobs[kind, fresh, label] = lambda kind=kind, fresh=fresh, box=box, fb=fb: tracing(made(kind, fresh, voltage=dict(a=50., b=-20.)), kind, box, fb)
order = list(jobs)
if sys.argv[2] == 'reverse':
    order = order[::-1]
elif sys.argv[2] != 'forward':
    order = [order[i] for i in np.random.default_rng(int(sys.argv[2])).permutation(len(order))]
out = {}
for o in order:
    out['/'.join(map(str, o))] = [float(v) for v in jobs[o]()]
print(json.dumps(out))
"""


def run_history(ctx, case, rng):
    """The same set of computations in several orders, each order in a process of its own: a result does not depend on what was computed before."""
    seed = int(rng.integers(1 << 30))
    runs = {}
    env = dict(os.environ, TRACEON_LOG_LEVEL='silent')
    orders = ('forward', 'reverse', str(int(rng.integers(1, 1 << 30))))
    for o in orders:
        r = subprocess.run([sys.executable, '-c', HISTORY, str(seed), o], capture_output=True, text=True, env=env, cwd=ctx.scratch)
        ctx.require('process-ends', r.returncode == 0, lambda: f'a program that runs in another order fails in order {o}: {r.stderr[-600:]}')
        runs[o] = json.loads(r.stdout.splitlines()[-1])
    for label, want in runs['forward'].items():
        want = np.array(want)
        for o in orders[1:]:
            got = np.array(runs[o][label])
            if ctx.check('history', got.shape == want.shape, f'{label}: another shape after another history'):
                ctx.close('history', got, want, 1e-8*np.abs(want) + 1e-10*np.abs(want).max() + 1e-300, f'{label} computed after other computations ({o})')
    # a mesh that is used again and an equal mesh made anew give the same
    for label, want in runs[orders[2]].items():
        kind, fresh, what = label.split('/')
        if fresh == 'False':
            want, got = np.array(want), np.array(runs[orders[2]][f'{kind}/True/{what}'])
            if ctx.check('history', got.shape == want.shape, f'{label}: another shape on an equal mesh'):
                ctx.close('history', got, want, 1e-8*np.abs(want) + 1e-10*np.abs(want).max() + 1e-300, f'{what} of an equal mesh')
    # and the computations that differ give different results
    r = runs['forward']
    for kind in ('radial', 'solid'):
        for a, b in (('v1', 'v2'), ('k3', 'k7'), ('k3', 'wall'), ('mag', 'mag9'), ('t1', 't2')):
            ctx.check('history', not np.allclose(r[f'{kind}/True/{a}'], r[f'{kind}/True/{b}'], rtol=1e-6, atol=0), f'{kind}: {a} and {b} give the same')
    ctx.nontrivial('history', seed)


def run_process(ctx, case, rng):
    """The same program in processes that differ in hash seed and number of threads."""
    seed = int(rng.integers(1 << 30))
    want = None
    for h, th in (('0', '4'), (str(int(rng.integers(1, 4000000000))), '1'), (str(int(rng.integers(1, 4000000000))), '7')):
        env = dict(os.environ, PYTHONHASHSEED=h, TRACEON_THREADS=th, TRACEON_LOG_LEVEL='silent')
        r = subprocess.run([sys.executable, '-c', SCRIPT, str(seed)], capture_output=True, text=True, env=env, cwd=ctx.scratch)
        ctx.require('process-ends', r.returncode == 0, lambda: f'a program that runs here fails in another process (hash seed {h}, {th} threads): {r.stderr[-600:]}')
        got = np.array(json.loads(r.stdout.splitlines()[-1]))
        if want is None:
            want = got
        else:
            ctx.close('process', got, want, 1e-8*np.abs(want) + 1e-10, f'the same program with hash seed {h} and {th} threads')
    ctx.nontrivial('process', seed)
