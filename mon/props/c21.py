"""C21: velocity helpers are compared with the direction and energy asked for (also as the tracer uses them); random sequences of excitation calls, valid and invalid,
are run next to a model of the excitation and what is reported, active and solved is compared after every call."""
import io
import contextlib
import math

import numpy as np

RULE = ('energies 1e-9 to 1e9 eV and directions of length 1e-100 to 1e100 given as arrays, lists and integers; random meshes with overlapping, unnamed, line-only and triangle-only '
        'groups and random sequences of 3 to 14 excitation calls of all kinds; solutions compared with excitations built from the final assignment only; distinct sequences are counted')
ASSUMPTIONS = ['a value of an unsupported kind is rejected when it is added or, at the latest, when the excitation is solved',
               'which of two excitations an element in two groups obeys is not specified', 'a direction of length zero is not a direction']
REQUIRED = {'velocity': 20000, 'velocity-rejected': 500, 'launch': 60, 'assignment': 900, 'kind': 900, 'active': 900, 'rejected': 700, 'last-wins': 40, 'inactive': 40, 'function': 1500, 'boundary': 60,
            'superposition-rejected': 60, 'solve-rejected': 150}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('velocity', 16), ('launch', 6), ('session', 160), ('lastwins', 48), ('inactive', 40), ('function', 40), ('boundary', 48), ('reject', 36)):
        for i in range(n if q else 10*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


# ------------------------------------------------------------------ velocities
def as_given(rng, d):
    """A direction in one of the forms a user may have it in, and the direction it then is."""
    k = int(rng.integers(8))
    if k == 0:
        return list(d), d
    if k == 1:
        return tuple(float(x) for x in d), d
    if k == 2:
        v = rng.integers(-5, 6, size=3)
        v[rng.integers(3)] = rng.integers(1, 6)
        return v.tolist(), v.astype(float)
    if k == 3:
        v = rng.integers(-100, 100, size=3).astype([np.int8, np.int16, np.int64][rng.integers(3)])
        v[rng.integers(3)] = 7
        return v, v.astype(float)
    if k == 4:
        w = np.zeros((3, 2))
        w[:, 1] = d
        return w[:, 1], d
    if k == 5:
        w = d[::-1].copy()
        return w[::-1], d
    return d.copy(), d


def run_velocity(ctx, case, rng):
    import traceon.logging as L
    L.set_log_level(L.LogLevel.WARNING)
    try:
        launch_velocities(ctx, rng)
    finally:
        L.set_log_level(L.LogLevel.SILENT)


def launch_velocities(ctx, rng):
    import traceon.tracing as T
    for _ in range(300):
        eV = float(10**rng.uniform(-9, 9))
        given = [eV, np.float64(eV), max(1, int(eV)), np.int64(max(1, int(eV)))][rng.integers(4)]
        e = float(given)
        d = rng.normal(size=3)
        k = rng.integers(6)
        if k == 0:
            d[rng.integers(3)] = 0.
        elif k == 1:
            d = np.zeros(3)
            d[rng.integers(3)] = rng.choice([-1., 1.])
        d = d*float(10**rng.choice([0., rng.uniform(-3, 3), rng.uniform(-100, 100)]))
        arg, d = as_given(rng, d)
        before = np.array(arg, dtype=float)
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            v = T.velocity_vec(given, arg)
        m = np.abs(d).max()
        u = d/m
        u = u/np.linalg.norm(u)
        msg = f'velocity_vec({given!r}, {arg!r})'
        ctx.check('velocity-shape', isinstance(v, np.ndarray) and v.shape == (3,) and v.dtype == np.float64, lambda: f'{msg} is {v!r}')
        ctx.close('velocity', v, e*u, 1e-14*e, msg)
        ctx.check('unchanged', np.array_equal(before, np.array(arg, dtype=float)), f'{msg} changed its argument')
        ctx.check('warning', not 39e3 < e < 41e3 and bool(said.getvalue().strip()) == (e > 40000) or 39e3 <= e <= 41e3, lambda: f'{msg} said {said.getvalue()!r}')
        th, ph = float(rng.choice([rng.uniform(0, np.pi), rng.uniform(-10, 10), 0., np.pi/2, np.pi])), float(rng.choice([rng.uniform(0, 2*np.pi), rng.uniform(-20, 20), 0., np.pi]))
        with contextlib.redirect_stdout(said):
            s = T.velocity_vec_spherical(given, th, ph)
            down, up, dflt = T.velocity_vec_xz_plane(given, th, True), T.velocity_vec_xz_plane(given, th, downward=False), T.velocity_vec_xz_plane(given, th)
        ctx.close('velocity', s, [e*math.sin(th)*math.cos(ph), e*math.sin(th)*math.sin(ph), e*math.cos(th)], 1e-14*e, f'velocity_vec_spherical({given!r}, {th}, {ph})')
        ctx.close('velocity', up, [e*math.sin(th), 0., e*math.cos(th)], 1e-14*e, f'velocity_vec_xz_plane({given!r}, {th}, False)')
        ctx.close('velocity', down, [e*math.sin(th), 0., -e*math.cos(th)], 1e-14*e, f'velocity_vec_xz_plane({given!r}, {th}, True)')
        ctx.check('velocity', np.array_equal(dflt, down), 'downward is the default')
        ctx.check('velocity', up[1] == 0. and down[1] == 0., 'in the xz plane')
        ctx.nontrivial('velocity', e, d, th, ph)
    for _ in range(10):
        d = rng.normal(size=3)
        for bad in (0., 0, -1., -float(10**rng.uniform(-9, 9)), float('nan')):
            ctx.raises('velocity-rejected', lambda: T.velocity_vec(bad, d), f'velocity_vec with energy {bad}')
            ctx.raises('velocity-rejected', lambda: T.velocity_vec_spherical(bad, .1, .2), f'velocity_vec_spherical with energy {bad}')
            ctx.raises('velocity-rejected', lambda: T.velocity_vec_xz_plane(bad, .1), f'velocity_vec_xz_plane with energy {bad}')
        for bad in (d[:2], np.append(d, 1.), d[None, :], 1., [d, d], [], 'abc'):
            ctx.raises('velocity-rejected', lambda: T.velocity_vec(10., bad), f'velocity_vec with direction {bad!r}')
    ctx.event('velocity', 300)


def run_launch(ctx, case, rng):
    """The energy asked for is the kinetic energy the particle starts with, whatever the tracer."""
    import traceon.solver as S
    import traceon.tracing as T
    from traceon.interpolation import FieldRadialAxial
    from mon.fields import random_3d, random_radial
    from scipy.constants import e, m_e
    three = case['mode'] % 3 == 0
    s = random_3d(ctx, rng, n_el=1, mesh_size=1.) if three else random_radial(ctx, rng, n_el=1, n_per=12)
    ex = 10*s.size
    b = [(-ex, ex)]*3
    fields = [s.field] + ([] if three else [FieldRadialAxial(s.field, -ex, ex, 50)])
    for f in [1e-6*f for f in fields]:      # too weak to catch the particle
        tr = f.get_tracer(b)
        for _ in range(6):
            eV = float(10**rng.uniform(0, 4))
            kind = rng.integers(3)
            if kind == 0:
                d = rng.normal(size=3)
                v, u = T.velocity_vec(eV, d), d/np.linalg.norm(d)
            elif kind == 1:
                a = float(rng.uniform(-np.pi, np.pi))
                v, u = T.velocity_vec_xz_plane(eV, a), np.array([math.sin(a), 0, -math.cos(a)])
            else:
                a, c = float(rng.uniform(0, np.pi)), float(rng.uniform(0, 6))
                v, u = T.velocity_vec_spherical(eV, a, c), np.array([math.sin(a)*math.cos(c), math.sin(a)*math.sin(c), math.cos(a)])
            pos = .9*ex*np.array([.5, .5, .9])
            t, P = tr(pos, v)
            speed = math.sqrt(2*eV*e/m_e)
            ctx.close('launch', P[0, 3:], speed*u, 1e-9*speed, f'initial velocity for {eV} eV')
            ctx.check('launch', t[0] == 0. and np.array_equal(P[0, :3], pos), 'starts where and when asked')
            ctx.nontrivial('launch', eV, u)
            ctx.event('launch')


# ------------------------------------------------------------------ excitations
def random_mesh(rng, three=None):
    """A mesh with named, overlapping, unnamed, line-only and triangle-only groups."""
    from traceon.mesher import Mesh
    three = bool(rng.integers(2)) if three is None else three
    n = int(rng.integers(6, 30))
    ho = not three and rng.random() < .5
    if three:
        pts = rng.normal(size=(3*n, 3))
        tri = np.arange(3*n).reshape(n, 3)
        nl = int(rng.integers(0, 6))
        lines = np.array([[i, i + 1] for i in range(nl)]) if nl else np.empty((0, 2), dtype=int)
    else:
        pts = np.zeros((4*n, 3))
        lines = []
        for i in range(n):
            a, d = np.array([rng.uniform(1, 3), rng.normal()]), .2*rng.normal(size=2)
            for j, t in enumerate((0, 1, 1/3, 2/3)):
                pts[4*i + j, [0, 2]] = a + t*d
            lines.append([4*i, 4*i + 1] + ([4*i + 2, 4*i + 3] if ho else []))
        lines = np.array(lines)
        nt = int(rng.integers(0, min(8, n)))
        tri = np.array([[4*i, 4*i + 1, 4*(i + 1)] for i in range(nt)]) if nt else np.empty((0, 3), dtype=int)
    def groups(N, prefix):
        g = {}
        if not N:
            return g
        for i in range(int(rng.integers(1, 5))):
            size = int(rng.integers(1, max(2, N//2)))
            idx = rng.choice(N, size, replace=False)
            if rng.random() < .6:
                idx = np.sort(idx)
            if rng.random() < .6:       # disjoint from the others more often than not
                used = set(int(x) for v in g.values() for x in v)
                idx = np.array([x for x in idx if int(x) not in used], dtype=int)
            if not len(idx):
                continue
            g[f'{prefix}{i}'] = idx
        return g
    gl, gt = groups(len(lines), 'l'), groups(len(tri), 't')
    if gl and gt and rng.random() < .4:
        gt['both'] = rng.choice(len(tri), 1)
        gl['both'] = rng.choice(len(lines), 1)
    m = Mesh(points=pts, lines=lines, triangles=tri, physical_to_lines=gl, physical_to_triangles=gt, ensure_outward_normals=False)
    return m, three


KINDS = ('add_voltage', 'add_voltage-fun', 'add_current', 'add_magnetostatic_potential', 'add_magnetizable', 'add_dielectric', 'add_electrostatic_boundary', 'add_magnetostatic_boundary')


def number(rng):
    return [float(rng.normal()*10**rng.uniform(-3, 4)), int(rng.integers(-500, 500)), 0., 0, True, np.float64(rng.normal())][rng.integers(6)]


def observe(ctx, exc, model, mesh, three, msg):
    import traceon.excitation as Ex
    T = Ex.ExcitationType
    got = {n: (t, v) for n, (t, v) in exc.excitation_types.items()}
    ctx.check('assignment', set(got) == set(model) and all(got[n][0] == t and (got[n][1] is v or got[n][1] == v) for n, (t, v) in model.items()),
              lambda: f'{msg}: excitation is {got}, assigned was {model}')
    kinds = {t for t, _ in model.values()}
    want = (bool(kinds & {T.VOLTAGE_FIXED, T.VOLTAGE_FUN}), bool(kinds & {T.MAGNETOSTATIC_POT, T.CURRENT}), T.CURRENT in kinds)
    have = (exc.is_electrostatic(), exc.is_magnetostatic(), exc.has_current())
    ctx.check('kind', tuple(bool(x) for x in have) == want, lambda: f'{msg}: electrostatic, magnetostatic, current are {have} for {model}')
    text = str(exc)
    ctx.check('text', all(n in text and str(t) in text for n, (t, _) in model.items()), lambda: f'{msg}: {text}')
    el = mesh.triangles if three else mesh.lines
    phys = mesh.physical_to_triangles if three else mesh.physical_to_lines
    for label, mine, get in (('electrostatic', {T.VOLTAGE_FIXED, T.VOLTAGE_FUN, T.DIELECTRIC}, exc.get_electrostatic_active_elements),
                             ('magnetostatic', {T.MAGNETOSTATIC_POT, T.MAGNETIZABLE}, exc.get_magnetostatic_active_elements)):
        names = [n for n, (t, _) in model.items() if t in mine]
        missing = [n for n in names if n not in phys]
        if missing:
            ctx.raises('rejected', get, f'{msg}: {label} excitation of {missing}, which has no elements of the kind that is solved for')
            continue
        V, index = get()
        wanted = sorted({int(i) for n in names for i in phys[n]})
        ok = len(V) == len(wanted) and np.array_equal(V, mesh.points[el[wanted]] if wanted else V)
        ctx.check('active', ok, lambda: f'{msg}: {len(V)} active {label} elements, not the {len(wanted)} of {names}')
        ctx.check('active', set(index) == set(names), lambda: f'{msg}: {label} names are {sorted(index)}, not {sorted(names)}')
        for n in names:
            if n in index:
                ctx.check('active', len(index[n]) == len(phys[n]) and np.array_equal(V[index[n]], mesh.points[el[phys[n]]]), lambda: f'{msg}: {label} elements of {n} are not its own')


def run_session(ctx, case, rng):
    import traceon.excitation as Ex
    T = Ex.ExcitationType
    mesh, three = random_mesh(rng)
    sym = Ex.Symmetry.THREE_D if three else Ex.Symmetry.RADIAL
    exc = Ex.Excitation(mesh, sym)
    all_names = sorted(set(mesh.physical_to_lines) | set(mesh.physical_to_triangles))
    if not all_names:
        return
    model, log = {}, []
    for step in range(int(rng.integers(3, 15))):
        op = str(rng.choice(KINDS))
        names = [str(n) for n in rng.choice(all_names, int(rng.integers(1, min(3, len(all_names)) + 1)), replace=False)]
        bad = rng.random() < .25
        if bad:
            names = [['nobody', 'L0', 'l', ' l0', 't99'][rng.integers(5)]]
        vals = {n: number(rng) for n in names}
        fun = (lambda k: (lambda x, y, z: k*x))(float(rng.normal()))
        msg = f'step {step}: {op}({names}) after {log[-6:]}'
        before = dict(exc.excitation_types)
        if op == 'add_current' and (three or any(n not in mesh.physical_to_triangles for n in names)):
            bad = True
            names = names[:1]
            if not three:
                names = [n for n in names if n not in mesh.physical_to_triangles] or ['nobody']
            vals = {n: 1. for n in names}
        lines0, tri0 = mesh.lines.copy(), mesh.triangles.copy()
        if op == 'add_voltage-fun':
            call, new = (lambda: exc.add_voltage(**{n: fun for n in names})), {n: (T.VOLTAGE_FUN, fun) for n in names}
        elif op.endswith('boundary'):
            kind = T.DIELECTRIC if 'electrostatic' in op else T.MAGNETIZABLE
            call, new = (lambda: getattr(exc, op)(*names, ensure_inward_normals=False)), {n: (kind, 0) for n in names}
        else:
            kind = dict(add_voltage=T.VOLTAGE_FIXED, add_current=T.CURRENT, add_magnetostatic_potential=T.MAGNETOSTATIC_POT, add_magnetizable=T.MAGNETIZABLE, add_dielectric=T.DIELECTRIC)[op]
            call, new = (lambda: getattr(exc, op)(**vals)), {n: (kind, v) for n, v in vals.items()}
        if bad:
            ctx.raises('rejected', call, msg + ' was accepted')
            ctx.check('rejected', exc.excitation_types == before, msg + ': a rejected call changed the excitation')
        else:
            call()
            model.update(new)
        ctx.check('mesh-unchanged', np.array_equal(lines0, mesh.lines) and np.array_equal(tri0, mesh.triangles), msg + ' changed the mesh')
        log.append((op, names))
        observe(ctx, exc, model, mesh, three, msg)
        ctx.event('step')
    for v in (None, '5', [1.], 1j, np.array([1., 2.]), {}):
        n = all_names[0]
        before = dict(exc.excitation_types)
        ctx.raises('rejected', lambda: exc.add_voltage(**{n: v}), f'voltage {v!r} was accepted')
        ctx.check('rejected', exc.excitation_types == before, 'a rejected voltage changed the excitation')
    ctx.nontrivial('session', str(log), mesh.points)
    for t in T:
        e, m = t in (T.VOLTAGE_FIXED, T.VOLTAGE_FUN, T.DIELECTRIC), t in (T.CURRENT, T.MAGNETOSTATIC_POT, T.MAGNETIZABLE)
        ctx.check('kind', t.is_electrostatic() == e and t.is_magnetostatic() == m and e != m, f'{t!r}')
    ctx.check('kind', sym.is_3d() == three and sym.is_2d() != three and str(sym) == ('3d' if three else 'radial'), f'{sym!r}')


# ------------------------------------------------------------------ what is solved
def named_shapes(rng, three, n=3):
    """Separate closed electrodes e0.. and, in radial symmetry, a coil."""
    from mon.lib import cluster_3d, mesh_3d, mesh_radial, radial_stack
    if three:
        els = cluster_3d(rng, n, kinds=('sphere', 'box'))
        return mesh_3d(els, mesh_size=1.3), [e.name for e in els]
    from traceon.geometry import Surface
    els = radial_stack(rng, n, kinds=('sphere', 'rod', 'ring', 'box'))
    mesh = mesh_radial(els, 10, bool(rng.integers(2)))
    far = 6*np.abs(mesh.points).max()
    coil = Surface.rectangle_xz(far, 1.2*far, -.1*far, .1*far)
    coil.name = 'coil'
    return mesh + coil.mesh(mesh_size=.15*far), [e.name for e in els]


def charges(field):
    return [np.asarray(q.charges, float) if q is not None and len(q) else np.zeros(0) for q in
            (field.electrostatic_point_charges, field.magnetostatic_point_charges, getattr(field, 'current_point_charges', None))]


def assign(exc, name, kind, value):
    getattr(exc, kind)(**{name: value})


def run_lastwins(ctx, case, rng):
    import traceon.excitation as Ex
    import traceon.solver as S
    three = case['mode'] % 3 == 0
    sym = Ex.Symmetry.THREE_D if three else Ex.Symmetry.RADIAL
    mesh, names = named_shapes(rng, three, 2 if three else 3)
    kinds = ['add_voltage', 'add_magnetostatic_potential', 'add_magnetizable', 'add_dielectric']
    def value(kind):
        return float(rng.uniform(1.5, 8)) if kind in ('add_magnetizable', 'add_dielectric') else float(rng.normal()*100)
    seq = [(n, k := str(rng.choice(kinds)), value(k)) for n in rng.choice(names, 7)]
    final = {}
    src = str(rng.choice(['add_voltage', 'add_magnetostatic_potential']))
    final_assign = [(n, k, value(k)) for n, k in zip(names, [src] + [str(rng.choice(kinds)) for _ in names[1:]])]
    if not three and rng.random() < .6:
        seq += [('coil', 'add_current', float(rng.normal()))]
        final_assign += [('coil', 'add_current', float(rng.normal()*50))]
    a, b = Ex.Excitation(mesh, sym), Ex.Excitation(mesh, sym)
    for n, k, v in seq + final_assign:
        assign(a, str(n), k, v)
    for i in rng.permutation(len(final_assign)):
        n, k, v = final_assign[i]
        assign(b, str(n), k, v)
        final[str(n)] = (k, v)
    fa, fb = charges(S.solve_direct(a)), charges(S.solve_direct(b))
    if any(k == 'add_current' for _, k, _ in final_assign) and not any(k in ('add_magnetizable', 'add_magnetostatic_potential') for _, k, _ in final_assign):
        ctx.check('last-wins', len(fa[1]) == 0, 'magnetic charges without magnetic material')
    for x, y, label in zip(fa, fb, ('electrostatic', 'magnetostatic', 'current')):
        ctx.check('last-wins', len(x) == len(y), lambda: f'{label}: {len(x)} and {len(y)} sources for the same assignment {final}')
        if len(x) == len(y) and len(x):
            ctx.close('last-wins', x, y, 1e-9*np.abs(y).max() + 1e-300, f'{label} sources depend on earlier assignments {seq} or their order, not only on {final}')
    el, mag = any(k == 'add_voltage' for k, _ in final.values()), any(k in ('add_magnetostatic_potential', 'add_current') for k, _ in final.values())
    ctx.check('last-wins', (len(fa[0]) > 0) == el and (len(fa[1]) + len(fa[2]) > 0) == mag, lambda: f'sources {[len(x) for x in fa]} for {final}')
    ctx.nontrivial('lastwins', str(final_assign), mesh.points[:4])
    ctx.event('solve', 2)


def run_inactive(ctx, case, rng):
    """A group that is not mentioned is not there."""
    import traceon.excitation as Ex
    import traceon.solver as S
    three = case['mode'] % 3 == 0
    sym = Ex.Symmetry.THREE_D if three else Ex.Symmetry.RADIAL
    mesh, names = named_shapes(rng, three, 2 if three else 3)
    out = names[int(rng.integers(len(names)))]
    keep = [n for n in names if n != out]
    small = mesh.extract_physical_group(keep[0])
    for n in keep[1:]:
        small = small + mesh.extract_physical_group(n)
    res = []
    pot = bool(rng.integers(2))
    vals = {n: float(rng.normal()*10) for n in keep}
    for m in (mesh, small):
        e = Ex.Excitation(m, sym)
        (e.add_magnetostatic_potential if pot else e.add_voltage)(**vals)
        res.append((e, S.solve_direct(e)))
    (e1, f1), (e2, f2) = res
    V1, n1 = (e1.get_magnetostatic_active_elements if pot else e1.get_electrostatic_active_elements)()
    V2, n2 = (e2.get_magnetostatic_active_elements if pot else e2.get_electrostatic_active_elements)()
    ctx.check('inactive', len(V1) == len(V2) and out not in n1, lambda: f'{len(V1)} active elements with, {len(V2)} without the unused group')
    c1, c2 = charges(f1)[int(pot)], charges(f2)[int(pot)]
    for n in keep:
        x, y = c1[n1[n]], c2[n2[n]]
        x, y = np.sort(x), np.sort(y)
        ctx.check('inactive', len(x) == len(y), 'elements of a group')
        if len(x) == len(y):
            ctx.close('inactive', x, y, 1e-7*np.abs(c2).max(), f'sources of {n} with and without the unused group {out}')
    for _ in range(4):
        p = rng.normal(size=3)*np.abs(mesh.points).max()*3
        g = (lambda f: f.magnetostatic_potential_at_point(p)) if pot else (lambda f: f.electrostatic_potential_at_point(p))
        ctx.close('inactive', g(f1), g(f2), 1e-7*max(map(abs, vals.values())), f'potential with and without the unused group {out}')
    ctx.nontrivial('inactive', str(vals))
    ctx.event('solve', 2)


def run_function(ctx, case, rng):
    """A voltage function is asked for the voltage at the centre of each element of its group, and that voltage is what is solved for."""
    import traceon.excitation as Ex
    import traceon.solver as S
    from mon.lib import cubic_line
    three = case['mode'] % 3 == 0
    sym = Ex.Symmetry.THREE_D if three else Ex.Symmetry.RADIAL
    mesh, names = named_shapes(rng, three, 2)
    k, c = rng.normal(size=3), float(rng.normal())
    asked = []

    def f(x, y, z):
        asked.append((x, y, z))
        return c + k @ [x, y, z]
    exc = Ex.Excitation(mesh, sym)
    exc.add_voltage(**{names[0]: f, names[1]: 2.5})
    field = S.solve_direct(exc)
    V, index = exc.get_electrostatic_active_elements()
    pts = np.array(asked, float)
    ctx.check('function', pts.ndim == 2 and pts.shape[1] == 3 and all(isinstance(q, float) for p in asked for q in p), 'the function is called with three floats')
    if not three and V.shape[1] == 2:
        V = np.concatenate([V, (2*V[:, :1] + V[:, 1:2])/3, (V[:, :1] + 2*V[:, 1:2])/3], axis=1)
    mine = V[index[names[0]]]
    cent = mine.mean(axis=1) if three else np.array([np.insert(cubic_line(v[:, [0, 2]], np.array([0.]))[0][0], 1, 0.) for v in mine])
    ctx.check('function', len(pts) % len(cent) == 0 and len(pts) > 0, lambda: f'{len(pts)} calls for {len(cent)} elements')
    if len(pts) % len(cent) == 0:
        scale = np.abs(mesh.points).max()
        ctx.close('function', np.tile(cent, (len(pts)//len(cent), 1)), pts, 1e-12*scale, 'the function is evaluated at the centres of the elements of its group')
    # the same voltages as fixed ones, one group for each element
    pick = rng.choice(len(cent), min(6, len(cent)), replace=False)
    scaleV = abs(c) + np.abs(cent @ k).max() + 2.5
    for i in pick:
        ctx.close('function', field.potential_at_point(cent[i]), c + k @ cent[i], .15*scaleV + 0, 'potential at an element with a voltage function')
    g = Ex.Excitation(mesh, sym)
    g.add_voltage(**{names[0]: (lambda x, y, z: c), names[1]: 2.5})
    h = Ex.Excitation(mesh, sym)
    h.add_voltage(**{names[0]: c, names[1]: 2.5})
    x, y = charges(S.solve_direct(g))[0], charges(S.solve_direct(h))[0]
    ctx.close('function', x, y, 1e-9*np.abs(y).max(), 'a constant function is a fixed voltage')
    ctx.nontrivial('function', k, c)
    ctx.event('solve', 3)


def run_boundary(ctx, case, rng):
    import traceon.excitation as Ex
    T = Ex.ExcitationType
    three = case['mode'] % 2 == 0
    sym = Ex.Symmetry.THREE_D if three else Ex.Symmetry.RADIAL
    mesh, names = named_shapes(rng, three, 2 if three else 3)
    if not three:
        coil = mesh.triangles.copy()
    def outward(n):
        """Signed volume enclosed (in 3D) or swept (radial) by a group: positive when its normals point outwards."""
        if three:
            t = mesh.points[mesh.triangles[mesh.physical_to_triangles[n]]]
            return float(np.einsum('ij,ij->', t[:, 0] - t.mean(axis=(0, 1)), np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])))
        p = mesh.points[mesh.lines[mesh.physical_to_lines[n]]][:, :2]
        c = p.mean(axis=(0, 1))
        d, m = p[:, 1] - p[:, 0], p.mean(axis=1) - c*[0, 0, 1]
        # the divergence theorem for the field (r, z): outward flux is positive; weight 2 pi r of the ring
        return float(np.sum(m[:, 0]*(m[:, 0]*d[:, 2] - m[:, 2]*d[:, 0])))
    before = {n: outward(n) for n in names}
    ctx.check('boundary', all(v > 0 for v in before.values()), lambda: f'meshed with outward normals: {before}')
    for kind, t in (('add_electrostatic_boundary', T.DIELECTRIC), ('add_magnetostatic_boundary', T.MAGNETIZABLE)):
        exc = Ex.Excitation(mesh, sym)
        mesh.ensure_outward_normals(names[0])
        saved = (mesh.lines.copy(), mesh.triangles.copy())
        getattr(exc, kind)(names[0], ensure_inward_normals=False)
        ctx.check('boundary', np.array_equal(saved[0], mesh.lines) and np.array_equal(saved[1], mesh.triangles), 'ensure_inward_normals=False leaves the mesh alone')
        ctx.check('boundary', exc.excitation_types == {names[0]: (t, 0)}, lambda: f'{kind}: {exc.excitation_types}')
        exc = Ex.Excitation(mesh, sym)
        getattr(exc, kind)(*names[:2 if rng.random() < .5 else 1])
        done = list(exc.excitation_types)
        for n in names:
            v = outward(n)
            ctx.check('boundary', abs(abs(v) - abs(before[n])) <= 1e-9*abs(before[n]), 'elements of a boundary stay where they are')
            ctx.check('boundary', v < 0 if n in done else v > 0, lambda: f'{kind} on {done}: normals of {n}: {v}')
        ctx.check('boundary', all(v == (t, 0) for v in exc.excitation_types.values()), lambda: f'{kind}: {exc.excitation_types}')
        getattr(exc, kind)(*done)
        ctx.check('boundary', all(outward(n) < 0 for n in done), 'a boundary twice is a boundary')
        for n in names:
            mesh.ensure_outward_normals(n)
        ctx.raises('rejected', lambda: getattr(exc, kind)('nobody'), f'{kind} of an unknown name')
    if not three:
        ctx.check('boundary', np.array_equal(coil, mesh.triangles), 'a coil is left alone')
    ctx.nontrivial('boundary', mesh.points[:6])
    ctx.event('boundary')


def run_reject(ctx, case, rng):
    import traceon.excitation as Ex
    import traceon.solver as S
    three = case['mode'] % 3 == 0
    sym = Ex.Symmetry.THREE_D if three else Ex.Symmetry.RADIAL
    mesh, names = named_shapes(rng, three, 2)
    a, b = names[:2]
    if three:
        from traceon.geometry import Path
        wire = Path.line([50., 0, 0], [51., 0, 1.])
        wire.name = 'wire'
        mesh = mesh + wire.mesh(mesh_size=.5)
        wrong = 'wire'
    else:
        wrong = 'coil'
        ctx.raises('rejected', lambda: Ex.Excitation(mesh.move(dy=.5), sym), 'a radial excitation of a mesh outside the xz plane')
        ctx.raises('rejected', lambda: Ex.Excitation(mesh.rotate(Rz=.3), sym), 'a radial excitation of a mesh outside the xz plane')
    def new(**kw):
        e = Ex.Excitation(mesh, sym)
        for n, (k, v) in kw.items():
            getattr(e, k)(**{n: v})
        return e
    bad = [('nothing', lambda: S.solve_direct(new())),
           ('only a dielectric', lambda: S.solve_direct(new(**{a: ('add_dielectric', 2.)}))),
           ('only a magnetizable', lambda: S.solve_direct(new(**{a: ('add_magnetizable', 2.)})))]
    for v in (math.nan, math.inf, -math.inf):
        bad += [(f'voltage {v}', lambda v=v: S.solve_direct(new(**{a: ('add_voltage', v)}))),
                (f'voltage function {v}', lambda v=v: S.solve_direct(new(**{a: ('add_voltage', lambda x, y, z: v)}))),
                (f'potential {v}', lambda v=v: S.solve_direct(new(**{a: ('add_magnetostatic_potential', v), b: ('add_magnetostatic_potential', 1.)}))),
                (f'dielectric {v}', lambda v=v: S.solve_direct(new(**{a: ('add_dielectric', v), b: ('add_voltage', 1.)}))),
                (f'magnetizable {v}', lambda v=v: S.solve_direct(new(**{a: ('add_magnetizable', v), b: ('add_magnetostatic_potential', 1.)})))]
        if not three:
            bad += [(f'current {v}', lambda v=v: S.solve_direct(new(coil=('add_current', v))))]
    for k in ('add_voltage', 'add_dielectric', 'add_magnetostatic_potential', 'add_magnetizable'):
        src = ('add_voltage', 1.) if k in ('add_voltage', 'add_dielectric') else ('add_magnetostatic_potential', 1.)
        bad += [(f'{k} of elements of another kind', lambda k=k, src=src: S.solve_direct(new(**{wrong: (k, 2.), b: src})))]
    for k in ('add_voltage', 'add_dielectric', 'add_magnetostatic_potential', 'add_magnetizable') + (() if three else ('add_current',)):
        good = 'coil' if k == 'add_current' else a
        for order in ((good, 'nobody'), ('nobody', good)):
            ctx.raises('rejected', lambda: getattr(Ex.Excitation(mesh, sym), k)(**{n: 2. for n in order}), f'{k} of an unknown name next to a known one')
    for label, call in bad:
        ctx.raises('solve-rejected', call, f'{label} was solved instead of rejected')
    if three:
        ctx.raises('rejected', lambda: new(**{a: ('add_current', 1.)}), 'a current in 3D')
    else:
        ctx.raises('rejected', lambda: new(**{a: ('add_current', 1.)}), 'a current along lines')
    fun = lambda x, y, z: 1.     # noqa: E731
    for label, kw in (('next to a voltage', {a: ('add_voltage', fun), b: ('add_voltage', 2.)}), ('next to zero volt', {a: ('add_voltage', fun), b: ('add_voltage', 0.)}),
                      ('alone', {b: ('add_voltage', fun)}), ('next to a potential', {a: ('add_magnetostatic_potential', 3.), b: ('add_voltage', fun)})):
        ctx.raises('superposition-rejected', lambda: S.solve_direct_superposition(new(**kw)), f'superposition with a voltage function {label}')
    ctx.nontrivial('reject', mesh.points[:4])
    ctx.event('reject', len(bad))
