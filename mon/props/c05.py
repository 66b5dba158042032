"""C05: Gauss's law, element areas, symmetry of the mutual capacitances, neutrality of dielectrics."""
import math

import numpy as np

from mon.lib import cluster_3d, gauss, mesh_3d, mesh_radial, radial_stack, sphere_rule

RULE = ('random stacks of radial profiles and clusters of 3D bodies with random voltages and dielectrics; flux is integrated over spheres, '
        'cylinders and boxes around any subset of them; non-trivial when the enclosed charge is not zero')
ASSUMPTIONS = ['Gauss-Legendre quadrature of the evaluated field over smooth closed surfaces, with an error estimate from two orders',
               'capacitances are symmetric up to the discretisation error (calibrated, 8x margin)']
REQUIRED = {'flux:radial': 60, 'flux:3d': 30, 'flux-empty': 20, 'area:radial': 30, 'area:3d': 16, 'capacitance-symmetry:radial': 15,
            'capacitance-symmetry:3d': 8, 'capacitance-sign': 20, 'dielectric-neutral': 8, 'capacitance-analytic': 6, 'charge-sum': 20}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(20 if q else 200):
        out.append(dict(kind='radial', n_el=2 + i % 3, ho=i % 3 != 0))
    for i in range(10 if q else 80):
        out.append(dict(kind='3d', n_el=1 + i % 3))
    for i in range(8 if q else 60):
        out.append(dict(kind='dielectric-radial'))
    for i in range(4 if q else 30):
        out.append(dict(kind='dielectric-3d'))
    for i in range(6 if q else 40):
        out.append(dict(kind='analytic', which=['sphere', 'concentric', 'sphere-3d', 'coax'][i % 4]))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def flux_cylinder(E, R, z0, z1, n, breaks=()):
    """Flux through a closed cylinder around the axis for an axisymmetric field, E(p) -> 3-vector."""
    x, w = gauss(n)
    s = 0.
    rb = [0., 0.35*R, 0.7*R, R]
    for a, b in zip(rb[:-1], rb[1:]):
        for t, wt in zip((a + b)/2 + (b - a)/2*x, w*(b - a)/2):
            s += 2*np.pi*t*wt*(E([t, 0., z1])[2] - E([t, 0., z0])[2])
    zb = np.linspace(z0, z1, 5)
    for a, b in zip(zb[:-1], zb[1:]):
        for t, wt in zip((a + b)/2 + (b - a)/2*x, w*(b - a)/2):
            s += 2*np.pi*R*wt*E([0., R, t])[1]
    return s


def flux_box(E, lo, hi, n, split=3):
    x, w = gauss(n)
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)

    def nodes(a, b):
        e = np.linspace(a, b, split + 1)
        return (np.concatenate([(p + q)/2 + (q - p)/2*x for p, q in zip(e[:-1], e[1:])]),
                np.concatenate([w*(q - p)/2 for p, q in zip(e[:-1], e[1:])]))
    s = 0.
    for ax in range(3):
        u, v = [k for k in range(3) if k != ax]
        U, WU = nodes(lo[u], hi[u])
        V, WV = nodes(lo[v], hi[v])
        for side, sign in ((lo[ax], -1), (hi[ax], 1)):
            for a, wa in zip(U, WU):
                for b, wb in zip(V, WV):
                    p = np.zeros(3)
                    p[ax], p[u], p[v] = side, a, b
                    s += sign*wa*wb*E(p)[ax]
    return s


def true_area(e):
    """Area of the surface of revolution of a profile, from the path itself."""
    p = e.path
    bs = [0.] + sorted(p.breakpoints) + [p.path_length]
    x, w = gauss(60)
    return sum((b - a)/2*wt*2*np.pi*p(a + (b - a)*(t + 1)/2)[0] for a, b in zip(bs[:-1], bs[1:]) for t, wt in zip(x, w))


def gap_flux_volume(els, i):
    """A cylinder that encloses electrode i of a stack and no other: cut in the middle of the gaps."""
    lo, hi = els[i].poly[:, 1].min(), els[i].poly[:, 1].max()
    z0 = (els[i - 1].poly[:, 1].max() + lo)/2 if i > 0 else lo - 0.6*els[i].size
    z1 = (els[i + 1].poly[:, 1].min() + hi)/2 if i + 1 < len(els) else hi + 0.6*els[i].size
    return z0, z1, els[i].poly[:, 0].max() + 0.7*els[i].size


def run_case(ctx, case):
    import traceon.excitation as Ex
    import traceon.solver as S
    rng, kind = ctx.rng, case['kind']
    if kind in ('radial', 'dielectric-radial'):
        n_el = case.get('n_el', 3)
        els = radial_stack(rng, n_el, scale=10**rng.uniform(-3, 1))
        ho = case.get('ho', True)
        mesh = mesh_radial(els, 40 if kind == 'radial' else 60, ho, rng if kind == 'radial' else None)
        exc = Ex.Excitation(mesh, Ex.Symmetry.RADIAL)
        diel = []
        if kind == 'dielectric-radial':
            k = int(rng.integers(n_el))
            diel = [els[k]]
            exc.add_dielectric(**{els[k].name: float(rng.choice([1.5, 3., 12., 80., 0.4]))})
        V = {e.name: float(rng.uniform(-100, 100)) for e in els if e not in diel}
        exc.add_voltage(**V)
        f = S.solve_direct(exc)
        verts, names = exc.get_electrostatic_active_elements()
        Q = {n: float(f.charge_on_elements(i)) for n, i in names.items()}
        qscale = sum(abs(f.charge_on_element(i)) for i in range(len(verts)))
        E = f.electrostatic_field_at_point
        for i, e in enumerate(els):
            z0, z1, R = gap_flux_volume(els, i)
            F1, F2 = flux_cylinder(E, R, z0, z1, 12), flux_cylinder(E, R, z0, z1, 18)
            if abs(F1 - F2) > 1e-4*qscale:
                ctx.event('flux-not-converged')
                continue
            ctx.close('flux:radial', F2, Q[e.name], 3*abs(F1 - F2) + 1e-8*qscale, f'flux through a cylinder around {e.kind} {e.name}, charge on it')
        zs = np.concatenate([e.poly[:, 1] for e in els])
        rs = np.concatenate([e.poly[:, 0] for e in els])
        c, ext = (zs.min() + zs.max())/2, math.hypot(rs.max(), (zs.max() - zs.min())/2)
        P, W = sphere_rule(24)
        R = ext*rng.uniform(1.4, 3)
        F = sum(w*R*R*(E([0, 0, c] + R*p) @ p) for p, w in zip(P, W))
        ctx.close('flux:radial', F, sum(Q.values()), 2e-5*qscale, f'flux through a sphere of radius {R/ext:.2f} extents around everything')
        # nothing enclosed: off to the side and above
        for _ in range(2):
            r = ext*rng.uniform(0.2, 1)
            d = rng.normal(size=3)
            ce = [0, 0, c] + d/np.linalg.norm(d)*(ext*1.3 + r)
            P2, W2 = sphere_rule(14)
            v = np.array([E(ce + r*p) @ p for p in P2])
            ctx.close('flux-empty', np.sum(W2*r*r*v), 0, 1e-4*qscale, 'flux through a sphere that encloses nothing')
        for e in els:
            A = float(f.area_of_elements(names[e.name]))
            ctx.close('area:radial', A, true_area(e), (1e-4 if ho else 6e-3)*true_area(e), f'area of {e.kind} from {len(names[e.name])} elements')
            if not ho:
                m = mesh.points[mesh.lines[mesh.physical_to_lines[e.name]][:, :2].astype(int)]
                fr = np.sum(np.pi*(m[:, 0, 0] + m[:, 1, 0])*np.linalg.norm(m[:, 1] - m[:, 0], axis=1))
                ctx.close('area:radial', A, fr, 1e-10*fr, 'area of straight elements (frustums)')
        n = len(verts)
        sub = rng.choice(n, size=max(1, n//3), replace=False)
        ctx.close('charge-sum', f.charge_on_elements(sub), sum(f.charge_on_element(i) for i in sub), 1e-10*qscale, 'charge of a subset')
        ctx.close('charge-sum', f.charge_on_elements(range(n)), sum(Q.values()), 1e-9*qscale, 'charge of all elements against the groups')
        ctx.close('charge-sum', f.charge_on_elements([]), 0., 0, 'charge of no elements')
        ctx.close('charge-sum', f.area_of_elements(range(n)), sum(f.area_of_elements(i) for i in names.values()), 1e-9*f.area_of_elements(range(n)), 'area')
        def refined():
            exc2 = Ex.Excitation(mesh_radial(els, 240, ho), Ex.Symmetry.RADIAL)
            exc2.excitation_types = dict(exc.excitation_types)
            return exc2
        for e in diel:
            q = sum(abs(f.charge_on_element(i)) for i in names[e.name])
            rel = abs(Q[e.name])/(q + 1e-9*qscale)
            if rel <= .02:
                ctx.close('dielectric-neutral', rel, 0, .02, f'net charge of the dielectric {e.kind}')
                continue
            # the density is singular at the corners: with four times as many elements it has to be less
            ctx.event('neutral-refined')
            exc2 = refined()
            f2 = S.solve_direct(exc2)
            i2 = exc2.get_electrostatic_active_elements()[1][e.name]
            rel2 = abs(f2.charge_on_elements(i2))/sum(abs(f2.charge_on_element(i)) for i in i2)
            ctx.close('dielectric-neutral', rel2, 0, max(.02, .75*min(rel, .08)), f'net charge of the dielectric {e.kind} with four times as many elements, it was {rel:.3g} before')
        capacitance(ctx, exc, els, diel, V, names, 'radial', 4e-3 if ho else 1.5e-2, refined)
        ctx.nontrivial(kind, [e.kind for e in els], V)
        ctx.note(kind=kind, shapes=[e.kind for e in els], V=V, charges=Q)

    elif kind in ('3d', 'dielectric-3d'):
        n_el = case.get('n_el', 2)
        els = cluster_3d(rng, n_el, scale=10**rng.uniform(-3, 1))
        ms = 0.45 if kind == '3d' else 0.35
        mesh = mesh_3d(els, mesh_size=ms)
        exc = Ex.Excitation(mesh, Ex.Symmetry.THREE_D)
        diel = []
        if kind == 'dielectric-3d':
            diel = [els[0]]
            exc.add_dielectric(el0=float(rng.choice([2., 5., 30.])))
        V = {e.name: float(rng.uniform(-100, 100)) for e in els if e not in diel}
        exc.add_voltage(**V)
        f = S.solve_direct(exc)
        verts, names = exc.get_electrostatic_active_elements()
        qs = np.array([f.charge_on_element(i) for i in range(len(verts))])
        Q = {n: float(f.charge_on_elements(i)) for n, i in names.items()}
        qscale = np.abs(qs).sum()
        E = f.electrostatic_field_at_point
        for e in els:
            lo = np.array(e.c) - 1.03*max(e.size, np.abs(verts[names[e.name]] - e.c).max())
            hi = 2*np.array(e.c) - lo
            others = [o for o in els if o is not e]
            if any(np.all((verts[names[o.name]] > lo - 0.03*e.size) & (verts[names[o.name]] < hi + 0.03*e.size), axis=2).any() for o in others):
                ctx.event('box-overlap')
                continue
            F1, F2 = flux_box(E, lo, hi, 4), flux_box(E, lo, hi, 6)
            if abs(F1 - F2) > 1e-3*qscale:
                ctx.event('flux-not-converged')
                continue
            ctx.close('flux:3d', F2, Q[e.name], 4*abs(F1 - F2) + 1e-6*qscale, f'flux through a box around {e.kind} {e.name}')
        ext = max(np.linalg.norm(v) for v in verts.reshape(-1, 3))
        P, W = sphere_rule(16)
        for R in ext*np.array([1.7, 2.5, 6.]):
            F = sum(w*R*R*(E(R*p) @ p) for p, w in zip(P, W))
            ctx.close('flux:3d', F, sum(Q.values()), 3e-4*qscale, f'flux through a sphere of radius {R/ext} extents')
        for _ in range(2):
            r = ext*rng.uniform(0.2, 1)
            d = rng.normal(size=3)
            ce = d/np.linalg.norm(d)*(ext*1.4 + r)
            P2, W2 = sphere_rule(12)
            ctx.close('flux-empty', np.sum(W2*r*r*np.array([E(ce + r*p) @ p for p in P2])), 0, 1e-4*qscale, 'flux through a sphere that encloses nothing')
        tri_area = 0.5*np.linalg.norm(np.cross(verts[:, 1] - verts[:, 0], verts[:, 2] - verts[:, 0]), axis=1)
        got = np.array([f.area_of_element(i) for i in range(len(verts))])
        ctx.close('area:3d', got, tri_area, 1e-9*tri_area + 1e-12*tri_area.sum(), 'areas of the triangles')
        for e in els:
            ctx.close('area:3d', f.area_of_elements(names[e.name]), tri_area[names[e.name]].sum(), 1e-9*tri_area.sum(), 'area of a group')
        ctx.close('charge-sum', f.charge_on_elements(range(len(verts))), sum(Q.values()), 1e-9*qscale, 'charge of all elements')
        dens = f.electrostatic_point_charges.charges
        ctx.close('charge-sum', qs, dens*tri_area, 1e-9*np.abs(dens*tri_area) + 1e-12*qscale, 'charge = density times area')
        for e in diel:
            q = np.abs(qs[names[e.name]]).sum()
            ctx.close('dielectric-neutral', Q[e.name], 0, 0.12*q + 1e-9*qscale, f'net charge of the dielectric {e.kind}')
        capacitance(ctx, exc, els, diel, V, names, '3d', 0.015)
        ctx.nontrivial(kind, [e.kind for e in els], V)
        ctx.note(kind=kind, shapes=[e.kind for e in els], V=V, charges=Q)

    else:
        from traceon.geometry import Path, Surface
        s = 10**rng.uniform(-3, 2)
        w = case['which']
        zc = s*rng.uniform(-3, 3)
        if w == 'sphere':
            R = s*rng.uniform(.5, 2)
            p = Path.arc([0., 0., zc], [0., 0., zc - R], [R, 0., zc]).arc_to([0., 0., zc], [0., 0., zc + R])
            m = p.mesh(mesh_size=p.path_length/30, higher_order=True, name='a')
            exc, C, nm = Ex.Excitation(m, Ex.Symmetry.RADIAL), 4*np.pi*R, 'a'
            V = dict(a=float(rng.uniform(1, 50)))
            tol = 1e-4
        elif w == 'concentric':
            a = s*rng.uniform(.5, 1)
            b = a*rng.uniform(1.5, 3)
            m = None
            for R, n in ((a, 'a'), (b, 'b')):
                p = Path.arc([0., 0., zc], [0., 0., zc - R], [R, 0., zc]).arc_to([0., 0., zc], [0., 0., zc + R])
                me = p.mesh(mesh_size=p.path_length/40, higher_order=True, name=n)
                m = me if m is None else m + me
            exc, C, nm = Ex.Excitation(m, Ex.Symmetry.RADIAL), 4*np.pi*a*b/(b - a), 'a'
            V = dict(a=float(rng.uniform(1, 50)), b=0.0)
            tol = 1e-3
        elif w == 'coax':
            # a section of a coaxial line closed by Neumann boundaries is exactly the infinite line
            a = s*rng.uniform(.5, 1)
            b = a*rng.uniform(1.5, 2.5)
            L = b*rng.uniform(0.5, 1)
            m = None
            for name, p0, p1 in (('a', [a, 0., zc], [a, 0., zc + L]), ('b', [b, 0., zc], [b, 0., zc + L]),
                                 ('lo', [a, 0., zc], [b, 0., zc]), ('hi', [a, 0., zc + L], [b, 0., zc + L])):
                me = Path.line(p0, p1).mesh(mesh_size=min(L, b - a)/40, name=name, higher_order=True)
                m = me if m is None else m + me
            exc, C, nm = Ex.Excitation(m, Ex.Symmetry.RADIAL), 2*np.pi*L/math.log(b/a), 'a'
            V = dict(a=float(rng.uniform(1, 50)), b=0.0)
            tol = None
        else:
            R = s*rng.uniform(.5, 2)
            m = Surface.sphere(R).move(dx=s, dz=zc)
            m.name = 'a'
            m = m.mesh(mesh_size=R/4)
            exc, C, nm = Ex.Excitation(m, Ex.Symmetry.THREE_D), 4*np.pi*R, 'a'
            V = dict(a=float(rng.uniform(1, 50)))
            tol = 0.02
        exc.add_voltage(**V)
        if tol is None:
            # the walls carry charge as well: judge the flux density (E = V/(r log(b/a))) in the middle instead
            flip = [n for n in ('lo', 'hi')]
            exc.add_electrostatic_boundary(*flip, ensure_inward_normals=False)
            orient_boundary(m, 'lo', np.array([0, 0, 1.]))
            orient_boundary(m, 'hi', np.array([0, 0, -1.]))
            f = S.solve_direct(exc)
            for _ in range(4):
                r, z = rng.uniform(a + .15*(b - a), b - .15*(b - a)), zc + L*rng.uniform(.15, .85)
                want = V['a']/(r*math.log(b/a))
                ctx.close('capacitance-analytic', f.field_at_point(np.array([r, 0., z])), [want, 0., 0.], 0.01*want, 'field in a coaxial line between Neumann walls')
        else:
            f = S.solve_direct(exc)
            names = exc.get_electrostatic_active_elements()[1]
            ctx.close('capacitance-analytic', f.charge_on_elements(names[nm]), C*V['a'], tol*C*V['a'], f'charge of {w}')
            if w == 'concentric':
                ctx.close('capacitance-analytic', f.charge_on_elements(names['b']), -C*V['a'], tol*C*V['a'], 'charge induced on the outer sphere')
        ctx.nontrivial(w, s, V)
        ctx.note(which=w, scale=s, V=V, C=C)


def orient_boundary(mesh, name, direction):
    """Point the normals (tangent_z, -tangent_x) of a straight group of lines along `direction`."""
    idx = mesh.physical_to_lines[name]
    v = mesh.points[mesh.lines[idx][:, :2].astype(int)]
    t = v[:, 1] - v[:, 0]
    n = np.stack([t[:, 2], 0*t[:, 2], -t[:, 0]], axis=1)
    for k, i in enumerate(idx):
        if n[k] @ direction < 0:
            mesh.lines[i] = mesh.lines[i][[1, 0, 3, 2]] if mesh.lines.shape[1] == 4 else mesh.lines[i][[1, 0]]


def capacitance(ctx, exc, els, diel, V, names, tag, tol, refine=None):
    import traceon.solver as S
    act = [e for e in els if e not in diel]
    if len(act) < 2:
        return
    units = S.solve_direct_superposition(exc)
    n = len(act)
    matrix = lambda units, names: np.array([[units[b.name].charge_on_elements(names[a.name]) for b in act] for a in act])    # noqa: E731
    C = matrix(units, names)
    d = np.sqrt(np.abs(np.outer(np.diag(C), np.diag(C))))
    worst = float(np.max(np.abs(C - C.T)/d))
    if refine is not None and tol < worst < 5*tol:
        # discretisation error, if it gets less with four times as many elements
        ctx.event('capacitance-refined')
        exc2 = refine()
        C = matrix(S.solve_direct_superposition(exc2), exc2.get_electrostatic_active_elements()[1])
        d = np.sqrt(np.abs(np.outer(np.diag(C), np.diag(C))))
        tol = max(tol, .75*worst)
    for i in range(n):
        ctx.check('capacitance-sign', C[i, i] > 0, f'self capacitance {C[i, i]}')
        for j in range(i):
            ctx.close('capacitance-symmetry:' + tag, C[i, j], C[j, i], tol*d[i, j], f'mutual capacitance of {act[i].kind} and {act[j].kind}')
            ctx.check('capacitance-sign', C[i, j] < tol*d[i, j], f'mutual capacitance {C[i, j]} is not negative')
    ctx.check('capacitance-sign', np.all(np.abs(C.sum(axis=0) - np.diag(C)) <= np.diag(C)*(1 + tol)), 'an electrode induces more than its own charge')
    ctx.event('capacitance-matrix')
