"""C06: interface conditions of dielectrics and magnetizable material, and boundary elements."""
import math

import numpy as np
from scipy.special import eval_legendre

from mon.lib import cluster_3d, gauss, mesh_3d, mesh_radial, outside_3d, outside_points, radial_stack, reversed_path, rotation
from mon.props.c05 import orient_boundary

RULE = ('dielectric spheres between electrodes prescribing Legendre modes (analytic solution), random dielectric profiles and bodies next to '
        'electrodes (jump conditions observed on both sides), boundary elements between electrodes; electric and magnetic; random orientations '
        'of drawing; non-trivial when the relative constant differs from one')
ASSUMPTIONS = ['outside every dielectric or magnetizable body there is vacuum (bodies are closed and do not touch)',
               'the jump is extrapolated from distances of one element length; tolerance from the discretisation']
REQUIRED = {'sphere-modes:radial': 60, 'sphere-modes:3d': 12, 'jump-normal:radial': 60, 'jump-normal:3d': 12, 'normals-3d': 4, 'jump-potential:radial': 60,
            'jump-tangential:radial': 60, 'boundary-normal': 40, 'boundary-analytic': 30, 'orientation': 20, 'dual': 20, 'limits': 12,
            'boundary-3d': 6}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(16 if q else 160):
        out.append(dict(kind='modes', ho=i % 4 != 0, mag=i % 3 == 2))
    for i in range(6 if q else 40):
        out.append(dict(kind='modes-3d', mag=i % 3 == 2))
    for i in range(16 if q else 160):
        out.append(dict(kind='jump', mag=i % 2 == 1))
    for i in range(5 if q else 40):
        out.append(dict(kind='jump-3d', mag=i % 3 == 2))
    for i in range(10 if q else 100):
        out.append(dict(kind='boundary', which=['tube', 'cone', 'disk'][i % 3], mag=i % 2 == 1))
    for i in range(3 if q else 20):
        out.append(dict(kind='boundary-3d', mag=i % 2 == 1))
    for i in range(8 if q else 80):
        out.append(dict(kind='orientation', mag=i % 2 == 1))
    for i in range(6 if q else 60):
        out.append(dict(kind='dual', three_d=i % 3 == 2))
    for i in range(6 if q else 60):
        out.append(dict(kind='limits', mag=i % 2 == 1))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def sphere_path(R, zc):
    from traceon.geometry import Path
    return Path.arc([0., 0., zc], [0., 0., zc - R], [R, 0., zc]).arc_to([0., 0., zc], [0., 0., zc + R])


def add_kinds(exc, mag, pots, mats):
    if mag:
        # the public function for magnetostatic potentials takes numbers; voltage functions exist only for voltages
        exc.add_magnetostatic_potential(**pots)
        exc.add_magnetizable(**mats)
    else:
        exc.add_voltage(**pots)
        exc.add_dielectric(**mats)


def E_phi(f, mag):
    if mag:
        return f.magnetostatic_field_at_point, f.magnetostatic_potential_at_point
    return f.electrostatic_field_at_point, f.electrostatic_potential_at_point


def mode_solution(a, b, eps, A):
    """Potential sum_l A_l (R/b)^l P_l on the sphere of radius b; sphere of radius a with constant eps inside."""
    sols = []
    for l, Al in enumerate(A):
        # inside: C r^l ; outside: D r^l + F r^-(l+1)
        M = np.array([[a**l, -a**l, -a**(-l - 1)],
                      [eps*l*a**(l - 1), -l*a**(l - 1), (l + 1)*a**(-l - 2)],
                      [0, b**l, b**(-l - 1)]])
        sols.append(np.linalg.solve(M, [0, 0, Al]))

    def pot(p, zc):
        x, y, z = p[0], p[1], p[2] - zc
        r = math.sqrt(x*x + y*y + z*z)
        c = z/r if r > 0 else 1.
        s = 0.
        for l, (C, D, F) in enumerate(sols):
            s += eval_legendre(l, c)*(C*r**l if r < a else D*r**l + F*r**(-l - 1))
        return s
    return pot


def run_case(ctx, case):
    import traceon.excitation as Ex
    import traceon.solver as S
    rng, kind, mag = ctx.rng, case['kind'], case.get('mag', False)
    eps = float(rng.choice([0.2, 0.5, 2., 4., 10., 80., 1000.]))
    if kind == 'modes':
        s = 10**rng.uniform(-3, 1)
        a = s*rng.uniform(0.6, 1.2)
        b = a*rng.uniform(1.5, 2.2)
        zc = s*rng.uniform(-3, 3)
        ho = case['ho']
        pa, pb = sphere_path(a, zc), sphere_path(b, zc)
        if rng.random() < 0.5:
            pa = reversed_path(pa)
        pa.name, pb.name = 'body', 'wall'
        if mag:
            # two caps at fixed magnetostatic potentials: Legendre series of a step
            V = float(rng.uniform(1, 50))
            p1 = sphere_path(b, zc)
            p1 = p1.cut(float(p1.breakpoints[0]))
            m = pa.mesh(mesh_size=pa.path_length/60, higher_order=True)
            lo, hi = p1
            lo.name, hi.name = 'lo', 'hi'
            for q in (lo, hi):
                m = m + q.mesh(mesh_size=b/40, higher_order=True)
            exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
            exc.add_magnetostatic_potential(lo=-V, hi=V)
            exc.add_magnetizable(body=eps)
            L = 60
            x, w = gauss(200)
            t = (x + 1)/2
            A = [0. if l % 2 == 0 else (2*l + 1)*V*np.sum(w/2*eval_legendre(l, t)) for l in range(L)]
            A = np.array(A)*1.0
            pot = step_solution(a, b, eps, A)
            lim, tol = 0.75, 0.02
        else:
            A = rng.uniform(-1, 1, size=4)*100
            m = (pa.mesh(mesh_size=pa.path_length/(50 if ho else 120), higher_order=ho)
                 + pb.mesh(mesh_size=pb.path_length/(50 if ho else 120), higher_order=ho))
            exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)

            def wall(x, y, z):
                c = (z - zc)/math.sqrt(x*x + y*y + (z - zc)**2)
                return float(sum(Al*eval_legendre(l, c) for l, Al in enumerate(A)))
            exc.add_voltage(wall=wall)
            exc.add_dielectric(body=eps)
            pot = mode_solution(a, b, eps, A)
            lim, tol = 0.93, (2e-3 if ho else 1e-2)
        # the response to the (small) net charge error of a collocation solution grows with the constant
        tol *= max(1., eps/40)
        f = S.solve_direct(exc)
        E, phi = E_phi(f, mag)
        scale = np.abs(A[:4]).sum()
        for k in range(10):
            r = (rng.uniform(0, 0.9*a) if k % 2 else rng.uniform(1.1*a, lim*b))
            if k % 2 == 0 and not 1.1*a < lim*b:
                continue
            c, ph = rng.uniform(-1, 1), rng.uniform(0, 2*math.pi)
            q = np.array([r*math.sqrt(1 - c*c)*math.cos(ph), r*math.sqrt(1 - c*c)*math.sin(ph), zc + r*c])
            ctx.close('sphere-modes:radial', phi(q), pot(q, zc), tol*scale, f'potential {"in" if r < a else "outside"}side a sphere with constant {eps}')
        ctx.nontrivial('modes', eps, A)
        ctx.note(eps=eps, a=a, b=b, scale=s, mag=mag)

    elif kind == 'modes-3d':
        s = 10**rng.uniform(-2, 1)
        a = s*rng.uniform(0.6, 1.)
        b = a*rng.uniform(1.8, 2.3)
        cen = s*rng.uniform(-1, 1, size=3)
        g = rng.normal(size=3)
        g *= 100/np.linalg.norm(g)/b
        from traceon.geometry import Surface
        R = rotation(rng)
        body = Surface.sphere(a).map_points(lambda p: cen + R @ p)
        body.name = 'body'
        wall = Surface.sphere(b).map_points(lambda p: cen + R @ p)
        wall.name = 'wall'
        m = body.mesh(mesh_size=a/3) + wall.mesh(mesh_size=b/3)
        exc = Ex.Excitation(m, Ex.Symmetry.THREE_D)
        if mag:
            # the linear potential via the dual excitation of one volt per direction is not available: use fixed caps instead
            exc.add_magnetostatic_potential(wall=float(g[0]))
            exc.add_magnetizable(body=eps)
            f = S.solve_direct(exc)
            for _ in range(6):
                d = rng.normal(size=3)
                q = cen + d/np.linalg.norm(d)*rng.uniform(0, 0.75)*b
                if abs(np.linalg.norm(q - cen) - a) < 0.25*a:
                    continue
                ctx.close('sphere-modes:3d', f.potential_at_point(q), g[0], 0.02*abs(g[0]), 'constant potential inside a closed shell with a body in it')
        else:
            exc.add_voltage(wall=lambda x, y, z: float(g @ (np.array([x, y, z]) - cen)))
            exc.add_dielectric(body=eps)
            f = S.solve_direct(exc)
            k = (eps - 1)/(eps + 2)*a**3
            D = 1/(1 - k/b**3)
            for _ in range(8):
                d = rng.normal(size=3)
                r = rng.choice([rng.uniform(0, 0.7*a), rng.uniform(1.3*a, 0.8*b)])
                q = d/np.linalg.norm(d)*r
                want = g @ q*D*(3/(eps + 2) if r < a else 1 - k/r**3)
                ctx.close('sphere-modes:3d', f.potential_at_point(cen + q), want, 4.0, f'dielectric sphere {eps} in a uniform field (3D)')
        ctx.nontrivial('modes3', eps, g)
        ctx.note(eps=eps, a=a, b=b)

    elif kind == 'jump':
        sc = 10**rng.uniform(-2, 1)
        els = radial_stack(rng, 3, scale=sc, kinds=('sphere', 'blob', 'ring', 'ellipse'))
        k = int(rng.integers(3))
        body = els[k]
        if rng.random() < 0.5:
            body.path = reversed_path(body.path)
        m = None
        for e in els:
            me = e.path.mesh(mesh_size=e.path.path_length/(90 if e is body else 30), higher_order=True, name=e.name)
            m = me if m is None else m + me
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        pots = {e.name: float(rng.uniform(-100, 100)) for e in els if e is not body}
        add_kinds(exc, mag, pots, {body.name: eps})
        f = S.solve_direct(exc)
        E, phi = E_phi(f, mag)
        L = body.path.path_length
        h = L/90
        t = np.linspace(0.04, 0.96, 11)*L
        vs = [sample_jump(body.path, u, h, E, phi, L) for u in t]
        sE = max(max(np.linalg.norm(v[0]), np.linalg.norm(v[1])) for v in vs)
        sD = max(max(abs(v[4] @ v[0]), eps*abs(v[4] @ v[1])) for v in vs)
        for u, (Eo, Ei, po, pi, n) in zip(t, vs):
            ctx.close('jump-normal:radial', Eo @ n, eps*(Ei @ n), 0.04*sD + 4e-3*eps*sE, f'normal field across {body.kind} with constant {eps} at {u/L:.2f}')
            tang = np.array([n[2], 0, -n[0]])
            ctx.close('jump-tangential:radial', Eo @ tang, Ei @ tang, 0.025*sE, f'tangential field across {body.kind} with constant {eps}')
            ctx.close('jump-potential:radial', po, pi, 0.004*sE*body.size, f'potential across {body.kind}')
        ctx.nontrivial('jump', body.kind, eps, pots)
        ctx.note(body=body.kind, eps=eps, mag=mag)

    elif kind == 'jump-3d':
        # weak form on a sphere: dipole moment = (constant - 1) * volume * mean field = (constant - 1) * volume * field at the centre
        els = cluster_3d(rng, 2, scale=10**rng.uniform(-2, 1), kinds=('sphere',))
        els[1:] = [e for e in cluster_3d(rng, 1, scale=els[1].size)]
        o = els[1]
        d = rng.normal(size=3)
        o.surface = o.surface.move(*[float(v) for v in els[0].c + d/np.linalg.norm(d)*1.3*(o.size*1.8 + els[0].size) - o.c])
        o.surface.name = 'el1'
        m = els[0].surface.mesh(mesh_size=0.22*els[0].size) + o.surface.mesh(mesh_size=0.4*o.size)
        exc = Ex.Excitation(m, Ex.Symmetry.THREE_D)
        add_kinds(exc, mag, dict(el1=float(rng.uniform(10, 100))), dict(el0=eps))
        f = S.solve_direct(exc)
        E, phi = E_phi(f, mag)
        act, names = (exc.get_magnetostatic_active_elements() if mag else exc.get_electrostatic_active_elements())
        v = act[names['el0']]
        vol = np.einsum('ij,ij->i', v[:, 0] - els[0].c, np.cross(v[:, 1] - els[0].c, v[:, 2] - els[0].c)).sum()/6
        ctx.check('normals-3d', vol > 0, 'the body is not oriented outwards')
        area = 0.5*np.linalg.norm(np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0]), axis=1)
        q = (f.magnetostatic_point_charges if mag else f.electrostatic_point_charges).charges[names['el0']]*area
        p = q @ (v.mean(axis=1) - els[0].c)
        # p = (constant - 1) * integral of the field over the sphere, and the field in a sphere is 3/(constant + 2) of the applied one
        w = act[names['el1']]
        qo = (f.magnetostatic_point_charges if mag else f.electrostatic_point_charges).charges[names['el1']]
        qo = qo*0.5*np.linalg.norm(np.cross(w[:, 1] - w[:, 0], w[:, 2] - w[:, 0]), axis=1)
        d = els[0].c - w.mean(axis=1)
        E0 = (qo/(4*np.pi*np.linalg.norm(d, axis=1)**3)) @ d
        want = 3*(eps - 1)/(eps + 2)*vol*E0
        ctx.close('jump-normal:3d', p, want, 0.14*np.linalg.norm(want) + 0.004*vol*np.linalg.norm(E0), f'dipole moment of a 3D sphere with constant {eps}')
        if eps <= 4:
            ctx.close('jump-normal:3d', p, (eps - 1)*vol*E(els[0].c), 0.15*np.linalg.norm(want), f'dipole moment of a 3D sphere with constant {eps} from the field inside')
        ctx.nontrivial('jump3', els[0].kind, eps)
        ctx.note(eps=eps)

    elif kind == 'boundary':
        boundary(ctx, case, rng, mag)

    elif kind == 'boundary-3d':
        # a square tube: end plates at potentials, side walls are boundary: uniform field inside
        from traceon.geometry import Surface, SurfaceCollection
        a, b, L = 10**rng.uniform(-2, 1)*rng.uniform(0.6, 1.2, size=3)
        o = rng.uniform(-1, 1, size=3)*L
        box = {'x0': Surface.rectangle_yz(0., b, 0., L), 'x1': Surface.rectangle_yz(0., b, 0., L).move(dx=float(a)),
               'y0': Surface.rectangle_xz(0., a, 0., L), 'y1': Surface.rectangle_xz(0., a, 0., L).move(dy=float(b)),
               'bot': Surface.rectangle_xy(0., a, 0., b), 'top': Surface.rectangle_xy(0., a, 0., b).move(dz=float(L))}
        inward = {'x0': [1, 0, 0], 'x1': [-1, 0, 0], 'y0': [0, 1, 0], 'y1': [0, -1, 0]}
        m = None
        ms = min(a, b, L)/5
        for n, s in box.items():
            s = s.move(*[float(v) for v in o])
            s.name = n
            me = s.mesh(mesh_size=ms, ensure_outward_normals=False)
            if n in inward:
                v = me.points[me.triangles]
                nn = np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])
                bad = nn @ np.array(inward[n], float) < 0
                me.triangles[bad] = me.triangles[bad][:, [0, 2, 1]]
            m = me if m is None else m._add(me, ensure_outward_normals=False)
        exc = Ex.Excitation(m, Ex.Symmetry.THREE_D)
        V = float(rng.uniform(5, 50))
        walls = list(inward)
        if mag:
            exc.add_magnetostatic_potential(bot=0., top=V)
            exc.add_magnetostatic_boundary(*walls, ensure_inward_normals=False)
        else:
            exc.add_voltage(bot=0., top=V)
            exc.add_electrostatic_boundary(*walls, ensure_inward_normals=False)
        f = S.solve_direct(exc)
        for _ in range(4):
            u = rng.uniform(0.25, 0.75, size=3)
            q = o + u*[a, b, L]
            ctx.close('boundary-3d', f.potential_at_point(q), V*u[2], 0.04*V, 'potential between plates with boundary walls (3D)')
            ctx.close('boundary-3d', f.field_at_point(q)[:2], [0, 0], 0.06*V/L, 'transverse field between plates with boundary walls (3D)')
        ctx.nontrivial('b3', a, b, L)
        ctx.note(a=float(a), b=float(b), L=float(L), V=V)

    elif kind == 'orientation':
        sc = 10**rng.uniform(-2, 1)
        els = radial_stack(rng, 2, scale=sc)
        body = els[int(rng.integers(2))]
        pots = {e.name: float(rng.uniform(-100, 100)) for e in els if e is not body}
        pts = outside_points(els, rng, 6, 0.2)
        ho = bool(rng.integers(2))
        out = []
        for rev in (False, True):
            m = None
            for e in els:
                p = reversed_path(e.path) if (rev and e is body) else e.path
                me = p.mesh(mesh_size=p.path_length/30, higher_order=ho, name=e.name)
                m = me if m is None else m + me
            if rev and rng.random() < 0.5:
                m.ensure_inward_normals(body.name)
                m.ensure_outward_normals(body.name)
            exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
            add_kinds(exc, mag, pots, {body.name: eps})
            f = S.solve_direct(exc)
            E, phi = E_phi(f, mag)
            out.append(np.array([np.append(E(p)*body.size, phi(p)) for p in pts]))
        ctx.close('orientation', out[1], out[0], 2e-6*np.abs(out[0]).max(), f'{body.kind} with constant {eps} drawn in the other direction')
        ctx.nontrivial('ori', body.kind, eps)
        ctx.note(body=body.kind, eps=eps, mag=mag)

    elif kind == 'dual':
        sym = Ex.Symmetry.THREE_D if case['three_d'] else Ex.Symmetry.RADIAL
        if case['three_d']:
            els = cluster_3d(rng, 3)
            m = mesh_3d(els, mesh_size=0.55)
            pts = outside_3d(els, rng, 6, 0.3, 3.)
        else:
            els = radial_stack(rng, 3, scale=10**rng.uniform(-1, 1))
            m = mesh_radial(els, 30, bool(rng.integers(2)))
            pts = outside_points(els, rng, 6, 0.2)
        pots = {els[0].name: float(rng.uniform(1, 100)), els[1].name: float(rng.uniform(-100, -1))}
        r = []
        for mg in (False, True):
            exc = Ex.Excitation(m, sym)
            add_kinds(exc, mg, pots, {els[2].name: eps})
            f = S.solve_direct(exc)
            ctx.check('dual', f.is_magnetostatic() == mg and f.is_electrostatic() == (not mg), 'kind of the field')
            E, phi = E_phi(f, mg)
            r.append(np.array([np.append(E(p), phi(p)) for p in pts]))
        sc = np.abs(r[0]).max(axis=0)
        ctx.close('dual', r[1], r[0], 1e-9*np.broadcast_to(sc, r[0].shape), 'magnetostatic problem against the equal electrostatic one')
        ctx.nontrivial('dual', eps, pots)
        ctx.note(eps=eps, pots=pots)

    else:
        # constant one: the body is not there; very large: it acts like an uncharged conductor (constant potential)
        els = radial_stack(rng, 2, scale=10**rng.uniform(-2, 1), kinds=('sphere', 'blob', 'ring', 'ellipse'))
        body, other = els
        pots = {other.name: float(rng.uniform(10, 100))}
        m = mesh_radial(els, 50, True)
        pts = outside_points(els, rng, 6, 0.2)
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        add_kinds(exc, mag, pots, {body.name: 1.0})
        one = E_phi(S.solve_direct(exc), mag)[1]
        exc = Ex.Excitation(other.path.mesh(mesh_size=other.path.path_length/50, higher_order=True, name=other.name), Ex.Symmetry.RADIAL)
        add_kinds(exc, mag, pots, {})
        none = E_phi(S.solve_direct(exc), mag)[1]
        V = pots[other.name]
        for p in pts:
            ctx.close('limits', one(p), none(p), 1e-3*V, 'a body with constant one')
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        add_kinds(exc, mag, pots, {body.name: 1e5})
        big = S.solve_direct(exc)
        Eb, pb = E_phi(big, mag)
        from mon.lib import inside_points
        ins = inside_points(body, rng, 5, 0.12)
        if len(ins) > 1:
            v = np.array([pb(p) for p in ins])
            ctx.close('limits', v, np.full(len(v), v.mean()), 0.01*V, f'potential inside {body.kind} with a very large constant')
        ctx.nontrivial('limits', body.kind, V)
        ctx.note(body=body.kind, V=V, mag=mag)


def step_solution(a, b, eps, A):
    """As mode_solution, scaled by (R/b)^l so that high modes do not overflow."""
    def pot(p, zc):
        x, y, z = p[0], p[1], p[2] - zc
        r = math.sqrt(x*x + y*y + z*z)
        c = z/r if r > 0 else 1.
        s = 0.
        for l, Al in enumerate(A):
            if Al == 0:
                continue
            # outside: D ((r/b)^l + G (a/b)^l (a/r)^(l+1)), with G from the jump at a
            G = -l*(eps - 1)/(l*eps + l + 1)
            D = Al/(1 + G*(a/b)**(2*l + 1))
            if r >= a:
                s += eval_legendre(l, c)*D*((r/b)**l + G*(a/b)**l*(a/r)**(l + 1))
            else:
                s += eval_legendre(l, c)*D*(1 + G)*(r/b)**l
        return s
    return pot


def sample_jump(path, u, h, E, phi, L):
    d = 1e-4*h
    t = path(min(u + d, L)) - path(max(u - d, 0))
    t /= np.linalg.norm(t)
    n = np.array([t[2], 0., -t[0]])
    p = path(u)
    # outward = the side away from the enclosed area (signed area of the closed profile)
    q = np.array([path(v) for v in np.linspace(0, L, 200)])
    area = 0.5*np.sum(q[:-1, 0]*q[1:, 2] - q[1:, 0]*q[:-1, 2]) + 0.5*(q[-1, 0]*q[0, 2] - q[0, 0]*q[-1, 2])
    if area < 0:
        n = -n

    def ex(F, s):
        v = [F(p + s*k*1.5*h*n) for k in (1, 2, 3, 4)]
        return 4*v[0] - 6*v[1] + 4*v[2] - v[3]
    return ex(E, 1), ex(E, -1), ex(phi, 1), ex(phi, -1), n


def boundary(ctx, case, rng, mag):
    import traceon.excitation as Ex
    import traceon.solver as S
    from traceon.geometry import Path
    s = 10**rng.uniform(-3, 1)
    V0, V1 = (float(v) for v in rng.uniform(-100, 100, size=2))
    which = case['which']
    zc = s*rng.uniform(-2, 2)
    if which == 'tube':
        R, L = s*rng.uniform(0.5, 1.2), s*rng.uniform(0.5, 1.5)
        parts = dict(lo=Path.line([0., 0., zc], [R, 0., zc]), wall=Path.line([R, 0., zc], [R, 0., zc + L]), hi=Path.line([R, 0., zc + L], [0., 0., zc + L]))
        inward = dict(wall=np.array([-1., 0, 0]))
        want = lambda q: V0 + (V1 - V0)*(q[2] - zc)/L     # noqa: E731
        pts = [np.array([rng.uniform(0, .85)*R, 0., zc + rng.uniform(.1, .9)*L]) for _ in range(6)]
        n_el, h = 40, min(R, L)/40
    elif which == 'cone':
        # between two concentric spherical caps a cone through their centre is a natural boundary: phi = A + B/r
        ang = rng.uniform(0.4, 1.2)
        r0 = s*rng.uniform(0.5, 1)
        r1 = r0*rng.uniform(1.6, 2.5)
        P = lambda r, t: [r*math.sin(t), 0., zc + r*math.cos(t)]    # noqa: E731
        cap = lambda r: Path.arc([0., 0., zc], [0., 0., zc + r], P(r, ang))    # noqa: E731
        parts = dict(lo=cap(r0), wall=Path.line(P(r0, ang), P(r1, ang)), hi=cap(r1))
        inward = dict(wall=-np.array([math.cos(ang), 0, -math.sin(ang)]))
        B = (V0 - V1)/(1/r0 - 1/r1)
        want = lambda q: V1 + B*(1/np.linalg.norm(q - [0, 0, zc]) - 1/r1)   # noqa: E731
        pts = []
        for _ in range(6):
            r, t = r0 + (r1 - r0)*rng.uniform(.12, .88), ang*rng.uniform(0, .85)
            pts.append(np.array(P(r, t)))
        h = min(r1 - r0, r0*ang)/40
    else:
        # coaxial: inner and outer cylinder, flat boundary disks
        a = s*rng.uniform(.4, .8)
        b, L = a*rng.uniform(1.5, 2.5), s*rng.uniform(.5, 1.2)
        parts = dict(lo=Path.line([a, 0., zc], [a, 0., zc + L]), wall=Path.line([a, 0., zc], [b, 0., zc]),
                     wall2=Path.line([b, 0., zc + L], [a, 0., zc + L]), hi=Path.line([b, 0., zc], [b, 0., zc + L]))
        inward = dict(wall=np.array([0., 0, 1]), wall2=np.array([0, 0, -1.]))
        want = lambda q: V0 + (V1 - V0)*math.log(math.hypot(q[0], q[1])/a)/math.log(b/a)    # noqa: E731
        pts = [np.array([a + (b - a)*rng.uniform(.12, .88), 0., zc + L*rng.uniform(.12, .88)]) for _ in range(6)]
        h = min(b - a, L)/40
    if which != 'disk' and rng.random() < .7:
        # the wall in pieces of their own name, each drawn in its own direction
        w = parts.pop('wall')
        d = inward.pop('wall')
        cuts = np.concatenate([[0.], np.sort(rng.uniform(.15, .85, size=int(rng.integers(1, 3)))), [1.]])
        for i, (c0, c1) in enumerate(zip(cuts[:-1], cuts[1:])):
            if c1 - c0 > .05:
                parts[f'wall{i}'] = Path.line(w(c0*w.path_length), w(c1*w.path_length))
                inward[f'wall{i}'] = d
            else:
                cuts[i + 1] = c0
        ctx.state('pieces of the wall', len(inward))
    m = None
    for n, p in parts.items():
        if rng.random() < 0.5:
            p = reversed_path(p)
        me = p.mesh(mesh_size=h, name=n, higher_order=True)
        m = me if m is None else m + me
    exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
    (exc.add_magnetostatic_potential if mag else exc.add_voltage)(lo=V0, hi=V1)
    add = exc.add_magnetostatic_boundary if mag else exc.add_electrostatic_boundary
    walls = list(inward)
    # a single vertical or conical wall is oriented by the documented request; flat disks have no inside of their own
    if which == 'disk':
        add(*walls, ensure_inward_normals=False)
        for w in walls:
            orient_boundary(exc.mesh, w, inward[w])
    else:
        walls = [walls[i] for i in rng.permutation(len(walls))]
        if rng.random() < .7:
            add(*walls)
        else:
            for w in walls:
                add(w)
        for w in walls:
            v = exc.mesh.points[exc.mesh.lines[exc.mesh.physical_to_lines[w]][:, :2].astype(int)]
            t = v[:, 1] - v[:, 0]
            ctx.check('boundary-normal', np.all(t[:, 2]*inward[w][0] - t[:, 0]*inward[w][2] > 0), f'normals of part of a {which} boundary do not point inward')
    f = S.solve_direct(exc)
    E, phi = E_phi(f, mag)
    dV = abs(V1 - V0) + 0.05*(abs(V0) + abs(V1))
    for q in pts:
        th = rng.uniform(0, 2*np.pi)
        q3 = np.array([q[0]*math.cos(th), q[0]*math.sin(th), q[2]])
        ctx.close('boundary-analytic', phi(q3), want(q), 0.02*dV, f'{which} with boundary walls')
    for n in walls:
        p = parts[n]
        for u in rng.uniform(0.2, 0.8, size=5)*p.path_length:
            if which != 'disk' and min(u, p.path_length - u) < 6*h:      # elements of another size begin there
                ctx.event('near-joint')
                continue
            q = p(u)
            nn = inward[n]
            e = [E(q + k*1.5*h*nn) for k in (1, 2, 3)]
            En = (3*e[0] - 3*e[1] + e[2]) @ nn
            size = max(np.linalg.norm(x) for x in e)
            ctx.close('boundary-normal', En, 0., 0.04*size + 1e-3*dV/s, f'normal field at a boundary ({which})')
    ctx.nontrivial('boundary', which, V0, V1)
    ctx.note(which=which, V0=V0, V1=V1, mag=mag)
