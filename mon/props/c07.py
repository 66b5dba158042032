"""C07: coils (Biot-Savart, Ampere, axial derivatives) and magnetic material next to coils."""
import math

import numpy as np
from scipy.special import eval_legendre, lpmv

from mon.fields import coil_surface
from mon.lib import cluster_3d, gauss, loop_field, mesh_3d, mesh_radial, outside_3d, outside_points, radial_stack, reversed_path
from mon.props.c06 import sample_jump, sphere_path

RULE = ('random coils (rectangle, sheared quadrilateral, disk cross sections, any mesh), alone and next to magnetizable bodies and bodies at a '
        'magnetostatic potential; non-trivial when the current is not zero')
ASSUMPTIONS = ['Biot-Savart of circular loops in elliptic integrals (scipy), integrated over the exact cross section',
               'disk cross sections are polygons after meshing (tolerance of the mesh)']
REQUIRED = {'biot-savart': 300, 'ampere': 40, 'ampere-empty': 20, 'mesh-independent': 60, 'axial-derivatives': 200, 'axial-field': 60,
            'iron-sphere': 60, 'iron-jump': 40, 'dual-potential': 30, 'split-coil': 20, 'on-axis': 40, 'large': 20, 'large-triangles': 9000}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(24 if q else 300):
        out.append(dict(kind='biot', n=1 + i % 3))
    for i in range(10 if q else 100):
        out.append(dict(kind='mesh'))
    for i in range(12 if q else 150):
        out.append(dict(kind='derivs'))
    for i in range(3 if q else 24):
        out.append(dict(kind='large', n=1 + i % 2))
    for i in range(14 if q else 150):
        out.append(dict(kind='iron-sphere'))
    for i in range(10 if q else 100):
        out.append(dict(kind='iron-jump'))
    for i in range(6 if q else 60):
        out.append(dict(kind='dual', three_d=i % 3 == 2))
    for i, c in enumerate(out):
        c['s'] = i
        c['k'] = c.pop('n', 1)
    return out


def random_coils(rng, n, sc, z0=0.):
    from traceon.geometry import Path  # noqa: F401
    out, top = [], z0
    for i in range(n):
        w, h = sc*10**rng.uniform(-1, -0.3, size=2)
        r0 = w + max(w, h)*10**rng.uniform(-0.1, 0.8)
        zc = top + h + sc*rng.uniform(0.02, 0.5)
        top = zc + h
        s, pts, wt, kind = coil_surface(rng, r0, zc, w, h)
        s.name = f'coil{i}'
        out.append(dict(surface=s, pts=pts, w=wt, kind=kind, name=s.name, r0=r0, z0=zc, hw=w, hh=h, I=float(rng.uniform(0.1, 10)*rng.choice([-1, 1]))))
    return out


def mesh_coils(rng, coils, factor=None):
    m = None
    for c in coils:
        k = rng.uniform(1.5, 4) if factor is None else factor
        me = c['surface'].mesh(mesh_size=2*max(c['hw'], c['hh'])/k)
        m = me if m is None else m + me
    return m


def reference(coils, p):
    r, z = math.hypot(p[0], p[1]), p[2]
    Hr = Hz = 0.
    for c in coils:
        a, b = loop_field(c['pts'][:, 0], c['pts'][:, 1], 1., r, z)
        Hr += c['I']*float(c['w'] @ a)
        Hz += c['I']*float(c['w'] @ b)
    u = np.array([p[0], p[1]])/r if r > 0 else np.zeros(2)
    return np.array([Hr*u[0], Hr*u[1], Hz])


def far_points(rng, coils, n, sc, margin):
    out = []
    t = 0
    zs = [c['z0'] for c in coils]
    while len(out) < n and t < 4000:
        t += 1
        r = rng.uniform(0, 2.5*sc) if rng.random() < 0.85 else 10**rng.uniform(-14, -3)*sc
        z = rng.uniform(min(zs) - 2*sc, max(zs) + 2*sc)
        if any(abs(r - c['r0']) < c['hw']*(1 + margin) and abs(z - c['z0']) < c['hh']*(1 + margin) + margin*min(c['hw'], c['r0'] - c['hw'] + c['hw']) for c in coils):
            continue
        th = rng.uniform(0, 2*np.pi)
        out.append(np.array([r*math.cos(th), r*math.sin(th), z]))
    return out


def run_case(ctx, case):
    import traceon.excitation as Ex
    import traceon.solver as S
    rng, kind = ctx.rng, case['kind']
    sc = 10**rng.uniform(-3, 1)
    tol_of = lambda cs: 6e-3 if any(c['kind'] == 'disk' for c in cs) else 1e-3     # noqa: E731

    if kind == 'biot':
        coils = random_coils(rng, case['k'], sc)
        m = mesh_coils(rng, coils)
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        exc.add_current(**{c['name']: (c['I'] if rng.random() < .8 else int(np.sign(c['I']))) for c in coils})
        for c in coils:
            c['I'] = float(exc.excitation_types[c['name']][1])
        f = S.solve_direct(exc)
        ctx.check('kind', f.is_magnetostatic() and not f.is_electrostatic(), 'kind of the field of a coil')
        Href = max(abs(c['I'])/c['r0'] for c in coils)
        for p in far_points(rng, coils, 12, sc, 0.5):
            want = reference(coils, p)
            got = f.magnetostatic_field_at_point(p)
            size = sum(np.linalg.norm(reference([c], p)) for c in coils)
            ctx.close('biot-savart', got, want, 3*tol_of(coils)*size + 1e-3*tol_of(coils)*Href, f'field of {[c["kind"] for c in coils]}')
            ctx.close('biot-savart', f.field_at_point(p), got, 0, 'field_at_point')
            ctx.close('biot-savart', f.current_field_at_point(p), got, 1e-12*size, 'without magnetic material all field is from the coils')
        for _ in range(4):
            z = coils[0]['z0'] + sc*rng.uniform(-2, 2)
            want = reference(coils, [0., 0., z])[2]
            ctx.close('on-axis', f.field_at_point(np.array([0., 0., z])), [0, 0, want], 3*tol_of(coils)*sum(np.linalg.norm(reference([c], [0., 0., z])) for c in coils) + 1e-3*tol_of(coils)*Href, 'on the axis')
        # Ampere: up on the inside, outwards above, down outside, back below
        x, w = gauss(40)
        for k, c in enumerate(coils):
            gaps = [abs(o['z0'] - c['z0']) - o['hh'] - c['hh'] for o in coils if o is not c]
            d = min([0.6*c['hh']] + [g/2 for g in gaps])
            ri = (c['r0'] - c['hw'])*rng.uniform(0, 0.6)
            ro = c['r0'] + c['hw']*rng.uniform(1.6, 4)
            z0, z1 = c['z0'] - c['hh'] - d, c['z0'] + c['hh'] + d
            tot = []
            for n in (1, 2):
                s = 0.
                for (a, b) in (((ri, z0), (ri, z1)), ((ri, z1), (ro, z1)), ((ro, z1), (ro, z0)), ((ro, z0), (ri, z0))):
                    a, b = np.array(a), np.array(b)
                    e = np.linspace(0, 1, 3*n + 1)
                    for u, v in zip(e[:-1], e[1:]):
                        for t, wt in zip((u + v)/2 + (v - u)/2*x, w*(v - u)/2):
                            q = a + t*(b - a)
                            H = f.magnetostatic_field_at_point(np.array([q[0], 0., q[1]]))
                            s += wt*(H[0]*(b - a)[0] + H[2]*(b - a)[1])
                tot.append(s)
            if abs(tot[0] - tot[1]) > 1e-3*abs(c['I']):
                ctx.event('circulation-not-converged')
                continue
            ctx.close('ampere', tot[1], c['I'], 3e-4*sum(abs(o['I']) for o in coils) + 3*abs(tot[0] - tot[1]), f'circulation around a {c["kind"]} coil')
        # a loop that encloses nothing: above everything
        zt = max(c['z0'] + c['hh'] for c in coils)
        for _ in range(2):
            z0 = zt + sc*rng.uniform(.15, .5)
            z1, r0, r1 = z0 + sc*rng.uniform(.2, 2), sc*rng.uniform(0, .5), sc*rng.uniform(.6, 2)
            s = 0.
            for (a, b) in (((r0, z0), (r0, z1)), ((r0, z1), (r1, z1)), ((r1, z1), (r1, z0)), ((r1, z0), (r0, z0))):
                a, b = np.array(a), np.array(b)
                for t, wt in zip((1 + x)/2, w/2):
                    q = a + t*(b - a)
                    H = f.magnetostatic_field_at_point(np.array([0., q[0], q[1]]))
                    s += wt*(H[1]*(b - a)[0] + H[2]*(b - a)[1])
            ctx.close('ampere-empty', s, 0., 1e-4*sum(abs(o['I']) for o in coils), 'circulation around nothing')
        ctx.nontrivial('biot', [c['kind'] for c in coils], [c['I'] for c in coils])
        ctx.note(coils=[(c['kind'], c['I']) for c in coils], scale=sc)

    elif kind == 'large':
        # one coil of many triangles: the same field, and derivatives that belong to it
        coils = random_coils(rng, case['k'], sc)
        m = mesh_coils(rng, coils[:1], float(rng.uniform(90, 130)))
        for c in coils[1:]:
            m = m + mesh_coils(rng, [c])
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        exc.add_current(**{c['name']: c['I'] for c in coils})
        f = S.solve_direct(exc)
        n = len(f.current_point_charges)
        ctx.event('large-triangles', n)
        for p in far_points(rng, coils, 6, sc, 0.3):
            want = reference(coils, p)
            size = sum(np.linalg.norm(reference([c], p)) for c in coils)
            ctx.close('large', f.magnetostatic_field_at_point(p), want, 3*tol_of(coils)*size, f'field of {[c["kind"] for c in coils]} of {n} triangles')
        z = coils[0]['z0'] + sc*rng.uniform(-2, 2, size=3)
        D = f.get_magnetostatic_axial_potential_derivatives(z)
        for k, zz in enumerate(z):
            H = reference(coils, [0., 0., zz])[2]
            size = sum(np.linalg.norm(reference([c], [0., 0., zz])) for c in coils)
            ctx.close('large', -D[k, 1], H, 3*tol_of(coils)*size, f'first axial derivative, {n} triangles')
        ctx.nontrivial('large', n, D)
        ctx.note(triangles=n, coils=[(c['kind'], c['I']) for c in coils])

    elif kind == 'mesh':
        coils = random_coils(rng, 1, sc)
        c = coils[0]
        pts = far_points(rng, coils, 8, sc, 0.6)
        res = []
        for variant in ('coarse', 'fine', 'factor', 'half'):
            if variant == 'half' and c['kind'] != 'rect':
                continue
            if variant == 'coarse':
                m = c['surface'].mesh(mesh_size=1.5*max(c['hw'], c['hh']))
            elif variant == 'fine':
                m = c['surface'].mesh(mesh_size=max(c['hw'], c['hh'])/4)
            elif variant == 'factor':
                m = c['surface'].mesh(mesh_size_factor=int(rng.integers(1, 4)))
            else:
                from traceon.geometry import Surface
                zs = c['z0'] + c['hh']*rng.uniform(-.7, .7)
                a = Surface.rectangle_xz(c['r0'] - c['hw'], c['r0'] + c['hw'], c['z0'] - c['hh'], zs)
                b = Surface.rectangle_xz(c['r0'] - c['hw'], c['r0'] + c['hw'], zs, c['z0'] + c['hh'])
                a.name, b.name = 'lo', 'hi'
                m = a.mesh(mesh_size=max(c['hw'], c['hh'])/2) + b.mesh(mesh_size=max(c['hw'], c['hh'])/1.5)
            exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
            if variant == 'half':
                k = (zs - (c['z0'] - c['hh']))/(2*c['hh'])
                exc.add_current(lo=c['I']*k, hi=c['I']*(1 - k))
            else:
                exc.add_current(**{c['name']: c['I']})
            f = S.solve_direct(exc)
            res.append((variant, np.array([f.field_at_point(p) for p in pts])))
        want = np.array([reference(coils, p) for p in pts])
        size = np.linalg.norm(want, axis=1)[:, None] + 1e-3*abs(c['I'])/c['r0']
        for v, r in res:
            ctx.close('split-coil' if v == 'half' else 'mesh-independent', r, want, (3e-2 if c['kind'] == 'disk' else 4e-3)*(4 if v in ('factor', 'coarse') else 1)*size, f'{c["kind"]} coil, {v} mesh')
        ctx.nontrivial('mesh', c['kind'], c['I'], want)
        ctx.note(kind=c['kind'], I=c['I'], variants=[v for v, _ in res])

    elif kind == 'derivs':
        coils = random_coils(rng, int(rng.integers(1, 3)), sc)
        m = mesh_coils(rng, coils)
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        exc.add_current(**{c['name']: c['I'] for c in coils})
        f = S.solve_direct(exc)
        z = np.concatenate([coils[0]['z0'] + sc*rng.uniform(-2, 2, size=5), [c['z0'] for c in coils]])
        D = f.get_current_axial_potential_derivatives(z)
        D2 = f.get_magnetostatic_axial_potential_derivatives(z)
        ctx.close('axial-derivatives', D2, D, 1e-12*np.abs(D) + 1e-300, 'all derivatives are from the coils')
        rmin = min(float(c['pts'][:, 0].min()) for c in coils)
        th = 2*np.pi*(np.arange(128) + 0.5)/128
        e = np.exp(1j*th)
        for k, zz in enumerate(z):
            H = f.field_at_point(np.array([0., 0., zz]))
            ctx.close('axial-field', -D[k, 1], H[2], 1e-9*abs(H[2]) + 1e-12*max(abs(c['I'])/c['r0'] for c in coils), 'minus the first derivative is the field on the axis')
            # derivatives by Cauchy's integral of the closed form on the axis, over circles inside the region of analyticity
            dist = min(float(np.min(np.hypot(c['pts'][:, 0], c['pts'][:, 1] - zz))) for c in coils)
            R = 0.6*dist
            Hc = sum(c['I']*(0.5*c['pts'][:, 0]**2/(c['pts'][:, 0]**2 + (zz + R*e[:, None] - c['pts'][:, 1])**2)**1.5) @ c['w'] for c in coils)
            for n in range(1, 9):
                want = -math.factorial(n - 1)*np.mean(Hc*e**(-(n - 1))).real/R**(n - 1)
                size = math.factorial(n - 1)*sum(abs(c['I']) for c in coils)/dist**n
                ctx.close('axial-derivatives', D[k, n], want, (0.02 if tol_of(coils) > 2e-3 else 4e-3)*size, f'derivative {n} of the axial potential of {[c["kind"] for c in coils]}')
            ctx.close('axial-derivatives', f.current_potential_axial(float(zz)), D[k, 0], 1e-9*sum(abs(c['I']) for c in coils), 'potential on the axis')
        # differences of the potential are integrals of the field
        a, b = np.sort(z[:2])
        x, w = gauss(60)
        I = sum(wt*(b - a)/2*reference(coils, [0, 0, (a + b)/2 + (b - a)/2*t])[2] for t, wt in zip(x, w))
        pa, pb = f.current_potential_axial(float(a)), f.current_potential_axial(float(b))
        ctx.close('axial-derivatives', pa - pb, I, 3*tol_of(coils)*sum(abs(c['I']) for c in coils), 'drop of the axial potential')
        ctx.nontrivial('derivs', D)
        ctx.note(coils=[(c['kind'], c['I']) for c in coils], rmin=rmin)

    elif kind == 'iron-sphere':
        mu = float(rng.choice([0.2, 0.5, 2., 5., 20., 500.]))
        a = sc*rng.uniform(.5, 1)
        coils = []
        for i in range(int(rng.integers(1, 3))):
            w, h = a*rng.uniform(.1, .4, size=2)
            r0, zc = a*1.3 + w + a*rng.uniform(0, .5), a*(rng.uniform(-1, -.4) if i else rng.uniform(.1, 1))
            s, pts, wt, kd = coil_surface(rng, r0, zc, w, h, kind=['rect', 'quad'][rng.integers(2)])
            s.name = f'coil{i}'
            coils.append(dict(surface=s, pts=pts, w=wt, kind=kd, name=s.name, r0=r0, z0=zc, hw=w, hh=h, I=float(rng.uniform(-10, 10))))
            if i == 1 and abs(coils[0]['z0'] - zc) < coils[0]['hh'] + h:
                coils.pop()
        p = sphere_path(a, 0.)
        if rng.random() < .5:
            p = reversed_path(p)
        ho = bool(rng.random() < .7)
        m = p.mesh(mesh_size=p.path_length/(60 if ho else 150), higher_order=ho, name='iron')
        mc = mesh_coils(rng, coils, 3.)
        m = m + mc if rng.random() < .5 else mc + m
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        exc.add_magnetizable(iron=mu)
        exc.add_current(**{c['name']: c['I'] for c in coils})
        f = S.solve_direct(exc)
        # applied potential -sum_n I sin^2(al)/(2 rho) (r/rho)^n r/(n+1) P'_{n+1}(cos al) P_{n+1}(cos th), response by the Legendre modes of the sphere
        L = 60
        coef = np.zeros(L + 1)
        for c in coils:
            rho = np.hypot(c['pts'][:, 0], c['pts'][:, 1])
            ca = c['pts'][:, 1]/rho
            sa = np.sqrt(1 - ca**2)
            for l in range(1, L + 1):
                dP = -lpmv(1, l, ca)/sa     # scipy's lpmv carries the Condon-Shortley phase
                coef[l] += -c['I']*float(np.sum(c['w']*sa**2/(2*rho)*dP*(a/rho)**(l - 1)*a/l))

        def response(q):
            r = np.linalg.norm(q)
            ct = q[2]/r if r > 0 else 1.
            s = 0.
            for l in range(1, L + 1):
                G = -l*(mu - 1)/(l*mu + l + 1)
                s += G*coef[l]*((r/a)**l if r < a else (a/r)**(l + 1))*eval_legendre(l, ct)
            return s
        scale = np.abs(coef).max()*abs(mu - 1)/(mu + 2)
        from mon.lib import num_gradient
        tol = (3e-3 if ho else 2e-2)*max(1, mu/8)
        for k in range(10):
            r = rng.uniform(0, .88)*a if k % 2 else a*rng.uniform(1.12, 2.5)
            ct, ph = rng.uniform(-1, 1), rng.uniform(0, 2*np.pi)
            q = r*np.array([math.sqrt(1 - ct*ct)*math.cos(ph), math.sqrt(1 - ct*ct)*math.sin(ph), ct])
            ctx.close('iron-sphere', f.magnetostatic_potential_at_point(q), response(q), tol*scale, f'potential of the magnetized sphere (constant {mu}), {"in" if r < a else "out"}side')
            if any(abs(math.hypot(q[0], q[1]) - c['r0']) < 1.4*c['hw'] and abs(q[2] - c['z0']) < 1.4*c['hh'] for c in coils):
                continue
            want = reference(coils, q) - num_gradient(response, q, 1e-3*a)
            ctx.close('iron-sphere', f.magnetostatic_field_at_point(q), want, 4*tol*scale/a + 3e-3*np.linalg.norm(reference(coils, q)), 'total field of coil and sphere')
        ctx.nontrivial('iron', mu, coef)
        ctx.note(mu=mu, coils=[(c['kind'], c['I']) for c in coils], ho=ho)

    elif kind == 'iron-jump':
        mu = float(rng.choice([0.3, 3., 10., 100.]))
        els = radial_stack(rng, 2, scale=sc, kinds=('sphere', 'blob', 'ring', 'ellipse'))
        body, pole = els
        m = body.path.mesh(mesh_size=body.path.path_length/90, higher_order=True, name=body.name)
        m = m + pole.path.mesh(mesh_size=pole.path.path_length/30, higher_order=True, name=pole.name)
        top = pole.poly[:, 1].max()
        coils = random_coils(rng, 1, body.size, z0=top + .2*sc) if rng.random() < .4 else None
        if coils is None:
            w, h = body.size*rng.uniform(.1, .3, size=2)
            r0 = body.poly[:, 0].max() + 0.6*body.size
            s, pts, wt, kd = coil_surface(rng, r0 + w, body.poly[:, 1].mean(), w, h, kind='rect')
            s.name = 'coil0'
            coils = [dict(surface=s, pts=pts, w=wt, kind=kd, name='coil0', r0=r0 + w, z0=body.poly[:, 1].mean(), hw=w, hh=h, I=float(rng.uniform(1, 10)))]
        m = m + mesh_coils(rng, coils, 3.)
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        exc.add_magnetizable(**{body.name: mu})
        V = float(rng.uniform(-5, 5)) if rng.random() < .5 else 0.
        exc.add_magnetostatic_potential(**{pole.name: V})
        exc.add_current(coil0=coils[0]['I'])
        f = S.solve_direct(exc)
        E, phi = f.magnetostatic_field_at_point, f.magnetostatic_potential_at_point
        L = body.path.path_length
        h = L/90
        t = np.linspace(0.04, 0.96, 9)*L
        vs = [sample_jump(body.path, u, h, E, phi, L) for u in t]
        sE = max(max(np.linalg.norm(v[0]), np.linalg.norm(v[1])) for v in vs)
        sD = max(max(abs(v[4] @ v[0]), mu*abs(v[4] @ v[1])) for v in vs)
        for u, (Eo, Ei, po, pi, n) in zip(t, vs):
            ctx.close('iron-jump', Eo @ n, mu*(Ei @ n), 0.04*sD + 4e-3*mu*sE, f'normal B across {body.kind} with constant {mu} next to a coil')
            tang = np.array([n[2], 0, -n[0]])
            ctx.close('iron-jump', Eo @ tang, Ei @ tang, 0.025*sE, 'tangential H')
        ctx.nontrivial('jump', body.kind, mu, V)
        ctx.note(body=body.kind, mu=mu, V=V)

    else:
        sym = Ex.Symmetry.THREE_D if case['three_d'] else Ex.Symmetry.RADIAL
        if case['three_d']:
            els = cluster_3d(rng, 2)
            m = mesh_3d(els, mesh_size=0.5)
            pts = outside_3d(els, rng, 8, 0.3, 3.)
        else:
            els = radial_stack(rng, 3, scale=sc)
            m = mesh_radial(els, 30, bool(rng.integers(2)))
            pts = outside_points(els, rng, 8, 0.2)
        V = {e.name: float(rng.uniform(-100, 100)) for e in els}
        a, b = Ex.Excitation(m, sym), Ex.Excitation(m, sym)
        a.add_voltage(**V)
        b.add_magnetostatic_potential(**V)
        fa, fb = S.solve_direct(a), S.solve_direct(b)
        for p in pts:
            H, E = fb.magnetostatic_field_at_point(p), fa.electrostatic_field_at_point(p)
            ctx.close('dual-potential', H, E, 1e-9*np.linalg.norm(E) + 1e-9*max(map(abs, V.values()))/els[0].size, 'field of magnetostatic potentials against voltages')
            ctx.close('dual-potential', fb.magnetostatic_potential_at_point(p), fa.electrostatic_potential_at_point(p), 1e-8*max(map(abs, V.values())), 'potential')
            ctx.check('dual-potential', not np.any(fb.electrostatic_field_at_point(p)) and not np.any(fa.magnetostatic_field_at_point(p)), 'the other field is zero')
        ctx.nontrivial('dual', V)
        ctx.note(V=V, three_d=case['three_d'])
