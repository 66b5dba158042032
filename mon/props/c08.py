"""C08: axial derivatives and the axial interpolation (radial and 3D series) against the field they are made from."""
import math

import numpy as np
from scipy.special import eval_legendre

from mon.fields import random_magnetic, random_radial
from mon.lib import (cluster_3d, density_of, line_quadrature, loop_field, mesh_3d, mesh_radial, radial_stack, sources_for)

RULE = ('random radial electrodes (voltages, voltage functions), coils with magnetizable material and 3D bodies; random axial intervals and numbers '
        'of samples, points near the axis at nodes, at both ends, just inside, just outside and in between; non-trivial when the field is not zero')
ASSUMPTIONS = ['derivatives of 1/rho by Legendre polynomials, integrated over the cubic elements with an own quadrature',
               'truncation of the series is bounded by the distance to the nearest source; samples are a fraction of that distance apart']
REQUIRED = {'derivatives': 300, 'derivatives-exact': 100, 'potential': 400, 'field': 400, 'outside-zero': 200, 'end-points': 60, 'nodes': 200,
            'from-coefficients': 100, 'sampling': 40, 'magnetic-field': 200, 'series-3d': 150, 'on-axis-potential': 60, 'default-sampling': 4, 'many-samples': 1800}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(24 if q else 300):
        out.append(dict(kind='derivs'))
    for i in range(16 if q else 200):
        out.append(dict(kind='exact'))
    for i in range(24 if q else 300):
        out.append(dict(kind='interp', large=i % 8 == 5))
    for i in range(20 if q else 250):
        out.append(dict(kind='magnetic', large=i % 8 == 2))
    for i in range(12 if q else 150):
        out.append(dict(kind='default'))
    for i in range(16 if q else 200):
        out.append(dict(kind='3d'))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def axis_distance(els, z):
    """Distance of (0, z) to the nearest electrode (0 inside)."""
    if any(e.contains(0., z) for e in els):
        return 0.
    return min(e.distance(0., z) for e in els)


def free_interval(rng, els, size, lo, hi, need):
    """A random interval on the axis on which every point is at least need away from the electrodes."""
    for _ in range(400):
        a = rng.uniform(lo, hi)
        L = size*10**rng.uniform(-0.7, 0.5)
        zs = np.linspace(a, a + L, 33)
        d = min(axis_distance(els, z) for z in zs)
        if d >= need:
            return a, a + L, d
    return None


def judge_points(rng, z, rmax, n):
    """Points near the axis that visit nodes, ends and the neighbourhood of both."""
    out = []
    for k in range(n):
        r = rmax*rng.uniform(0, 1) if rng.random() > .15 else rmax*10**rng.uniform(-13, -3)
        th = rng.uniform(0, 2*np.pi)
        w = k % 6
        if w == 0:
            zz = z[rng.integers(len(z))]
        elif w == 1:
            zz = z[0] if rng.random() < .5 else z[-1]
        elif w == 2:
            zz = np.nextafter(z[rng.integers(1, len(z))], -np.inf)
        elif w == 3:
            i = rng.integers(len(z) - 1)
            zz = np.nextafter(z[i], np.inf)
        elif w == 4:
            i = rng.integers(len(z) - 1)
            zz = (z[i] + z[i + 1])/2
        else:
            zz = rng.uniform(z[0], z[-1])
        out.append((np.array([r*math.cos(th), r*math.sin(th), zz]), 'nodes' if w in (0, 2, 3) else 'end-points' if w == 1 else None))
    return out


def run_case(ctx, case):
    import traceon.backend as B
    import traceon.excitation as Ex
    import traceon.interpolation as I
    import traceon.solver as S
    rng, kind = ctx.rng, case['kind']

    if kind == 'derivs':
        # the derivatives of the potential of the solved density
        s = random_radial(ctx, rng, n_el=int(rng.integers(1, 4)), n_per=int(rng.integers(12, 40)), ho=bool(rng.integers(2)))
        f, els = s.field, s.els
        lo, hi = min(e.poly[:, 1].min() for e in els), max(e.poly[:, 1].max() for e in els)
        hmax = max(np.linalg.norm(s.mesh.points[l[1]] - s.mesh.points[l[0]]) for l in s.mesh.lines)
        zs = [z for z in rng.uniform(lo - 2*s.size, hi + 2*s.size, size=40) if axis_distance(els, z) > 2*hmax][:10]
        # the elements in the order of the field's charges
        names = list(s.exc.excitation_types)
        dens = density_of(f, len(f.electrostatic_point_charges))
        V, idx = s.exc.get_electrostatic_active_elements()
        nodes, wts, den = [], [], []
        for k, v in enumerate(V):
            p, w = line_quadrature(v, 32)
            nodes.append(p), wts.append(w), den.append(np.full(len(w), dens[k]))
        nodes, wts, den = map(np.concatenate, (nodes, wts, den))
        if not zs:
            ctx.event('no-free-axis')
            return
        D = f.get_electrostatic_axial_potential_derivatives(np.array(zs))
        ctx.check('derivatives', D.shape == (len(zs), 9), f'shape {D.shape}')
        for k, z in enumerate(zs):
            rho = np.hypot(nodes[:, 0], z - nodes[:, 1])
            c = (z - nodes[:, 1])/rho
            for n in range(9):
                terms = den*wts*nodes[:, 0]/2*(-1)**n*math.factorial(n)*eval_legendre(n, c)/rho**(n + 1)
                size = np.sum(np.abs(den*wts*nodes[:, 0]/2)*math.factorial(n)/rho**(n + 1))
                ctx.close('derivatives', D[k, n], np.sum(terms), 1e-8*size, f'derivative {n} of the axial potential at z={z}')
            ctx.close('on-axis-potential', D[k, 0], f.electrostatic_potential_at_point(np.array([0., 0., z])), 1e-9*np.sum(np.abs(den*wts*nodes[:, 0]/2)/rho), 'zeroth derivative')
            ctx.close('on-axis-potential', -D[k, 1], f.electrostatic_field_at_point(np.array([0., 0., z]))[2], 1e-9*np.sum(np.abs(den*wts*nodes[:, 0]/2)/rho**2), 'first derivative')
        ctx.check('derivatives', not np.any(f.get_magnetostatic_axial_potential_derivatives(np.array(zs))) and not np.any(f.get_current_axial_potential_derivatives(np.array(zs))),
                  'magnetic derivatives of an electrostatic field')
        ctx.nontrivial('derivs', D)
        ctx.note(electrodes=[e.kind for e in els], names=names, z=zs[:3])

    elif kind == 'exact':
        # a Dirichlet problem with a known solution: all nine derivatives of the true potential
        els = radial_stack(rng, int(rng.integers(1, 3)), scale=10**rng.uniform(-1, .3), kinds=('sphere', 'blob', 'ellipse', 'ring'))
        on = [e for e in els if e.source[0] == 0.]
        from mon.lib import Harmonic
        H, sub = Harmonic(), []
        for e in els:
            q = rng.uniform(.5, 2)*rng.choice([-1, 1])*e.size
            if e in on:
                H.point(q, [0., 0., e.source[1]])
            sub.append(q)
        if not on:
            H = sources_for(els, rng)
        m = mesh_radial(els, 80, True)
        exc = Ex.Excitation(m, Ex.Symmetry.RADIAL)
        exc.add_voltage(**{e.name: (lambda x, y, z: H.pot(np.array([x, y, z]))) for e in els})
        f = S.solve_direct(exc)
        lo, hi = min(e.poly[:, 1].min() for e in els), max(e.poly[:, 1].max() for e in els)
        size = min(e.size for e in els)
        zs = [z for z in rng.uniform(lo - 2*size, hi + 2*size, size=60) if axis_distance(els, z) > .35*size][:6]
        if not zs:
            ctx.event('no-free-axis')
            return
        D = f.get_electrostatic_axial_potential_derivatives(np.array(zs))
        for k, z in enumerate(zs):
            d = axis_distance(els, z)
            if on:
                want = H.on_axis_derivatives(z, 9)
                scale = max(abs(H.pot([0., 0., z + t*d])) for t in (-.8, 0., .8))
            else:
                want = np.zeros(9)
                # rings: Legendre form
                for t, q, (a, za) in H.terms:
                    rho = math.hypot(a, z - za)
                    want += np.array([q*(-1)**n*math.factorial(n)*eval_legendre(n, (z - za)/rho)/rho**(n + 1) for n in range(9)])
                scale = max(abs(H.pot([0., 0., z + t*d])) for t in (-.8, 0., .8))
            for n in range(9):
                ctx.close('derivatives-exact', D[k, n], want[n], 5e-5*scale*math.factorial(n)/(.8*d)**n, f'derivative {n} of a known potential, {[e.kind for e in els]}')
        ctx.nontrivial('exact', D)
        ctx.note(electrodes=[e.kind for e in els])

    elif kind in ('interp', 'magnetic', 'default'):
        mag = kind == 'magnetic' or (kind == 'default' and rng.random() < .4)
        if mag:
            s = random_magnetic(ctx, rng, n_coil=int(rng.integers(0 if kind == 'magnetic' else 1, 3)), iron=bool(rng.random() < .5), pot=True)
        else:
            s = random_radial(ctx, rng, n_el=int(rng.integers(1, 4)), n_per=int(rng.integers(16, 40)), ho=bool(rng.integers(2)))
        f, els = s.field, s.els
        size = min(e.size for e in els)
        lo, hi = min(e.poly[:, 1].min() for e in els), max(e.poly[:, 1].max() for e in els)
        iv = free_interval(rng, els, size, lo - 2*size, hi + 2*size, .35*size)
        if iv is None:
            ctx.event('no-free-axis')
            return
        z0, z1, d = iv
        for c in s.coils:
            zz = np.linspace(z0, z1, 33)
            d = min(d, np.min(np.hypot(c['center'][0] - c['half'][0], np.maximum(0, np.abs(zz - c['center'][1]) - c['half'][1]))))
        if kind == 'default':
            ax = I.FieldRadialAxial(f, z0, z1)
            N = len(ax.z)
            want = int(.2*max(len(f.electrostatic_point_charges), len(f.magnetostatic_point_charges), len(f.current_point_charges)))
            ctx.event('default-n', N)
            ctx.check('default-sampling', N >= 2 and abs(N - want) <= 1, f'{N} samples by default for {want/.2:.0f} charges')
        else:
            N = int(math.ceil((z1 - z0)/(d*rng.uniform(.05, .12)))) + 1
            N = max(N, 6)
            if case.get('large'):
                N = int(rng.integers(900, 6000))     # far more samples than the field needs
                ctx.event('many-samples', N)
            ax = I.FieldRadialAxial(f, z0, z1, N=N) if rng.random() < .5 else I.FieldRadialAxial(f, z0, z1, N)
        z = ax.z
        ctx.check('sampling', len(z) == N and z[0] == z0 and z[-1] == z1, f'{len(z)} samples on [{z[0]}, {z[-1]}], asked {N} on [{z0}, {z1}]')
        ctx.close('sampling', z, z0 + (z1 - z0)*np.arange(N)/(N - 1), 1e-12*(z1 - z0) + 1e-12*abs(z0), 'equidistant samples')
        ctx.check('sampling', ax.is_electrostatic() == (not mag) and ax.is_magnetostatic() == mag, 'kind of the interpolated field')
        dz = z[1] - z[0]
        if kind == 'default' and dz > .2*d:
            ctx.event('default-too-coarse')
            # still exact at the nodes on the axis
            for zz in z:
                p = np.array([0., 0., zz])
                E = f.field_at_point(p)
                ctx.close('nodes', ax.field_at_point(p), E, 1e-7*np.linalg.norm(E) + 1e-9*ctx_scale(f, d, z, mag, s), 'field on the axis at a node')
            ctx.nontrivial('coarse', ax.z)
            return
        # sizes of the potential in the disc of analyticity
        probe = [np.array([.7*d*math.sin(t), 0., zz + .7*d*math.cos(t)]) for zz in (z0, (z0 + z1)/2, z1) for t in (0., np.pi/2, np.pi)]
        if mag:
            sE = max(np.linalg.norm(f.magnetostatic_field_at_point(p)) for p in probe)
            sV = sE*d
        else:
            sV = max(abs(f.electrostatic_potential_at_point(p)) for p in probe)
            sE = max(sV/d, max(np.linalg.norm(f.electrostatic_field_at_point(p)) for p in probe))
        rmax = .5*d
        for p, mon in judge_points(rng, z, rmax, 36):
            x = math.hypot(p[0], p[1])/(.8*d)
            tolE = (4e-6 + .3*x**9)*sE
            tolV = (5e-7 + .02*x**10)*max(sV, sE*d)
            if mag:
                E, G = f.magnetostatic_field_at_point(p), ax.magnetostatic_field_at_point(p)
                ctx.close('magnetic-field', G, E, tolE, f'interpolated magnetic field at {p}, {N} samples on [{z0}, {z1}]')
                ctx.close('field', ax.field_at_point(p), G, 0, 'field_at_point')
                ctx.check('field', not np.any(ax.electrostatic_field_at_point(p)), 'electric field of a magnetic field')
            else:
                E, G = f.electrostatic_field_at_point(p), ax.electrostatic_field_at_point(p)
                ctx.close('field', G, E, tolE, f'interpolated field at {p}, {N} samples on [{z0}, {z1}]')
                ctx.close('field', ax.field_at_point(p), G, 0, 'field_at_point')
                V, W = f.electrostatic_potential_at_point(p), ax.electrostatic_potential_at_point(p)
                ctx.close('potential', W, V, tolV, f'interpolated potential at {p}')
                ctx.close('potential', ax.potential_at_point(p), W, 0, 'potential_at_point')
            if mon:
                ctx.close(mon, G, E, tolE, f'at a {mon}: {p[2]!r} of [{z0}, {z1}]')
        if mag:
            for _ in range(6):
                zz = z[rng.integers(N)] if rng.random() < .5 else rng.uniform(z0, z1)
                p = np.array([0., 0., zz])
                want = f.current_potential_axial(float(zz)) + f.magnetostatic_potential_at_point(p)
                ctx.close('on-axis-potential', ax.magnetostatic_potential_at_point(p), want, 1e-5*(sV + abs(want)), 'magnetic potential on the axis')
        # the same field made from its coefficients
        import traceon.solver as S
        both = rng.random() < .5
        ax2 = S.FieldRadialAxial(z, *((ax.electrostatic_coeffs, ax.magnetostatic_coeffs) if both else (None, ax.magnetostatic_coeffs) if mag else (ax.electrostatic_coeffs,)))
        for p, _ in judge_points(rng, z, rmax, 4)[:8]:
            if mag:
                ctx.close('from-coefficients', [*ax2.magnetostatic_field_at_point(p), ax2.magnetostatic_potential_at_point(p)],
                          [*ax.magnetostatic_field_at_point(p), ax.magnetostatic_potential_at_point(p)], 0, 'magnetic field made from the coefficients')
            else:
                ctx.close('from-coefficients', [*ax2.electrostatic_field_at_point(p), ax2.electrostatic_potential_at_point(p)],
                          [*ax.electrostatic_field_at_point(p), ax.electrostatic_potential_at_point(p)], 0, 'field made from the coefficients')
            ctx.check('from-coefficients', not np.any(ax2.electrostatic_field_at_point(p) if mag else ax2.magnetostatic_field_at_point(p)), 'the field of the other kind')
            ctx.close('from-coefficients', ax2.field_at_point(p), ax.field_at_point(p), 0, 'field_at_point')
        ctx.check('from-coefficients', ax2.is_electrostatic() == (not mag) and ax2.is_magnetostatic() == mag and np.array_equal(ax2.z, z), 'kind of the field made from the coefficients')
        # the series is nearly exact close to the axis at the nodes
        for _ in range(6):
            zz = z[rng.integers(N)]
            r, th = .06*d*rng.uniform(0, 1), rng.uniform(0, 2*np.pi)
            p = np.array([r*math.cos(th), r*math.sin(th), zz])
            ctx.close('nodes', ax.field_at_point(p), f.field_at_point(p), 3e-7*sE, 'close to the axis at a node')
        for k in range(10):
            gap = [0, 1e-9, .1, 1., 5.][k % 5]*(z1 - z0)
            zz = z1 + gap if k < 5 else z0 - gap
            zz = np.nextafter(zz, np.inf if k < 5 else -np.inf)
            p = np.array([rmax*rng.uniform(0, 1), rmax*rng.uniform(-1, 1), zz])
            ctx.check('outside-zero', not np.any(ax.electrostatic_field_at_point(p)) and not np.any(ax.magnetostatic_field_at_point(p))
                      and ax.electrostatic_potential_at_point(p) == 0. and ax.magnetostatic_potential_at_point(p) == 0., f'not zero at z={zz!r} outside [{z0!r}, {z1!r}]')
        ctx.nontrivial(kind, z, sE)
        ctx.note(electrodes=[e.kind for e in els], coils=len(s.coils), interval=(z0, z1), N=N, free=d)

    else:
        from scipy.interpolate import CubicSpline
        sc = 10**rng.uniform(-1, .3)
        els = cluster_3d(rng, int(rng.integers(2, 5)), scale=sc)
        m = mesh_3d(els, mesh_size=.6)
        exc = Ex.Excitation(m, Ex.Symmetry.THREE_D)
        magn = rng.random() < .3
        (exc.add_magnetostatic_potential if magn else exc.add_voltage)(**{e.name: float(rng.uniform(-100, 100)) for e in els})
        f = S.solve_direct(exc)
        q = f.magnetostatic_point_charges if magn else f.electrostatic_point_charges
        for _ in range(200):
            c = sc*rng.uniform(-.3, .3, size=2)*0
            a, L = sc*rng.uniform(-2, 2), sc*10**rng.uniform(-.5, .2)
            zz = np.linspace(a, a + L, 21)
            d = min(np.linalg.norm(q.positions.reshape(-1, 3) - np.array([c[0], c[1], t]), axis=1).min() for t in zz)
            inside = any(e.contains(np.array([c[0], c[1], t])) for e in els for t in zz)
            if d > .3*sc and not inside:
                break
        else:
            ctx.event('no-free-axis')
            return
        N = int(math.ceil(L/(d*rng.uniform(.04, .09)))) + 1
        z = np.linspace(a, a + L, max(N, 6))
        co = B.axial_coefficients_3d(q.charges, q.jacobians, q.positions, z)
        for i in sorted({0, len(z)//3, len(z) - 1}):
            want, size = multipoles(q, z[i])
            ctx.close('coefficients-3d', (co[i] - want)/size, 0., 1e-10, f'coefficients of the 3D series at z={z[i]} (relative to the sum of their sizes)')
        cs = np.ascontiguousarray(np.moveaxis(CubicSpline(z, co).c, 0, -1))
        E = f.magnetostatic_field_at_point if magn else f.electrostatic_field_at_point
        phi = f.magnetostatic_potential_at_point if magn else f.electrostatic_potential_at_point
        probe = [np.array([.7*d*math.sin(t)*math.cos(u), .7*d*math.sin(t)*math.sin(u), zz + .7*d*math.cos(t)]) for zz in (z[0], z.mean(), z[-1]) for t in (0., np.pi/2, np.pi) for u in (0., 2., 4.)]
        sV = max(abs(phi(p)) for p in probe)
        sE = max(sV/d, max(np.linalg.norm(E(p)) for p in probe))
        for p, mon in judge_points(rng, z, .4*d, 24):
            if np.hypot(p[0], p[1]) < 1e-9*d:
                ctx.event('on-axis-3d')
            edge = 8 if p[2] < z[0] + 2*(z[1] - z[0]) or p[2] > z[-1] - 2*(z[1] - z[0]) else 1     # not-a-knot ends of the harness's own spline
            x = math.hypot(p[0], p[1])/(.8*d)
            tolV, tolE = edge*(2e-5 + x**8)*sV, edge*(1e-4 + 4*x**7)*sE
            ctx.close('series-3d', B.potential_3d_derivs(p, z, cs), phi(p), tolV, f'3D series potential at {p}')
            ctx.close('series-3d', B.field_3d_derivs(p, z, cs), E(p), tolE, f'3D series field at {p}')
            if mon:
                ctx.close(mon, B.potential_3d_derivs(p, z, cs), phi(p), tolV, f'3D series at {mon}')
        for k in range(6):
            zz = z[-1] + [0, .1, 3.][k % 3]*L if k < 3 else z[0] - [0, .1, 3.][k % 3]*L
            zz = np.nextafter(zz, np.inf if k < 3 else -np.inf)
            p = np.array([.1*d, .05*d, zz])
            ctx.check('outside-zero', B.potential_3d_derivs(p, z, cs) == 0. and not np.any(B.field_3d_derivs(p, z, cs)), f'3D series not zero at {zz!r} outside [{z[0]}, {z[-1]}]')
        ctx.nontrivial('3d', z, co)
        ctx.note(bodies=[e.kind for e in els], magnetic=bool(magn), N=len(z), free=d)


def multipoles(q, z):
    """Coefficients of r^(m + 2 nu) cos(m phi), sin(m phi) on the axis -> (2, 4, 8), and the sum of the sizes of their parts.

    For a point charge the terms r^m cos(m phi) follow from the binomial series of 1/distance, the others are derivatives with respect to z by Laplace's equation."""
    from scipy.special import eval_gegenbauer, factorial, factorial2
    P, w = q.positions.reshape(-1, 3), (q.charges[:, None]*q.jacobians).ravel()
    rho, mu, s = np.hypot(P[:, 0], P[:, 1]), np.arctan2(P[:, 1], P[:, 0]), z - P[:, 2]
    R = np.hypot(rho, s)
    out, size = np.zeros((2, 4, 8)), np.zeros((2, 4, 8))
    for nu in range(4):
        for m in range(8):
            lead = 1. if m == 0 else factorial2(2*m - 1)/factorial(m)*2.**(1 - m)
            n = 2*nu
            d = factorial(n)*R**-(2*m + 1. + n)*eval_gegenbauer(n, m + .5, -s/R)
            v = (-1)**nu*factorial(m)/(4.**nu*factorial(nu)*factorial(nu + m))*lead*rho**m*d/(4*np.pi)*w
            out[0, nu, m], out[1, nu, m] = np.sum(v*np.cos(m*mu)), np.sum(v*np.sin(m*mu))
            size[:, nu, m] = np.sum(np.abs(factorial(n)*R**-(2*m + 1. + n)*eval_gegenbauer(n, m + .5, 1.)*rho**m*w*lead*factorial(m)/(4.**nu*factorial(nu)*factorial(nu + m))/(4*np.pi)))
    return out, size


def ctx_scale(f, d, z, mag, s):
    return max(np.linalg.norm(f.field_at_point(np.array([0., 0., zz]))) for zz in z)


__all__ = ['loop_field']
