"""C02: every field is minus the gradient of its potential, divergence and curl free, and radially symmetric where it should be."""
import math

import numpy as np

from mon.fields import random_3d, random_magnetic, random_radial
from mon.lib import num_gradient, num_jacobian

RULE = ('random solved fields (radial electrodes, 3D bodies, coils with magnetic bodies, axial interpolations, sums of fields); every case '
        'judges finite-difference gradient, divergence and curl at random points incl. the axis; non-trivial when |field| is not zero')
ASSUMPTIONS = ['fourth-order finite differences with a step of 1.5% of the element-to-point scale are the reference',
               'points are at least a quarter of an electrode size away from surfaces']
REQUIRED = {'gradient:radial': 50, 'gradient:3d': 30, 'divergence:radial': 50, 'divergence:3d': 30, 'divergence:magnetic': 30, 'curl:radial': 50,
            'curl:3d': 30, 'curl:magnetic': 30, 'rotation': 100, 'azimuthal': 60, 'axis': 20, 'axis-linear': 20, 'gradient:axial': 30, 'gradient:sum': 10}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(24 if q else 300):
        out.append(dict(kind='radial', n_el=1 + i % 3))
    for i in range(12 if q else 150):
        out.append(dict(kind='3d', n_el=1 + i % 2, magnetic=i % 3 == 2))
    for i in range(18 if q else 220):
        out.append(dict(kind='magnetic', iron=i % 3 != 0, pot=i % 4 == 1))
    for i in range(10 if q else 120):
        out.append(dict(kind='axial', magnetic=i % 2 == 1))
    for i in range(6 if q else 80):
        out.append(dict(kind='sum', sym=['radial', '3d'][i % 2]))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def differential(ctx, s, tag, potential=True, step=0.015):
    h = step*s.size
    pts = s.points
    mag = max([np.linalg.norm(s.E(p)) for p in pts] + [1e-300])
    for p in pts:
        E = s.E(p)
        local = np.linalg.norm(E) + 1e-2*mag
        if potential:
            g = -num_gradient(s.phi, p, h)
            ctx.close('gradient:' + tag, E, g, 2e-5*local, f'field against minus the gradient of the potential at {p}')
        J = num_jacobian(s.E, p, h)
        sc = 3e-5*(np.abs(J).max() + local/s.size)
        ctx.close('divergence:' + tag, np.trace(J), 0, sc, f'divergence at {p}')
        ctx.close('curl:' + tag, [J[2, 1] - J[1, 2], J[0, 2] - J[2, 0], J[1, 0] - J[0, 1]], 0, sc, f'curl at {p}')
    ctx.nontrivial(tag, mag, len(pts))
    return mag


def symmetry(ctx, s, potential=True):
    rng = ctx.rng
    mag = max([np.linalg.norm(s.E(p)) for p in s.points] + [1e-300])
    for p in s.points:
        r = math.hypot(p[0], p[1])
        E = s.E(p)
        n = np.linalg.norm(E)
        th = rng.uniform(0, 2*np.pi) if rng.random() < 0.7 else rng.choice([0, np.pi/2, np.pi, 1.5*np.pi])
        c, sn = math.cos(th), math.sin(th)
        R = np.array([[c, -sn, 0], [sn, c, 0], [0, 0, 1]])
        q = R @ p
        ctx.close('rotation', s.E(q), R @ E, 1e-7*n + 1e-12, f'field at {p} rotated by {th} about the axis')
        if potential:
            u = s.phi(p)
            ctx.close('rotation-potential', s.phi(q), u, 1e-9*abs(u) + 1e-9*n*s.size, f'potential at {p} rotated by {th}')
        if r > 0:
            ctx.close('azimuthal', (-p[1]*E[0] + p[0]*E[1])/r, 0, 1e-9*n + 1e-13, f'azimuthal component at {p}')
        # towards the axis
        z = p[2]
        E0 = s.E([0., 0., z])
        n0 = np.linalg.norm(E0)
        # the axis point may lie inside a body of the stack: judge only outside and where the field is smooth on this scale
        if n0 < 1e-2*mag or any(e.contains(0., z) or e.distance(0., z) < 0.25*e.size for e in s.els):
            continue
        E1 = s.E([1e-3*s.size*c, 1e-3*s.size*sn, z])
        ctx.close('axis-radial', E0[:2], 0, 1e-9*mag, f'radial component on the axis at z={z}')
        if np.linalg.norm(E1 - E0) > 0.05*n0:
            continue
        # zero divergence and symmetry: close to the axis the radial component is -r/2 times the slope of the axial one
        h = 2e-2*s.size
        f = [s.E([0., 0., z + k*h])[2] for k in (-2, -1, 1, 2)]
        slope = (f[0] - 8*f[1] + 8*f[2] - f[3])/(12*h)
        for eps in (3e-4, 1e-3, 4e-3):
            r1 = eps*s.size
            Er = s.E([r1*c, r1*sn, z]) @ [c, sn, 0.]
            ctx.close('axis-linear', Er/r1, -slope/2, 2e-3*mag/s.size, f'radial component at distance {r1} from the axis, z={z}')
        for eps in (1e-15, 1e-12, 1e-10, 1e-8, 1e-6):
            q = np.array([eps*s.size*c, eps*s.size*sn, z])
            Eq = s.E(q)
            ctx.close('axis', Eq, E0 + (E1 - E0)*eps/1e-3, 1e-5*mag, f'field at distance {eps*s.size} from the axis, z={z}')


def run_case(ctx, case):
    rng = ctx.rng
    k = case['kind']
    if k == 'radial':
        s = random_radial(ctx, rng, case['n_el'], ho=bool(rng.integers(2)), scale=10**float(rng.uniform(-5, -1)) if case['s'] % 3 == 2 else None)
        differential(ctx, s, 'radial')
        symmetry(ctx, s)
        ctx.note(electrodes=[e.kind for e in s.els], points=len(s.points))
    elif k == '3d':
        s = random_3d(ctx, rng, case['n_el'], magnetic=case['magnetic'], scale=10**float(rng.uniform(-5, -1)) if case['s'] % 3 == 1 else None)
        differential(ctx, s, '3d')
        ctx.note(electrodes=[e.kind for e in s.els], magnetic=case['magnetic'], elements=len(s.mesh.triangles))
    elif k == 'magnetic':
        s = random_magnetic(ctx, rng, 1 + int(rng.integers(2)), case['iron'], pot=case['pot'],
                            scale=10**float(rng.uniform(-5, -1)) if case['s'] % 2 else None)
        differential(ctx, s, 'magnetic', potential=False)
        symmetry(ctx, s, potential=False)
        ctx.note(coils=[(c['kind'], c['center'], c['I']) for c in s.coils])
        if case['iron']:
            # without the coils the remaining field has a scalar potential
            full, s.E = s.E, lambda p: s.field.magnetostatic_field_at_point(p) - s.field.current_field_at_point(p)
            for p in s.points[:6]:
                E = s.E(p)
                loc = np.linalg.norm(E) + 1e-3*np.linalg.norm(full(p))
                ctx.close('gradient:magnetic', E, -num_gradient(s.phi, p, 0.015*s.size), 3e-5*loc, f'field of the magnetic material at {p}')
    elif k == 'axial':
        from traceon.interpolation import FieldRadialAxial
        if case['magnetic']:
            s = random_magnetic(ctx, rng, 1, True)
        else:
            s = random_radial(ctx, rng, 2)
        zmax = max([e.poly[:, 1].max() for e in s.els] + [c['center'][1] for c in s.coils])
        # an interval of the axis above all bodies
        z0 = zmax + 0.5*s.size
        z1 = z0 + 2*s.size
        N = int(rng.integers(200, 400))
        s.field = FieldRadialAxial(s.field, z0, z1, N)
        pts = []
        for i in range(12):
            r, th = 0.08*s.size*rng.random(), rng.uniform(0, 2*np.pi)
            pts.append([r*math.cos(th), r*math.sin(th), rng.uniform(z0 + 0.1*s.size, z1 - 0.1*s.size)])
        s.points = np.array(pts)
        mag = max(np.linalg.norm(s.E(p)) for p in s.points)
        for p in s.points:
            E = s.E(p)
            g = -num_gradient(s.phi, p, 0.004*s.size)
            ctx.close('gradient:axial', E, g, 2e-4*mag, f'interpolated field against the gradient of its potential at {p}')
        for p in s.points:
            th = rng.uniform(0, 2*np.pi)
            c, sn = math.cos(th), math.sin(th)
            R = np.array([[c, -sn, 0], [sn, c, 0], [0, 0, 1]])
            ctx.close('rotation', s.E(R @ p), R @ s.E(p), 1e-9*mag, f'interpolated field rotated at {p}')
            ctx.close('axis-radial', s.E([0., 0., p[2]])[:2], 0, 1e-12*mag, 'interpolated radial field on the axis')
        ctx.nontrivial('axial', mag, N)
    else:
        if case['sym'] == 'radial':
            a, b = random_radial(ctx, rng, 1, scale=1.), random_radial(ctx, rng, 2, scale=1.)
        else:
            a, b = random_3d(ctx, rng, 1, scale=1.), random_3d(ctx, rng, 2, scale=1.)
        w = float(rng.uniform(-2, 2))
        pts = [p for p in b.points if all((e.signed(p) > 0.35*e.size) if hasattr(e, 'signed') else
                                          (not e.contains(math.hypot(p[0], p[1]), p[2]) and e.distance(math.hypot(p[0], p[1]), p[2]) > 0.25*e.size)
                                          for e in a.els)]
        b.field = w*a.field + b.field
        b.points = np.array(pts).reshape(-1, 3)
        if len(pts):
            differential(ctx, b, 'sum')
