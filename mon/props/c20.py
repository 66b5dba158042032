"""C20: every special function, ring kernel and element integral of the backend is called over its whole domain and each value is compared with
its defining integral evaluated independently (extended precision arithmetic-geometric means, trapezoid sums over the ring, Gauss rules)."""
import math

import numpy as np

from mon.lib import cubic_line, gauss, triangle_potential_field

RULE = ('elliptic parameters from -1e12 to 1 with 1-m down to 1e-300; rings and targets of every scale from 1e-6 to 1e8, far, near (1e-9) and on or next to the axis; triangles of '
        'scale 1e-9 to 1e8 and aspect up to 100, targets near, far, in their plane, over edges and inside; straight and curved line elements of scale 1e-6 to 1e6; smooth, peaked, '
        'and logarithmic integrands; distinct arguments are counted')
ASSUMPTIONS = ['radial kernels treat radii below 1e-10 as on the axis', 'adaptive quadrature is asked for convergent integrals on a <= b; its tolerance is per interval; jumps and kinks between its nodes are beyond any such rule',
               'cancellation intrinsic to the closed forms (small radius, far loops) is allowed for: a few thousand rounding errors of the largest term',
               'triangle potential and flux are for targets off the triangle, the self potential for targets inside it']
REQUIRED = {'elliptic': 20000, 'legendre': 2000, 'ring-potential': 4000, 'ring-derivative': 8000, 'loop-field': 8000, 'axial-derivative': 3000, 'triangle-potential': 2500,
            'triangle-flux': 2500, 'self-potential-triangle': 1500, 'element-geometry': 8000, 'quadrature-rule': 1500, 'adaptive': 300, 'self-radial': 300, 'point-kernel': 3000,
            'invariance': 1500, 'factor': 1000, 'lorentz': 1000}

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for kind, n in (('elliptic', 8), ('ring', 16), ('loop', 16), ('axial', 8), ('triangle', 24), ('self3d', 12), ('geometry', 12), ('rules', 12), ('adaptive', 12), ('selfradial', 16),
                    ('misc', 8)):
        for i in range(n if q else 12*n):
            out.append(dict(kind=kind, mode=i))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def run_case(ctx, case):
    globals()['run_' + case['kind']](ctx, case, ctx.rng)


# ------------------------------------------------------------------ references in extended precision
def ellip_KE(p):
    """K and E of the complementary parameter p = 1 - m > 0, by the arithmetic-geometric mean."""
    p = np.asarray(p, LD)
    big = p > 1
    q = np.where(big, 1/p, p)
    a, b, s, f = np.ones_like(q), np.sqrt(q), (1 - q)/2, LD(1)/2
    for _ in range(40):
        c = (a - b)/2
        a, b = (a + b)/2, np.sqrt(a*b)
        f *= 2
        s = s + f*c*c
        if np.max(np.abs(c)) < 1e-25:
            break
    K = PI/(2*a)
    E = K*(1 - s)
    # m < 0: K(m) = K(m/(m-1))/sqrt(1-m), E(m) = sqrt(1-m) E(m/(m-1))
    return np.where(big, K/np.sqrt(p), K), np.where(big, E*np.sqrt(p), E)


def ring_reference(a, za, r, z):
    """(phi, E_r, E_z) at (r, z) of a ring with 1/(4 pi d) integrated along its circumference, unit line density."""
    a, za, r, z = LD(a), LD(za), LD(r), LD(z)
    dz = z - za
    S2, D2 = (r + a)**2 + dz**2, (r - a)**2 + dz**2
    if D2 > S2/40:
        n = 512
        th = PI*(np.arange(n, dtype=LD) + LD(.5))/n
        c = np.cos(th)
        d2 = dz**2 + r*r + a*a - 2*a*r*c
        d = np.sqrt(d2)
        w = 2*a*PI/n/(4*PI)
        return w*np.sum(1/d), w*np.sum((r - a*c)/(d2*d)), w*np.sum(dz/(d2*d))
    K, E = ellip_KE(D2/S2)
    k = 4*a/(4*PI*np.sqrt(S2))
    return k*K, k/(2*r)*(K - E*(a*a - r*r + dz*dz)/D2), k*E*dz/D2


def loop_reference(a, za, r, z):
    """(H_r, H_z) of a unit current loop by Biot and Savart."""
    a, za, r, z = LD(a), LD(za), LD(r), LD(z)
    dz = z - za
    S2, D2 = (r + a)**2 + dz**2, (r - a)**2 + dz**2
    if D2 > S2/40:
        n = 512
        th = PI*(np.arange(n, dtype=LD) + LD(.5))/n
        c = np.cos(th)
        d2 = dz**2 + r*r + a*a - 2*a*r*c
        w = 2*PI/n/(4*PI)*a
        d3 = d2*np.sqrt(d2)
        return w*np.sum(dz*c/d3), w*np.sum((a - r*c)/d3)
    K, E = ellip_KE(D2/S2)
    k = 1/(2*PI*np.sqrt(S2))
    return k*dz/r*(-K + (a*a + r*r + dz*dz)/D2*E), k*(K + (a*a - r*r - dz*dz)/D2*E)


def legendre_derivs(u, R, n, lam):
    """d^k/du^k of R^(-2 lam), R^2 = u^2 + r^2, for k < n: (-1)^k k! C_k^(lam)(u/R)/R^(k + 2 lam)."""
    x = LD(u)/LD(R)
    C = [LD(1), 2*LD(lam)*x]
    for k in range(2, n):
        C.append((2*x*(k + LD(lam) - 1)*C[k-1] - (k + 2*LD(lam) - 2)*C[k-2])/k)
    return [(-1)**k*math.factorial(k)*C[k]/LD(R)**(k + 2*LD(lam)) for k in range(n)]


# ------------------------------------------------------------------ elliptic integrals
def run_elliptic(ctx, case, rng):
    import traceon.backend as B
    n = 600
    p = np.concatenate([10**rng.uniform(-300, 0, n), 10**rng.uniform(-16, 0, n), rng.uniform(0, 1, n), 1 - 10**rng.uniform(-16, -1, n), [1., .5, 1e-300, 1e-16]])
    K, E = ellip_KE(p)
    for name, f, ref in (('ellipkm1', B.ellipkm1, K), ('ellipem1', B.ellipem1, E)):
        got = f(p)
        ctx.close('elliptic', np.asarray(LD(1)*got/ref - 1, float), 0*p, 2e-12, f'{name} (relative error)')
        ctx.check('scalar-call', float(f(p[0])) == got[0], f'{name} of a scalar and of an array differ')
    m = np.concatenate([rng.uniform(0, 1, n), rng.uniform(-1, 0, n), -10**rng.uniform(-16, 12, n), 10**rng.uniform(-16, 0, n), [0., -1., -1e-300, np.nextafter(1., 0), np.nextafter(-1., 0)]])
    m = m[m < 1]
    K, E = ellip_KE(1 - LD(1)*m)
    for name, f, ref in (('ellipk', B.ellipk, K), ('ellipe', B.ellipe, E)):
        ctx.close('elliptic', np.asarray(LD(1)*f(m)/ref - 1, float), 0*m, 2e-12, f'{name} (relative error)')
    # Legendre: E(m) K(1-m) + E(1-m) K(m) - K(m) K(1-m) = pi/2, on the code's own values
    m = rng.uniform(1e-6, 1 - 1e-6, n)
    K1, K2, E1, E2 = B.ellipk(m), B.ellipk(1 - m), B.ellipe(m), B.ellipe(1 - m)
    ctx.close('legendre', E1*K2 + E2*K1 - K1*K2, 0*m + np.pi/2, 1e-10, 'Legendre relation')
    ctx.close('legendre', B.ellipkm1(1 - m) - K1, 0*m, 1e-9, 'ellipkm1(1-m) is ellipk(m)')
    ctx.close('legendre', B.ellipem1(1 - m) - E1, 0*m, 1e-9, 'ellipem1(1-m) is ellipe(m)')
    ctx.nontrivial('elliptic', p[:8])
    ctx.event('argument', 4*n)


# ------------------------------------------------------------------ ring kernels
def ring_positions(rng, n):
    """Ring (r, z) and target (r0, z0), every scale and every relative position."""
    for _ in range(n):
        L = 10**rng.uniform(-6, 8)
        r, z = L*rng.uniform(.3, 1), L*rng.uniform(-2, 2)
        kind = rng.choice(['any', 'near', 'axis', 'on-axis', 'far', 'coaxial', 'same-radius', 'inside', 'small-ring'])
        if kind == 'any':
            r0, z0 = L*rng.uniform(.05, 3), z + L*rng.normal()
        elif kind == 'near':
            d, t = L*10**rng.uniform(-9, -1), rng.uniform(0, 2*np.pi)
            r0, z0 = r + d*np.cos(t), z + d*np.sin(t)
        elif kind == 'axis':
            r0, z0 = r*10**rng.uniform(-7, -1), z + L*rng.normal()
        elif kind == 'on-axis':
            r0, z0 = 0., z + L*rng.normal()
        elif kind == 'far':
            f, t = 10**rng.uniform(.5, 5), rng.uniform(0, np.pi)
            r0, z0 = L*f*np.sin(t), z + L*f*np.cos(t)
        elif kind == 'coaxial':
            r0, z0 = L*rng.uniform(.1, 3), z
        elif kind == 'same-radius':
            r0, z0 = r, z + L*rng.normal()
        elif kind == 'small-ring':
            r, r0, z0 = L*10**rng.uniform(-6, -1), L*rng.uniform(.05, 3), z + L*rng.normal()
        else:
            r0, z0 = r*rng.uniform(.01, .95), z + r*rng.uniform(-.3, .3)
        if abs(r0 - r) + abs(z0 - z) < 1e-10*L or (0 < r0 < 2e-10) or r < 2e-10:
            continue
        yield str(kind), float(r0), float(z0), float(r), float(z)


def run_ring(ctx, case, rng):
    import traceon.backend as B
    for kind, r0, z0, r, z in ring_positions(rng, 400):
        phi, Er, Ez = ring_reference(r, z, r0, z0)
        mag = float(np.hypot(Er, Ez))
        # The surface kernel is of a ring with unit charge per length of the meridian: the circumference is part of it
        msg = f'{kind}: target ({r0!r}, {z0!r}), ring ({r!r}, {z!r})'
        # Positions are differences of coordinates: allow for their rounding, magnified near the ring
        D = float(np.hypot(r0 - r, z0 - z))
        cond = 4e-16*(abs(z) + abs(z0) + r + r0)/D
        ctx.close('ring-potential', B.potential_radial_ring(r0, z0, r, z), float(phi), (3e-12 + 10*cond*float(D*mag/phi))*float(phi), msg)
        rel = 1e-11 + 20*cond
        ctx.close('ring-derivative', -B.dz1_potential_radial_ring(r0, z0, r, z), float(Ez), rel*mag, 'dz of ' + msg)
        got = -B.dr1_potential_radial_ring(r0, z0, r, z)
        canc = float(phi)/r0*(1 + (r/r0 + D*D/(r*r0)*min(1., r0/r))*0) if r0 > 0 else 0.
        ctx.close('ring-derivative', got, float(Er), rel*mag + 2e-12*canc, 'dr of ' + msg)
        if r0 == 0.:
            ctx.check('axis', got == 0. and B.dr1_potential_radial_ring(5e-11, z0, r, z) == 0., lambda: f'radial derivative on the axis is {got}')
        ctx.event('ring ' + kind)
        ctx.nontrivial('ring', r0, z0, r, z)
        # scaling: potential of the kernel is of degree 0, derivatives of degree -1 (exact for powers of two)
        if r0 > 1e-4:
            s = 2.**int(rng.integers(-8, 20))
            a = [B.potential_radial_ring(r0, z0, r, z), B.dr1_potential_radial_ring(r0, z0, r, z), B.dz1_potential_radial_ring(r0, z0, r, z)]
            b = [B.potential_radial_ring(r0*s, z0*s, r*s, z*s), s*B.dr1_potential_radial_ring(r0*s, z0*s, r*s, z*s), s*B.dz1_potential_radial_ring(r0*s, z0*s, r*s, z*s)]
            ctx.close('invariance', b, a, 1e-12*np.abs(a), f'scaling by {s} of ' + msg)
    for _ in range(20):
        z, z0, r0 = rng.normal(size=2).tolist() + [abs(rng.normal())]
        ctx.check('empty-ring', B.potential_radial_ring(r0, z0, 0., z) == 0., 'a ring of radius zero has no circumference')


def run_loop(ctx, case, rng):
    import traceon.backend as B
    for kind, r0, z0, r, z in ring_positions(rng, 400):
        Hr, Hz = loop_reference(r, z, r0, z0)
        mag = float(np.hypot(Hr, Hz))
        out = np.full(2, np.nan)
        B.backend_lib.current_field_radial_ring(r0, z0, r, z, out)
        dz = z0 - z
        A, D2 = dz*dz + (r0 + r)**2, dz*dz + (r0 - r)**2
        D = math.sqrt(D2)
        K, E = (float(v) for v in ellip_KE(LD(D2)/LD(A)))
        cond = 4e-16*(abs(z) + abs(z0) + r + r0)/D
        k = 1/(2*np.pi*math.sqrt(A))
        tr = 4e-12*k*abs(dz)/r0*(K + (r*r + r0*r0 + dz*dz)/D2*E) if r0 > 0 else 0.
        tz = 4e-12*k*(K + abs(r*r - r0*r0 - dz*dz)/D2*E)
        msg = f'{kind}: target ({r0!r}, {z0!r}), loop ({r!r}, {z!r})'
        ctx.close('loop-field', out[0], float(Hr), (1e-11 + 30*cond)*mag + tr, 'radial, ' + msg)
        ctx.close('loop-field', out[1], float(Hz), (1e-11 + 30*cond)*mag + tz, 'axial, ' + msg)
        if r0 == 0.:
            ctx.check('axis', out[0] == 0., lambda: f'radial field of a loop on the axis is {out[0]}')
            R = math.hypot(dz, r)
            ctx.close('loop-field', out[1], r*r/(2*R**3), 1e-11*r*r/(2*R**3), 'on axis, ' + msg)
        ctx.event('loop ' + kind)
        ctx.nontrivial('loop', r0, z0, r, z)
    for x in (0., 1e-11, 9e-11):
        out = np.full(2, np.nan)
        B.backend_lib.current_field_radial_ring(.3, .2, x, .1, out)
        ctx.check('empty-ring', not out.any(), f'a loop of radius {x} has field {out}')


def run_axial(ctx, case, rng):
    import traceon.backend as B
    ND, N2, N3 = B.DERIV_2D_MAX, B.N_QUAD_2D, B.N_TRIANGLE_QUAD
    for _ in range(40):
        L = 10**rng.uniform(-6, 6)
        nel = int(rng.integers(1, 4))
        z = np.concatenate([L*rng.uniform(-4, 4, 4), [L*10**rng.uniform(1, 3)]])
        q, jac = rng.normal(size=nel), L*rng.uniform(.1, 1, (nel, N2))
        pos = np.stack([L*10**rng.uniform(-1.5, .5, (nel, N2)), L*rng.uniform(-1, 1, (nel, N2))], axis=2)
        got = B.axial_derivatives_radial(z, q, jac, pos)
        ctx.check('axial-shape', got.shape == (len(z), ND), lambda: got.shape)
        want, mag = np.zeros((len(z), ND)), np.zeros((len(z), ND))
        for i, z0 in enumerate(z):
            for j in range(nel):
                for k in range(N2):
                    r, zr = pos[j, k]
                    d = np.array(legendre_derivs(LD(z0) - LD(zr), np.hypot(LD(z0) - LD(zr), LD(r)), ND, .5), dtype=LD)*r/2*q[j]*jac[j, k]
                    want[i] += d.astype(float)
                    mag[i] += np.abs(d).astype(float)
                    # the largest values of the order, P_n = 1, bound the cancellation in the recursion
                    R = float(np.hypot(z0 - zr, r))
                    mag[i] += np.array([math.factorial(o)/R**(o + 1) for o in range(ND)])*r/2*abs(q[j])*jac[j, k]
        ctx.close('axial-derivative', got, want, 1e-11*mag, 'derivatives on the axis of rings')
        ctx.nontrivial('axial', pos[0, 0])
        cur, jac3 = rng.normal(size=nel), L*L*rng.uniform(.1, 1, (nel, N3))
        pos3 = np.stack([L*10**rng.uniform(-1.5, .5, (nel, N3)), np.zeros((nel, N3)), L*rng.uniform(-1, 1, (nel, N3))], axis=2)
        got = B.current_axial_derivatives_radial(z, cur, jac3, pos3)
        want, mag, psi = np.zeros((len(z), ND)), np.zeros((len(z), ND)), np.zeros(len(z))
        for i, z0 in enumerate(z):
            for j in range(nel):
                for k in range(N3):
                    r, _, zr = pos3[j, k]
                    u = LD(z0) - LD(zr)
                    R = np.hypot(u, LD(r))
                    c = float(cur[j]*jac3[j, k])
                    d = [-u/(2*R)] + [-LD(r)**2/2*v for v in legendre_derivs(u, R, ND - 1, 1.5)]
                    d = np.array(d, dtype=LD)*c
                    want[i] += d.astype(float)
                    R = float(R)
                    mag[i] += np.abs(d).astype(float) + abs(c)*np.array([1.] + [math.factorial(o + 1)*r/R**(o + 1) for o in range(1, ND)])
            psi[i] = B.current_potential_axial(float(z0), cur, jac3, pos3)
        ctx.close('axial-derivative', got, want, 1e-11*mag, 'derivatives on the axis of current loops')
        ctx.close('axial-derivative', psi, want[:, 0], 1e-11*mag[:, 0], 'potential on the axis of current loops')
        for z0 in z:
            r, _, zr = (float(v) for v in pos3[0, 0])
            u, R = z0 - zr, math.hypot(z0 - zr, r)
            ctx.close('axial-derivative', B.backend_lib.current_potential_axial_radial_ring(float(z0), r, zr), -u/(2*R), 1e-14, 'potential on the axis of a loop')
    ctx.event('axial', 40)


# ------------------------------------------------------------------ triangles
def random_triangle(rng):
    """Shape, where it is, and its scale."""
    L = 10**rng.uniform(-9, 8)
    while True:
        kind = rng.choice(['any', 'sliver', 'needle', 'right', 'equilateral', 'flat'])
        t = rng.normal(size=(3, 3))
        if kind == 'sliver':
            t[2] = t[0] + (t[1] - t[0])*rng.uniform(.1, .9) + .02*rng.normal(size=3)
        elif kind == 'needle':
            t[1] = t[0] + .03*rng.normal(size=3)
        elif kind in ('right', 'flat'):
            a, b = rng.uniform(.2, 2, 2)
            t = np.array([[0, 0, 0], [a, 0, 0], [0, b, 0.]])
            t = t[rng.permutation(3)]
        elif kind == 'equilateral':
            t = np.array([[0, 0, 0], [1, 0, 0], [.5, math.sqrt(3)/2, 0]])
        if kind not in ('flat', 'any'):
            t = t + rng.normal(size=3)
        A = np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0]))/2
        e = max(np.linalg.norm(t[i] - t[i-1]) for i in range(3))
        if A > 4e-3*e*e:
            return str(kind), t*L, e*L, L


def triangle_reference(t, p):
    """Integral of 1/d and of (p - s)/d^3 over the triangle."""
    c = t.mean(axis=0)
    e = max(np.linalg.norm(t[i] - t[i-1]) for i in range(3))
    d = np.linalg.norm(p - c)
    if d > 6*e:
        x, w = gauss(20)
        u, wu = .5*(x + 1), .5*w
        U, V = np.meshgrid(u, u, indexing='ij')
        W = np.outer(wu*(1 - u), wu)
        s = t[0] + U[..., None]*(t[1] - t[0]) + (V*(1 - U))[..., None]*(t[2] - t[0])
        A2 = np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0]))
        r = p - s
        n = np.linalg.norm(r, axis=2)
        return A2*np.sum(W/n), A2*np.sum((W/n**3)[..., None]*r, axis=(0, 1))
    # shifted to the target and scaled, so that differences of coordinates are not what limits the reference
    v, F = triangle_potential_field((t - p)/e, np.zeros((1, 3)))
    return 4*np.pi*float(v[0])*e, 4*np.pi*F[0]


def run_triangle(ctx, case, rng):
    import traceon.backend as B
    for _ in range(170):
        kind, t, e, L = random_triangle(rng)
        n = np.cross(t[1] - t[0], t[2] - t[0])
        n = n/np.linalg.norm(n)
        where = rng.choice(['over', 'hover', 'plane', 'edge-line', 'far', 'near', 'vertex', 'half'])
        b = rng.dirichlet([1, 1, 1])
        if where == 'over':
            p = b @ t + n*e*10**rng.uniform(-2.5, .5)*rng.choice([-1, 1])
        elif where == 'hover':      # right above the triangle, away from its edges
            b = .9*b + .1/3
            p = b @ t + n*e*10**rng.uniform(-6, -2.5)*rng.choice([-1, 1])
        elif where == 'plane':
            b = rng.normal(size=3)
            b = b/b.sum()
            if (b > -.03).all() or np.abs(b).max() > 20:
                continue
            p = b @ t
        elif where == 'half':       # in the plane, at the height of a node of the quadrature
            i, s = int(rng.integers(3)), rng.choice([.5, .25, .75])
            t = np.roll(t, i, axis=0)
            p = t[0] + s*(t[2] - t[0]) + (t[1] - t[0])*rng.choice([-1.5, 2.5, -.3, 1.4])
        elif where == 'edge-line':
            i, s = int(rng.integers(3)), rng.choice([-1, 1])
            p = t[i] + (t[i] - t[i-1])*(10**rng.uniform(-1.5, .5) if s > 0 else -1 - 10**rng.uniform(-1.5, .5))
        elif where == 'far':
            v = rng.normal(size=3)
            p = t.mean(axis=0) + e*10**rng.uniform(.5, 3)*v/np.linalg.norm(v)
        elif where == 'near':
            b = rng.normal(.33, .5, size=3)
            b = b/b.sum()
            if np.abs(b).max() > 5:
                continue
            p = b @ t + n*e*10**rng.uniform(-2, -.5)*rng.choice([-1, 1])
        else:
            v = rng.normal(size=3)
            p = t[rng.integers(3)] + n*e*rng.uniform(.02, .3)*rng.choice([-1, 1]) + .05*e*v
        pot, F = triangle_reference(t, p)
        nn = rng.normal(size=3)
        nn = [nn/np.linalg.norm(nn), n, -n][rng.integers(3)]
        msg = f'{kind} of size {e:.3g}, target {where}: {t.tolist()} {p.tolist()} {np.asarray(nn).tolist()}'
        scale = max(1., (np.abs(t).max() + np.abs(p).max())/e)
        got = B.potential_triangle(t[0], t[1], t[2], p)
        # the logarithmic peak right above the triangle is resolved less well by the adaptive quadrature
        if not ctx.close('triangle-potential', got, pot, (1e-5 if where == 'hover' else 1e-7)*pot + 3e-15*scale*e, msg):
            return
        Fm = float(np.linalg.norm(F))
        flux = B.flux_triangle(t[0], t[1], t[2], p, nn)
        if not ctx.close('triangle-flux', flux, float(F @ nn), 3e-8*(Fm + .1) + 1e-13*scale, msg):
            return
        ctx.event('triangle ' + str(where))
        ctx.nontrivial('triangle', t, p)
        # the order of the vertices is not part of the integral
        k = rng.permutation(3)
        ctx.close('invariance', B.potential_triangle(t[k[0]], t[k[1]], t[k[2]], p), got, (1e-5 if where == 'hover' else 6e-8)*pot + 1e-15*scale*e, 'order of vertices, potential: ' + msg)
        ctx.close('invariance', B.flux_triangle(t[k[0]], t[k[1]], t[k[2]], p, nn), flux, 6e-8*(Fm + .1) + 1e-13*scale, 'order of vertices, flux: ' + msg)


def run_self3d(ctx, case, rng):
    import traceon.backend as B
    for _ in range(160):
        kind, t, e, L = random_triangle(rng)
        scale = max(1., np.abs(t).max()/e)
        b = [np.full(3, 1/3), rng.dirichlet([1, 1, 1]), rng.dirichlet([.3, .3, .3])][rng.integers(3)]
        b = np.clip(b, 1e-4, 1)
        b = b/b.sum()
        p = b @ t
        v, _ = triangle_potential_field((t - p)/e, np.zeros((1, 3)))
        want = 4*np.pi*float(v[0])*e
        got = B.self_potential_triangle(t[0], t[1], t[2], p)
        msg = f'{kind} of size {e:.3g}: {t.tolist()} {p.tolist()}'
        ctx.close('self-potential-triangle', got, want, (3e-9 + 1e-14*scale/b.min())*want, msg)
        k = rng.permutation(3)
        ctx.close('invariance', B.self_potential_triangle(t[k[0]], t[k[1]], t[k[2]], p), got, (3e-9 + 1e-14*scale/b.min())*want, 'order of vertices: ' + msg)
        v, _ = triangle_potential_field((t - t[0])/e, np.zeros((1, 3)))
        v = 4*np.pi*float(v[0])*e
        ctx.close('self-potential-triangle', B.self_potential_triangle_v0(t[0], t[1], t[2]), v, (1e-8 + 1e-13*scale)*v, 'at the first vertex of a ' + msg)
        ctx.nontrivial('self3d', t, p)
    ctx.event('triangle inside', 160)


# ------------------------------------------------------------------ geometry of elements
def random_line(rng, curved=None):
    L = 10**rng.uniform(-6, 6)
    a = np.array([rng.uniform(.3, 2), rng.normal()])
    d = rng.uniform(.1, 1)*np.array([np.cos(u := rng.uniform(0, 2*np.pi)), np.sin(u)])
    if a[0] + min(0, d[0]) < .05:
        a[0] += 1.
    curved = rng.random() < .7 if curved is None else curved
    m = np.array([-d[1], d[0]])
    p = [a, a + d, a + d/3, a + 2*d/3]
    if curved:
        p[2] = p[2] + .15*rng.normal()*m + .03*rng.normal()*d
        p[3] = p[3] + .15*rng.normal()*m + .03*rng.normal()*d
    v = np.array(p)*L
    v = np.insert(v, 1, 0., axis=1)
    return np.ascontiguousarray(v), L


def run_geometry(ctx, case, rng):
    import traceon.backend as B
    for _ in range(120):
        v, L = random_line(rng)
        flat = v[:, [0, 2]]
        for al in np.concatenate([[-1., 1., 0., 1/3], rng.uniform(-1, 1, 2)]):
            al = float(al)
            pos, der = cubic_line(flat, np.array([al]))
            pos, der = pos[0], der[0]
            arg = [v[0], v[2], v[3], v[1]]
            if rng.random() < .5:
                arg = [np.ascontiguousarray(q[[0, 2]]) for q in arg]
            jac, got = B.position_and_jacobian_radial(al, *arg)
            ctx.close('element-geometry', got, pos, 1e-14*np.abs(flat).max(), f'position on a line element at {al}')
            ctx.close('element-geometry', jac, np.linalg.norm(der), 1e-12*np.linalg.norm(der) + 1e-14*np.abs(flat).max(), f'Jacobian of a line element at {al}')
            want = np.array([der[1], -der[0]])/np.linalg.norm(der)
            tol = 1e-13*np.abs(flat).max()/np.linalg.norm(der)
            ctx.close('element-geometry', B.higher_order_normal_radial(al, v if rng.random() < .5 else flat), want, tol, f'normal of a line element at {al}')
        ctx.nontrivial('line', v)
        a, b = flat[0].copy(), flat[1].copy()
        t = (b - a)/np.linalg.norm(b - a)
        ctx.close('element-geometry', B.normal_2d(a, b), [t[1], -t[0]], 1e-13*np.abs(flat).max()/np.linalg.norm(b - a), 'normal of a segment')
        # triangles
        kind, t, e, L = random_triangle(rng)
        cr = np.cross(t[1] - t[0], t[2] - t[0])
        A2 = np.linalg.norm(cr)
        cond = 1e-14*max(1., np.abs(t).max()/e)*e*e/A2
        ctx.close('element-geometry', B.normal_3d(t), cr/A2, 20*cond, 'normal of a triangle')
        many = np.array([t, t[::-1], t*3, random_triangle(rng)[1]])
        want = np.array([np.linalg.norm(np.cross(u[1] - u[0], u[2] - u[0]))/2 for u in many])
        cond2 = np.array([max(1., np.abs(u).max()/np.ptp(u, axis=0).max())*np.ptp(u, axis=0).max()**2/w for u, w in zip(many, want)])
        ctx.close('element-geometry', B.triangle_areas(many), want, 1e-13*cond2*want, 'areas of triangles')
        for _ in range(4):
            al, be = (float(x) for x in rng.dirichlet([1, 1, 1])[:2])
            jac, got = B.position_and_jacobian_3d(al, be, t)
            ctx.close('element-geometry', got, t[0] + al*(t[1] - t[0]) + be*(t[2] - t[0]), 1e-14*np.abs(t).max()*4, 'position on a triangle')
            ctx.close('element-geometry', jac, A2, 20*cond*A2, 'Jacobian of a triangle')
        ctx.nontrivial('triangle', t)
    ctx.event('element', 240)


def run_rules(ctx, case, rng):
    """The buffers are a quadrature rule: they integrate polynomials of the degree of the rule exactly, on every element."""
    import traceon.backend as B
    n = 12
    lines = np.array([random_line(rng, curved=False)[0] for _ in range(n)])
    for i in range(n):      # of comparable scale, so that one array holds them all
        lines[i] /= np.abs(lines[i]).max()
    jac, pos = B.fill_jacobian_buffer_radial(lines)
    ctx.check('buffer-shape', jac.shape == (n, B.N_QUAD_2D) and pos.shape == (n, B.N_QUAD_2D, 2), lambda: (jac.shape, pos.shape))
    ctx.check('weights-positive', bool((jac > 0).all()), 'quadrature weights are positive')
    for i in range(n):
        v = lines[i][:, [0, 2]]
        length = np.linalg.norm(v[1] - v[0])
        t = (pos[i] - v[0]) @ (v[1] - v[0])/length**2
        ctx.check('nodes-inside', bool((t > 0).all() and (t < 1).all()), 'nodes lie on the element')
        for k in range(2*B.N_QUAD_2D):
            ctx.close('quadrature-rule', np.sum(jac[i]*t**k), length/(k + 1), 1e-12*length, f'{k}th moment along a straight element')
        ctx.close('quadrature-rule', pos[i], v[0] + np.outer(t, v[1] - v[0]), 1e-13, 'nodes on the segment')
        q = float(rng.normal())
        mid = .5*(v[0, 0] + v[1, 0])
        ctx.close('quadrature-rule', B.charge_radial(lines[i], q), q*2*np.pi*mid*length, 1e-12*abs(q)*6.3*mid*length, 'charge of a straight element')
    ctx.nontrivial('lines', lines)
    # curved elements: against a finer rule
    lines = np.array([random_line(rng, curved=True)[0] for _ in range(n)])
    for i in range(n):
        lines[i] /= np.abs(lines[i]).max()
    jac, pos = B.fill_jacobian_buffer_radial(lines)
    x, w = gauss(60)
    for i in range(n):
        P, d = cubic_line(lines[i][:, [0, 2]], x)
        W = w*np.linalg.norm(d, axis=1)
        if np.linalg.norm(d, axis=1).min() < .3*np.linalg.norm(d, axis=1).max():
            continue        # the speed along the element is not smooth enough for any rule to settle it
        ctx.close('quadrature-rule', jac[i].sum(), W.sum(), 1e-4*W.sum(), 'length of a curved element')
        q = float(rng.normal())
        want = q*2*np.pi*np.sum(W*P[:, 0])
        ctx.close('quadrature-rule', B.charge_radial(lines[i], q), want, 1e-4*abs(want), 'charge of a curved element')
        ctx.close('quadrature-rule', jac[i] @ pos[i], W @ P, 1e-4*np.abs(W @ P).max(), 'first moment of a curved element')
    # triangles: exact to degree 6
    tris = []
    for _ in range(n):
        kind, t, e, L = random_triangle(rng)
        tris.append(t/e)
    tris = np.array(tris)
    jac, pos = B.fill_jacobian_buffer_3d(tris)
    ctx.check('buffer-shape', jac.shape == (n, B.N_TRIANGLE_QUAD) and pos.shape == (n, B.N_TRIANGLE_QUAD, 3), lambda: (jac.shape, pos.shape))
    ctx.check('weights-positive', bool((jac > 0).all()), 'quadrature weights are positive')
    for i in range(n):
        t = tris[i]
        A2 = np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0]))
        M = np.stack([t[1] - t[0], t[2] - t[0]], axis=1)
        ab = np.linalg.lstsq(M, (pos[i] - t[0]).T, rcond=None)[0]
        ctx.check('nodes-inside', bool((ab > 0).all() and (ab.sum(axis=0) < 1).all()), 'nodes lie on the triangle')
        for j in range(7):
            for k in range(7 - j):
                want = A2*math.factorial(j)*math.factorial(k)/math.factorial(j + k + 2)
                ctx.close('quadrature-rule', np.sum(jac[i]*ab[0]**j*ab[1]**k), want, 1e-11*A2*max(1., np.abs(t).max()), f'moment ({j}, {k}) of a triangle')
    ctx.nontrivial('triangles', tris)
    ctx.event('element', 3*n)


# ------------------------------------------------------------------ adaptive quadrature
def run_adaptive(ctx, case, rng):
    import traceon.backend as B
    for _ in range(30):
        a = float(rng.normal()*10**rng.uniform(-2, 2))
        b = a + float(10**rng.uniform(-3, 2))
        w = b - a
        kind = rng.choice(['poly', 'exp', 'osc', 'peak', 'log', 'sqrt', 'empty', 'const'])
        amp = float(rng.normal()*10**rng.uniform(-3, 3))
        if kind == 'poly':
            co = rng.normal(size=8)
            f = lambda x: amp*float(np.polyval(co, (x - a)/w))                                                          # noqa: E731
            want = amp*w*float(np.polyval(np.polyint(co), 1.))
            size = abs(amp)*w*np.abs(co).sum()
        elif kind == 'exp':
            k = float(rng.uniform(-5, 5)) or 1.
            f = lambda x: amp*math.exp(k*(x - a)/w)                                                                     # noqa: E731
            want = amp*w*math.expm1(k)/k
            size = abs(want)
        elif kind == 'osc':
            k, ph = float(rng.uniform(1, 60)), float(rng.uniform(0, 6))
            f = lambda x: amp*(2 + math.sin(k*(x - a)/w + ph))                                                          # noqa: E731
            want = amp*w*(2 + (math.cos(ph) - math.cos(k + ph))/k)
            size = 3*abs(amp)*w
        elif kind == 'peak':
            c, s = float(rng.uniform(.2, .8)), float(10**rng.uniform(-2, -.5))
            f = lambda x: amp/(1 + (((x - a)/w - c)/s)**2)                                                              # noqa: E731
            want = amp*w*s*(math.atan((1 - c)/s) + math.atan(c/s))
            size = abs(want)
        elif kind == 'log':
            f = lambda x: amp*math.log((x - a)/w)                                                                       # noqa: E731
            want, size = -amp*w, abs(amp)*w
        elif kind == 'sqrt':
            f = lambda x: amp*math.sqrt((x - a)/w)                                                                      # noqa: E731
            want, size = amp*w*2/3, abs(amp)*w
        elif kind == 'empty':
            b, f, want, size = a, (lambda x: 1.), 0., 0.
        else:
            f, want, size = (lambda x: amp), amp*w, abs(amp)*w
        seen = []

        def g(x):
            seen.append(x)
            return f(x)
        rel = float(10**rng.uniform(-10, -7))
        ab = float(rng.choice([rel*size, 1e-3*rel*size])) if size else 1e-9
        got = B.kronrod_adaptive(g, a, b, epsabs=ab, epsrel=rel)
        n = max(1, len(seen)//21)
        ctx.close('adaptive', got, want, 30*(n*ab + rel*size) + 1e-13*size, f'{kind} on [{a}, {b}] to {ab:.2g} and {rel:.2g}: {n} intervals')
        ctx.check('adaptive-range', not seen or (a <= min(seen) and max(seen) <= b), 'the integrand is evaluated outside the interval')
        ctx.check('adaptive-effort', kind not in ('poly', 'const') or len(seen) <= 25, lambda: f'{len(seen)} evaluations for a {kind}')
        ctx.event('adaptive ' + str(kind))
        ctx.nontrivial('adaptive', kind, a, b, amp)


# ------------------------------------------------------------------ radial elements on themselves
def line_ld(flat, al):
    """cubic_line in extended precision: differences of points close together have to be right."""
    v, al = np.asarray(flat, LD), np.asarray(al, LD)
    p0, p1, p2, p3 = v[0], v[2], v[3], v[1]
    c = [(-p0 + 9*p1 + 9*p2 - p3)/16, (p0 - 27*p1 + 27*p2 - p3)/16, (9*p0 - 9*p1 - 9*p2 + 9*p3)/16, (-9*p0 + 27*p1 - 27*p2 + 9*p3)/16]
    a = al[:, None]
    return c[0] + a*(c[1] + a*(c[2] + a*c[3])), c[1] + a*(2*c[2] + 3*a*c[3])


def graded(flat, n=60):
    x, w = gauss(n)
    t, wt = .5*(x + 1), .5*w
    al = np.concatenate([t**3, -t**3])
    wa = np.concatenate([3*t**2*wt]*2)
    P, d = line_ld(flat, al)
    return P, wa*np.sqrt((d**2).sum(axis=1))


def run_selfradial(ctx, case, rng):
    import traceon.backend as B
    for _ in range(14):
        v, L = random_line(rng)
        v = np.ascontiguousarray(v*float(10**rng.uniform(-3, 0)))
        if v[:, 0].min() < 1e-8:
            continue
        flat = v[:, [0, 2]]
        speed = np.linalg.norm(cubic_line(flat, np.linspace(-1, 1, 41))[1], axis=1)
        if speed.min() < .3*speed.max():
            continue
        (c,), (d,) = line_ld(flat, np.array([0.]))
        nrm = np.array([d[1], -d[0]])/np.sqrt(d @ d)
        P, W = graded(flat)
        P2, W2 = graded(flat, 90)
        def both(P, W):
            pot = En = 0.
            for p, w in zip(P, W):
                phi, Er, Ez = ring_reference(p[0], p[1], c[0], c[1])
                pot += float(w*phi)
                En += float(w*(Er*nrm[0] + Ez*nrm[1]))
            return pot, En
        (pot, En), (pot2, En2) = both(P, W), both(P2, W2)
        if abs(pot - pot2) > 1e-9*abs(pot) or abs(En - En2) > 1e-6:
            ctx.event('unsettled')
            continue
        tol = 1e-7*abs(pot)
        ctx.close('self-radial', B.self_potential_radial(v), pot2, tol, f'self potential of {v.tolist()}')
        K = float(rng.choice([0., 1., 2., 5., 1e4, rng.uniform(0, 10)]))
        fac = 2*(K - 1)/(K + 1)
        tol = (1e-6 + 5*abs(En - En2))*abs(fac) + 1e-8
        ctx.close('self-radial', B.self_field_dot_normal_radial(v, K), fac*En2, tol, f'own field along the normal of {v.tolist()}, K={K}')
        ctx.close('self-radial', B.self_field_dot_normal_radial(v, int(3)), En2, (1e-6 + 5*abs(En - En2)) + 1e-8, 'own field along the normal, K=3')
        ctx.nontrivial('selfradial', v)
        ctx.event('self')


# ------------------------------------------------------------------ the rest
def run_misc(ctx, case, rng):
    import traceon.backend as B
    from scipy.constants import mu_0
    for _ in range(160):
        L = 10**rng.uniform(-6, 6)
        p, q = L*rng.normal(size=3), L*rng.normal(size=3)
        if rng.random() < .3:
            q = p + L*10**rng.uniform(-6, -1)*rng.normal(size=3)
        d = q - p
        r = math.sqrt(float(d @ d))
        a = [float(x) for x in (*p, *q)]
        msg = f'{p.tolist()} {q.tolist()}'
        f = 1/(4*np.pi*r)
        cond = 4e-16*np.abs(a).max()/r
        ctx.close('point-kernel', B.backend_lib.potential_3d_point(*a, None) if hasattr(B.backend_lib, 'potential_3d_point') else f, f, (1e-12 + cond)*f, msg)
        got = [g(*a, None) for g in (B.backend_lib.dx1_potential_3d_point, B.backend_lib.dy1_potential_3d_point, B.backend_lib.dz1_potential_3d_point)]
        ctx.close('point-kernel', got, f*d/r**2, (1e-12 + 4*cond)*f/r, 'derivative ' + msg)
        ctx.nontrivial('point', p, q)
        K = float(rng.choice([0., 1., rng.uniform(0, 3), 10**rng.uniform(-8, 8)]))
        ctx.close('factor', B.flux_density_to_charge_factor(K), 2*(K - 1)/(K + 1), 1e-14, f'K = {K}')
        vel, E, H1, H2 = rng.normal(size=3)*1e6, rng.normal(size=3)*10**rng.uniform(-3, 6), rng.normal(size=3)*10**rng.uniform(-3, 6), rng.normal(size=3)*10**rng.uniform(-3, 6)
        want = E + mu_0*np.cross(vel, H1 + H2)
        ctx.close('lorentz', B.combine_elec_magnetic_field(vel, E, H1, H2), want, 1e-8*(np.linalg.norm(E) + mu_0*np.linalg.norm(vel)*(np.linalg.norm(H1) + np.linalg.norm(H2))), 'E + v x B')
    ctx.event('misc', 160)
