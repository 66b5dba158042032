"""Workload generators and independent reference implementations shared by the checks.

Nothing in the reference part uses code of traceon: the oracles are written from the physics (numpy, scipy)."""
import math

import numpy as np
from numpy.polynomial.legendre import leggauss
from scipy.special import ellipe, ellipk, ellipkm1, eval_legendre

GX = {}


def gauss(n):
    if n not in GX:
        GX[n] = leggauss(n)
    return GX[n]


# ------------------------------------------------------------------ reference potentials (phi of unit sigma/eps0 densities)
def ring_potential(a, za, r, z):
    """Potential at (r, z) of a ring of radius a at za carrying total charge/eps0 = 1 (so 1/(4 pi d) for a -> 0)."""
    S2 = (r + a)**2 + (z - za)**2
    m1 = ((r - a)**2 + (z - za)**2)/S2
    return ellipkm1(m1)*2/np.pi/(4*np.pi*np.sqrt(S2))


def ring_field(a, za, r, z):
    """(E_r, E_z) of the same ring."""
    r, z, a, za = np.broadcast_arrays(np.asarray(r, float), z, a, za)
    S2 = (r + a)**2 + (z - za)**2
    D2 = (r - a)**2 + (z - za)**2
    m = np.clip(1 - D2/S2, 0, 1)
    K, E = ellipkm1(D2/S2), ellipe(m)
    c = 2/np.pi/(4*np.pi*np.sqrt(S2))
    Ez = c*E*(z - za)/D2
    with np.errstate(all='ignore'):
        Er = c/(2*r)*(K - E*(a**2 - r**2 + (z - za)**2)/D2)
    Er = np.where(r <= 1e-9*np.maximum(a, 1e-300), 0.0, Er)
    return Er, Ez


def loop_field(a, za, I, r, z):
    """(H_r, H_z) at (r, z) of a current loop (Biot-Savart in elliptic integrals)."""
    r, z, a, za = np.broadcast_arrays(np.asarray(r, float), z, a, za)
    S2 = (r + a)**2 + (z - za)**2
    D2 = (r - a)**2 + (z - za)**2
    m = 1 - D2/S2
    K, E = ellipkm1(D2/S2), ellipe(m)
    c = I/(2*np.pi*np.sqrt(S2))
    Hz = c*(K + (a**2 - r**2 - (z - za)**2)/D2*E)
    with np.errstate(all='ignore'):
        Hr = c*(z - za)/r*(-K + (a**2 + r**2 + (z - za)**2)/D2*E)
    small = r < 1e-6*a
    lin = c*0 + I*3*a**2*(z - za)*r/(4*((z - za)**2 + a**2)**2.5)
    return np.where(small, lin, Hr), Hz


def cubic_line(verts, alpha):
    """Point and d/dalpha on the cubic line element with the vertices (start, end, 1/3, 2/3), alpha in [-1, 1]."""
    v = np.asarray(verts, float)
    if v.shape[-1] == 3:
        v = v[..., [0, 2]]
    if len(v) == 2:
        v = np.array([v[0], v[1], v[0] + (v[1] - v[0])/3, v[0] + 2*(v[1] - v[0])/3])
    nodes = np.array([-1., 1., -1/3, 1/3])
    pos = np.zeros(np.shape(alpha) + (2,))
    der = np.zeros_like(pos)
    for i in range(4):
        others = [j for j in range(4) if j != i]
        den = np.prod([nodes[i] - nodes[j] for j in others])
        L = np.prod([alpha - nodes[j] for j in others], axis=0)/den
        dL = sum(np.prod([alpha - nodes[k] for k in others if k != j], axis=0) for j in others)/den
        pos += L[..., None]*v[i]
        der += dL[..., None]*v[i]
    return pos, der


def line_quadrature(verts, n=48, singular=False):
    """Nodes (n,2) and weights (with the Jacobian |dx/dalpha|) of a line element; singular: graded towards its centre."""
    x, w = gauss(n)
    if singular:
        t, wt = 0.5*(x + 1), 0.5*w
        a = np.concatenate([t**3, -t**3])
        wa = np.concatenate([3*t**2*wt]*2)
    else:
        a, wa = x, w
    pos, der = cubic_line(verts, a)
    return pos, wa*np.linalg.norm(der, axis=1)


def triangle_potential(tri, p):
    """Exact potential at points p of a triangle with uniform density 1 (sum over edges, Wilton et al. 1984)."""
    return triangle_potential_field(tri, p)[0]


def triangle_potential_field(tri, p):
    tri, p = np.asarray(tri, float), np.atleast_2d(np.asarray(p, float))
    n = np.cross(tri[1] - tri[0], tri[2] - tri[0])
    n = n/np.linalg.norm(n)
    d = (p - tri[0]) @ n
    total = np.zeros(len(p))
    beta = np.zeros(len(p))
    F = np.zeros((len(p), 3))
    for i in range(3):
        a, b = tri[i], tri[(i + 1) % 3]
        L = np.linalg.norm(b - a)
        lh = (b - a)/L
        u = np.cross(lh, n)
        P0 = (a - p) @ u
        lp, lm = (b - p) @ lh, (a - p) @ lh
        Rp, Rm = np.linalg.norm(p - b, axis=1), np.linalg.norm(p - a, axis=1)
        R02 = P0**2 + d**2
        with np.errstate(all='ignore'):
            f = np.where(lp + lm > 0, np.log((Rp + lp)/(Rm + lm)), np.log((Rm - lm)/(Rp - lp)))
            f = np.where((R02 > 1e-30*L*L) | (lp*lm > 0), f, 0.0)
        bt = np.arctan2(P0*lp, R02 + np.abs(d)*Rp) - np.arctan2(P0*lm, R02 + np.abs(d)*Rm)
        total += P0*f
        beta += bt
        F += f[:, None]*u
    pot = (total - np.abs(d)*beta)/(4*np.pi)
    field = (F + (np.sign(d)*beta)[:, None]*n)/(4*np.pi)
    return pot, field


# ------------------------------------------------------------------ harmonic functions
class Harmonic:
    """A harmonic function with its gradient: sum of point charges, rings around the z axis and regular polynomials."""

    def __init__(self):
        self.terms = []

    def point(self, q, c):
        self.terms.append(('p', q, np.asarray(c, float)))
        return self

    def dipole(self, d, c):
        self.terms.append(('d', np.asarray(d, float), np.asarray(c, float)))
        return self

    def ring(self, q, a, za):
        self.terms.append(('r', q, (a, za)))
        return self

    def linear(self, g, c=0.):
        self.terms.append(('l', np.asarray(g, float), c))
        return self

    def quad(self, k):
        """k (z^2 - (x^2+y^2)/2)"""
        self.terms.append(('q', k, None))
        return self

    def oct(self, k):
        """k (z^3 - 3/2 z r^2)"""
        self.terms.append(('o', k, None))
        return self

    def pot(self, p):
        x, y, z = np.asarray(p, float)
        s = 0.
        for t, a, b in self.terms:
            if t == 'p':
                s += a/np.linalg.norm(np.array([x, y, z]) - b)
            elif t == 'd':
                R = np.array([x, y, z]) - b
                s += a @ R/np.linalg.norm(R)**3
            elif t == 'r':
                s += a*4*np.pi*ring_potential(b[0], b[1], math.hypot(x, y), z)
            elif t == 'l':
                s += a @ np.array([x, y, z]) + b
            elif t == 'q':
                s += a*(z*z - (x*x + y*y)/2)
            elif t == 'o':
                s += a*(z**3 - 1.5*z*(x*x + y*y))
        return float(s)

    def field(self, p):
        """minus the gradient"""
        x, y, z = p = np.asarray(p, float)
        g = np.zeros(3)
        for t, a, b in self.terms:
            if t == 'p':
                R = p - b
                g += a*R/np.linalg.norm(R)**3
            elif t == 'd':
                R = p - b
                n = np.linalg.norm(R)
                g += -a/n**3 + 3*(a @ R)*R/n**5
            elif t == 'r':
                rho = math.hypot(x, y)
                er, ez = ring_field(b[0], b[1], rho, z)
                u = np.array([x, y, 0])/rho if rho > 0 else np.zeros(3)
                g += a*4*np.pi*(float(er)*u + np.array([0, 0, float(ez)]))
            elif t == 'l':
                g -= a
            elif t == 'q':
                g -= a*np.array([-x, -y, 2*z])
            elif t == 'o':
                g -= a*np.array([-3*z*x, -3*z*y, 3*z*z - 1.5*(x*x + y*y)])
        return g

    def on_axis_derivatives(self, z, n):
        """The first n derivatives of pot at (0, 0, z) (on-axis points only, and rings by series are not supported)."""
        out = np.zeros(n)
        for t, a, b in self.terms:
            if t == 'p':
                assert b[0] == b[1] == 0
                D = z - b[2]
                s = np.sign(D)
                for k in range(n):
                    out[k] += a*s*(-1)**k*math.factorial(k)/D**(k + 1)
            elif t == 'l':
                out[0] += a[2]*z + b
                if n > 1:
                    out[1] += a[2]
            elif t == 'q':
                out[:3] += np.array([a*z*z, 2*a*z, 2*a])[:n]
            elif t == 'o':
                out[:4] += np.array([a*z**3, 3*a*z*z, 6*a*z, 6*a])[:n]
            else:
                raise ValueError(t)
        return out


# ------------------------------------------------------------------ radial electrodes
def polygon_contains(poly, r, z):
    """Even-odd rule; poly (N,2) closed implicitly."""
    inside = False
    j = len(poly) - 1
    for i in range(len(poly)):
        ri, zi = poly[i]
        rj, zj = poly[j]
        if (zi > z) != (zj > z) and r < (rj - ri)*(z - zi)/(zj - zi) + ri:
            inside = not inside
        j = i
    return inside


class Electrode2D:
    def __init__(self, path, name, source, kind, size):
        self.path, self.name, self.source, self.kind, self.size = path, name, source, kind, size
        t = np.linspace(0, path.path_length, 241)
        pts = np.array([path(min(max(u, 0.), path.path_length)) for u in t])
        self.poly = pts[:, [0, 2]]
        self.on_axis = abs(self.poly[0, 0]) < 1e-9 and abs(self.poly[-1, 0]) < 1e-9
        self.path.name = name

    def distance(self, r, z):
        p = np.array([r, z])
        a, b = self.poly[:-1], self.poly[1:]
        d = b - a
        t = np.clip(np.sum((p - a)*d, axis=1)/np.maximum(np.sum(d*d, axis=1), 1e-300), 0, 1)
        return float(np.min(np.linalg.norm(a + t[:, None]*d - p, axis=1)))

    def contains(self, r, z):
        return polygon_contains(self.poly, max(r, 1e-9*self.size), z)

    def h(self, n):
        return self.path.path_length/n


def reversed_path(p):
    """The same path traversed in the other direction."""
    from traceon.geometry import Path
    L = p.path_length
    return Path(lambda u: p(L - u), L, sorted(L - b for b in p.breakpoints), name=p.name)


def radial_electrode(rng, zc, size, name, kinds=('sphere', 'blob', 'rod', 'ring', 'box', 'ellipse')):
    """A random closed profile around height zc that fits in |z - zc| < size, r < 2.2 size."""
    from traceon.geometry import Path
    k = kinds[rng.integers(len(kinds))]
    if k == 'sphere':
        R = size*rng.uniform(0.4, 0.9)
        p = Path.arc([0., 0., zc], [0., 0., zc - R], [R, 0., zc]).arc_to([0., 0., zc], [0., 0., zc + R])
        src = (0., zc + R*rng.uniform(-0.3, 0.3))
    elif k == 'blob':
        R, a, n, ph = size*rng.uniform(0.5, 0.7), rng.uniform(0.03, 0.12), rng.integers(2, 4), 0.

        def f(u):
            th = math.pi*u
            rad = R*(1 + a*math.cos(n*th + ph))
            return np.array([rad*math.sin(th) if 0 < u < 1 else 0., 0., zc - rad*math.cos(th)])
        p = Path.from_irregular_function(f)
        src = (0., zc + R*rng.uniform(-0.25, 0.25))
    elif k == 'rod':
        R, H = size*rng.uniform(0.4, 1.0), size*rng.uniform(0.4, 0.8)
        p = Path.line([0., 0., zc - H], [R, 0., zc - H]).line_to([R, 0., zc + H]).line_to([0., 0., zc + H])
        src = (0., zc + H*rng.uniform(-0.25, 0.25))
    elif k == 'ring':
        R = size*rng.uniform(0.25, 0.6)
        r0 = R + size*rng.uniform(0.4, 1.2)
        p = Path.circle_xz(r0, zc, R)
        src = (r0 + 0.2*R*rng.uniform(-1, 1), zc + 0.2*R*rng.uniform(-1, 1))
    elif k == 'box':
        W, H = size*rng.uniform(0.3, 0.6), size*rng.uniform(0.3, 0.7)
        r0 = W + size*rng.uniform(0.4, 1.0)
        p = Path.rectangle_xz(r0 - W, r0 + W, zc - H, zc + H)
        src = (r0, zc)
    else:
        a, b = size*rng.uniform(0.4, 0.6), size*rng.uniform(0.4, 0.6)
        r0 = a + size*rng.uniform(0.4, 1.0)
        p = Path.ellipse(a, b).rotate(Rx=math.pi/2).move(dx=r0, dz=zc)
        # the rotation leaves y = 1e-17 behind; radial geometries have to lie exactly in the xz-plane
        p = p.map_points(lambda q: np.array([q[0], 0., q[2]]))
        src = (r0, zc)
    return Electrode2D(p, name, src, k, size)


def radial_stack(rng, n, scale=1.0, kinds=('sphere', 'blob', 'rod', 'ring', 'box', 'ellipse')):
    """n disjoint closed profiles stacked along z."""
    out = []
    z = 0.
    for i in range(n):
        size = scale*rng.uniform(0.6, 1.2)
        z += size*1.25
        out.append(radial_electrode(rng, z, size, f'el{i}', kinds))
        z += size*1.25
    return out


def mesh_radial(els, n_per, higher_order=True, rng=None):
    m = None
    for e in els:
        k = n_per if rng is None else int(n_per*rng.uniform(0.8, 1.25))
        me = e.path.mesh(mesh_size=e.path.path_length/k, higher_order=higher_order, name=e.name)
        m = me if m is None else m + me
    return m


def sources_for(els, rng, V=None):
    """A harmonic function whose sources lie inside the electrodes (so it is harmonic and decays outside all of them)."""
    H = Harmonic()
    for e in els:
        q = rng.uniform(0.5, 2.0)*rng.choice([-1, 1])*e.size
        if e.source[0] == 0.:
            H.point(q, [0., 0., e.source[1]])
        else:
            H.ring(q, e.source[0], e.source[1])
    return H


def outside_points(els, rng, n, margin, box=None):
    """Points (3D, random azimuth) outside all electrodes and at least margin*size from them."""
    out = []
    zs = np.concatenate([e.poly[:, 1] for e in els])
    rs = np.concatenate([e.poly[:, 0] for e in els])
    lo, hi, rm = zs.min(), zs.max(), rs.max()
    ext = hi - lo
    tries = 0
    while len(out) < n and tries < 5000:
        tries += 1
        r = abs(rng.uniform(0, 1.6*rm)) if rng.random() > 0.2 else 0.0
        z = rng.uniform(lo - 0.4*ext, hi + 0.4*ext)
        if any(e.contains(r, z) or e.distance(r, z) < margin*e.size for e in els):
            continue
        th = rng.uniform(0, 2*np.pi)
        out.append([r*math.cos(th), r*math.sin(th), z])
    return np.array(out).reshape(-1, 3)


def inside_points(e, rng, n, margin):
    out = []
    tries = 0
    lo, hi = e.poly.min(axis=0), e.poly.max(axis=0)
    while len(out) < n and tries < 5000:
        tries += 1
        r, z = rng.uniform(lo[0], hi[0]), rng.uniform(lo[1], hi[1])
        if not e.contains(r, z) or e.distance(r, z) < margin*e.size:
            continue
        th = rng.uniform(0, 2*np.pi)
        out.append([r*math.cos(th), r*math.sin(th), z])
    return np.array(out).reshape(-1, 3)


# ------------------------------------------------------------------ 3D electrodes
def rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w)],
                     [2*(x*y + z*w), 1 - 2*(x*x + z*z), 2*(y*z - x*w)],
                     [2*(x*z - y*w), 2*(y*z + x*w), 1 - 2*(x*x + y*y)]])


class Electrode3D:
    """A closed surface given in local coordinates and placed by x -> c + R x."""

    def __init__(self, surface, level, R, c, size, name, kind):
        self.R, self.c, self.size, self.name, self.kind, self.level = R, np.asarray(c, float), size, name, kind, level
        self.surface = surface.map_points(lambda p: self.c + R @ np.asarray(p))
        self.surface.name = name

    def local(self, p):
        return self.R.T @ (np.asarray(p) - self.c)

    def signed(self, p):
        """Roughly a signed distance: negative inside."""
        return self.level(self.local(p))

    def contains(self, p):
        return self.signed(p) < 0


def electrode_3d(rng, c, size, name, kinds=('sphere', 'ellipsoid', 'box', 'cylinder')):
    from traceon.geometry import Path, Surface
    k = kinds[rng.integers(len(kinds))]
    R = rotation(rng)
    if k == 'sphere':
        a = size*rng.uniform(0.6, 0.9)
        s = Surface.sphere(a)
        level = lambda p: np.linalg.norm(p) - a     # noqa: E731
    elif k == 'ellipsoid':
        ax = size*rng.uniform(0.55, 0.9, size=3)
        s = Surface.sphere(float(ax.mean())).map_points(lambda p: p*ax/ax.mean())
        level = lambda p: (np.linalg.norm(p/ax) - 1)*ax.min()     # noqa: E731
    elif k == 'box':
        h = size*rng.uniform(0.35, 0.55, size=3)
        s = Surface.box(-h, h)

        def level(p):
            q = np.abs(p) - h
            return float(np.linalg.norm(np.maximum(q, 0)) + min(q.max(), 0))
    else:
        a, b = size*rng.uniform(0.4, 0.6), size*rng.uniform(0.4, 0.6)
        prof = Path.line([0., 0., -b], [a, 0., -b]).line_to([a, 0., b]).line_to([0., 0., b])
        s = prof.revolve_z()

        def level(p):
            q = np.array([math.hypot(p[0], p[1]) - a, abs(p[2]) - b])
            return float(np.linalg.norm(np.maximum(q, 0)) + min(q.max(), 0))
    return Electrode3D(s, level, R, c, size, name, k)


def cluster_3d(rng, n, scale=1.0, kinds=('sphere', 'ellipsoid', 'box', 'cylinder')):
    """n disjoint closed bodies around the origin."""
    out = []
    cells = rng.permutation(8)
    for i in range(n):
        k = cells[i]
        corner = np.array([(k & 1), (k >> 1) & 1, (k >> 2) & 1])*2.0 - 1
        c = scale*(corner*1.05 + rng.uniform(-0.1, 0.1, size=3))
        if n == 1:
            c = scale*rng.uniform(-0.5, 0.5, size=3)
        out.append(electrode_3d(rng, c, scale*rng.uniform(0.7, 0.95), f'el{i}', kinds))
    return out


def mesh_3d(els, factor=None, mesh_size=None):
    m = None
    for e in els:
        me = e.surface.mesh(mesh_size=None if mesh_size is None else mesh_size*e.size, mesh_size_factor=factor)
        m = me if m is None else m + me
    return m


def sources_3d(els, rng):
    H = Harmonic()
    for e in els:
        H.point(rng.uniform(0.5, 2)*rng.choice([-1, 1])*e.size, e.c + 0.1*e.size*rng.uniform(-1, 1, size=3))
    return H


def outside_3d(els, rng, n, margin, extent):
    out = []
    tries = 0
    while len(out) < n and tries < 10000:
        tries += 1
        p = rng.uniform(-extent, extent, size=3)
        if all(e.signed(p) > margin*e.size for e in els):
            out.append(p)
    return np.array(out).reshape(-1, 3)


def inside_3d(e, rng, n, margin):
    out = []
    tries = 0
    while len(out) < n and tries < 10000:
        tries += 1
        p = e.c + e.size*rng.uniform(-1, 1, size=3)
        if e.signed(p) < -margin*e.size:
            out.append(p)
    return np.array(out).reshape(-1, 3)


# ------------------------------------------------------------------ numerics
def num_gradient(f, p, h):
    """Fourth order central differences."""
    g = np.zeros(3)
    for i in range(3):
        d = np.zeros(3)
        d[i] = h
        g[i] = (8*(f(p + d) - f(p - d)) - (f(p + 2*d) - f(p - 2*d)))/(12*h)
    return g


def num_jacobian(F, p, h):
    """J[i, j] = dF_i/dx_j, fourth order."""
    J = np.zeros((3, 3))
    for j in range(3):
        d = np.zeros(3)
        d[j] = h
        J[:, j] = (8*(F(p + d) - F(p - d)) - (F(p + 2*d) - F(p - 2*d)))/(12*h)
    return J


def sphere_rule(n):
    """Product rule on the unit sphere: points (M,3), weights summing to 4 pi."""
    x, w = gauss(n)
    ph = 2*np.pi*np.arange(2*n)/(2*n)
    pts, ws = [], []
    for c, wc in zip(x, w):
        s = math.sqrt(1 - c*c)
        for f in ph:
            pts.append([s*math.cos(f), s*math.sin(f), c])
            ws.append(wc*np.pi/n)
    return np.array(pts), np.array(ws)


def density_of(field, n):
    """The charge density per element from the documented charge and area accessors."""
    return np.array([field.charge_on_element(i)/field.area_of_element(i) for i in range(n)])


def legendre_axis(l, r, c):
    return r**l*eval_legendre(l, c)


__all__ = [n for n in dir() if not n.startswith('_')] + ['ellipk']
