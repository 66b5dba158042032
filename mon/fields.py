"""Random fields of every kind with what is needed to judge them: a sampler of points away from sources."""
import numpy as np

from mon.lib import cluster_3d, mesh_3d, mesh_radial, outside_3d, outside_points, radial_stack


class Solved:
    def __init__(self, field, points, size, kind, els=None, exc=None, magnetic=False, coils=(), mesh=None):
        self.field, self.points, self.size, self.kind, self.els, self.exc = field, points, size, kind, els, exc
        self.magnetic, self.coils, self.mesh = magnetic, coils, mesh

    def E(self, p):
        return (self.field.magnetostatic_field_at_point if self.magnetic else self.field.electrostatic_field_at_point)(p)

    def phi(self, p):
        return (self.field.magnetostatic_potential_at_point if self.magnetic else self.field.electrostatic_potential_at_point)(p)


def coil_surface(rng, r0, z0, w, h, kind=None):
    """A coil cross section in the xz-plane around (r0, z0): rectangle, disk or sheared quadrilateral.

    -> surface, quadrature points (N,2) and weights summing to one."""
    from mon.lib import gauss
    from traceon.geometry import Path, Surface
    x, wt = gauss(24)
    kind = kind or ['rect', 'quad', 'disk'][rng.integers(3)]
    if kind == 'rect':
        s = Surface.rectangle_xz(r0 - w, r0 + w, z0 - h, z0 + h)
        A, B = np.meshgrid(x, x, indexing='ij')
        pts = np.stack([r0 + w*A.ravel(), z0 + h*B.ravel()], axis=1)
        ww = np.outer(wt, wt).ravel()
    elif kind == 'quad':
        c = np.array([[r0 - w, z0 - h], [r0 + w*rng.uniform(.5, 1), z0 - h*rng.uniform(.6, 1)],
                      [r0 + w, z0 + h], [r0 - w*rng.uniform(.5, 1), z0 + h*rng.uniform(.6, 1)]])
        l1 = Path.line([c[0, 0], 0., c[0, 1]], [c[1, 0], 0., c[1, 1]])
        l2 = Path.line([c[3, 0], 0., c[3, 1]], [c[2, 0], 0., c[2, 1]])
        s = Surface.spanned_by_paths(l1, l2)
        A, B = np.meshgrid((x + 1)/2, (x + 1)/2, indexing='ij')
        A, B = A.ravel(), B.ravel()
        P = (np.outer((1 - A)*(1 - B), c[0]) + np.outer(A*(1 - B), c[1]) + np.outer(A*B, c[2]) + np.outer((1 - A)*B, c[3]))
        dA = np.outer(1 - B, c[1] - c[0]) + np.outer(B, c[2] - c[3])
        dB = np.outer(1 - A, c[3] - c[0]) + np.outer(A, c[2] - c[1])
        ww = np.outer(wt, wt).ravel()*np.abs(dA[:, 0]*dB[:, 1] - dA[:, 1]*dB[:, 0])
        pts = P
    else:
        R = min(w, h)
        s = Surface.disk_xz(r0, z0, R)
        ph = 2*np.pi*np.arange(32)/32
        rr, wr = (x + 1)/2*R, wt*R/2
        A, B = np.meshgrid(rr, ph, indexing='ij')
        pts = np.stack([r0 + (A*np.cos(B)).ravel(), z0 + (A*np.sin(B)).ravel()], axis=1)
        ww = np.outer(wr*rr, np.ones(32)).ravel()
    return s, pts, ww/ww.sum(), kind


def random_radial(ctx, rng, n_el=2, n_per=32, ho=True, npts=12, margin=0.25, scale=None):
    import traceon.excitation as E
    import traceon.solver as S
    els = radial_stack(rng, n_el, scale=10**rng.uniform(-1, 0.3) if scale is None else scale)
    mesh = mesh_radial(els, n_per, ho)
    exc = E.Excitation(mesh, E.Symmetry.RADIAL)
    vals = rng.uniform(-100, 100, size=n_el)
    exc.add_voltage(**{e.name: float(v) for e, v in zip(els, vals)})
    f = S.solve_direct(exc)
    return Solved(f, outside_points(els, rng, npts, margin), min(e.size for e in els), 'radial', els, exc, mesh=mesh)


def random_3d(ctx, rng, n_el=2, npts=8, margin=0.35, magnetic=False, mesh_size=0.5, scale=None):
    import traceon.excitation as E
    import traceon.solver as S
    els = cluster_3d(rng, n_el, scale=10**rng.uniform(-1, 0.3) if scale is None else scale)
    mesh = mesh_3d(els, mesh_size=mesh_size)
    exc = E.Excitation(mesh, E.Symmetry.THREE_D)
    vals = {e.name: float(rng.uniform(-100, 100)) for e in els}
    if magnetic:
        exc.add_magnetostatic_potential(**vals)
    else:
        exc.add_voltage(**vals)
    f = S.solve_direct(exc)
    ext = 1.8*max(np.abs(e.c).max() + e.size for e in els)
    return Solved(f, outside_3d(els, rng, npts, margin, ext), min(e.size for e in els), '3d', els, exc, magnetic, mesh=mesh)


def random_magnetic(ctx, rng, n_coil=1, iron=True, npts=12, pot=False, scale=None):
    """Coils with (optionally) magnetizable bodies and bodies at a magnetostatic potential, radial symmetry."""
    import traceon.excitation as E
    import traceon.solver as S
    scale = 10**rng.uniform(-1, 0.3) if scale is None else scale
    els = radial_stack(rng, (1 if iron else 0) + (1 if pot else 0), scale=scale) if (iron or pot) else []
    mesh = mesh_radial(els, 32, True) if els else None
    top = max([e.poly[:, 1].max() for e in els], default=0.) + 0.4*scale
    coils, names, cur = [], [], {}
    for i in range(n_coil):
        w, h = scale*rng.uniform(0.15, 0.4), scale*rng.uniform(0.15, 0.4)
        r0, z0 = w + scale*rng.uniform(0.3, 1.2), top + h
        top += 2*h + 0.5*scale
        s, pts, ww, k = coil_surface(rng, r0, z0, w, h)
        s.name = f'coil{i}'
        m = s.mesh(mesh_size=max(w, h)/2.5)
        mesh = m if mesh is None else mesh + m
        cur[s.name] = float(rng.uniform(0.5, 3)*rng.choice([-1, 1]))
        coils.append(dict(center=(r0, z0), half=(w, h), pts=pts, w=ww, I=cur[s.name], kind=k, name=s.name))
    exc = E.Excitation(mesh, E.Symmetry.RADIAL)
    if cur:
        exc.add_current(**cur)
    k = 0
    if iron:
        exc.add_magnetizable(**{els[0].name: float(rng.choice([0.5, 2., 10., 100.]))})
        k = 1
    if pot:
        exc.add_magnetostatic_potential(**{els[k].name: float(rng.uniform(-5, 5))})
    f = S.solve_direct(exc)
    zs = [q for e in els for q in (e.poly[:, 1].min(), e.poly[:, 1].max())] + [c['center'][1] for c in coils]
    rs = [e.poly[:, 0].max() for e in els] + [c['center'][0] + c['half'][0] for c in coils]
    out = []
    t = 0
    while len(out) < npts and t < 4000:
        t += 1
        r = rng.uniform(0, 1.5*max(rs)) if rng.random() > 0.2 else 0.
        z = rng.uniform(min(zs) - scale, max(zs) + scale)
        if any(e.contains(r, z) or e.distance(r, z) < 0.25*e.size for e in els):
            continue
        if any(abs(r - c['center'][0]) < c['half'][0] + 0.2*scale and abs(z - c['center'][1]) < c['half'][1] + 0.2*scale for c in coils):
            continue
        th = rng.uniform(0, 2*np.pi)
        out.append([r*np.cos(th), r*np.sin(th), z])
    return Solved(f, np.array(out).reshape(-1, 3), scale, 'magnetic', els, exc, True, coils, mesh=mesh)
