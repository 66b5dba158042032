"""C01: the field of the direct solver is the solution of the Dirichlet problem.

Oracles: manufactured harmonic functions (sources hidden inside the electrodes; regular harmonics outside), constancy inside closed
conductors, and the residual of the boundary condition at every element centre by an independent integration of the charges."""
import math

import numpy as np

from mon.lib import (Harmonic, cluster_3d, cubic_line, density_of, inside_3d, inside_points, line_quadrature, mesh_3d, mesh_radial, outside_3d,
                     outside_points, radial_stack, ring_potential, sources_3d, sources_for, triangle_potential)

RULE = ('random stacks of closed radial profiles / clusters of closed 3D bodies, random voltages, voltage functions or manufactured '
        'harmonic voltages; non-trivial when the voltages are not all equal and at least 5 points were judged')
ASSUMPTIONS = ['closed-form harmonic functions and scipy elliptic integrals are the reference',
               'tolerances scale with the element size; electrodes are at least 0.3 times their size apart',
               'surfaces given by the charges are read with the documented area and charge accessors']
REQUIRED = {'radial-exterior': 100, 'radial-interior': 60, 'radial-residual': 200, '3d-exterior': 30, '3d-interior': 20, '3d-residual': 300,
            'radial-convergence': 1, 'decay': 4, 'large-radial': 1500, 'large-3d': 1500}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(14 if q else 120):
        out.append(dict(kind='radial-manufactured', n_el=1 + i % 3, ho=i % 2 == 0))
    for i in range(12 if q else 120):
        out.append(dict(kind='radial-voltages', n_el=1 + i % 4, ho=i % 2 == 0))
    for i in range(6 if q else 60):
        out.append(dict(kind='radial-cavity', ho=i % 2 == 0))
    for i in range(8 if q else 60):
        out.append(dict(kind='3d-manufactured', n_el=1 + i % 2))
    for i in range(8 if q else 60):
        out.append(dict(kind='3d-voltages', n_el=1 + i % 3))
    for i in range(3 if q else 20):
        out.append(dict(kind='radial-converge'))
    for i in range(2 if q else 16):
        out.append(dict(kind='scale', s_exp=[-3, -2, 1, 2][(i + seed) % 4]))
    # many elements (a system of equations, matrix and mesh of another order of magnitude than the rest)
    for i in range(2 if q else 8):
        out.append(dict(kind='large', sym=['radial', '3d'][i % 2], n=[4300, 4500, 2300, 2600, 9000, 8000, 1400, 1500][i % 8]))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def radial_residual(ctx, excitation, field, want, scale, tol=3e-7, n_idx=60):
    """The potential at the centre of each element, integrated independently over all (curved) elements, is the voltage."""
    verts, names = excitation.get_electrostatic_active_elements()
    dens = density_of(field, len(verts))
    sing = [line_quadrature(v, 24, True) for v in verts]
    reg = [line_quadrature(v, 48) for v in verts]
    centres = np.array([cubic_line(v, np.array([0.]))[0][0] for v in verts])
    allp = np.concatenate([p for p, _ in reg])
    allw = np.concatenate([w*d for (_, w), d in zip(reg, dens)])
    n = len(reg[0][0])
    idx = np.arange(len(verts)) if len(verts) <= n_idx else ctx.rng.choice(len(verts), n_idx, replace=False)
    got = np.zeros(len(idx))
    for k, i in enumerate(idx):
        r, z = centres[i]
        contrib = allw*2*np.pi*allp[:, 0]*ring_potential(allp[:, 0], allp[:, 1], r, z)
        contrib[i*n:(i + 1)*n] = 0
        p, w = sing[i]
        got[k] = contrib.sum() + dens[i]*np.sum(w*2*np.pi*p[:, 0]*ring_potential(p[:, 0], p[:, 1], r, z))
    target = np.array([want(np.array([centres[i][0], 0., centres[i][1]]), i, names) for i in idx])
    ctx.close('radial-residual', got, target, tol*scale, 'potential on the electrode surface at an element centre')


def solve(mesh, symmetry, volts):
    import traceon.excitation as E
    import traceon.solver as S
    exc = E.Excitation(mesh, symmetry)
    exc.add_voltage(**volts)
    return exc, S.solve_direct(exc)


def name_value(volts):
    def want(p, i, names):
        for n, idx in names.items():
            if i in idx:
                v = volts[n]
                return v(*p) if callable(v) else v
        raise KeyError(i)
    return want


def run_case(ctx, case):
    import traceon.excitation as E
    import traceon.geometry as G
    rng = ctx.rng
    kind = case['kind']
    RAD, TD = E.Symmetry.RADIAL, E.Symmetry.THREE_D

    if kind == 'radial-manufactured':
        els = radial_stack(rng, case['n_el'], scale=10**rng.uniform(-1, 0.5))
        n = 48
        mesh = mesh_radial(els, n, case['ho'], rng)
        H = sources_for(els, rng)
        f = lambda x, y, z: H.pot([x, y, z])     # noqa: E731
        volts = {e.name: f for e in els}
        exc, field = solve(mesh, RAD, volts)
        pts = outside_points(els, rng, 20, 0.3)
        scale = max(abs(H.pot([e.poly[i, 0], 0, e.poly[i, 1]])) for e in els for i in range(0, 240, 20))
        tol = 4e-4 if case['ho'] else 2.5e-3
        for p in pts:
            ctx.close('radial-exterior', field.potential_at_point(p), H.pot(p), tol*scale, f'exterior potential at {p}')
            size = min(e.size for e in els)
            ctx.close('radial-exterior-field', field.field_at_point(p), H.field(p), 4*tol*scale/size, f'exterior field at {p}')
        far = 1e3*max(e.poly.max() for e in els)
        ctx.close('decay', field.potential_at_point([far*0.6, 0., far*0.8]), H.pot([far*0.6, 0., far*0.8]), tol*scale*1e-2, 'potential far away')
        radial_residual(ctx, exc, field, name_value(volts), scale)
        ctx.nontrivial('rm', [e.kind for e in els], scale, len(mesh.lines))
        ctx.note(electrodes=[e.kind for e in els], elements=len(mesh.lines), points=len(pts))
        ctx.state('electrode', '+'.join(sorted(e.kind for e in els)))

    elif kind == 'radial-voltages':
        els = radial_stack(rng, case['n_el'], scale=10**rng.uniform(-1, 0.5))
        mesh = mesh_radial(els, 40, case['ho'], rng)
        vals = rng.uniform(-100, 100, size=len(els))
        if rng.random() < 0.4:
            vals[0] = 0.0
            vals[-1] = int(rng.integers(1, 100))
        volts = {e.name: (int(v) if v == int(v) else float(v)) for e, v in zip(els, vals)}
        exc, field = solve(mesh, RAD, volts)
        scale = np.max(np.abs(vals))
        for e, v in zip(els, vals):
            for p in inside_points(e, rng, 5, 0.15):
                ctx.close('radial-interior', field.electrostatic_potential_at_point(p), v, 2e-3*scale, f'inside {e.kind} at {v} V, point {p}')
                ctx.close('radial-interior-field', field.electrostatic_field_at_point(p), 0, 0.03*scale/e.size, f'field inside {e.kind}, point {p}')
        # maximum principle: no extremum in free space
        for p in outside_points(els, rng, 10, 0.05):
            u = field.potential_at_point(p)
            ctx.check('maximum-principle', min(0, vals.min()) - 2e-2*scale <= u <= max(0, vals.max()) + 2e-2*scale, f'potential {u} at {p} outside the range of {vals}')
        radial_residual(ctx, exc, field, name_value(volts), scale)
        ctx.nontrivial('rv', vals, len(mesh.lines))
        ctx.note(electrodes=[e.kind for e in els], voltages=list(vals))

    elif kind == 'radial-cavity':
        # regular harmonics prescribed on a closed cavity wall, evaluated inside
        els = radial_stack(rng, 1, scale=10**rng.uniform(-1, 1), kinds=('sphere', 'blob', 'rod', 'ring', 'box', 'ellipse'))
        e = els[0]
        mesh = mesh_radial(els, 48, case['ho'])
        zc = float(e.poly[:, 1].mean())
        L = e.size
        H = Harmonic().linear([0, 0, rng.uniform(-1, 1)/L], rng.uniform(-1, 1)).quad(rng.uniform(-1, 1)/L**2)
        H.point(rng.uniform(-1, 1)*L, [0, 0, zc + 3.5*L])
        volts = {e.name: lambda x, y, z: H.pot([x, y, z])}
        exc, field = solve(mesh, RAD, volts)
        scale = max(abs(H.pot([q[0], 0, q[1]])) for q in e.poly[::10])
        tol = 4e-4 if case['ho'] else 2.5e-3
        for p in inside_points(e, rng, 15, 0.12):
            ctx.close('radial-cavity', field.potential_at_point(p), H.pot(p), tol*scale, f'cavity potential at {p}')
            ctx.close('radial-cavity-field', field.field_at_point(p), H.field(p), 10*tol*scale/L, f'cavity field at {p}')
        radial_residual(ctx, exc, field, name_value(volts), scale)
        ctx.nontrivial('rc', e.kind, scale)

    elif kind == 'radial-converge':
        els = radial_stack(rng, 2, kinds=('sphere', 'blob', 'ring', 'ellipse'))
        H = sources_for(els, rng)
        pts = outside_points(els, rng, 8, 0.35)
        errs = []
        for n in (12, 24, 48):
            mesh = mesh_radial(els, n, True)
            exc, field = solve(mesh, RAD, {e.name: (lambda x, y, z: H.pot([x, y, z])) for e in els})
            errs.append(max(abs(field.potential_at_point(p) - H.pot(p)) for p in pts))
        scale = max(abs(H.pot(p)) for p in pts)
        ctx.check('radial-convergence', errs[2] <= max(0.45*errs[0], 1e-5*scale), f'errors {errs} do not shrink with refinement')
        ctx.note(errors=errs)
        ctx.nontrivial('rcv', scale)

    elif kind in ('3d-manufactured', '3d-voltages'):
        els = cluster_3d(rng, case['n_el'], scale=10**rng.uniform(-1, 0.5))
        mesh = mesh_3d(els, mesh_size=0.36 if len(els) < 3 else 0.45)
        if kind == '3d-manufactured':
            H = sources_3d(els, rng)
            volts = {e.name: (lambda x, y, z: H.pot([x, y, z])) for e in els}
        else:
            vals = rng.uniform(-100, 100, size=len(els))
            volts = {e.name: float(v) for e, v in zip(els, vals)}
        exc, field = solve(mesh, TD, volts)
        verts, names = exc.get_electrostatic_active_elements()
        want = name_value(volts)
        target = np.array([want(v.mean(axis=0), i, names) for i, v in enumerate(verts)])
        scale = np.max(np.abs(target))
        dens = density_of(field, len(verts))
        idx = ctx.rng.choice(len(verts), min(len(verts), 60), replace=False)
        centres = verts.mean(axis=1)[idx]
        got = np.zeros(len(idx))
        for j, tri in enumerate(verts):
            got += dens[j]*triangle_potential(tri, centres)
        ctx.close('3d-residual', got, target[idx], 1e-6*scale, 'potential on the electrode surface at a triangle centre')
        size = min(e.size for e in els)
        if kind == '3d-manufactured':
            for p in outside_3d(els, rng, 10, 0.4, 3*max(np.abs(e.c).max() + e.size for e in els)):
                ctx.close('3d-exterior', field.potential_at_point(p), H.pot(p), 0.02*scale, f'exterior potential at {p}')
                ctx.close('3d-exterior-field', field.field_at_point(p), H.field(p), 0.06*scale/size, f'exterior field at {p}')
        else:
            for e, v in zip(els, vals):
                for p in inside_3d(e, rng, 5, 0.22):
                    ctx.close('3d-interior', field.potential_at_point(p), v, 0.02*scale, f'inside {e.kind} at {v} V, point {p}')
                    ctx.close('3d-interior-field', field.field_at_point(p), 0, 0.2*scale/size, f'field inside {e.kind} at {p}')
        ctx.nontrivial('3d', [e.kind for e in els], target[:5])
        ctx.note(electrodes=[e.kind for e in els], elements=len(verts))
        ctx.state('body', '+'.join(sorted(e.kind for e in els)))

    elif kind == 'large':
        n = case['n']
        k = 3
        if case['sym'] == 'radial':
            els = radial_stack(rng, k, scale=10**rng.uniform(-1, .5))
            mesh = mesh_radial(els, n//k, True, rng)
        else:
            els = cluster_3d(rng, k, scale=10**rng.uniform(-1, .5))
            lo, hi = .02, 1.
            for _ in range(12):       # the mesh size that gives the number of elements wanted
                mid = math.sqrt(lo*hi)
                mesh = mesh_3d(els, mesh_size=mid)
                lo, hi = (mid, hi) if len(mesh.triangles) > n else (lo, mid)
                if n*.85 < len(mesh.triangles) < n*1.2:
                    break
        sym = RAD if case['sym'] == 'radial' else TD
        H = (sources_for if sym == RAD else sources_3d)(els, rng)
        volts = {els[0].name: lambda x, y, z: H.pot([x, y, z])}
        volts.update({e.name: float(rng.uniform(-1, 1)*np.abs(H.pot([*(els[0].c if sym == TD else [0., 0., els[0].poly[:, 1].max()])] + np.array([0, 0, els[0].size])))) for e in els[1:]})
        exc, field = solve(mesh, sym, volts)
        verts, names = exc.get_electrostatic_active_elements()
        want = name_value(volts)
        if sym == RAD:
            scale = max(abs(want(np.array([v[0][0], 0., v[0][2]]), i, names)) for i, v in list(enumerate(verts))[::40])
            radial_residual(ctx, exc, field, want, scale, n_idx=16)
            ctx.event('large-radial', len(verts))
        else:
            idx = np.sort(rng.choice(len(verts), 40, replace=False))
            target = np.array([want(verts[i].mean(axis=0), i, names) for i in idx])
            scale = np.max(np.abs(target))
            dens = density_of(field, len(verts))
            centres = verts.mean(axis=1)[idx]
            got = np.zeros(len(idx))
            for j, tri in enumerate(verts):
                got += dens[j]*triangle_potential(tri, centres)
            ctx.close('3d-residual', got, target, 1e-6*scale, 'potential on the electrode surface at a triangle centre')
            ctx.event('large-3d', len(verts))
        ctx.state('elements (hundreds)', len(verts)//100)
        ctx.nontrivial('large', scale, len(verts))
        ctx.note(elements=len(verts))

    elif kind == 'scale':
        # one closed electrode at extreme scales: phi inside is V
        s = 10.**case['s_exp']
        R = s*rng.uniform(0.5, 1.5)
        p = G.Path.arc([0., 0., 0.], [0., 0., -R], [R, 0., 0.]).arc_to([0., 0., 0.], [0., 0., R])
        mesh = p.mesh(mesh_size=R*math.pi/40, higher_order=True, name='a')
        exc, field = solve(mesh, RAD, dict(a=5.0))
        ctx.close('radial-interior', field.potential_at_point([0.3*R, 0., 0.2*R]), 5.0, 1e-2, f'inside a sphere of radius {R}')
        ctx.close('radial-exterior', field.potential_at_point([0., 3*R, 0.2*R]), 5/math.hypot(3, 0.2), 1e-2, f'outside a sphere of radius {R}')
        s3 = G.Surface.sphere(R)
        s3.name = 'a'
        exc, field = solve(s3.mesh(mesh_size_factor=2), TD, dict(a=5.0))
        ctx.close('3d-interior', field.potential_at_point([0.3*R, 0., 0.2*R]), 5.0, 5e-2, f'inside a 3D sphere of radius {R}')
        ctx.close('3d-exterior', field.potential_at_point([0., 3*R, 0.2*R]), 5/math.hypot(3, 0.2), 5e-2, f'outside a 3D sphere of radius {R}')
        ctx.nontrivial('scale', R)
