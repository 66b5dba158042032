"""C03: linearity of the solver, field arithmetic and superposition."""
import copy

import numpy as np

from mon.fields import coil_surface
from mon.lib import cluster_3d, mesh_3d, mesh_radial, outside_3d, outside_points, radial_stack

RULE = ('random geometries with several excitations of mixed kind; every case compares at random points the field of combined excitations with '
        'combinations of fields; non-trivial when the compared values are non-zero')
ASSUMPTIONS = ['floating point linearity up to the conditioning of the dense solve (relative 1e-7)']
REQUIRED = {'solver-linear:radial': 30, 'solver-linear:3d': 20, 'solver-linear:magnetic': 30, 'operators:radial': 100, 'operators:3d': 60,
            'operators:magnetic': 60, 'operators:mixed': 60, 'operators:axial': 60, 'operators:bounded': 60, 'operators:zero': 50, 'operands-unchanged': 60, 'superposition:radial': 20,
            'superposition:3d': 15, 'superposition:magnetic': 20, 'superposition:mixed': 20, 'superposition-keys': 10}


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(16 if q else 200):
        out.append(dict(kind='linear', sym=['radial', '3d', 'magnetic', 'radial'][i % 4]))
    for i in range(24 if q else 250):
        out.append(dict(kind='operators', sym=['radial', '3d', 'magnetic', 'mixed', 'axial', '3dmixed'][i % 6]))
    for i in range(35 if q else 250):
        out.append(dict(kind='superposition', sym=['radial', '3d', 'magnetic', 'mixed', '3dmag', 'radial-dielectric', 'coils'][i % 7]))
    for i, c in enumerate(out):
        c['s'] = i
    return out


class World:
    """A geometry with named groups, to be excited in any way."""

    def __init__(self, rng, sym, coils=0, n_el=3, ho=None, shrink=False):
        import traceon.excitation as E
        self.rng, self.sym = rng, sym
        if sym == '3d':
            self.els = cluster_3d(rng, n_el)
            self.mesh = mesh_3d(self.els, mesh_size=0.55)
            self.pts = outside_3d(self.els, rng, 6, 0.3, 3.5)
            self.symmetry = E.Symmetry.THREE_D
            self.coils = []
        else:
            self.els = radial_stack(rng, n_el, scale=10**rng.uniform(-1, 0.3))
            self.mesh = mesh_radial(self.els, 24, bool(rng.integers(2)) if ho is None else ho)
            self.symmetry = E.Symmetry.RADIAL
            self.pts = outside_points(self.els, rng, 6, 0.2)
            self.coils = []
            top = max(e.poly[:, 1].max() for e in self.els)
            sc = self.els[0].size
            for i in range(coils):
                w, h = sc*rng.uniform(.2, .4, size=2)
                s, _, _, _ = coil_surface(rng, w + sc*rng.uniform(.3, 1), top + 1.5*h, w, h)
                top += 3.5*h
                s.name = f'coil{i}'
                self.coils.append(s.name)
                self.mesh = self.mesh + s.mesh(mesh_size=max(w, h)/1.5)
            if coils:
                z0 = top + 0.5*sc
                extra = [[0.3*sc*rng.random(), 0.2*sc*rng.random(), z0 + sc*rng.random()] for _ in range(3)]
                self.pts = np.concatenate([self.pts[:4], np.array(extra)])
                self.pts = np.array([p for p in self.pts if p[2] < top - 3.5*h*coils - sc*0.3 or p[2] > top])
        self.names = [e.name for e in self.els]
        self.unit = 1.
        if shrink:       # nanometres
            self.unit = 10**rng.uniform(-9.5, -7)
            self.mesh = self.mesh.map_points(lambda p: p*self.unit)
            self.pts = [p*self.unit for p in self.pts]

    def moved(self, rng):
        """The same geometry somewhere else: equal elements in the same order."""
        o = copy.copy(self)
        d = float(rng.uniform(.5, 4)*rng.choice([-1, 1])*self.els[0].size*self.unit)
        o.mesh = self.mesh.move(dz=d) if self.sym != '3d' or rng.random() < .5 else self.mesh.move(dx=d, dy=0.3*d)
        return o

    def solve(self, **kinds):
        import traceon.excitation as E
        import traceon.solver as S
        exc = E.Excitation(self.mesh, self.symmetry)
        todo = [(k, n, v) for k in kinds for n, v in (kinds[k] or {}).items()]
        # excitations are assigned in any order
        for i in self.rng.permutation(len(todo)):
            k, n, v = todo[i]
            getattr(exc, 'add_' + k)(**{n: v})
        return exc, S.solve_direct(exc)


def readings(f, pts):
    """Everything a field object reports at the points: electric field and potential, magnetic field and potential."""
    out = []
    for p in pts:
        out.append(np.concatenate([f.electrostatic_field_at_point(p), [f.electrostatic_potential_at_point(p)],
                                   f.magnetostatic_field_at_point(p), [f.magnetostatic_potential_at_point(p)]]))
    return np.array(out).reshape(-1, 8)


def compare(ctx, mon, got, want, scale, msg, rel=1e-9):
    """scale: columnwise magnitude of what went in."""
    got, want = np.asarray(got), np.asarray(want)
    sc = np.broadcast_to(np.max(np.abs(scale), axis=0) + 1e-300, want.shape)
    ctx.close(mon, got, want, rel*sc + 1e-290, msg)


def snapshot(f):
    out = []
    for k in ('electrostatic_point_charges', 'magnetostatic_point_charges', 'current_point_charges'):
        if hasattr(f, k):
            e = getattr(f, k)
            out += [e.charges.copy(), e.jacobians.copy(), e.positions.copy()]
    for k in ('electrostatic_coeffs', 'magnetostatic_coeffs', 'z'):
        if hasattr(f, k):
            out.append(np.copy(getattr(f, k)))
    return out


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def run_case(ctx, case):
    rng = ctx.rng
    sym = case['sym']
    if case['kind'] == 'linear':
        if sym == 'magnetic':
            w = World(rng, 'radial', coils=2)
            mu = {w.names[0]: float(rng.uniform(2, 50))}
            one = dict(current={w.coils[0]: float(rng.uniform(1, 5)), w.coils[1]: float(rng.uniform(-5, 5))}, magnetizable=mu,
                       magnetostatic_potential={w.names[1]: float(rng.uniform(-5, 5))})
            two = dict(current={w.coils[0]: float(rng.uniform(-5, 5)), w.coils[1]: 0.0}, magnetizable=mu,
                       magnetostatic_potential={w.names[1]: float(rng.uniform(-5, 5))})
            lin = ('current', 'magnetostatic_potential')
        else:
            w = World(rng, sym)
            eps = {w.names[2]: float(rng.uniform(1.5, 20))} if rng.random() < 0.5 else {}
            act = w.names[:2] if eps else w.names
            one = dict(voltage={n: float(rng.uniform(-100, 100)) for n in act}, dielectric=eps)
            two = dict(voltage={n: (float(rng.uniform(-100, 100)) if rng.random() < .7 else int(rng.integers(-9, 9))) for n in act}, dielectric=eps)
            lin = ('voltage',)
        a, b = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
        both = {k: ({n: a*one[k][n] + b*two[k][n] for n in v} if k in lin else v) for k, v in one.items()}
        f1, f2, f3 = (w.solve(**x)[1] for x in (one, two, both))
        r1, r2, r3 = (readings(f, w.pts) for f in (f1, f2, f3))
        compare(ctx, 'solver-linear:' + sym, r3, a*r1 + b*r2, np.abs(a*r1) + np.abs(b*r2), f'field of {a}*(1)+{b}*(2)', rel=1e-7)
        if sym != 'magnetic':
            # voltage functions add up as well, including with constants
            c = rng.uniform(-1, 1, size=4)*[10, 5, 5, 5]
            g = lambda x, y, z: float(c[0] + c[1]*x + c[2]*y + c[3]*z)     # noqa: E731
            v = one['voltage']
            gf, hf = dict(one), dict(one)
            gf['voltage'] = {n: g for n in v}
            hf['voltage'] = {n: (lambda x, y, z, n=n: g(x, y, z) + v[n]) for n in v}
            rg, rh = readings(w.solve(**gf)[1], w.pts), readings(w.solve(**hf)[1], w.pts)
            compare(ctx, 'solver-linear:' + sym, rh, r1 + rg, np.abs(r1) + np.abs(rg), 'sum of voltage function and fixed voltage', rel=1e-7)
        ctx.nontrivial(sym, r3)
        ctx.note(sym=sym, one=one, two=two, a=a, b=b)

    elif case['kind'] == 'operators':
        if sym in ('radial', '3d'):
            which = ['other', 'same', 'moved', 'moved'][case['s']//6 % 4]
            w = World(rng, sym, n_el=2, shrink=case['s']//6 % 2 == 1)
            w2 = dict(other=lambda: World(rng, sym, n_el=2), same=lambda: w, moved=lambda: w.moved(rng))[which]()
            ctx.state('second geometry', which)
            f = w.solve(voltage={n: float(rng.uniform(-100, 100)) for n in w.names})[1]
            g = w2.solve(voltage={n: float(rng.uniform(-100, 100)) for n in w2.names})[1]
            pts = w.pts
        elif sym in ('magnetic', 'mixed'):
            w = World(rng, 'radial', coils=2)
            w2 = w.moved(rng) if case['s']//6 % 2 else w
            mag = dict(current={w.coils[0]: float(rng.uniform(1, 5))}, magnetizable={w.names[0]: float(rng.uniform(2, 20))})
            f = w.solve(**mag)[1]
            if sym == 'mixed':
                g = w2.solve(voltage={w.names[1]: 10., w.names[2]: -3.}, current={w.coils[1]: 2.})[1]
            else:
                g = w2.solve(current={w.coils[1]: float(rng.uniform(1, 5)), w.coils[0]: 1.}, magnetostatic_potential={w.names[1]: 2.})[1]
            pts = w.pts
        elif sym == '3dmixed':
            w = World(rng, '3d', n_el=2)
            f = w.solve(voltage={w.names[0]: float(rng.uniform(1, 10)), w.names[1]: 1})[1]
            g = w.solve(magnetostatic_potential={w.names[1]: 2., w.names[0]: float(rng.uniform(1, 10))})[1]
            pts = w.pts
        else:
            from traceon.interpolation import FieldRadialAxial
            w = World(rng, 'radial', coils=1, n_el=2)
            F = w.solve(voltage={w.names[0]: float(rng.uniform(1, 10)), w.names[1]: 1}, current={w.coils[0]: 1.})[1]
            G = w.solve(voltage={w.names[0]: float(rng.uniform(1, 10))}, current={w.coils[0]: float(rng.uniform(1, 3))})[1]
            zt = max(w.mesh.points[:, 2]) + 0.3*w.els[0].size
            z1 = zt + 2*w.els[0].size
            n = int(rng.integers(20, 120))
            f, g = FieldRadialAxial(F, zt, z1, n), FieldRadialAxial(G, zt, z1, n)
            if rng.random() < .35:
                # the same field made from its coefficients
                import traceon.solver as S
                f, g = (S.FieldRadialAxial(x.z, x.electrostatic_coeffs, x.magnetostatic_coeffs) for x in (f, g))
                ctx.event('from-coefficients')
            pts = np.array([[0.05*w.els[0].size*rng.random(), 0.05*w.els[0].size*rng.random(), rng.uniform(zt, z1)] for _ in range(6)])
        a, b = float(rng.uniform(-3, 3)), int(rng.integers(-4, 5))
        rf, rg = readings(f, pts), readings(g, pts)
        before = snapshot(f), snapshot(g)
        sc = np.abs(rf) + np.abs(rg)
        tag = 'operators:' + dict(radial='radial', magnetic='magnetic', mixed='mixed', axial='axial').get(sym, '3d')
        combos = [
            ('f+g', lambda: f + g, rf + rg), ('g+f', lambda: g + f, rf + rg), ('f-g', lambda: f - g, rf - rg), ('g-f', lambda: g - f, rg - rf),
            ('-f', lambda: -f, -rf), ('-g', lambda: -g, -rg), ('a*f', lambda: a*f, a*rf), ('f*a', lambda: f*a, a*rf), ('b*g', lambda: b*g, b*rg),
            ('g*b', lambda: g*b, b*rg), ('f+f', lambda: f + f, 2*rf), ('f-f', lambda: f - f, 0*rf), ('0*f+g', lambda: 0*f + g, rg),
            ('a*f+b*g-f', lambda: a*f + b*g - f, (a - 1)*rf + b*rg), ('-(f-2*g)', lambda: -(f - 2*g), 2*rg - rf),
            ('((f+g)+f)*0.5', lambda: ((f + g) + f)*0.5, rf + 0.5*rg), ('f+g+f-g', lambda: f + g + f - g, 2*rf)]
        for name, op, want in combos:
            h = op()
            compare(ctx, tag, readings(h, pts), want, 6*sc, f'{name} on {sym}')
            ctx.state('operator', name + ':' + sym)
            el, mg = np.any(want[:, :4] != 0), np.any(want[:, 4:] != 0)
            if el and not h.is_electrostatic() or mg and not h.is_magnetostatic():
                ctx.check('operator-kind', False, f'{name} does not report the kinds of field it has')
            else:
                ctx.check('operator-kind', True)
        tiny = 10**rng.uniform(-30, -9)
        for name, h in (('tiny*f', tiny*f), ('tiny*g', g*tiny), ('tiny*f+tiny*g', tiny*f + tiny*g)):
            want = tiny*(rf if 'f' in name else 0) + tiny*(rg if 'g' in name else 0)
            compare(ctx, tag, readings(h, pts), want, tiny*6*sc, f'{name} on {sym}, {tiny:.2g}')
            ctx.check('operator-kind', (h.is_electrostatic() or not np.any(want[:, :4])) and (h.is_magnetostatic() or not np.any(want[:, 4:])),
                      f'{name} does not report the kinds of field it has, {tiny:.2g}')
        h = f + g
        readings(h, pts)
        h2 = h - 0.5*f
        readings(h2, pts)
        ctx.check('operands-unchanged', same(snapshot(f), before[0]) and same(snapshot(g), before[1]), f'operands changed by arithmetic ({sym})')
        compare(ctx, 'operands-unchanged', readings(f, pts), rf, sc, 'f after arithmetic', rel=1e-14)
        compare(ctx, 'operands-unchanged', readings(g, pts), rg, sc, 'g after arithmetic', rel=1e-14)
        # a field that happens to be zero is still a field
        for name, h in (('0*f', 0*f), ('f-f', f - f), ('f*0.0', f*0.0), ('f+(-f)', f + (-f))):
            if hasattr(f, 'set_bounds') and f.is_electrostatic() and f.is_magnetostatic():
                continue
            try:
                got = np.array([[*h.field_at_point(p), h.potential_at_point(p)] for p in pts])
            except Exception as e:
                ctx.check('operators:zero', False, f'{name} on {sym} cannot be evaluated: {type(e).__name__} {str(e)[:200]}')
                continue
            want4 = np.concatenate([np.max(np.abs(rf[:, i:i + 4]), axis=0) for i in (0, 4)]).reshape(2, 4).max(axis=0)
            ctx.close('operators:zero', got, np.zeros_like(got), np.broadcast_to(1e-9*want4 + 1e-290, got.shape), f'{name} on {sym}')
        # with field bounds: zero outside of them in both the operands and the result
        if hasattr(f, 'set_bounds'):
            P = np.asarray(pts, dtype=float)
            c, half = P[0], np.abs(P - P[0]).max(axis=0)*.6 + 1e-3*np.abs(P).max()
            fb = np.stack([c - half, c + half], axis=1)
            fB, gB = 1*f, 1*g
            fB.set_bounds(fb)
            gB.set_bounds(fb)
            far = c + 3*half*rng.choice([-1, 1], size=3)
            ptsB = np.concatenate([P, [far]])

            def only_fields(x):
                return np.array([[*x.electrostatic_field_at_point(p), *x.magnetostatic_field_at_point(p)] for p in ptsB])
            bf, bg = only_fields(fB), only_fields(gB)
            for name, op, want in [('f+g', lambda: fB + gB, bf + bg), ('f-g', lambda: fB - gB, bf - bg), ('-f', lambda: -fB, -bf), ('a*f', lambda: a*fB, a*bf),
                                   ('f*2', lambda: fB*2, 2*bf), ('a*f-g*2', lambda: a*fB - gB*2, a*bf - 2*bg)]:
                got = only_fields(op())
                compare(ctx, 'operators:bounded', got, want, 6*(np.abs(bf) + np.abs(bg)), f'{name} of fields with field bounds on {sym}')
                ctx.check('operators:bounded', not np.any(got[-1]), f'{name} of fields with field bounds is not zero outside of them ({sym})')
            other = 1*g
            if rng.random() < .5:
                other.set_bounds(2*fb + 1e-3)
            try:
                h = fB + other
                ok = True
            except (AssertionError, ValueError, NotImplementedError, RuntimeError, TypeError):
                ok = False
                ctx.event('different-bounds-rejected')
            if ok:      # otherwise it is the pointwise sum
                compare(ctx, 'operators:bounded', only_fields(h), bf + only_fields(other), 6*(np.abs(bf) + np.abs(only_fields(other))), f'sum of fields with different field bounds on {sym}')
        # derived quantities are linear too
        if sym in ('radial', 'magnetic', 'mixed'):
            z = np.array([p[2] for p in pts])
            zt = max(w.mesh.points[:, 2]) + w.els[0].size*(0.4 + rng.random(4))
            h = a*f + g
            for k in ('electrostatic', 'magnetostatic'):
                d = lambda x: getattr(x, f'get_{k}_axial_potential_derivatives')(zt)     # noqa: E731
                df, dg, dh = d(f), d(g), d(h)
                compare(ctx, 'operators:derivatives', dh, a*df + dg, np.abs(a*df) + np.abs(dg), f'{k} axial derivatives of a*f+g')
        if sym in ('radial', '3d'):
            n = len(f.electrostatic_point_charges)
            idx = rng.choice(n, 5, replace=False)
            ctx.close('operators:charge', (a*f).charge_on_elements(idx), a*f.charge_on_elements(idx), 1e-12*abs(a)*np.sum(np.abs([f.charge_on_element(i) for i in idx])),
                      'charge on elements of a*f')
        ctx.nontrivial('op', sym, rf)
        ctx.note(sym=sym, a=a, b=b)

    else:
        import traceon.solver as S
        kw = {}
        if sym == 'radial':
            w = World(rng, 'radial')
            kw = dict(voltage={n: float(rng.uniform(-50, 50)) for n in w.names})
        elif sym == 'radial-dielectric':
            w = World(rng, 'radial', n_el=4)
            kw = dict(voltage={w.names[0]: float(rng.uniform(1, 50)), w.names[1]: int(rng.integers(1, 50))},
                      dielectric={w.names[2]: float(rng.uniform(1.5, 10)), w.names[3]: 0 if rng.random() < .4 else float(rng.uniform(0, 0.9))})
        elif sym == '3d':
            w = World(rng, '3d')
            kw = dict(voltage={n: float(rng.uniform(-50, 50)) for n in w.names[:2]}, dielectric={w.names[2]: 0 if rng.random() < .3 else float(rng.uniform(1.5, 10))})
        elif sym == '3dmag':
            w = World(rng, '3d')
            kw = dict(voltage={w.names[0]: 3.0}, magnetostatic_potential={n: float(rng.uniform(-50, 50)) for n in w.names[1:]})
        elif sym == 'coils':
            # coils without any magnetic material: nothing to solve on the magnetic side
            w = World(rng, 'radial', coils=int(rng.integers(2, 4)))
            kw = dict(current={c: float(rng.uniform(1, 5)*rng.choice([-1, 1])) for c in w.coils})
            if rng.random() < .5:
                kw['voltage'] = {n: float(rng.uniform(1, 50)) for n in w.names[:2]}
        elif sym == 'magnetic':
            w = World(rng, 'radial', coils=2)
            kw = dict(current={w.coils[0]: float(rng.uniform(1, 5)), w.coils[1]: float(rng.uniform(-5, -1))},
                      magnetizable={w.names[0]: float(rng.uniform(2, 50))}, magnetostatic_potential={w.names[1]: float(rng.uniform(1, 5))})
        else:
            w = World(rng, 'radial', coils=2, n_el=4)
            kw = dict(current={w.coils[0]: float(rng.uniform(1, 5)), w.coils[1]: float(rng.uniform(-5, -1))},
                      magnetizable={w.names[0]: float(rng.uniform(2, 50))}, voltage={w.names[1]: float(rng.uniform(1, 50)), w.names[2]: float(rng.uniform(1, 50))},
                      dielectric={w.names[3]: 4})
        if rng.random() < 0.4:
            # zero excitations do not get a unit field
            k = 'voltage' if 'voltage' in kw and len(kw['voltage']) > 1 else None
            if k:
                n0 = sorted(kw[k])[0]
                kw[k][n0] = 0.0
        if rng.random() < .35:
            # excitations of any magnitude: microvolts or megavolts
            m = 10**rng.uniform(-12, 6)
            for k in ('voltage', 'current', 'magnetostatic_potential'):
                if k in kw:
                    kw[k] = {n: m*v if v else v for n, v in kw[k].items()}
        exc, full = w.solve(**kw)
        saved = copy.deepcopy(exc.excitation_types)
        units = S.solve_direct_superposition(exc)
        lin = {n: v for k in ('voltage', 'current', 'magnetostatic_potential') for n, v in kw.get(k, {}).items() if v != 0}
        ctx.check('superposition-keys', set(units) == set(lin), f'unit fields for {sorted(units)}, excited {sorted(lin)}')
        ctx.check('operands-unchanged', exc.excitation_types == saved, 'the excitation changed in solve_direct_superposition')
        want = readings(full, w.pts)
        parts = {n: readings(units[n], w.pts) for n in units}
        got = sum(v*parts[n] for n, v in lin.items())
        sc = sum(np.abs(v*parts[n]) for n, v in lin.items()) + np.abs(want)
        tag = 'superposition:' + dict(radial='radial', magnetic='magnetic', mixed='mixed', coils='magnetic').get(sym, '3d' if sym.startswith('3d') else 'radial')
        compare(ctx, tag, got, want, sc, f'weighted unit fields against solve_direct ({sym})', rel=1e-7)
        # and as field objects
        tot = None
        for n, v in lin.items():
            t = float(v)*units[n]
            tot = t if tot is None else tot + t
        compare(ctx, tag, readings(tot, w.pts), want, sc, f'sum of unit field objects ({sym})', rel=1e-7)
        # each unit field is the solution with one volt on that electrode
        n = sorted(lin)[int(rng.integers(len(lin)))]
        kw1 = {k: ({m: (1.0 if m == n else 0.0) for m in v} if k in ('voltage', 'current', 'magnetostatic_potential') else v) for k, v in kw.items()}
        f1 = w.solve(**kw1)[1]
        r1 = readings(f1, w.pts)
        cols = slice(0, 4) if n in kw.get('voltage', {}) else slice(4, 8)
        compare(ctx, tag, parts[n][:, cols], r1[:, cols], np.abs(r1[:, cols]), f'unit field of {n} ({sym})', rel=1e-7)
        ctx.nontrivial('sup', sym, want)
        ctx.note(sym=sym, excitation=kw)
