"""C09: traced electrons against the equation of motion (independent integrator, closed forms, energy, time reversal, tolerance)."""
import math

import numpy as np
from scipy.constants import e as QE, m_e, mu_0
from scipy.integrate import solve_ivp

from mon.fields import Solved, random_3d, random_magnetic, random_radial

RULE = ('random fields of every kind (radial and 3D BEM, electrostatic, magnetostatic, coils, sums of both, radial and 3D axial series, arbitrary '
        'callbacks), random start, energy, direction and tolerance; non-trivial when the velocity changes by more than 1e-3 of its size')
ASSUMPTIONS = ['a = -e/m (E + v x mu0 H); reference by DOP853 at rtol 1e-11 with the field of field_at_point (judged by C01-C08), started anew at every compared row',
               'allowed error: a small multiple of tolerance x steps x measured amplification of perturbations']
REQUIRED = {'trajectory': 300, 'energy': 60, 'reversal': 20, 'tighter': 30, 'closed-form': 60, 'default-tolerance': 10, 'tracer-kind': 20}
CPU_LIMIT = 200

K = QE/m_e


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for k, n in (('radial', 16), ('radial-magnetic', 12), ('radial-both', 10), ('axial', 14), ('3d', 10), ('3d-both', 6), ('3d-axial', 8), ('callback', 32), ('general', 3)):
        for i in range(n if q else 12*n):
            out.append(dict(kind=k))
    for i, c in enumerate(out):
        c['s'] = i
    return out


def rhs(E, H):
    def f(t, y):
        a = np.zeros(3)
        if E is not None:
            a = a + E(y[:3])
        if H is not None:
            a = a + mu_0*np.cross(y[3:], H(y[:3]))
        return np.concatenate([y[3:], -K*a])
    return f


def advance(fun, y, T, rtol=1e-12, size=1., speed=1.):
    if T <= 0:
        return np.array(y)
    s = solve_ivp(fun, (0., T), y, method='DOP853', rtol=rtol, atol=np.array([size]*3 + [speed]*3)*rtol*.1)
    if not s.success:
        raise RuntimeError('the reference integrator failed: ' + s.message)
    return s.y[:, -1]


def plan(ctx, fun, y0, clearance, T, size, limit):
    """Follow the motion roughly; the part that stays clear of electrodes -> tracing bounds it leaves in finite time, or None."""
    v0 = np.linalg.norm(y0[3:])
    def stop(t, y):
        return clearance(y[:3]) - limit/2
    stop.terminal = True
    s = solve_ivp(fun, (0, T), y0, method='DOP853', events=stop, rtol=1e-6, atol=np.array([size]*3 + [v0]*3)*1e-9, max_step=T/60)
    pos = s.y[:3].T
    ok = len(pos)
    for i, p in enumerate(pos):
        if clearance(p) < limit:
            ok = i
            break
    pos = pos[:ok]
    if len(pos) < 4 or len(pos) > 200:
        return None
    ex = np.abs(pos - y0[:3]).max(axis=0)
    k = int(np.argmax(ex))
    if ex[k] < .05*size:
        return None
    b = np.empty((3, 2))
    for i in range(3):
        w = 20*max(ex.max(), size)
        b[i] = [y0[i] - w*ctx.rng.uniform(1, 2), y0[i] + w*ctx.rng.uniform(1, 2)]
    b[k] = [y0[k] - .9*ex[k], y0[k] + .9*ex[k]]
    return b


def amplification(fun, y0, T, size, rng):
    """How much larger than a perturbation (position in size, velocity in speed) its effect after T becomes."""
    v = np.linalg.norm(y0[3:])
    y = advance(fun, y0, T, 1e-8, size, v)
    amp = 1.
    for k in range(3):
        d = np.concatenate([rng.normal(size=3)*size, rng.normal(size=3)*v])*1e-5
        z = advance(fun, y0 + d, T, 1e-8, size, v)
        amp = max(amp, (np.linalg.norm((z - y)[:3])/size + np.linalg.norm((z - y)[3:])/v)/2e-5)
    return amp


def make(ctx, kind):
    """-> tracer factory(bounds), E, H, Solved-like (points, clearance, size, potential or None)"""
    import traceon.backend as B
    import traceon.interpolation as I
    import traceon.solver as S
    import traceon.tracing as T
    rng = ctx.rng
    # steps are at most a centimetre: on smaller scales the tolerance rules them
    sc = 10**rng.uniform(-4, -1) if rng.random() < .5 else 10**rng.uniform(-1, .3)
    ctx.state('scale', round(math.log10(sc)))
    if kind in ('radial', 'general'):
        s = random_radial(ctx, rng, n_el=int(rng.integers(1, 4)), n_per=24, npts=20, scale=sc)
        clear = lambda p: min((0. if e.contains(math.hypot(p[0], p[1]), p[2]) else e.distance(math.hypot(p[0], p[1]), p[2])) for e in s.els)/s.size   # noqa: E731
        return (s.field.get_tracer, T.TracerRadialBEM), s.field.electrostatic_field_at_point, None, s, clear, s.field.electrostatic_potential_at_point
    if kind in ('radial-magnetic', 'radial-both'):
        m = random_magnetic(ctx, rng, n_coil=int(rng.integers(1, 3)), iron=bool(rng.random() < .4), pot=bool(rng.random() < .3), npts=20, scale=sc)

        def clear(p):
            r = math.hypot(p[0], p[1])
            d = min(math.hypot(max(0, abs(r - c['center'][0]) - c['half'][0]), max(0, abs(p[2] - c['center'][1]) - c['half'][1])) for c in m.coils)
            for e in m.els:
                d = min(d, 0. if e.contains(r, p[2]) else e.distance(r, p[2]))
            return d/m.size
        H1 = m.field.magnetostatic_field_at_point
        # strong enough to bend, weak enough not to trap
        f = m.field
        typ = np.median([np.linalg.norm(H1(p)) for p in m.points])
        m.typ = typ
        if kind == 'radial-magnetic':
            return (None, T.TracerRadialBEM), None, f, m, clear, None
        from mon.lib import mesh_radial, outside_points, radial_stack
        import traceon.excitation as Ex
        els = radial_stack(rng, 2, scale=m.size)
        for e in els:
            e.path = e.path.move(dz=-8*m.size)
            e.path.name = e.name
            e.poly = e.poly - np.array([0., 8*m.size])
        exc = Ex.Excitation(mesh_radial(els, 24, True), Ex.Symmetry.RADIAL)
        exc.add_voltage(**{e.name: float(rng.uniform(-1000, 1000)) for e in els})
        g = S.solve_direct(exc)
        c2 = lambda p: min(clear(p), min((0. if e.contains(math.hypot(p[0], p[1]), p[2]) else e.distance(math.hypot(p[0], p[1]), p[2])) for e in els)/m.size)   # noqa: E731
        m.other = g
        m.points = np.array([p for p in m.points if c2(p) > .3] + [p for p in outside_points(els, rng, 10, .3) if c2(p) > .3])
        return (None, T.TracerRadialBEM), g.electrostatic_field_at_point, f, m, c2, g.electrostatic_potential_at_point
    if kind == 'axial':
        mag = rng.random() < .4
        s = random_magnetic(ctx, rng, n_coil=1, iron=False, scale=sc) if mag else random_radial(ctx, rng, n_el=2, n_per=24, npts=20, scale=sc)
        if mag:
            c = s.coils[0]
            R, z0 = c['center'][0] - c['half'][0], c['center'][1]
            z = (z0 - 2*s.size, z0 + 2*s.size)
            s.typ = abs(c['I'])/(2*c['center'][0])
            ax = I.FieldRadialAxial(s.field, z[0], z[1], N=60)
        else:
            from mon.props.c08 import free_interval
            lo, hi = min(e.poly[:, 1].min() for e in s.els), max(e.poly[:, 1].max() for e in s.els)
            iv = free_interval(rng, s.els, s.size, lo - 2*s.size, hi + 2*s.size, .35*s.size)
            if iv is None:
                return None
            z, R = iv[:2], iv[2]
            ax = I.FieldRadialAxial(s.field, z[0], z[1], N=40)
        pts = np.array([[.15*R*rng.uniform(-1, 1), .15*R*rng.uniform(-1, 1), rng.uniform(z[0], z[1])] for _ in range(8)])
        o = Solved(ax, pts, s.size, 'axial', magnetic=mag)
        o.typ = getattr(s, 'typ', None)
        clear = lambda p: 10. if z[0] + 1e-3*(z[1] - z[0]) < p[2] < z[1] - 1e-3*(z[1] - z[0]) and math.hypot(p[0], p[1]) < .6*R else 0.   # noqa: E731
        if mag:
            return (None, T.TracerRadialAxial), None, ax, o, clear, None
        return (ax.get_tracer, T.TracerRadialAxial), ax.electrostatic_field_at_point, None, o, clear, ax.electrostatic_potential_at_point
    if kind in ('3d', '3d-both'):
        s = random_3d(ctx, rng, n_el=2, npts=10, mesh_size=.8, scale=sc)
        clear = lambda p: min(e.signed(p) for e in s.els)/s.size      # noqa: E731
        if kind == '3d':
            return (s.field.get_tracer, T.Tracer3D_BEM), s.field.electrostatic_field_at_point, None, s, clear, s.field.electrostatic_potential_at_point
        m = random_3d(ctx, rng, n_el=2, npts=10, magnetic=True, mesh_size=.8, scale=s.size)
        c2 = lambda p: min(clear(p), min(e.signed(p) for e in m.els)/m.size)      # noqa: E731
        pts = np.array([p for p in np.concatenate([s.points, m.points]) if c2(p) > .35])
        if not len(pts):
            return None
        s.points, s.other = pts, s.field
        s.typ = np.median([np.linalg.norm(m.field.magnetostatic_field_at_point(p)) for p in pts])
        return (None, T.Tracer3D_BEM), s.field.electrostatic_field_at_point, m.field, s, c2, s.field.electrostatic_potential_at_point
    if kind == '3d-axial':
        from scipy.interpolate import CubicSpline
        size = sc
        n = 40
        z = np.linspace(-size, size, n)

        def coeffs(amp):
            # a smooth function of z for every term of the series
            c = np.zeros((n, 2, B.NU_MAX, B.M_MAX))
            for m in range(4):
                for nu in range(2):
                    for k in range(2):
                        a = rng.normal(size=3)*amp/size**(m + 2*nu)
                        c[:, k, nu, m] = a[0]*np.cos(z/size + a[1]) + a[2]*z/size
            return np.ascontiguousarray(np.moveaxis(CubicSpline(z, c).c, 0, -1))
        fld = type('F', (), {})()
        fld.z = z
        fld.electrostatic_coeffs = coeffs(30.) if rng.random() < .8 else np.zeros((n - 1, 2, B.NU_MAX, B.M_MAX, 4))
        fld.magnetostatic_coeffs = coeffs(1.) if rng.random() < .7 else np.zeros((n - 1, 2, B.NU_MAX, B.M_MAX, 4))
        pts = size*rng.uniform(-.4, .4, size=(6, 3))
        o = Solved(fld, pts, size, '3d-axial')
        has_m = bool(np.any(fld.magnetostatic_coeffs))
        o.coeff_field = fld
        if has_m:
            o.typ = np.median([np.linalg.norm(B.field_3d_derivs(q, z, fld.magnetostatic_coeffs)) for q in pts])
        clear = lambda p: 10. if np.abs(p).max() < .95*size else 0.      # noqa: E731
        E = lambda p: B.field_3d_derivs(p, z, fld.electrostatic_coeffs)      # noqa: E731
        H = (lambda p: B.field_3d_derivs(p, z, fld.magnetostatic_coeffs)) if has_m else None
        return (lambda b: T.Tracer3DAxial(fld, b), T.Tracer3DAxial), E, H, o, clear, None
    raise ValueError(kind)


def run_case(ctx, case):
    import traceon.backend as B
    import traceon.tracing as T
    rng, kind = ctx.rng, case['kind']

    if kind == 'callback':
        return callback(ctx, rng, B, T, case)
    made = make(ctx, kind)
    if made is None or len(made[3].points) == 0:
        ctx.event('no-room')
        return
    (tracer_of, cls), E, H, s, clear, pot = made
    eV = 10**rng.uniform(0.3, 3.2)
    speed = math.sqrt(2*K*eV)
    if H is not None and not callable(H):
        # scale the magnetic field such that the gyration radius is of the order of the size
        r_g = s.size*10**rng.uniform(-.2, 1.2)
        factor = speed/(K*mu_0*s.typ*r_g)
        field = float(factor)*H
        if E is not None:
            field = field + s.other
        tracer_of = field.get_tracer
        H = field.magnetostatic_field_at_point
        if E is not None:
            E = field.electrostatic_field_at_point
    elif kind == '3d-axial' and H is not None:
        s.coeff_field.magnetostatic_coeffs = s.coeff_field.magnetostatic_coeffs*(speed/(K*mu_0*s.typ*s.size*10**rng.uniform(-.2, 1.2)))
    fun = rhs(E, H)
    for _ in range(8):
        p = s.points[rng.integers(len(s.points))]
        d = rng.normal(size=3)
        if rng.random() < .3:
            p, d = np.array([0., 0., p[2]]), np.array([0., 0., rng.choice([-1., 1.])]) + .1*rng.normal(size=3)*(rng.random() < .7)
        if clear(p) < .2:
            continue
        vel = T.velocity_vec(eV, d)
        y0 = np.concatenate([p, speed*d/np.linalg.norm(d)])
        b = plan(ctx, fun, y0, clear, 6*s.size/speed, s.size, .2)
        if b is not None:
            break
    else:
        ctx.event('no-clear-trajectory')
        return
    tr = tracer_of(b)
    ctx.check('tracer-kind', type(tr) is cls, f'{type(tr).__name__} where {cls.__name__} belongs to the field')
    if kind == 'general':
        ctx.raises('tracer-kind', lambda: T.Tracer(s.field, b)(p, vel), 'the general tracer has no field evaluation', RuntimeError)
    floor = (1e-8 if 'axial' in kind else 3e-9)*s.size     # constants of nature, and kinks of the splines
    atols = [1e-6, 1e-8, 1e-10, 1e-12] if kind != '3d' and kind != '3d-both' else [1e-6, 1e-9, 1e-11]
    # on small scales the tolerance goes along: estimates of the error hold for steps small against the geometry
    if s.size < .1:
        atols = [a*10*s.size for a in atols if a < 5e-7]
    amp = None
    errors = []
    t0, P0 = tr(p, vel)
    t1, P1 = tr(p, vel, atol=1e-10)
    ctx.check('default-tolerance', np.array_equal(t0, t1) and np.array_equal(P0, P1), 'the default tolerance is not 1e-10')
    bent = False
    for a in atols:
        t, P = tr(p, vel, atol=a)
        ctx.event('rows', len(t))
        if len(t) < 3:
            continue
        if amp is None:
            amp = amplification(fun, y0, t[-1], s.size, rng)
            ctx.state('amplification', round(math.log10(amp)))
            if amp > 1e5:
                ctx.event('chaotic')
                return
        rows = sorted({1, 2, len(t)//3, 2*len(t)//3, len(t) - 2, len(t) - 1} - {0})
        y, last = y0, 0.
        worst = 0.
        # beyond the interval of an axial field its field jumps to zero, which no step size control resolves
        for r in rows:
            if kind in ('axial', '3d-axial') and clear(P[r, :3]) == 0.:
                ctx.event('left-the-interval')
                break
            y = advance(fun, y, t[r] - last, 1e-12 if 'axial' in kind else 1e-11, s.size, speed)
            last = t[r]
            err = max(np.linalg.norm(P[r, :3] - y[:3]), s.size*np.linalg.norm(P[r, 3:] - y[3:])/speed)
            # a step's velocity error is at most atol/h
            tol = .5*amp*np.sum(a + a*s.size/(speed*np.diff(t[:r + 1]))) + floor*amp
            ctx.close('trajectory', err, 0., tol, f'{kind}, {eV:.3g} eV from {p}, tolerance {a:g}, row {r} of {len(t)}: position and velocity against the reference')
            worst = max(worst, err)
        errors.append((a, worst, len(t)))
        if np.linalg.norm(y[3:] - y0[3:]) > 1e-3*speed:
            bent = True
        if pot is not None or E is None:
            kin = np.sum(P[:, 3:]**2, axis=1)/(2*K)
            idx = np.unique(np.linspace(0, len(t) - 1, 12).astype(int))
            idx = [i for i in idx if i < len(t) - 1 or clear(P[-1, :3]) > .1]
            V = np.array([pot(P[i, :3]) for i in idx]) if pot is not None else np.zeros(len(idx))
            tot = kin[idx] - V
            hs = np.diff(t)
            v = np.linalg.norm(P[:-1, 3:], axis=1)
            Es = max(np.linalg.norm(E(P[i, :3])) for i in idx) if E is not None else 0.
            tol = 3*np.sum(v*a/hs/K + Es*a) + 1e-7*eV + 1e-6*(np.abs(V).max() if pot is not None else 0.)*(30 if kind == 'axial' else 1)
            ctx.close('energy', tot, tot[0], tol, f'{kind}: kinetic plus potential energy along the trace, tolerance {a:g}')
    for (a, e1, n1), (c, e2, n2) in zip(errors[:-1], errors[1:]):
        ctx.check('tighter', e2 <= e1 + 2*floor*amp + 3*amp*c*min(n2, 400), f'{kind}: error {e1:.3g} at tolerance {a:g} but {e2:.3g} at {c:g}')
    if H is None and len(t1) > 3:
        # back: from the last row inside with the velocity reversed
        k = len(t1) - 2
        q, w = P1[k, :3], P1[k, 3:]
        ev2 = np.dot(w, w)/(2*K)
        tb, Pb = tr(q, -ev2*w/np.linalg.norm(w))
        j = int(np.searchsorted(tb, t1[k], side='right') - 1)
        y = advance(fun, np.concatenate([Pb[j, :3], Pb[j, 3:]]), t1[k] - tb[j], 1e-11, s.size, speed)
        hmin = min(np.diff(t1).min(), np.diff(tb).min() if len(tb) > 1 else 1.)
        per = 1e-10 + 1e-10*s.size/(speed*hmin)
        tol = 4*amp**2*per*min(k + j, 400) + 3e-8*s.size*amp
        ctx.close('reversal', max(np.linalg.norm(y[:3] - p), s.size*np.linalg.norm(y[3:] + y0[3:])/speed), 0., tol, f'{kind}: traced back to the start')
    if bent:
        ctx.nontrivial(kind, y0, [e[2] for e in errors])
    ctx.note(kind=kind, eV=eV, start=list(p), rows=[e[2] for e in errors], errors=[f'{e[1]:.2g}' for e in errors], amplification=amp)


def callback(ctx, rng, B, T, case):
    """Closed forms: uniform E (parabola), uniform B (helix), both (drift), linear restoring force (oscillation)."""
    mode = ['E', 'B', 'EB', 'osc', 'free', 'line', 'line', 'line'][case['s'] % 8]
    # the step is limited to a centimetre: the step size control is seen at work on smaller scales
    size = 10**rng.uniform(-1, .5) if mode != 'line' and case['s'] % 16 < 8 else 10**rng.uniform(-3, -1.3)
    eV = 10**rng.uniform(0, 3)
    speed = math.sqrt(2*K*eV)
    p = rng.uniform(-.2, .2, size=3)*size
    d = rng.normal(size=3)
    d /= np.linalg.norm(d)
    v = speed*d
    E = rng.normal(size=3)
    E *= eV/size*10**rng.uniform(-1, .7)/np.linalg.norm(E)
    Bv = rng.normal(size=3)
    Bv *= speed/(K*size)*10**rng.uniform(-1, .5)/np.linalg.norm(Bv)
    atol = 10**rng.uniform(-12, -7)
    k2 = (speed/size*10**rng.uniform(-.5, .5))**2
    if mode == 'E':
        fld = lambda x, y, z, vx, vy, vz: E      # noqa: E731

        def exact(t):
            return np.concatenate([p + v*t - K*E*t*t/2, v - K*E*t])
    elif mode == 'free':
        fld = lambda x, y, z, vx, vy, vz: np.zeros(3)      # noqa: E731

        def exact(t):
            return np.concatenate([p + v*t, v])
    elif mode in ('B', 'EB'):
        b = np.linalg.norm(Bv)
        n = Bv/b
        Ep = (E - (E @ n)*n)*.2 if mode == 'EB' else np.zeros(3)
        Ea = (E @ n)*n*.5 if mode == 'EB' else np.zeros(3)
        fld = lambda x, y, z, vx, vy, vz: Ep + Ea + np.cross([vx, vy, vz], Bv)      # noqa: E731
        vd = np.cross(Ep, Bv)/b**2

        def exact(t):
            u = v - vd
            par = (u @ n)*n
            per = u - par
            om = K*b     # an electron turns right-handed around B
            c = np.cross(n, per)
            ut = par + per*math.cos(om*t) + c*math.sin(om*t)
            xt = par*t + per*math.sin(om*t)/om + c*(1 - math.cos(om*t))/om
            return np.concatenate([p + xt + vd*t - K*Ea*t*t/2, ut + vd - K*Ea*t])
    elif mode == 'line':
        # moves along one axis only, where a wave of the potential hurries it or holds it up (no closed form: reference integrator)
        ax = int(case['s']//8 % 3)
        d = np.zeros(3)
        d[ax] = rng.choice([-1., 1.])
        v = speed*d
        q, amp, ph = 10**rng.uniform(0, 1)/size, .6*eV*rng.random(), rng.uniform(0, 6.)
        one = lambda x: amp*q*np.cos(q*x + ph)      # noqa: E731

        def fld(x, y, z, vx, vy, vz):
            o = np.zeros(3)
            o[ax] = one((x, y, z)[ax])
            return o

        def exact(t):
            return advance(rhs(lambda r: fld(*r, 0, 0, 0), None), np.concatenate([p, v]), t, 1e-12, size, speed)
        ctx.state('axis', ax)
    else:
        # pulls back in x and y, free in z
        A = np.array([1., 1., 0.])*k2/K
        fld = lambda x, y, z, vx, vy, vz: A*np.array([x, y, z])      # noqa: E731
        if abs(v[2]) < .1*speed:
            v[2] = .3*speed

        def exact(t):
            w = math.sqrt(k2)
            x = p.copy()
            x[:2] = p[:2]*math.cos(w*t) + v[:2]/w*math.sin(w*t)
            x[2] = p[2] + v[2]*t
            u = v.copy()
            u[:2] = -p[:2]*w*math.sin(w*t) + v[:2]*math.cos(w*t)
            return np.concatenate([x, u])
    # bounds that the exact motion leaves
    ts = np.linspace(0, 8*size/speed, 400 if mode != 'line' else 8)
    X = np.array([exact(t)[:3] for t in ts])
    ex = np.abs(X - p).max(axis=0)
    k = int(np.argmax(ex))
    box = np.stack([p - 20*size - 20*ex.max(), p + 20*size + 20*ex.max()], axis=1)
    box[k] = [p[k] - .7*ex[k], p[k] + .7*ex[k]]
    calls = [0]

    def counting(*a):
        calls[0] += 1
        return fld(*a)
    t, P = B.trace_particle(p, v, counting, box, atol)
    ctx.event('callback-calls', calls[0])
    ctx.check('closed-form', len(t) > 1 and calls[0] >= 6*(len(t) - 1), f'{calls[0]} field evaluations for {len(t)} rows')
    for r in sorted({1, len(t)//2, len(t) - 1}):
        y = exact(t[r])
        hmin = np.diff(t[:r + 1]).min()
        tol = 3*(atol + atol*size/(speed*hmin))*min(r, 400)*10 + 3e-9*size*10
        # the exact solution uses the constants of nature
        ctx.close('closed-form', max(np.linalg.norm(P[r, :3] - y[:3]), size*np.linalg.norm(P[r, 3:] - y[3:])/speed), 0., tol, f'{mode}: row {r} of {len(t)}, tolerance {atol:.2g}')
    ctx.nontrivial(mode, p, v)
    ctx.state('closed-form', mode)
    ctx.note(mode=mode, eV=eV, rows=len(t), atol=atol, calls=calls[0])
