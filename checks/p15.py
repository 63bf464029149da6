"""P15: electric field of the beam."""
import numpy as np
import scipy.io as sio
from vlib import configs, chambers, simgen
from vlib.fieldref import Conductor, beam_in_chamber, gauss_free
from vlib.geomref import EllipRef, PolyRef
from vlib.harness import Task, loadmat
from vlib.simgen import QE, ME, CLIGHT, DROP, EPS0

PROP, LEVEL = 'P15', 'exploration'
TECHNIQUE = 'runtime monitor comparing the beam field delivered to the particles with an independent field solution (Bassetti-Erskine plus an analytic image field fitted to the grounded wall), and the field providers with each other'
NOTE = 'Field judged to grid accuracy (a few per cent of its maximum) away from the wall by three grid cells; the PyPIC solver itself is trusted code outside /repo.'
RULE = 'one evaluation = the field at one particle position judged; distinct = (field provider, chamber, judgement)'


class MP:
    def __init__(self, x, y, pad=7):
        # spare storage beyond the particles in use
        self.N_mp = len(x)
        self.x_mp = np.concatenate((x, np.full(pad, 1e3)))
        self.y_mp = np.concatenate((y, np.full(pad, -1e3)))


def shape(rng, kind):
    while True:
        if kind == 'ellip':
            from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
            a, b = rng.uniform(1e-2, 3e-2, 2)
            u = rng.random()
            if u < .25:
                b = a
            elif u < .5:  # nearly round, either way
                b = a * (1 + rng.choice([-1, 1]) * 10**rng.uniform(-2.5, -1))
            return ellip_cham_geom_object(a, b, flag_verbose_file=False), EllipRef(a, b), 'round' if a == b else ('ellip' if a > b else 'tall')
        ch, ref, lab = chambers.make(rng, kind)
        if kind == 'rect':
            break
        w, h = np.ptp(ref.X), np.ptp(ref.Y)
        if min(w, h) > .2 * max(w, h) and ref.area > .25 * w * h:
            break
    return ch, ref, lab.split('+')[0]


def place(rng, ref, centred):
    if centred:
        return 0., 0.
    X, Y = chambers.inside_points(rng, ref, 200)
    d = ref.dist(X, Y)
    k = rng.choice(np.flatnonzero(d >= np.quantile(d, .7)))
    return float(X[k]), float(Y[k])


def build(case, rng, ch, mode, sx, sy, x0, y0, Dh, **k):
    from PyECLOUD.beam_and_timing import beam_and_timing
    k.setdefault('beam_charge', QE)
    bc = k.pop('beam_charge')
    th = k.pop('lam_th', 1e6)
    return beam_and_timing(1, 1e11, 0., bc, mode, th, b_spac=2.5e-8, sigmaz=.1, t_offs=2.5e-9, filling_pattern_file=1., Dt=1e-10, t_end=0., Dh_beam_field=Dh,
                           chamb=ch, sigmax=sx, sigmay=sy, x_beam_pos=x0, y_beam_pos=y0, **k)


def field(bt, x, y, lam):
    bt.lam_t_curr = lam
    ex, ey = bt.get_beam_eletric_field(MP(x, y))
    return np.asarray(ex) + 0 * x, np.asarray(ey) + 0 * x


MODES = ('FD', 'FDold', 'BE', 'multigrid', 'file')


def unit(case, mode, kind):
    rng = case.rng
    ch, ref, lab = shape(rng, kind)
    size = np.sqrt(ref.area)
    Dh = size / rng.uniform(45, 80)
    x0, y0 = place(rng, ref, mode == 'BE' or (kind in ('rect', 'ellip') and rng.random() < .3))
    dw = float(ref.dist([x0], [y0])[0])
    if not ref.inside([x0], [y0])[0] or dw < 4 * Dh:
        case.ok('no room')
        return
    smin = 1.5 * Dh
    sx, sy = [float(v) for v in np.minimum(rng.uniform(smin, max(smin * 1.01, dw / 7), 2), dw / 4)]
    if rng.random() < .15 or (mode == 'BE' and rng.random() < .3):
        sy = sx
    if mode == 'multigrid':
        sx, sy = [float(v) for v in rng.uniform(Dh / 6, Dh, 2)]
    q = float(rng.choice([QE, -QE, 3 * QE]))
    lam = float(10**rng.uniform(9, 12))
    dh = Dh
    if mode in ('FD', 'FDold', 'file'):
        kw = {}
        fn = case.path('map.mat')
        if mode == 'file':
            kw['save_beam_field_file_as'] = fn
        bt = build(case, rng, ch, 'computeFD' if mode == 'FD' else -1, sx, sy, x0, y0, Dh, beam_charge=q, **kw)
    elif mode == 'BE':
        Nx, Ny = int(rng.integers(60, 90)), int(rng.integers(60, 90))
        dh = max(2.04 * ref.a / Nx, 2.04 * ref.b / Ny)
        fn = case.path('map.mat')
        bt = build(case, rng, ch, 'computeBE', sx, sy, 0., 0., None, beam_charge=q, Nx=Nx, Ny=Ny, nimag=30, save_beam_field_file_as=fn)
    else:
        s = min(sx, sy)
        tg = dict(x_min_target=x0 - 5 * sx, x_max_target=x0 + 5 * sx, y_min_target=y0 - 5 * sy, y_max_target=y0 + 5 * sy, Dh_target=s / 3)
        bt = build(case, rng, ch, 'compute_FDSW_multigrid', sx, sy, x0, y0, Dh, beam_charge=q, f_telescope_beam=.3, target_grid_beam=tg, N_nodes_discard_beam=3., N_min_Dh_main_beam=5.)
    # positions: near the beam and over the chamber, away from the wall
    X, Y = chambers.inside_points(rng, ref, 400)
    Xb, Yb = x0 + rng.normal(0, 2 * sx, 200), y0 + rng.normal(0, 2 * sy, 200)
    X, Y = np.concatenate((X, Xb)), np.concatenate((Y, Yb))
    m = ref.inside(X, Y) & (ref.dist(X, Y) > 3 * dh)
    X, Y = X[m], Y[m]
    f, rel = beam_in_chamber(ref, x0, y0, sx, sy)
    if rel > 6e-3:
        case.count('reference not accurate')
        case.ok('ref')
        return
    rx, ry = f(X, Y)
    ex, ey = field(bt, X, Y, lam)
    nodes = 0
    if mode == 'BE':  # also at nodes of the map, where nothing is interpolated
        d = loadmat(fn)
        gx, gy = [g.ravel() for g in np.meshgrid(d['xx'].ravel(), d['yy'].ravel(), indexing='ij')]
        case.check(abs(float(d['x_aper'].ravel()[0]) - ref.a) + abs(float(d['y_aper'].ravel()[0]) - ref.b) < 1e-12, 'saved', '%s: map file has aperture %r, %r' % (lab, d['x_aper'], d['y_aper']))
        case.check(abs(float(d['sigmax'].ravel()[0]) - sx) + abs(float(d['sigmay'].ravel()[0]) - sy) < 1e-12, 'saved', '%s: map file has beam size %r, %r' % (lab, d['sigmax'], d['sigmay']))
        m = np.flatnonzero(ref.inside(gx, gy) & (ref.dist(gx, gy) > 3 * dh))
        m = rng.permutation(m)[:400]
        X, Y, nodes = np.concatenate((X, gx[m])), np.concatenate((Y, gy[m])), len(m)
        rx, ry = f(X, Y)
        ex, ey = field(bt, X, Y, lam)
    sc = np.hypot(*gauss_free(x0 + np.array([1.5 * sx, 0]) - x0, np.array([0, 1.5 * sy]), sx, sy)).max()
    err = np.hypot(ex / (lam * q) - rx, ey / (lam * q) - ry)
    # interpolation error of the field within one cell (second derivative ~ E / s^2) plus staircase/order of the solver
    s = min(sx, sy)
    loc = dh if mode != 'multigrid' else s / 3
    near = np.hypot((X - x0) / sx, (Y - y0) / sy) < 4
    if mode == 'multigrid':
        # inside the target grid the resolution is the telescopic one
        tol = np.where(near, .04, .06) * sc
    else:
        tol = (.02 + .25 * (loc / s)**2) * sc * np.where(near, 1., .35)
    if nodes:
        # (the formula uses the images of a line charge; those of a flat beam differ by the order of its quadrupole moment)
        tol[-nodes:] = (1e-3 + 1.2 * abs(sx**2 - sy**2) / min(ref.a, ref.b)**2) * sc
        case.count('BE node error, 1e-6', int(1e6 * np.nan_to_num(err[-nodes:] / sc).max()))
    tol = tol + f.err
    bad = ~(err < tol)
    l = '%s %s' % (mode, lab)
    case.count('max err permille', int(1e3 * np.max(np.nan_to_num(err / sc))))
    if case.check(not bad.any(), 'field', lambda: '%s: beam (%g,%g) size (%g,%g) Dh %g: field at (%g,%g) is (%g,%g), expected (%g,%g) per charge; scale %g' % (
            l, x0, y0, sx, sy, dh, X[bad][0], Y[bad][0], (ex / (lam * q))[bad][0], (ey / (lam * q))[bad][0], rx[bad][0], ry[bad][0], sc)):
        case.ok(l, len(X))
    # scaling, threshold, sign
    ex2, ey2 = field(bt, X, Y, lam * 1.7)
    case.check(np.allclose(ex2, 1.7 * ex, rtol=1e-12, atol=0) and np.allclose(ey2, 1.7 * ey, rtol=1e-12, atol=0), 'linear', l)
    for v in (1e6, .5e6, 0.):
        a, b = field(bt, X, Y, v)
        case.check(not np.any(a) and not np.any(b), 'threshold', '%s: field at line density %g below the threshold' % (l, v))
    a, b = field(bt, X, Y, 1.0001e6)
    case.check(np.allclose(a * lam, ex * 1.0001e6, rtol=1e-9) and np.any(a), 'threshold', '%s: no field just above the threshold' % l)
    a, b = field(bt, X[:0], Y[:0], lam)
    case.check(np.size(a) <= 1 and not np.any(a), 'empty', l)
    # independence of the other particles
    a, b = field(bt, X[5:6], Y[5:6], lam)
    case.check(a[0] == ex[5] and b[0] == ey[5], 'independent', l)
    case.ok(l + ' scaling', 6)
    if mode in ('file', 'BE'):
        bt2 = build(case, rng, ch, fn, sx, sy, x0, y0, None, beam_charge=-q)
        Z = np.concatenate((X, X * 1.7, [1., -1.])), np.concatenate((Y, Y * 1.7, [1., -1.]))
        a, b = field(bt, Z[0], Z[1], lam)
        a2, b2 = field(bt2, Z[0], Z[1], lam)
        fin = np.isfinite(a) & np.isfinite(b)
        if case.check(np.array_equal(a[fin], -a2[fin]) and np.array_equal(b[fin], -b2[fin]) and fin[:len(X)].all(), 'reload', '%s: field read back from file differs' % l):
            case.ok(l + ' reload', len(Z[0]))
    case.sample(mode=mode, chamber=lab, beam=[x0, y0, sx, sy], Dh=dh, max_err_over_scale=float(np.max(np.nan_to_num(err / sc))))


def simulate(case, kind):
    """Field that reaches the tracker in a running simulation: sum over the beams, before any space charge."""
    rng = case.rng
    cfg = configs.random(rng, chamber=kind, tracker='Boris', sey='ECLOUD', sources=['unif', 'gas'], regen='none', pattern=[1., 0., 1.])
    cfg.sim.update(t_sc_ON=1., Dh_sc=2e-3, Dt=1e-10)
    ref = cfg.ref
    cond = Conductor(ref)

    def pos():
        for _ in range(100):
            x, y = rng.uniform(-5e-3, 5e-3, 2)
            if ref.inside([x], [y])[0] and ref.dist([x], [y])[0] > 4e-3:
                return float(x), float(y)
        return 0., 0.
    beams = []
    for i in range(1 + int(rng.integers(0, 3))):
        x, y = pos()
        d = float(ref.dist([x], [y])[0])
        s = [float(v) for v in rng.uniform(.9e-3, max(1e-3, d / 5), 2)]
        Dh = min(s) / rng.uniform(1.5, 2.5)
        b = dict(x_beam_pos=x, y_beam_pos=y, sigmax=s[0], sigmay=s[1], Dh_beam_field=Dh, beam_field_file='computeFD' if rng.random() < .5 else -1, q_part=float(rng.choice([QE, -QE])))
        f, rel = beam_in_chamber(ref, x, y, s[0], s[1], cond)
        if rel > 6e-3:
            case.ok('ref')
            return
        beams.append((b, f, np.hypot(*gauss_free(np.array([1.5 * s[0], 0]), np.array([0, 1.5 * s[1]]), *s)).max(), Dh))
    cfg.beam.update(beams[0][0])
    for b, f, sc, Dh in beams[1:]:
        sb = dict(simgen.BEAM) if hasattr(simgen, 'BEAM') else dict(cfg.beam)
        sb = dict(cfg.beam, fact_beam=float(cfg.beam['fact_beam'] * rng.uniform(.5, 1.5)), filling_pattern_file=[0., 1., 1.])
        sb.update(b)
        cfg.sec_beams.append(sb)
    sim = cfg.build(case, skip_pyeclsaver=True)
    cl = sim.cloud_list[0]
    orig = cl.dynamics.stepcustomDt
    hmax = max(b[3] for b in beams)
    seen = [0, 0]
    th = [sim.beamtim.lam_th_beam_field] + [x.lam_th_beam_field for x in (sim.sec_beams_list or [])]

    def spy(MP_e, Ex, Ey, *a, **k):
        n = MP_e.N_mp
        if n:
            X, Y = MP_e.x_mp[:n], MP_e.y_mp[:n]
            ex, ey = np.asarray(Ex) + 0 * X, np.asarray(Ey) + 0 * X
            lams = [sim.beamtim.lam_t_curr] + [x.lam_t_curr for x in (sim.sec_beams_list or [])]
            rx, ry, sc = 0 * X, 0 * X, 0.
            m = (ref.dist(X, Y) > 3 * hmax)
            for (b, f, s, Dh), lam, t in zip(beams, lams, th):
                if lam > t:
                    fx, fy = f(X, Y)
                    rx = rx + fx * lam * b['q_part']
                    ry = ry + fy * lam * b['q_part']
                    sc += (s + 8 * f.err) * lam * QE
            err = np.hypot(ex - rx, ey - ry)
            bad = m & ~(err <= .12 * sc)
            if case.check(not bad.any(), 'field-at-tracker', lambda: '%s, %d beams, densities %r: field (%g,%g) at (%g,%g), expected (%g,%g), scale %g' % (
                    kind, len(beams), lams, ex[bad][0], ey[bad][0], X[bad][0], Y[bad][0], rx[bad][0], ry[bad][0], sc)):
                if sc:
                    case.ok('%s %d beams %s' % (kind, len(beams), ''.join('01'[l > t] for l, t in zip(lams, th))), int(m.sum()))
                    seen[0] += 1
            seen[1] += 1
        return orig(MP_e, Ex, Ey, *a, **k)
    cl.dynamics.stepcustomDt = spy
    sim.run()
    case.check(seen[1] > 10, 'reach', '%d steps' % seen[1])
    case.sample(kind=kind, beams=len(beams), steps_with_field=seen[0])


def mapfile(case):
    """A field map of any grid is interpolated between its nodes and gives no field outside of it."""
    from scipy.interpolate import RegularGridInterpolator
    rng = case.rng
    for it in range(6):
        ch, ref, lab = shape(rng, 'rect')
        nx, ny = [int(v) for v in rng.integers(5, 40, 2)]
        if rng.random() < .5:
            ny = nx
        xx, yy = [np.sort(rng.choice([-1, 1]) * w * np.linspace(-rng.uniform(.3, 1.2), rng.uniform(.3, 1.2), n)) for w, n in ((ch.x_aper, nx), (ch.y_aper, ny))]
        Ex, Ey = rng.normal(0, 1e10, (2, nx, ny))
        fn = case.path('m%d.mat' % it)
        sio.savemat(fn, dict(xx=xx, yy=yy, Ex=Ex, Ey=Ey), oned_as='row')
        q, lam = float(rng.choice([QE, -QE])), float(10**rng.uniform(9, 12))
        bt = build(case, rng, ch, fn, 1e-3, 1e-3, 0., 0., None, beam_charge=q)
        X, Y = rng.uniform(-1.3, 1.3, (2, 400)) * np.array([[ch.x_aper], [ch.y_aper]])
        hx, hy = xx[1] - xx[0], yy[1] - yy[0]
        m = np.ones(400, bool)
        for c, g, h in ((X, xx, hx), (Y, yy, hy)):
            m &= (np.abs(c - g[0]) > 1e-9) & (np.abs(c - g[-1]) > 1e-9) & ~((c > g[-1] - 1e-9) & (c < g[-1] + h)) & ~((c < g[0]) & (c > g[0] - h))
        X, Y = X[m], Y[m]
        ex, ey = field(bt, X, Y, lam)
        for got, F in ((ex, Ex), (ey, Ey)):
            want = RegularGridInterpolator((xx, yy), F, bounds_error=False, fill_value=0.)(np.stack([X, Y], 1)) * q * lam
            bad = np.abs(got - want) > 1e-6 * np.abs(F).max() * QE * lam
            case.check(not bad.any(), 'map', lambda: 'map of %dx%d nodes over (%g..%g, %g..%g): field at (%g,%g) is %g, expected %g' % (
                nx, ny, xx[0], xx[-1], yy[0], yy[-1], X[bad][0], Y[bad][0], got[bad][0], want[bad][0]))
        case.ok('map %s' % ('square' if nx == ny else 'oblong'), len(X))


def analytic(case):
    """The analytic field of a free Gaussian beam, at any distance, aspect ratio and sign of the coordinates, on the axes too."""
    from PyECLOUD.BassErsk import BassErsk
    rng = case.rng
    for it in range(6):
        sx = float(10**rng.uniform(-5, -2))
        u = rng.random()
        sy = sx if u < .15 else float(sx * (1 + rng.choice([-1, 1]) * 10**rng.uniform(-3, -.5))) if u < .5 else float(sx * 10**rng.uniform(-2.5, 2.5))
        n = 150
        X = np.concatenate((rng.normal(0, 2 * sx, n), 10**rng.uniform(-7, 0, n) * rng.choice([-1, 1], n)))
        Y = np.concatenate((rng.normal(0, 2 * sy, n), 10**rng.uniform(-7, 0, n) * rng.choice([-1, 1], n)))
        X[:20] = 0.
        Y[15:35] = 0.
        got = np.array([BassErsk(float(a), float(b), sx, sy) for a, b in zip(X, Y)])
        rx, ry = gauss_free(X, Y, sx, sy)
        sc = 1 / (2 * np.pi * EPS0 * max(sx, sy))
        err = np.hypot(got[:, 0] - rx, got[:, 1] - ry)
        bad = ~(err <= 1e-7 * sc + 1e-6 * np.hypot(rx, ry))
        case.check(not bad.any(), 'analytic', lambda: 'Gaussian beam of size (%g, %g): field at (%g, %g) is %r, expected (%g, %g)' % (sx, sy, X[bad][0], Y[bad][0], got[bad][0], rx[bad][0], ry[bad][0]))
        case.ok('analytic ' + ('round' if sx == sy else 'flat' if sx > sy else 'tall'), len(X))


def refused(case):
    """Combinations that cannot be served must be refused, not computed wrongly."""
    rng = case.rng
    from PyECLOUD.beam_and_timing import beam_and_timing  # noqa
    for what in ('BE-rect', 'BE-off', 'BE-noN', 'FD-noDh', 'out', 'out-y', 'out-corner', 'MG-save'):
        kind = 'rect' if what == 'BE-rect' else 'ellip'
        ch, ref, lab = shape(rng, kind)
        kw = dict(Nx=20, Ny=20, nimag=3)
        x0 = y0 = 0.
        mode, Dh = 'computeBE', 1e-3
        if what == 'BE-off':
            x0, y0 = [(1e-4, 0.), (0., -1e-4)][rng.integers(2)]
        if what == 'BE-noN':
            kw[str(rng.choice(['Nx', 'Ny', 'nimag']))] = None
        if what == 'FD-noDh':
            mode, Dh = 'computeFD', None
        if what == 'out':
            mode, x0 = 'computeFD', float(ch.x_aper * rng.uniform(1., 1.5))
        if what == 'out-y':
            mode, y0 = 'computeFD', float(-ch.y_aper * rng.uniform(1., 1.5))
        if what == 'out-corner':
            mode, x0, y0 = 'computeFD', .8 * ch.x_aper, .8 * ch.y_aper
        if what == 'MG-save':
            mode = 'compute_FDSW_multigrid'
            Dh = 2e-3
            kw.update(f_telescope_beam=.3, target_grid_beam=dict(x_min_target=-2e-3, x_max_target=2e-3, y_min_target=-2e-3, y_max_target=2e-3, Dh_target=4e-4), N_nodes_discard_beam=3.,
                      N_min_Dh_main_beam=5., save_beam_field_file_as=case.path('x.mat'))
        try:
            build(case, rng, ch, mode, 1e-3, 1.2e-3, x0, y0, Dh, **kw)
            case.fail('accepted', '%s accepted' % what)
        except (ValueError, TypeError):
            case.ok(what)


def tasks(tier):
    k = 1 if tier == 'quick' else 10
    t = []
    for mode in MODES:
        for kind in (('ellip',) if mode == 'BE' else ('rect', 'ellip', 'convex', 'nonconvex')):
            if mode == 'FDold' and kind != 'rect':
                continue
            n = {'BE': 12, 'FD': 3}.get(mode, 2)
            t.append(Task(unit, n * k, name='unit-%s-%s' % (mode, kind), mode=mode, kind=kind, min_ok=1))
    t += [Task(simulate, 3 * k, name='sim-' + s, kind=s, min_ok=1) for s in ('rect', 'ellip', 'convex', 'nonconvex')]
    t.append(Task(mapfile, 4 * k, min_ok=100))
    t.append(Task(analytic, 4 * k, min_ok=100))
    t.append(Task(refused, 1 * k, min_ok=5))
    return t
