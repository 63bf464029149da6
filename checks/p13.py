"""P13: photoelectrons."""
import numpy as np
import scipy.stats as st
from vlib import chambers, configs, mpsys, simgen
from vlib.geomref import PolyRef
from vlib.harness import Task
from vlib.simgen import QE, CLIGHT, merge
from vlib.stats import ks, zcheck
from checks.p06 import angles

PROP, LEVEL = 'P13', 'exploration'
TECHNIQUE = 'runtime monitor of generated photoelectrons: amount per call, wall location, direction and energy against the configured distributions; amounts per step in simulations'
NOTE = 'Amounts, wall distance and direction are judged for every photoelectron; averages and distributions by tests with false-alarm probability below 1e-9. Limited to the chambers and parameters drawn.'
RULE = 'one evaluation = one generation call, simulation step or distribution test judged; distinct = (source kind, chamber or simulation, kind of judgement)'


def wall_chamber(rng, kind):
    """A convex chamber that contains the origin well inside."""
    for _ in range(200):
        ch, ref, lab = chambers.make(rng, kind)
        if ref.inside([0.], [0.])[0] and ref.dist(np.array([0.]), np.array([0.]))[0] > .15 * min(ch.x_aper, ch.y_aper):
            return ch, ref, lab
    raise AssertionError


def energy(rng):
    d = str(rng.choice(['gaussian', 'lognormal', 'rect', 'mono', 'lorentz']))
    if d == 'gaussian':
        mu, s = float(rng.uniform(-3, 12)), float(rng.uniform(1, 6))
        cdf = st.truncnorm((0 - mu) / s, np.inf, loc=mu, scale=s).cdf
    elif d == 'lognormal':
        mu, s = float(rng.uniform(.5, 2)), float(rng.uniform(.3, 1.3))
        cdf = st.lognorm(s, scale=np.exp(mu)).cdf
    elif d == 'rect':
        mu = float(rng.uniform(3, 10))
        s = float(rng.uniform(.1, 1.9) * mu)
        cdf = st.uniform(mu - s / 2, s).cdf
    elif d == 'mono':
        mu, s, cdf = float(rng.uniform(.1, 20)), 1., None
    else:
        mu, s = float(rng.uniform(-2, 8)), float(rng.uniform(.5, 3))
        c0 = st.cauchy.cdf(0, mu, s)
        cdf = lambda e: np.where(e < 0, 0, (st.cauchy.cdf(e, mu, s) - c0) / (1 - c0))
    return d, mu, s, cdf


def normals(ref, x, y, lim):
    """Inward normal of the wall next to points on it, NaN next to corners (where it is ambiguous)."""
    if isinstance(ref, PolyRef):
        X, Y = np.append(ref.X, ref.X[0]), np.append(ref.Y, ref.Y[0])
        ex, ey = np.diff(X), np.diff(Y)
        L = np.hypot(ex, ey)
        px, py = x[:, None] - X[:-1], y[:, None] - Y[:-1]
        t = np.clip((px * ex + py * ey) / L**2, 0, 1)
        d = np.hypot(px - t * ex, py - t * ey)
        o = np.sort(d, axis=1)
        seg = np.argmin(d, axis=1)
        nx, ny = -ey[seg] / L[seg], ex[seg] / L[seg]
        sec = o[:, 1] < 1.5 * lim + 20 * o[:, 0] + 1e-9
        # the second edge does not matter if it is parallel
        nx, ny = np.where(sec, np.nan, nx), np.where(sec, np.nan, ny)
        return nx, ny, seg, o[:, 0]
    nx, ny = -x / ref.a**2, -y / ref.b**2
    m = np.hypot(nx, ny)
    return nx / m, ny / m, np.zeros(len(x), int), ref.dist(x, y)


def invcdf(rng, lo, hi):
    n = int(rng.integers(5, 60))
    u = np.linspace(0, 1, n)
    w = rng.random(n - 1)**2 + 1e-3
    v = lo + (hi - lo) * np.concatenate([[0], np.cumsum(w)]) / w.sum()
    if rng.random() < .5:
        # unequally spaced sampling of u
        u = np.concatenate([[0], np.sort(rng.random(n - 2)), [1]])
    return u, v


def unit(case, source, kind):
    from PyECLOUD import gen_photoemission_class as gpc
    rng = case.rng
    ch, ref, lab = wall_chamber(rng, kind)
    MP, kw = mpsys.make(rng, ch, nmax=60000, moved=True)
    edist, mu, s, ecdf = energy(rng)
    law = str(rng.choice(['cosine_2D', 'cosine_3D', 'normal_emission']))
    k_pe = float(10**rng.uniform(-6, -3))
    R = float(np.max(np.hypot(*chambers.boundary_points(rng, ref, 500)[:2])) * rng.uniform(1.05, 2.5))
    resc = float(rng.choice([.99, .9999, .999999]))
    cont = rng.random() < .25
    Dt = float(10**rng.uniform(-12, -10))

    class BT:
        lam_t_array = rng.random(50) * 1e10
    bt = BT()
    args = dict(beamtim=bt, flag_continuous_emission=cont) if cont or rng.random() < .5 else {}
    tests = []
    x0 = 0.
    if source == 'classic':
        refl = float(rng.choice([0., 1., rng.random()]))
        alim = float(rng.uniform(.01, .3))
        f = 'unif_no_file'
        xr = float(rng.uniform(-.6, .6) * ch.x_aper)
        r = rng.random()
        if r < .25:
            xr = 'left'
        elif r < .5:
            xr = 'right'
        elif not ref.inside([xr], [0.])[0] or ref.dist(np.array([xr]), np.array([0.]))[0] < 1e-3:
            xr = 0.
        u = v = None
        if rng.random() < .6:
            u, v = invcdf(rng, -np.pi * rng.uniform(.1, .95), np.pi * rng.uniform(.1, .95))
            f = case.path('inv.mat')
            import scipy.io as sio
            sio.savemat(f, dict(u_sam=u, inv_CDF=v), oned_as='row')
            if isinstance(xr, str):
                # photons reflected at the wall on the axis: across the chamber
                u, v = invcdf(rng, -rng.uniform(.3, 1.2), rng.uniform(.3, 1.2))
                if xr == 'left':
                    v = v + np.pi
                sio.savemat(f, dict(u_sam=u, inv_CDF=v), oned_as='row')
        # the code asks for a circle that surrounds the chamber also from the reflection point
        src = gpc.photoemission(f, k_pe, refl, s, mu, alim, xr, 0., R, ch, resc, edist, law, **args)
        if isinstance(xr, str):
            far = chambers.boundary_points(rng, ref, 4000)
            # extreme of the chamber on the horizontal axis
            t = np.linspace(0, 1, 200001) * ch.x_aper * 1.01 * (1 if xr == 'right' else -1)
            ins = ref.inside(t, 0 * t)
            edge = np.abs(t[ins]).max() if ins.any() else 0
            case.check(abs(abs(src.x0_refl) - edge) < 2e-4 * edge + 1e-5 * ch.x_aper and np.sign(src.x0_refl) == (1 if xr == 'right' else -1) and ref.inside([src.x0_refl], [0.])[0], 'refl-point',
                       lambda: '%s: reflection point %r for %s, wall at %r' % (lab, src.x0_refl, xr, edge))
            x0 = float(src.x0_refl)
        else:
            x0 = xr
    elif source == 'file':
        if rng.random() < .3:
            f, u, v = 'unif_no_file', None, None
        else:
            u, v = invcdf(rng, -np.pi, np.pi)
            f = dict(u_sam=u, angles=v)
            if rng.random() < .5:
                import scipy.io as sio
                f = case.path('inv.mat')
                sio.savemat(f, dict(u_sam=u, angles=v), oned_as='row')
        src = gpc.photoemission_from_file(f, ch, resc, edist, s, mu, k_pe, R, law, **args)
    else:
        from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_photoemission
        Vx, Vy = np.array(ref.X), np.array(ref.Y)
        if rng.random() < .5:  # finer segments along the same wall
            t = np.sort(rng.uniform(.1, .9, 2))
            nx, ny = [], []
            for i in range(len(Vx)):
                j = (i + 1) % len(Vx)
                for a in [0.] + ([float(t[0])] if rng.random() < .5 else []):
                    nx.append(Vx[i] + a * (Vx[j] - Vx[i]))
                    ny.append(Vy[i] + a * (Vy[j] - Vy[i]))
            Vx, Vy = np.array(nx), np.array(ny)
        w = rng.random(len(Vx))**3 * (rng.random(len(Vx)) < .7)
        if w.sum() == 0:
            w[0] = 1.
        cdf = np.cumsum(w / w.sum())
        cdf[np.argmax(w > 0) if (w > 0).sum() == 1 else -1:] = 1.
        cdf[-1] = 1.
        cdf = np.minimum(cdf, 1.)
        pch = polyg_cham_photoemission(simgen.poly_dict(Vx, Vy, phem_cdf=cdf))
        if not pch.vertexes_are_subset(ch):
            # additional vertices that are not exactly on the wall may be refused, the same vertices may not
            case.count('refined_polygon_refused')
            case.check(len(Vx) > len(ref.X), 'subset-refused', '%s: photoemission polygon with the same vertices refused' % lab)
        else:
            case.count('refined_polygon_accepted', len(Vx) > len(ref.X))
            j = int(rng.integers(0, len(Vx)))
            V2 = Vx.copy(), Vy.copy()
            V2[int(rng.integers(0, 2))][j] *= .97
            if not (V2[0][j] == Vx[j] and V2[1][j] == Vy[j]) and not on_wall(ref, V2[0][j], V2[1][j]):
                try:
                    oth = polyg_cham_photoemission(simgen.poly_dict(V2[0], V2[1], phem_cdf=cdf))
                except Exception:
                    oth = None
                if oth is not None and case.check(not oth.vertexes_are_subset(ch), 'subset-accepted', '%s: photoemission polygon with a displaced vertex accepted' % lab):
                    case.ok('different wall refused')
        src = gpc.photoemission_per_segment(pch, edist, s, mu, k_pe, law, **args)
        pref = PolyRef(Vx, Vy)
    mpsys.append(rng, MP, ref, int(rng.integers(0, 200)))
    old = mpsys.capture(MP)
    lab2 = '%s %s %s %s' % (source, lab, edist, law)
    mean = float(rng.choice([rng.uniform(.02, 3), rng.uniform(3, 40), float(rng.integers(1, 4))]))
    tot, exp, var = 0, 0., 0.
    ncall = 200
    for c in range(ncall):
        m = mean * rng.uniform(.5, 1.5) if c % 10 else 0. if c % 20 else rng.uniform(500, 1500)
        lam = m * MP.nel_mp_ref / (k_pe * CLIGHT * Dt)
        if cont:
            Dt = mean * MP.nel_mp_ref / (k_pe * CLIGHT * np.mean(bt.lam_t_array))
            m = mean
        n0 = MP.N_mp
        src.generate(MP, lam, Dt)
        n = MP.N_mp - n0
        if case.check(np.floor(m * (1 - 1e-6)) <= n <= np.floor(m * (1 + 1e-6)) + 1 and (m > 0 or n == 0), 'amount', lambda: '%s: %d macroparticles generated, %r expected' % (lab2, n, m)):
            case.ok(source + ' amount' + (' continuous' if cont else ''))
        tot, exp, var = tot + n, exp + m, var + (m % 1) * (1 - m % 1)
    # a larger batch for the distributions
    N = 4000 if case.tier == 'quick' else 12000
    D2 = Dt
    lam = (N + .3) * MP.nel_mp_ref / (k_pe * CLIGHT * Dt)
    if cont:
        D2 = (N + .3) * MP.nel_mp_ref / (k_pe * CLIGHT * np.mean(bt.lam_t_array))
    src.generate(MP, lam, D2)
    zcheck(case, 'amount-average', tot, exp, np.sqrt(var) + .5, lab2)
    case.ok(source + ' average')
    new = slice(old.N, int(MP.N_mp))
    now = mpsys.capture(MP)
    case.check(now.keys()[:old.N] == old.keys() and np.array_equal(now.q[:old.N], old.q), 'old-particles', '%s: existing particles changed' % lab2)
    g = {k: np.array(getattr(MP, k)[new]) for k in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')}
    x, y = g['x_mp'], g['y_mp']
    if not len(x):
        return
    case.check(np.all(g['nel_mp'] == MP.nel_mp_ref) and np.all(g['z_mp'] == 0), 'charge', lab2)
    if MP.flag_lifetime_hist:
        case.check(np.all(MP.t_last_impact[new] == -1), 'last-impact', lab2)
    outside = ch.is_outside(x, y)
    case.check(not np.any(outside), 'outside', lambda: '%s: photoelectron at (%r,%r) is outside' % (lab2, x[outside][0], y[outside][0]))
    far = ~ref.inside(x, y) & (ref.dist(x, y) > 1e-12)
    case.check(not far.any(), 'outside', lab2)
    # next to the wall
    d = ref.dist(x, y)
    lim = (1 - resc) * 2 * R + 1e-9 if source != 'segment' else 1e-9
    if source == 'classic' and isinstance(xr, str):
        lim = max(lim, ref.dist(np.array([x0]), np.array([0.]))[0])
    case.check(np.all(d <= lim * 1.0001), 'wall-distance', lambda: '%s: photoelectron %g m from the wall (limit %g)' % (lab2, d.max(), lim))
    case.ok(source + ' wall', len(x))
    # energies
    E = .5 * MP.mass / QE * (g['vx_mp']**2 + g['vy_mp']**2 + g['vz_mp']**2)
    case.check(np.all(np.isfinite(E)), 'energy-invalid', lab2)
    if edist == 'mono':
        case.check(np.allclose(E, mu, rtol=1e-9), 'energy-mono', lab2)
    else:
        ks(case, 'energy-' + edist, E, ecdf, lab2)
    case.ok('energy ' + edist)
    # directions
    nx, ny, seg, _ = normals(pref if source == 'segment' else ref, x, y, lim)
    ok = np.isfinite(nx)
    vm = np.sqrt(2 * QE / MP.mass * E)
    if source == 'segment':
        # parallel neighbours share their normal, so the segment may be ambiguous but not the direction
        pass
    angles(case, law, lab2, g['vx_mp'][ok], g['vy_mp'][ok], g['vz_mp'][ok], nx[ok], ny[ok])
    case.ok('direction ' + law)
    # where along the wall
    if source == 'segment':
        cnt = np.bincount(seg, minlength=len(Vx))
        p = np.diff(np.append(0, cdf))
        for i in range(len(Vx)):
            zcheck(case, 'segment-fraction', cnt[i], p[i] * len(x), np.sqrt(len(x) * p[i] * (1 - p[i])) + 1e-9 + (3 if p[i] > 0 else 0), '%s: photoelectrons on segment %d of %d' % (lab2, i, len(Vx)))
        X1, Y1 = np.append(Vx, Vx[0]), np.append(Vy, Vy[0])
        tt = ((x - X1[seg]) * (X1[seg + 1] - X1[seg]) + (y - Y1[seg]) * (Y1[seg + 1] - Y1[seg])) / ((X1[seg + 1] - X1[seg])**2 + (Y1[seg + 1] - Y1[seg])**2)
        ks(case, 'segment-uniform', tt, 'uniform', lab2)
        case.ok('segment places')
    elif source == 'file':
        a = np.arctan2(y, x)
        if v is None:
            ks(case, 'place-uniform', a, st.uniform(-np.pi, 2 * np.pi).cdf, lab2)
        else:
            ks(case, 'place-file', a, lambda q: np.interp(q, v, u), lab2)
        case.ok('file places')
    elif kind == 'ellip' and isinstance(xr, str):
        # starting next to the elliptic wall, paths crossing less than 1 % of the ray stay at the start (documented tolerance)
        pass
    else:
        # from the origin: direct and (without a file) uniformly reflected photons; from x0: reflected photons of a file
        from scipy.stats import norm
        n = len(x)
        a = np.arctan2(y, x)
        if refl == 0.:
            ks(case, 'place-direct', a, norm(0, alim).cdf, lab2)
        elif refl == 1. and v is None:
            ks(case, 'place-uniform', a, st.uniform(-np.pi, 2 * np.pi).cdf, lab2)
        elif refl == 1.:
            b = np.arctan2(y, -(x - x0))
            if xr == 'left':
                b = b % (2 * np.pi)
            ks(case, 'place-reflected', b, lambda q: np.interp(q, v, u), lab2 + ' from x=%g' % x0)
        elif v is None:
            ks(case, 'place-mixed', a, lambda q: refl * (q + np.pi) / (2 * np.pi) + (1 - refl) * norm(0, alim).cdf(q), lab2)
        else:
            # mixture in the wall angle seen from the origin, through an independent ray construction
            N2 = 40000
            nr = rng.binomial(N2, refl)
            psi = np.interp(rng.random(nr), u, v)
            th = rng.normal(0, alim, N2 - nr)
            aa = np.concatenate([wall_angle(ref, x0, -np.cos(psi), np.sin(psi), resc), wall_angle(ref, 0., np.cos(th), np.sin(th), resc)])
            from vlib.stats import ks2
            ks2(case, 'place-mixed', a, aa, lab2)
        case.ok('classic places refl=%s file=%s' % (refl if refl in (0., 1.) else 'mix', v is not None))
    case.sample(source=source, chamber=lab, energy=edist, angle=law, calls=ncall, expected=exp, generated=tot)


def on_wall(ref, x, y):
    return ref.dist(np.array([x]), np.array([y]))[0] < 1e-12


def wall_angle(ref, x0, dx, dy, resc):
    """Polar angle (from the origin) of the wall point reached from (x0,0) in direction (dx,dy), by bisection inside a convex chamber."""
    lo, hi = np.zeros(len(dx)), np.full(len(dx), 1.)
    for _ in range(50):
        m = .5 * (lo + hi)
        i = ref.inside(x0 + m * dx, m * dy)
        lo, hi = np.where(i, m, lo), np.where(i, hi, m)
    return np.arctan2(resc * lo * dy, x0 + resc * lo * dx)


def simulate(case, source, nsec):
    rng = case.rng
    kind = 'convex' if source == 'segment' else str(rng.choice(['rect', 'ellip', 'convex']))
    cfg = configs.random(rng, chamber=kind, sey='ECLOUD', sources=['phem'], regen='none')
    kind = cfg.label[0]
    m = cfg.mach
    from vlib.simgen import DROP
    k_pe = float(10**rng.uniform(-5, -3.5))
    m.update(k_pe_st=k_pe, out_radius=8e-2)
    if source == 'classic':
        m.update(photoem_flag=1)
    elif source == 'file':
        m.update(photoem_flag=str(rng.choice(['from_file'])) if rng.random() < .5 else 2, inv_CDF_all_photoem_file='unif_no_file')
        for k in ('inv_CDF_refl_photoem_file', 'refl_frac', 'alimit', 'x0_refl', 'y0_refl'):
            m[k] = DROP
    else:
        Vx, Vy = cfg.ref.X, cfg.ref.Y
        w = rng.random(len(Vx)) + .1
        cdf = np.cumsum(w / w.sum())
        cdf[-1] = 1.
        cfg.files['phem.mat'] = simgen.poly_dict(Vx, Vy, phem_cdf=cdf)
        m.update(photoem_flag='per_segment' if rng.random() < .5 else 3, filename_chm_photoem='phem.mat')
        for k in ('inv_CDF_refl_photoem_file', 'refl_frac', 'alimit', 'x0_refl', 'y0_refl', 'out_radius', 'phem_resc_fac'):
            m[k] = DROP
    cont = rng.random() < .4 and nsec == 0
    if cont:
        m['flag_continuous_emission'] = True
    for k in range(nsec):
        cfg.sec_beams.append(dict(x_beam_pos=float(rng.uniform(-2e-3, 2e-3)), y_beam_pos=0., fact_beam=float(10**rng.uniform(10.5, 11.5)), t_offs=float(rng.uniform(5e-10, 2e-9)), filling_pattern_file=[1., 0., 1.]))
    cfg.beam['filling_pattern_file'] = [1., 0., .5]
    cfg.sim['nel_mp_ref_0'] = float(k_pe * CLIGHT * 1e11 / (.06 * 2.5) * cfg.sim['Dt'] / rng.uniform(3, 30))
    sim = cfg.build(case, skip_pyeclsaver=True)
    lab = '%s %dsec%s' % (source, nsec, ' cont' if cont else '')
    cl = sim.cloud_list[0]
    st_ = dict(tot=0, exp=0., var=0., calls=0, n=0)
    orig = cl.phemiss.generate

    def gen(*a, **k):
        n0 = int(cl.MP_e.N_mp)
        r = orig(*a, **k)
        st_['calls'] += 1
        st_['n'] += int(cl.MP_e.N_mp) - n0
        return r
    cl.phemiss.generate = gen
    lam_mean = np.mean(sim.beamtim.lam_t_array)

    def before(sim):
        st_.update(calls=0, n=0, ref=float(cl.MP_e.nel_mp_ref))

    def after(sim):
        lam = lam_mean if cont else sim.beamtim.lam_t_curr + sum(s.lam_t_curr for s in sim.sec_beams_list)
        mm = k_pe * CLIGHT * lam * sim.beamtim.Dt_curr / st_['ref']
        n = st_['n']
        if case.check(st_['calls'] > 0 and np.floor(mm * (1 - 1e-6)) <= n <= np.floor(mm * (1 + 1e-6)) + 1, 'sim-amount', lambda: '%s t=%g: %d photoelectron macroparticles, %r expected' % (lab, sim.beamtim.tt_curr, n, mm)):
            case.ok(lab)
        st_['tot'] += n
        st_['exp'] += mm
        st_['var'] += (mm % 1) * (1 - mm % 1)
    configs.on_step(sim, after, before)
    sim.run(t_end_sim=6e-9)
    zcheck(case, 'sim-average', st_['tot'], st_['exp'], np.sqrt(st_['var']) + .5, lab)
    case.sample(kind=lab, expected=st_['exp'], generated=st_['tot'])


def tasks(tier):
    k = 2 if tier == 'quick' else 16
    t = []
    for s, ks_ in (('classic', ('rect', 'ellip', 'convex')), ('file', ('rect', 'ellip', 'convex')), ('segment', ('convex', 'nonconvex'))):
        for c in ks_:
            t.append(Task(unit, 8 * k, name='unit-%s-%s' % (s, c), source=s, kind=c, min_ok=200))
        t.append(Task(simulate, 3 * k, name='sim-%s' % s, source=s, nsec=0, min_ok=100))
        t.append(Task(simulate, 2 * k, name='sim-%s-sec' % s, source=s, nsec=1 if s != 'file' else 2, min_ok=60))
    return t
