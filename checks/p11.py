"""P11: cloud density and space-charge field against independent deposits, field solutions and the recomputation calendar."""
import numpy as np
from vlib import configs, chambers, simgen
from vlib.geomref import PolyRef, EllipRef
from vlib.harness import Task
from vlib.simgen import QE, ME, EPS0

PROP, LEVEL = 'P11', 'exploration'
TECHNIQUE = 'runtime monitor comparing deposited density and gathered field with an independent deposition, an independently driven field solver, conservation laws and analytic solutions'
NOTE = 'Deposits and field-update calendar are decided to rounding for every observed step; field accuracy is judged against analytic solutions within a discretisation allowance for the geometries drawn.'
RULE = 'one evaluation = one density or field judged; distinct = (solver, chamber, comparison)'


class FakeMP:
    def __init__(self, x, y, nel, charge=-QE, vx=None, vy=None):
        self.N_mp = len(x)
        pad = 3
        self.x_mp, self.y_mp, self.nel_mp = [np.concatenate([np.asarray(v, float), np.full(pad, 7e-3)]) for v in (x, y, nel)]
        self.vx_mp = self.x_mp * 0 if vx is None else np.concatenate([vx, np.full(pad, 1e6)])
        self.vy_mp = self.x_mp * 0 if vy is None else np.concatenate([vy, np.full(pad, 1e6)])
        self.vz_mp = self.x_mp * 0
        self.z_mp = self.x_mp * 0
        self.charge, self.mass = charge, ME


class FakeComm:
    """Communicator of simulations that run side by side; this process is number me, the densities of the others are given."""

    def __init__(self, rhos, me):
        self.rhos, self.me, self.out, self.mine = [np.array(r).ravel() for r in rhos], me, None, None

    def Get_size(self):
        return len(self.rhos)

    def Get_rank(self):
        return self.me

    def Gather(self, send, recv, root=0):
        self.mine = np.array(send)
        if self.me == root:
            recv[...] = np.concatenate([self.mine if i == self.me else r for i, r in enumerate(self.rhos)]).reshape(np.shape(recv))

    def Bcast(self, buf, root=0):
        if self.me == root:
            self.out = np.array(buf)
        else:
            buf[...] = (sum(self.rhos) / len(self.rhos)).reshape(np.shape(buf))


def cic(sc, x, y, q):
    """Charge density (C/m^2) of point charges shared bilinearly between the four nodes around them."""
    rho = np.zeros((len(sc.xg), len(sc.yg)))
    dx, dy = sc.xg[1] - sc.xg[0], sc.yg[1] - sc.yg[0]
    for i, f in ((0, None), (1, None)):
        for j in (0, 1):
            fx, fy = (x - sc.xg[0]) / dx, (y - sc.yg[0]) / dy
            ix, iy = np.floor(fx).astype(int), np.floor(fy).astype(int)
            wx = (fx - ix) if i else 1 - (fx - ix)
            wy = (fy - iy) if j else 1 - (fy - iy)
            np.add.at(rho, (ix + i, iy + j), q * wx * wy)
    return rho / (dx * dy)


def close(a, b, tol, scale=None):
    s = np.max(np.abs(b)) if scale is None else scale
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(s, 1e-300)))


MODES = {'rect': ('FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase', 'FFT_PEC_Boundary', 'FFT_OpenBoundary'),
         'ellip': ('FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase'),
         'convex': ('FiniteDifferences_ShortleyWeller',), 'nonconvex': ('FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase')}


def make_sc(rng, chamb, mode, dh, **kw):
    from PyECLOUD.space_charge_class import space_charge
    solver = str(rng.choice(['scipy_slu', 'PyKLU']))
    return space_charge(chamb, dh, PyPICmode=mode, sparse_solver=solver, **kw)


def deposit(case, kind):
    rng = case.rng
    ch, ref, lab = chambers.make(rng, kind)
    mode = str(rng.choice(MODES[kind]))
    if mode == 'FFT_PEC_Boundary':
        dh = min(ch.x_aper, ch.y_aper) / rng.uniform(8, 16)
    else:
        dh = min(ch.x_aper, ch.y_aper) / rng.uniform(6, 16)
    if max(ch.x_aper, ch.y_aper) / dh > 120:
        dh = max(ch.x_aper, ch.y_aper) / 120
    du = dh * float(rng.uniform(.4, 1.5))
    sc = make_sc(rng, ch, mode, dh, Dh_U_eV=du)
    grid_dh = sc.xg[1] - sc.xg[0]
    case.check(grid_dh <= dh * 1.5 and np.allclose(np.diff(sc.xg), np.diff(sc.xg)[0]), 'grid-spacing', 'grid spacing %g requested %g' % (grid_dh, dh))
    key = '%s %s' % (mode.split('_')[-1], kind)
    n = int(rng.integers(1, 400))
    x, y = chambers.inside_points(rng, ref, n)
    q = 10**rng.uniform(2, 6, n)
    cut = int(rng.integers(0, n + 1))
    chg = [(-QE), float(rng.choice([QE, -QE, 2 * QE]))]
    A, B = FakeMP(x[:cut], y[:cut], q[:cut], chg[0]), FakeMP(x[cut:], y[cut:], q[cut:], chg[1])
    dx = sc.xg[1] - sc.xg[0]
    area = dx * (sc.yg[1] - sc.yg[0])
    probes = FakeMP(*chambers.inside_points(rng, ref, 30), nel=np.ones(30))
    res = []
    for grp, fl in (([A], 'A'), ([B], 'B'), ([A, B], 'AB')):
        for i, c in enumerate(grp):
            sc.recompute_spchg_efield(c, flag_solve=(i == len(grp) - 1), flag_reset=(i == 0))
        exp = sum([cic(sc, c.x_mp[:c.N_mp], c.y_mp[:c.N_mp], c.charge * c.nel_mp[:c.N_mp]) for c in grp])
        s = max(np.abs(exp).max(), 1e-300)
        if case.check(close(sc.rho, exp, 1e-9, s), 'density', lambda: '%s %s: density differs from the shared point charges by %g of max' % (key, fl, np.abs(sc.rho - exp).max() / s)):
            case.ok(key + ' rho')
        tot = sum((c.charge * c.nel_mp[:c.N_mp]).sum() for c in grp)
        mag = sum(abs(c.charge) * c.nel_mp[:c.N_mp].sum() for c in grp)
        case.check(abs(sc.rho.sum() * area - tot) <= 1e-9 * mag, 'density-total', '%s: integral %g, charge %g' % (key, sc.rho.sum() * area, tot))
        mx = sum((c.charge * c.nel_mp[:c.N_mp] * c.x_mp[:c.N_mp]).sum() for c in grp)
        my = sum((c.charge * c.nel_mp[:c.N_mp] * c.y_mp[:c.N_mp]).sum() for c in grp)
        case.check(abs((sc.rho.T * sc.xg).sum() * area - mx) <= 1e-9 * mag * ch.x_aper * 2 and abs((sc.rho * sc.yg).sum() * area - my) <= 1e-9 * mag * ch.y_aper * 2,
                   'density-centre', key)
        E = np.array(sc.get_sc_eletric_field(probes))
        res.append((np.array(sc.rho), E))
    if np.abs(res[0][1]).max() > 0 or np.abs(res[1][1]).max() > 0:
        s = max(np.abs(res[0][1]).max(), np.abs(res[1][1]).max())
        if case.check(close(res[2][1], res[0][1] + res[1][1], 1e-7, s), 'field-additive', lambda: '%s: field of two clouds is not the sum (%g)' % (key, np.abs(res[2][1] - res[0][1] - res[1][1]).max() / s)):
            case.ok(key + ' additive')
    # the same field from the density alone, and scaled
    if mode != 'FFT_PEC_Boundary':  # its solver does not take a density
        f = float(rng.uniform(-3, 3))
        sc.compute_spchg_efield_from_rho(res[2][0] * f, flag_verbose=False)
        E = np.array(sc.get_sc_eletric_field(probes))
        s = max(np.abs(res[2][1]).max(), 1e-300) * abs(f)
        if case.check(close(E, f * res[2][1], 1e-7, s), 'field-from-rho', '%s: field of a given density is not that of the particles' % key):
            case.ok(key + ' linear')
    # order of the particles does not matter
    p = rng.permutation(cut)
    A2 = FakeMP(x[:cut][p], y[:cut][p], q[:cut][p], chg[0])
    sc.recompute_spchg_efield(A2)
    case.check(close(sc.rho, res[0][0], 1e-9, max(np.abs(res[0][0]).max(), 1e-300)), 'density-order', key)
    # energy of that field on the requested pitch
    xx, yy = np.meshgrid(np.arange(-ch.x_aper * 1.01, ch.x_aper * 1.01, du), np.arange(-ch.y_aper * 1.01, ch.y_aper * 1.01, du), indexing='ij')
    ex, ey = sc.PyPICobj.gather(xx.ravel(), yy.ravel())
    U, got = .5 * EPS0 / QE * du**2 * np.sum(np.array(ex)**2 + np.array(ey)**2), sc.get_potential_electric_energy()
    if case.check(abs(got - U) <= 1e-9 * abs(U), 'energy-value', '%s: energy %r eV, that of the field is %r eV' % (key, got, U)):
        case.ok(key + ' U')
    # simulations that run side by side share the mean of their densities
    if mode != 'FFT_PEC_Boundary' and res[2][1].any():
        m, me = int(rng.integers(2, 5)), 0
        others = [rng.uniform(-2, 2) * res[int(rng.integers(3))][0] for _ in range(m)]
        me = int(rng.integers(m))
        own = FakeMP(x, y, q, chg[0])
        others[me] = cic(sc, x, y, q * chg[0])
        mean = sum(others) / m
        sc.comm = FakeComm(others, me)
        sc.recompute_spchg_efield(own)
        comm, sc.comm = sc.comm, None
        got, E = np.array(sc.rho), np.array(sc.get_sc_eletric_field(probes))
        s = max(np.abs(o).max() for o in others)
        good = close(got, mean, 1e-9, s) and (me or np.allclose(comm.out, mean.ravel(), rtol=0, atol=1e-9 * s)) and close(comm.mine, others[me].ravel(), 1e-9, s)
        sc.compute_spchg_efield_from_rho(mean, flag_verbose=False)
        Em = np.array(sc.get_sc_eletric_field(probes))
        if case.check(good and close(E, Em, 1e-6, max(np.abs(Em).max(), 1e-300)), 'shared-density', '%s: density of %d parallel simulations is not their mean (rank %d)' % (key, m, me)):
            case.ok(key + ' shared')
    case.count('deposits', 4)
    case.sample(solver=mode, chamber=lab, particles=n, Dh=grid_dh, charge=float(q.sum()))


def analytic(case):
    """Round pipe: uniform disc and off-centre line charge with its image; flux through closed contours; wall potential."""
    rng = case.rng
    kind = str(rng.choice(['ellip', 'polyround', 'rect']))
    R = float(rng.uniform(1e-2, 3e-2))
    nres = int(rng.integers(24, 40))
    dh = R / nres
    from PyECLOUD import geom_impact_ellip as gie, geom_impact_poly_fast_impact as gip, geom_impact_rect_fast_impact as gir
    if kind == 'ellip':
        ch = gie.ellip_cham_geom_object(R, R)
    elif kind == 'polyround':
        th = np.linspace(0, 2 * np.pi, 120, endpoint=False) + rng.uniform(0, .05)
        ch = gip.polyg_cham_geom_object(simgen.poly_dict(R * np.cos(th), R * np.sin(th)), flag_non_unif_sey=False)
    else:
        ch = gir.rect_cham_geom_object(R, R * rng.uniform(.7, 1.), False)
    dh = min(ch.x_aper, ch.y_aper) / nres
    mode = 'FiniteDifferences_ShortleyWeller'
    if kind == 'rect':
        mode = str(rng.choice(['FiniteDifferences_ShortleyWeller', 'FFT_PEC_Boundary']))
    sc = make_sc(rng, ch, mode, dh, Dh_U_eV=dh * float(rng.uniform(.5, 1.2)))
    ymin = min(ch.x_aper, ch.y_aper)
    # charge distribution: disc of radius r0 centred at (x0,y0), many equally charged macroparticles on a sunflower
    r0 = float(rng.uniform(.25, .45)) * ymin
    off = float(rng.uniform(0, .4)) * ymin
    ph = rng.uniform(0, 2 * np.pi)
    x0, y0 = off * np.cos(ph), off * np.sin(ph)
    N = 20000
    k = np.arange(N) + .5
    rr, aa = r0 * np.sqrt(k / N), 2.399963229728653 * k
    lam = float(10**rng.uniform(7, 10))
    chg = float(rng.choice([-QE, QE]))
    MP = FakeMP(x0 + rr * np.cos(aa), y0 + rr * np.sin(aa), np.full(N, lam / N), chg)
    sc.recompute_spchg_efield(MP)
    Q = lam * chg
    lab = '%s %s' % (kind, mode.split('_')[-1])
    # Gauss: flux through circles around the charge
    for rad in (.5 * r0, r0 * 1.3, min(ymin - off, 2.2 * r0) * .97):
        if rad > ymin - off:
            continue
        a = np.linspace(0, 2 * np.pi, 4000, endpoint=False)
        px = FakeMP(x0 + rad * np.cos(a), y0 + rad * np.sin(a), np.ones(4000))
        Ex, Ey = sc.get_sc_eletric_field(px)
        flux = np.mean(Ex * np.cos(a) + Ey * np.sin(a)) * 2 * np.pi * rad
        qin = Q * min(1., (rad / r0)**2)
        tol = .03 + 2.5 * dh / rad * (rad < r0)
        if case.check(abs(flux * EPS0 - qin) < tol * abs(Q), 'gauss', '%s: flux gives %g, enclosed %g' % (lab, flux * EPS0, qin)):
            case.ok(lab + ' gauss')
        circ = np.mean(-Ex * np.sin(a) + Ey * np.cos(a)) * 2 * np.pi * rad
        case.check(abs(circ * EPS0) < .03 * abs(Q), 'curl', '%s: circulation %g' % (lab, circ * EPS0 / Q))
    # interior field of the disc in a round pipe
    if kind != 'rect':
        pr = rng.uniform(0, .9 * R, 300)
        pa = rng.uniform(0, 2 * np.pi, 300)
        X, Y = pr * np.cos(pa), pr * np.sin(pa)
        Ex, Ey = sc.get_sc_eletric_field(FakeMP(X, Y, np.ones(300)))
        d = np.hypot(X - x0, Y - y0)
        g = Q / (2 * np.pi * EPS0) / np.maximum(d, r0)**2
        ex, ey = g * (X - x0), g * (Y - y0)
        if off > 1e-9:
            xi, yi = x0 * R**2 / off**2, y0 * R**2 / off**2
            di2 = (X - xi)**2 + (Y - yi)**2
            ex, ey = ex - Q / (2 * np.pi * EPS0) * (X - xi) / di2, ey - Q / (2 * np.pi * EPS0) * (Y - yi) / di2
        s = abs(Q) / (2 * np.pi * EPS0 * r0)
        err = np.hypot(Ex - ex, Ey - ey).max() / s
        if case.check(err < .05 + .25 * dh / r0, 'field-analytic', '%s: field off by %.3f of the peak (r0/R %.2f off/R %.2f)' % (lab, err, r0 / R, off / R)):
            case.ok(lab + ' analytic')
    else:
        # grounded box: series solution for the potential slope through the method of images
        pr = rng.uniform(-.8, .8, (2, 200))
        X, Y = pr[0] * ch.x_aper, pr[1] * ch.y_aper
        Ex, Ey = sc.get_sc_eletric_field(FakeMP(X, Y, np.ones(200)))
        ex, ey = np.zeros(200), np.zeros(200)
        a, b = 2 * ch.x_aper, 2 * ch.y_aper
        M = 30
        for i in range(-M, M + 1):
            xi = i * a + (x0 if i % 2 == 0 else -x0)
            for j in range(-M, M + 1):
                yi = j * b + (y0 if j % 2 == 0 else -y0)
                sgn = 1 if (i + j) % 2 == 0 else -1
                d2 = (X - xi)**2 + (Y - yi)**2
                if i == 0 and j == 0:
                    d2 = np.maximum(d2, r0**2)
                ex += sgn * (X - xi) / d2
                ey += sgn * (Y - yi) / d2
        ex, ey = ex * Q / (2 * np.pi * EPS0), ey * Q / (2 * np.pi * EPS0)
        s = abs(Q) / (2 * np.pi * EPS0 * r0)
        err = np.hypot(Ex - ex, Ey - ey).max() / s
        if case.check(err < .05 + .25 * dh / r0, 'field-analytic', '%s: field off by %.3f of the peak' % (lab, err)):
            case.ok(lab + ' analytic')
    # field energy = half the charge times potential
    if mode != 'FFT_PEC_Boundary':
        ph, = [sc.PyPICobj.gather_phi(MP.x_mp[:N], MP.y_mp[:N])]
        exp = .5 * np.sum(ph * MP.nel_mp[:N]) * chg / QE
        got = sc.get_potential_electric_energy()
        if case.check(abs(got - exp) < .12 * exp, 'energy', '%s: field energy %g eV, half charge times potential %g eV' % (lab, got, exp)):
            case.ok(lab + ' energy')
    case.sample(geometry=lab, R=R, r0=r0, offset=off, lam=lam)


def simulate(case, nclouds):
    """Field and density used in a simulation are those of the last due recomputation."""
    rng = case.rng
    kind = str(rng.choice(['rect', 'ellip', 'convex', 'nonconvex']))
    cfg = configs.random(rng, chamber=kind, clouds=nclouds, t_end=1e-10)
    Dt = cfg.sim['Dt']
    r = rng.random()
    Dt_sc = None if r < .15 else float(Dt * (rng.integers(1, 8) if r < .4 else rng.integers(1, 8) - .4))
    cfg.sim['Dt_sc'] = Dt_sc
    ton = float(rng.choice([0., 0., 1.03e-9]))
    cfg.sim['t_sc_ON'] = ton
    mode = str(rng.choice(MODES[cfg.label[0].split('-')[0]][:3]))
    cfg.sim['PyPICmode'] = mode
    cfg.sim['Dh_sc'] = float(rng.uniform(1e-3, 2.5e-3))
    cfg.mach['Nel_init_unif'] = cfg.mach.get('Nel_init_unif', 1e8)
    cfg.beam['filling_pattern_file'] = [1., 1.]
    sim = cfg.build(case)
    kind = cfg.label[0].split('-')[0]
    lab = '%s %s %dcl %s' % (mode.split('_')[-1], kind, nclouds, 'every' if Dt_sc is None else ('tie' if r < .4 else 'dec'))
    st = dict(last=0., E=None, rho=None, steps=0, rec=0, at=None, pre=None)
    nc = len(sim.cloud_list)
    # observer of the state at output time (after all sources, before cleaning)
    cl0 = sim.cloud_list[-1]
    sv = cl0.pyeclsaver
    orig = sv.witness

    def grab():
        return [(np.array(c.MP_e.x_mp[:c.MP_e.N_mp]), np.array(c.MP_e.y_mp[:c.MP_e.N_mp]), np.array(c.MP_e.nel_mp[:c.MP_e.N_mp]) * c.MP_e.charge) for c in sim.cloud_list]

    def witness(*a, **k):
        st['at'] = grab()
        return orig(*a, **k)
    sv.witness = witness
    from PyECLOUD.space_charge_class import space_charge
    ind = space_charge(sim.chamb, cfg.sim['Dh_sc'], PyPICmode=mode, sparse_solver='scipy_slu')
    px, py = chambers.inside_points(rng, cfg.ref, 25)
    P = FakeMP(px, py, np.ones(25))

    def before(sim):
        st['at'] = None
        st['rho'] = np.array(sim.spacech_ele.rho)
        st['E'] = np.array(sim.spacech_ele.get_sc_eletric_field(P)) if st['steps'] else np.zeros((2, 25))
        st['cl'] = [np.array(c.rho) for c in sim.cloud_list]

    def after(sim):
        tt = sim.beamtim.tt_curr
        parts = st['at'] or grab()
        amb = False
        if Dt_sc is None:
            due = True
        else:
            d = (tt - st['last']) - Dt_sc
            due = d >= 0
            amb = abs(d) < 1e-6 * Dt
        sc = sim.spacech_ele
        rhos = [cic(sc, *p) if len(p[0]) else np.zeros(sc.rho.shape) for p in parts]
        tot = sum(rhos)
        s = max(np.abs(tot).max(), np.abs(st['rho']).max(), 1e-30)
        if amb and tt > ton:
            due = close(np.array(sc.rho), tot, 1e-8, s)
        if due:
            st['last'] = tt
        st['steps'] += 1
        if due and tt > ton:
            st['rec'] += 1
            if case.check(close(np.array(sc.rho), tot, 1e-8, s), 'sim-density', lambda: '%s t=%g: density on the grid is not that of the clouds (off by %.3g of max)' % (lab, tt, np.abs(sc.rho - tot).max() / s)):
                case.ok(lab + ' rho')
            for c, rh in zip(sim.cloud_list, rhos):
                case.check(close(np.array(c.rho), rh, 1e-7, s), 'sim-cloud-density', lambda: '%s t=%g: density of cloud %s is not its own' % (lab, tt, c.name))
            allp = [np.concatenate(v) for v in zip(*parts)]
            ind.PyPICobj.scatter(allp[0], allp[1], allp[2], charge=1.)
            ind.PyPICobj.solve()
            E = np.array(ind.get_sc_eletric_field(P))
            got = np.array(sc.get_sc_eletric_field(P))
            if case.check(close(got, E, 1e-6, max(np.abs(E).max(), 1e-30)), 'sim-field', lambda: '%s t=%g: field is not that of the clouds present' % (lab, tt)):
                case.ok(lab + ' field')
        elif st['E'] is not None:
            got = np.array(sc.get_sc_eletric_field(P))
            same = np.array_equal(got, st['E']) if st['steps'] > 1 else np.abs(got).max() == 0
            if case.check(same and np.array_equal(np.array(sc.rho), st['rho']) and all(np.array_equal(np.array(c.rho), r) for c, r in zip(sim.cloud_list, st['cl'])), 'sim-hold', lambda: '%s t=%g: field changed although no recomputation was due' % (lab, tt)):
                case.ok(lab + ' hold')
    configs.on_step(sim, after, before)
    sim.run(t_end_sim=float(rng.uniform(2e-9, 4e-9)) if case.tier == 'quick' else None)
    case.count('steps', st['steps'])
    case.count('recomputations', st['rec'])
    case.check(st['rec'] > 0 or (ton > 0 or (Dt_sc or 0) > 2e-9), 'sim-never', '%s: field never computed' % lab)
    case.sample(config=cfg.lab, Dt_sc=Dt_sc, steps=st['steps'], recomputations=st['rec'])


def telescopic(case):
    """Telescopic grids resolve a small charge in a large chamber."""
    rng = case.rng
    from PyECLOUD import geom_impact_ellip as gie, geom_impact_rect_fast_impact as gir
    from PyECLOUD.space_charge_class import space_charge
    R = float(rng.uniform(1e-2, 2e-2))
    ch = gie.ellip_cham_geom_object(R, R)
    r0 = float(rng.uniform(1e-4, 4e-4))
    x0, y0 = rng.uniform(-.5, .5, 2) * r0
    tg = dict(x_min_target=-2 * r0, x_max_target=2 * r0, y_min_target=-2 * r0, y_max_target=2 * r0, Dh_target=r0 / 8.)
    sc = space_charge(ch, R / 14., PyPICmode='ShortleyWeller_WithTelescopicGrids', sparse_solver='PyKLU', f_telescope=.3, target_grid=tg, N_nodes_discard=3., N_min_Dh_main=10.)
    N = 5000
    k = np.arange(N) + .5
    rr, aa = r0 * np.sqrt(k / N), 2.399963229728653 * k
    Q = -QE * 1e8
    MP = FakeMP(x0 + rr * np.cos(aa), y0 + rr * np.sin(aa), np.full(N, 1e8 / N))
    sc.recompute_spchg_efield(MP)
    d = r0 * 10**rng.uniform(-.5, np.log10(.8 * R / r0), 300)
    a = rng.uniform(0, 2 * np.pi, 300)
    X, Y = x0 + d * np.cos(a), y0 + d * np.sin(a)
    ok = np.hypot(X, Y) < .85 * R
    X, Y, d, a = X[ok], Y[ok], d[ok], a[ok]
    Ex, Ey = sc.get_sc_eletric_field(FakeMP(X, Y, np.ones(len(X))))
    g = Q / (2 * np.pi * EPS0) / np.maximum(d, r0)**2 * d
    err = np.hypot(Ex - g * np.cos(a), Ey - g * np.sin(a)) / np.abs(g)
    if case.check(np.median(err) < .05 and err.max() < .35, 'telescopic-field', 'median error %.3f, max %.3f' % (np.median(err), err.max())):
        case.ok('telescopic')
    case.sample(R=R, r0=r0, median_error=float(np.median(err)))


def tasks(tier):
    k = 3 if tier == 'quick' else 20
    t = [Task(deposit, 8 * k, name='deposit-' + c, kind=c, min_ok=20 * k) for c in MODES]
    t.append(Task(analytic, 8 * k, min_ok=16 * k))
    t.append(Task(telescopic, 2 * k))
    t += [Task(simulate, n * k, name='sim-%d' % (c + 1), nclouds=c, min_ok=30) for c, n in ((0, 14), (1, 5), (2, 3))]
    return t
