"""Electromagnetic tracking is driven in two ways: whole mini-simulations (one to three clouds, round/rectangular/polygonal chambers, two
field solvers, recomputation interval that is and is not a multiple of the time step, in every step, on irregular time axes, space charge
switched on late, beams from barely relativistic to ultrarelativistic), and the field object alone with random particles (at rest, single
particle, several clouds of any charge, empty) and random recomputation times.  At every recorded step an observer deposits charge and
current of all clouds itself (numpy), solves the potentials with a separate instance of the Poisson solver of PyPIC, keeps them for the next
recomputation, and derives the lab-frame fields; the fields that act on the particles (read at random points and at particle positions) have
to be those.  Particles at rest give no magnetic field and the electrostatic field; the fields add over clouds and scale with charge."""
import numpy as np
import scipy.io as sio
from vlib.harness import Task
from vlib import configs, chambers, simgen
from vlib.simgen import QE, EPS0
from checks import p11, p18
from checks.p34 import deposit

PROP = 'P33'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'runtime monitor of the electromagnetic fields at every step against independently deposited charges and currents'
NOTE = 'potentials from a separate solver instance given numpy deposits; time derivative over the observed recomputation interval'
RULE = 'an evaluation is one field evaluation compared at a set of points; distinct = solver x chamber x kind of recomputation interval'
ASSUMPTIONS = ['the Poisson solver and the interpolation of PyPIC are right (P11 checks them against analytic solutions)']
CL = 299792458.
NAMES = ('Ex', 'Ey', 'Bx', 'By', 'Bz')


def solver(sc, chamb, mode):
    if mode == 'FiniteDifferences_Staircase':
        from PyPIC.FiniteDifferences_Staircase_SquareGrid import FiniteDifferences_Staircase_SquareGrid as S
        return S(chamb=chamb, Dh=sc.Dh)
    from PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid import FiniteDifferences_ShortleyWeller_SquareGrid as S
    return S(chamb=chamb, Dh=sc.Dh, sparse_solver='scipy_slu')


class Ref:
    """Scalar and vector potential of the particles at the last recomputation, and the vector potential at the one before it."""

    def __init__(self, sc, chamb, mode, beta):
        self.sc, self.beta = sc, beta
        self.pic = solver(sc, chamb, mode)
        self.zero()

    def zero(self):
        z = np.zeros((len(self.sc.xg), len(self.sc.yg)))
        self.sources = [z, z, z]
        self.old = [z, z]
        self.dt = 0.

    def recompute(self, clouds, dt):
        self.old = self.sources[1:]
        xg, yg = self.sc.xg, self.sc.yg
        new = [0, 0, 0]
        for c in clouds:
            n = c.N_mp
            for k, f in enumerate((np.ones(n), c.vx_mp[:n] / CL**2, c.vy_mp[:n] / CL**2)):
                new[k] = new[k] + deposit(c.x_mp[:n], c.y_mp[:n], c.charge * c.nel_mp[:n] * f, xg, yg)
        self.sources, self.dt = new, dt

    def solve(self, rho, x, y):
        self.pic.solve(rho=np.array(rho), flag_verbose=False)
        ex, ey = self.pic.gather(x, y)
        return self.pic.gather_phi(x, y), np.array(ex), np.array(ey)

    def fields(self, x, y):
        """Fields and, per component, the size against which a difference is judged."""
        phi, ex, ey = self.solve(self.sources[0], x, y)
        ax, axx, axy = self.solve(self.sources[1], x, y)
        ay, ayx, ayy = self.solve(self.sources[2], x, y)
        if self.dt > 0:
            # the solver is linear
            dax = self.solve(self.sources[1] - self.old[0], x, y)[0] / self.dt
            day = self.solve(self.sources[2] - self.old[1], x, y)[0] / self.dt
            ref = sum(np.abs(self.solve(o, x, y)[0]).max() for o in self.old) + np.abs(ax).max() + np.abs(ay).max()
            sa = ref / self.dt
        else:
            dax = day = 0 * ax
            sa = 0.
        bc = self.beta * CL
        se = max(np.abs(ex).max(), np.abs(ey).max(), 1e-300) + sa
        sb = max(np.abs(axy).max(), np.abs(ayx).max())
        # PyPIC returns minus the gradient
        return np.array([ex - dax, ey - day, day / bc, -dax / bc, -ayx + axy]), [se, se, se / bc, se / bc, sb + 1e-300]


def compare(case, sc, ref, x, y, lab, key):
    MP = p11.FakeMP(x, y, np.ones(len(x)))
    got = np.array(sc.get_sc_em_field(MP))
    exp, scale = ref.fields(x, y)
    ok = case.check(got.shape == exp.shape, 'em-shape', lab)
    for k, n in enumerate(NAMES):
        d = np.abs(got[k] - exp[k]).max() if len(x) else 0.
        ok = case.check(d <= 1e-7 * scale[k], 'em-' + n, lambda: '%s: %s is %r, expected %r at (%r, %r)' % (
            lab, n, float(got[k][np.abs(got[k] - exp[k]).argmax()]), float(exp[k][np.abs(got[k] - exp[k]).argmax()]), float(x[np.abs(got[k] - exp[k]).argmax()]), float(y[np.abs(got[k] - exp[k]).argmax()]))) and ok
    if ok:
        case.ok(key)
        case.count('points', len(x))
        case.count('points where the changing potential matters', int((np.abs(exp[2]) * ref.beta * CL > 1e-6 * scale[0]).sum()))
    return ok


def energy(rng, cfg):
    """Total energy per beam particle: gamma from just above one."""
    from scipy.constants import e, m_p, c
    g = 1 + 10**rng.uniform(-2, 1) if rng.random() < .6 else 10**rng.uniform(1, 3.5)
    cfg.beam['energy_eV'] = float(g * m_p * c**2 / e)
    return float(g)


def sims(case, clouds=0, axis=False):
    rng = case.rng
    mode = str(rng.choice(['FiniteDifferences_ShortleyWeller', 'FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase']))
    cfg = p18.config(rng, clouds=clouds, em=True)
    cfg.sim['PyPICmode'] = mode
    gamma = energy(rng, cfg)
    n = int(rng.integers(2, 5))
    cfg.beam['filling_pattern_file'] = [float(v) for v in (rng.random(n) < .8)]
    Dt = float(cfg.sim['Dt'])
    kind = str(rng.choice(['multiple', 'fraction', 'every step', 'none']))
    cfg.sim['Dt_sc'] = dict(zip(['multiple', 'fraction', 'every step', 'none'], [Dt * int(rng.integers(2, 8)), Dt * float(rng.uniform(1.05, 6)), Dt * float(rng.uniform(.1, .9)), None]))[kind]
    cfg.label.append('em %s %s' % (mode.split('_')[-1], kind))
    if axis:
        irregular(case, cfg)
        kind += ' irregular'
    lab = cfg.lab
    sim = cfg.build(case, 'sim', filen_main_outp=case.path('Pyecltest.mat'))
    sc = sim.spacech_ele
    chamb = sim.cloud_list[0].impact_man.chamb
    if not case.check(bool(sc.flag_em_tracking), 'em-on', lab + ': electromagnetic tracking was asked for and is not on'):
        return
    beta = float(np.sqrt(1 - 1 / gamma**2))
    case.check(abs(sc.beta - beta) <= 1e-4 * beta, 'em-beta', lambda: '%s: beta %r for gamma %r' % (lab, sc.beta, gamma))
    ref = Ref(sc, chamb, mode, sc.beta)
    geo = chambers_points(chamb, rng)
    st = dict(last=0., t0=cfg.sim.get('t_sc_ON', 0.) or 0., pending=None, n=0)
    Dt_sc = cfg.sim['Dt_sc']
    every = max(1, int(rng.integers(1, 6)))

    def renewed(t):
        # the interval is over to rounding: either is right
        if t <= st['t0']:
            return bool(sc.last_recomputation_check)
        return p11.close(np.array(sc.rho), p11_total(sim, sc), 1e-9)

    def after_sc(*a, **k):
        t = float(sim.beamtim.tt_curr)
        d = t - st['last']
        # the recomputation calendar
        due = Dt_sc is None or d > Dt_sc * (1 + 1e-9) or (abs(d - Dt_sc) <= 1e-9 * Dt_sc and renewed(t))
        if due:
            st['last'] = t
            if t > st['t0']:
                ref.recompute([c.MP_e for c in sim.cloud_list], d)
                case.count('recomputations')
        st['n'] += 1
        if due or st['n'] % every == 0:
            x, y = geo(12)
            for c in sim.cloud_list:
                m = c.MP_e.N_mp
                if m:
                    i = rng.integers(0, m, 8)
                    x, y = np.concatenate((x, c.MP_e.x_mp[i])), np.concatenate((y, c.MP_e.y_mp[i]))
            compare(case, sc, ref, x, y, '%s t=%g' % (lab, t), '%s %s clouds%d' % (mode.split('_')[-1], kind, len(sim.cloud_list)))
    sv = sim.cloud_list[0].pyeclsaver
    w = sv.witness

    def witness(*a, **k):
        after_sc()
        return w(*a, **k)
    sv.witness = witness
    sim.run()
    case.count('steps', st['n'])
    case.sample(config=lab, gamma=gamma, steps=st['n'])


def p11_total(sim, sc):
    return sum(deposit(c.MP_e.x_mp[:c.MP_e.N_mp], c.MP_e.y_mp[:c.MP_e.N_mp], c.MP_e.charge * c.MP_e.nel_mp[:c.MP_e.N_mp], sc.xg, sc.yg) for c in sim.cloud_list)


def irregular(case, cfg):
    rng = case.rng
    d = cfg.sim['Dt'] * rng.choice([.1, .3, .5, 1., 1.7, 3.], int(rng.integers(40, 120)))
    t = np.concatenate([[0.], np.cumsum(d)])
    sio.savemat(case.path('prof.mat'), dict(t=t, lam_t_array=np.maximum(0, np.sin(t / 7e-10))), oned_as='row')
    cfg.beam.update(flag_bunched_beam=0, sigmaz=-1., t_offs=0., filling_pattern_file=-1, beam_long_prof_file=case.path('prof.mat'), fact_beam=float(10**rng.uniform(11.5, 12.5)), b_spac=2.5e-9)
    cfg.sec_beams = []
    cfg.label.append('irregular')


def chambers_points(chamb, rng):
    def pts(n):
        x, y = rng.uniform(-chamb.x_aper, chamb.x_aper, 30 * n + 50) * .99, rng.uniform(-chamb.y_aper, chamb.y_aper, 30 * n + 50) * .99
        ok = ~np.asarray(chamb.is_outside(x, y)).astype(bool)
        return x[ok][:n], y[ok][:n]
    return pts


def cloud(rng, ref, n, charge, rest=False):
    x, y = chambers.inside_points(rng, ref, n) if n else (np.zeros(0), np.zeros(0))
    v = 10**rng.uniform(4, 7.5)
    vx, vy = (v * rng.standard_normal(n) + v * rng.standard_normal() for _ in range(2))
    if rest:
        vx, vy = vx * 0, vy * 0
    M = p11.FakeMP(x, y, 10**rng.uniform(3, 6, n), charge, vx, vy)
    return M


def direct(case, kind):
    rng = case.rng
    ch, geo, lab = chambers.make(rng, kind)
    from PyECLOUD.space_charge_class_electromagnetic import space_charge_electromagnetic as EM
    mode = str(rng.choice(['FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase'] if kind != 'convex' else ['FiniteDifferences_ShortleyWeller']))
    dh = max(min(ch.x_aper, ch.y_aper) / rng.uniform(6, 16), max(ch.x_aper, ch.y_aper) / 100)
    gamma = float(1 + 10**rng.uniform(-2, 3))
    Dt_sc = None if rng.random() < .3 else float(10**rng.uniform(-11, -9.3))
    sc = EM(ch, dh, gamma, Dt_sc=Dt_sc, PyPICmode=mode, sparse_solver=str(rng.choice(['scipy_slu', 'PyKLU'])))
    beta = float(np.sqrt(1 - 1 / gamma**2))
    case.check(abs(sc.beta - beta) <= 1e-12, 'em-beta', lab)
    ref = Ref(sc, ch, mode, beta)
    nc = int(rng.integers(1, 4))
    chg = [float(rng.choice([-QE, QE, 2 * QE])) for _ in range(nc)]
    key = '%s %s %s' % (mode.split('_')[-1], kind, 'direct' if Dt_sc else 'direct-none')
    t, last, prev = 0., 0., None
    for it in range(int(rng.integers(3, 7))):
        t += float((Dt_sc or 1e-10) * rng.choice([rng.uniform(.2, .9), rng.uniform(1.001, 3.)]))
        flag = bool(sc.check_for_recomputation(t))
        due = Dt_sc is None or t - last >= Dt_sc
        if Dt_sc is not None and abs(t - last - Dt_sc) < 1e-9 * Dt_sc:
            due = flag
        case.check(flag == due, 'em-calendar', '%s: recomputation %r after %g of %r' % (lab, flag, t - last, Dt_sc))
        rest = bool(rng.random() < .2)
        if due:
            clouds = [cloud(rng, geo, int(rng.choice([0, 1, 3, 60, 300])), q, rest) for q in chg]
            if prev and rng.random() < .2:
                clouds = prev
            prev = clouds
            for k, c in enumerate(clouds):
                sc.recompute_spchg_emfield(c, flag_solve=k == nc - 1, flag_reset=k == 0)
            ref.recompute(clouds, t - last)
            last = t
        x, y = chambers.inside_points(rng, geo, 20)
        if not compare(case, sc, ref, x, y, '%s %s Dt_sc=%r step %d' % (lab, key, Dt_sc, it), key):
            break
    # at rest for two recomputations: electrostatics
    from PyECLOUD.space_charge_class import space_charge
    es = space_charge(ch, dh, PyPICmode=mode, sparse_solver='scipy_slu')
    clouds = [cloud(rng, geo, 50, q, True) for q in chg]
    for _ in range(2):
        t += 2 * (Dt_sc or 1e-10)
        sc.check_for_recomputation(t)
        for k, c in enumerate(clouds):
            sc.recompute_spchg_emfield(c, flag_solve=k == nc - 1, flag_reset=k == 0)
    for k, c in enumerate(clouds):
        es.recompute_spchg_efield(c, flag_solve=k == nc - 1, flag_reset=k == 0)
    P = p11.FakeMP(x, y, np.ones(len(x)))
    got, exp = np.array(sc.get_sc_em_field(P)), np.array(es.get_sc_eletric_field(P))
    s = np.abs(exp).max()
    if case.check(np.abs(got[:2] - exp).max() <= 1e-7 * s and not np.abs(got[2:]).max() > 1e-12 * s / CL, 'em-rest', lambda: '%s %s: particles at rest: %r, electrostatic %r' % (lab, key, got[:, :3], exp[:, :3])):
        case.ok(key + ' rest')
    case.sample(chamber=lab, solver=mode, gamma=gamma, clouds=nc, Dt_sc=Dt_sc)


def tasks(tier):
    k = 1 if tier == 'quick' else 15
    return [Task(sims, 8 * k, min_ok=80), Task(sims, 6 * k, 'clouds', clouds=1, min_ok=60), Task(sims, 3 * k, 'clouds2', clouds=2, min_ok=30), Task(sims, 4 * k, 'irregular', axis=True, min_ok=40)] + [
        Task(direct, 8 * k, 'direct-' + g, kind=g, min_ok=20) for g in ('rect', 'ellip', 'convex', 'nonconvex')]
