"""Simulations with insulating, conducting and mixed walls (random polygons, fast and slow decay and none, small and large saturation
charges, strongly and weakly emitting surfaces, one to three clouds of which some have a charging wall of their own, irregular and uniform
time steps, sub-steps, gas and electrons of high energy) are watched step by step: every wall impact is observed particle by particle
(position, segment, energy, angle, charge, and the macroparticles that came out of it), and from that an independent account of the
charge per segment is kept from the start of the simulation.  The stored charge must follow the account after the impacts and after the
decay of every step, on every segment; the charge emitted by every single impact must be the one of the interpolated yield at the charge
stored before the step; per-segment quantities in the output must add up to what the wall holds.  The emission model alone is driven with crafted
impacts (none, one, thousands, single segments, stored charge below zero, at and beyond saturation)."""
import numpy as np
import scipy.io as sio
from vlib.harness import Task, loadmat
from vlib import configs, observe, impacts, simgen, chambers
from vlib.seyref import YieldRef
from vlib.simgen import QE, ME, merge, SEY, DROP
from checks import p18

PROP = 'P28'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'online charge account per wall segment from observed impacts, compared with the stored charge in every step; reference yield per impact'
NOTE = 'the account is kept from the particles that hit and leave the wall, independent of the emission model'
RULE = 'an evaluation is one step with impacts (or one decay step) compared on all segments, or one impact; distinct = class of case x kind of segments hit'
ASSUMPTIONS = ['every cloud with a charging emission model keeps its own stored charge', 'the segment of an impact is the one found by the chamber (P02), here checked to contain the impact point']


def chamber_charging(rng, n):
    return dict(flag_charging=(rng.random(n) < rng.choice([.3, .6, 1.])).astype(int), Q_max_segments=10**rng.uniform(-12.5, -9.5, n), EQ_segments=rng.uniform(5, 60, n),
                tau_segments=np.where(rng.random(n) < .7, 10**rng.uniform(-10, -7, n), rng.choice([-1., 0.], n)))


class Account:
    def __init__(self, case, cfg, sim, ic, ref, seg_len, flags, tau, lab):
        self.case, self.cfg, self.sim, self.ic, self.ref, self.L, self.on, self.tau, self.lab = case, cfg, sim, ic, ref, seg_len, flags, tau, lab
        self.Q = np.zeros(len(seg_len))
        self.net = np.zeros(len(seg_len))
        self.gross = np.zeros(len(seg_len))
        self.nimp = 0

    def model(self):
        return self.sim.cloud_list[self.ic].impact_man.sey_mod

    def stored(self):
        return np.array(self.model().Q_segments, float)

    def close(self, a, b):
        return np.abs(a - b) <= 1e-9 * (np.abs(self.Q) + self.gross * QE / self.L * 1e-3) + 1e-30

    def judge(self, imp, Dt, t):
        """imp: what was observed of the impacts of this step; called at the end of the step."""
        case, lab, on = self.case, self.lab, self.on
        n = len(self.L)
        Q0 = self.Q.copy()
        if imp is not None and len(imp.h):
            i = np.asarray(imp.iseg, int)
            vx, vy = np.asarray(self.ref.X), np.asarray(self.ref.Y)
            wx, wy = np.roll(vx, -1), np.roll(vy, -1)
            ex, ey = wx[i] - vx[i], wy[i] - vy[i]
            s = ((imp.X - vx[i]) * ex + (imp.Y - vy[i]) * ey) / (ex**2 + ey**2)
            dist = np.hypot(imp.X - vx[i] - np.clip(s, 0, 1) * ex, imp.Y - vy[i] - np.clip(s, 0, 1) * ey)
            case.check(bool(np.all(dist <= .031 * imp.path + 1.1e-4 * self.ref.scale)), 'segment', lambda: '%s: an impact at (%r,%r) was attributed to segment %d, %g m away' % (lab, imp.X[dist.argmax()], imp.Y[dist.argmax()], i[dist.argmax()], dist.max()))
            if imp.ambiguous or np.any(imp.owner < 0):
                # identical impact points: emission cannot be attributed to impacts, but to segments of the new particles only
                case.count('ambiguous')
                self.Q = self.stored()
                return
            q = np.bincount(i, imp.nel - imp.emit, n)
            self.net += q
            self.gross += np.bincount(i, imp.nel + imp.emit, n)
            self.Q = np.where(on, Q0 - QE * q / self.L, 0.)
            st = imp.Q1
            bad = ~self.close(st, self.Q)
            j = int(np.argmax(bad))
            case.check(not bad.any(), 'charge' if on[j] else 'charge-conducting', lambda: '%s: segment %d (charging: %s) holds %r C/m2 after the impacts at t=%g, %r expected (before: %r, %d impacts there)' % (lab, j, bool(on[j]), st[j], t, self.Q[j], Q0[j], (i == j).sum()))
            self.yields(imp, i, Q0, t)
            self.nimp += len(i)
            case.count('impacts', len(i))
            case.count('impacts-on-charging', int(on[i].sum()))
            case.ok('impacts|%s|%s' % ('all' if on.all() else 'some', 'saturated' if np.any(self.Q > np.asarray(self.cfg.chamber['Q_max_segments'])) else ('negative' if np.any(self.Q < 0) else 'positive')))
        else:
            st = self.stored() if imp is None or imp.Q1 is None else imp.Q1
            case.check(bool(np.all(self.close(st, Q0))), 'charge-idle', lambda: '%s: stored charge changed without impacts at t=%g' % (lab, t))
        with np.errstate(divide='ignore', invalid='ignore'):
            self.Q = np.where(on & (self.tau > 0), self.Q * np.exp(-Dt / np.where(self.tau > 0, self.tau, 1.)), self.Q)
        st = self.stored()
        bad = ~self.close(st, self.Q)
        j = int(np.argmax(bad))
        case.check(not bad.any(), 'decay', lambda: '%s: segment %d (charging: %s, tau=%g) holds %r after the step t=%g of %g s, %r expected' % (lab, j, bool(on[j]), self.tau[j], st[j], t, Dt, self.Q[j]))
        case.check(not np.any(st[~on]), 'conducting', lambda: '%s: conducting segments hold charge %r' % (lab, st[~on]))
        case.ok()
        # rounding does not accumulate
        self.Q = np.where(bad, self.Q, st)

    def yields(self, imp, i, Q0, t):
        case, lab = self.case, self.lab
        p, ye, yt = self.yref.emitted(imp.E, imp.cos, i, Q0)
        w = imp.nel * ye
        bad = np.abs(imp.emit - w) > 1e-6 * w + 1e-9 * imp.nel
        # grazing or standing particles: the angle is sensitive
        bad &= (imp.cos > 1e-6) & (imp.E > 1e-9)
        j = int(np.argmax(bad))
        case.check(not bad.any(), 'yield', lambda: '%s: impact of %g eV, cos %g on segment %d (stored %r of %r): yield %r, expected %r' % (
            lab, imp.E[j], imp.cos[j], i[j], Q0[i[j]], self.cfg.chamber['Q_max_segments'][i[j]], imp.emit[j] / imp.nel[j], w[j] / imp.nel[j]))
        case.ok(n=len(i))


def accounts(case, cfg, sim, lab):
    X, Y = np.asarray(cfg.chamber['Vx'], float), np.asarray(cfg.chamber['Vy'], float)
    L = np.hypot(np.roll(X, -1) - X, np.roll(Y, -1) - Y)
    on = np.asarray(cfg.chamber['flag_charging']) > 0
    tau = np.asarray(cfg.chamber['tau_segments'], float)
    out = {}
    for ic, cl in enumerate(sim.cloud_list):
        nm = None if ic == 0 else list(cfg.clouds)[ic - 1]
        p = merge(SEY, cfg.sey)
        if nm is not None:
            p.update({k: v for k, v in cfg.clouds[nm].items() if k in p})
        if p.get('switch_model') != 'ECLOUD_nunif_charging':
            continue
        a = Account(case, cfg, sim, ic, cfg.ref, L, on, tau, lab + ('' if ic == 0 else ' cloud %d' % ic))
        a.yref = YieldRef(p, cfg.chamber)
        out[ic] = a
    return out


def simulated(case, clouds=0, irregular=False, **kw):
    rng = case.rng
    cfg = p18.config(rng, clouds=clouds, sey='charging', **kw)
    n = len(cfg.ref.X)
    cfg.chamber.update(chamber_charging(rng, n))
    if rng.random() < .6:
        # denser, to have many impacts
        cfg.mach.update(init_unif_flag=1, Nel_init_unif=float(10**rng.uniform(8, 9)), E_init_unif=float(rng.uniform(50, 500)))
    for j, c in enumerate(cfg.clouds.values()):
        if rng.random() < .5:
            c.update(cloud_charge=-QE, cloud_mass=ME, switch_model='ECLOUD_nunif_charging', del_max=float(rng.uniform(1, 2.4)), R0=float(rng.uniform(.3, 1)), Emax=float(rng.uniform(150, 400)), E_init_unif=100., Nel_init_unif=1e8)
    # per segment output that sums up everything
    cfg.sim.update(flag_hist_impact_seg=1)
    for c in cfg.clouds.values():
        c['flag_hist_impact_seg'] = 1
    if irregular:
        m = int(rng.integers(60, 150))
        t = np.concatenate([[0.], np.cumsum(cfg.sim['Dt'] * rng.choice([.5, 1., 1.7, 3.], m))])
        sio.savemat(case.path('prof.mat'), dict(t=t, lam_t_array=np.maximum(0, np.sin(t / 7e-10))), oned_as='row')
        cfg.beam.update(flag_bunched_beam=0, sigmaz=-1., t_offs=0., filling_pattern_file=-1, beam_long_prof_file=case.path('prof.mat'), fact_beam=float(10**rng.uniform(11.5, 12.5)), b_spac=2.5e-9)
        cfg.sec_beams = []
        if cfg.mach.get('track_method') in ('StrongBdip', 'StrongBgen'):
            configs.set_tracker(cfg, rng, 'Boris')
        cfg.label.append('irregular')
    lab = cfg.lab
    sim = cfg.build(case, 'sim')
    axis = np.asarray(sim.beamtim.t, float)
    acc = accounts(case, cfg, sim, lab)
    rec = observe.Observer(sim, keep_state=False)
    case.check(all(not a.stored().any() for a in acc.values()), 'initial', '%s: the wall holds charge before the first step' % lab)
    seen = [0] * len(sim.cloud_list)

    def after(s):
        if case.fails:
            return
        t = float(s.beamtim.tt_curr)
        k = int(np.argmin(np.abs(axis - t)))
        for ic, a in acc.items():
            case.check(len(rec.log[ic]) == seen[ic] + 1, 'recorded', '%s: %d recordings in a step' % (lab, len(rec.log[ic]) - seen[ic]))
            seen[ic] = len(rec.log[ic])
            imp = rec.log[ic][-1].imp
            a.judge(imp, float(axis[k + 1] - axis[k]), t)
            rec.log[ic][-1].imp = None
    configs.on_step(sim, after)
    sim.run()
    if case.fails:
        return
    # the per-segment histograms written out tell what went into the wall
    for ic, a in acc.items():
        d = loadmat(sim.cloud_list[ic].pyeclsaver.filen_main_outp)
        if 'nel_hist_impact_seg' not in d or sim.cloud_list[ic].impact_man.flag_seg is False:
            continue
        im, em = np.atleast_2d(d['nel_hist_impact_seg']), np.atleast_2d(d['nel_hist_emit_seg'])
        if im.shape[-1] != len(a.L) or case.counts.get('ambiguous'):
            continue
        last = np.asarray(sim.cloud_list[ic].impact_man.nel_hist_impact_seg) - np.asarray(sim.cloud_list[ic].impact_man.nel_hist_emit_seg)
        net = im.sum(0) - em.sum(0) + last
        case.check(np.all(np.abs(net - a.net) <= 1e-9 * a.gross + 1e-12), 'reported', lambda: '%s: reported charge into the segments %r, observed %r' % (lab, net, a.net))
        perm = a.on & ~(a.tau > 0)
        q = -QE * net / a.L
        case.check(np.all(np.abs(q - a.stored())[perm] <= 1e-9 * (a.gross * QE / a.L)[perm] + 1e-30), 'reported-stored', lambda: '%s: charge stored without decay %r, reported %r' % (lab, a.stored()[perm], q[perm]))
        case.count('reported-segments', int(perm.sum()))
    a = acc[0]
    case.sample(config=lab, impacts=a.nimp, charging=int(a.on.sum()), segments=n, stored=[float('%.3g' % v) for v in a.stored()[:5]])


def direct(case):
    """The emission model alone with crafted impacts."""
    rng = case.rng
    cfg = configs.random(rng, sey='charging', tracker='Boris', sources=['unif'], regen='none', pattern=[1.])
    n = len(cfg.ref.X)
    cfg.chamber.update(chamber_charging(rng, n))
    if rng.random() < .3:
        cfg.chamber['flag_charging'] = cfg.chamber['flag_charging'].astype(float)
    sim = cfg.build(case, skip_pyeclsaver=True)
    sm = sim.cloud_list[0].impact_man.sey_mod
    a = accounts(case, cfg, sim, cfg.lab)[0]
    ref = a.yref
    L, on, tau = a.L, a.on, a.tau
    qm = np.asarray(cfg.chamber['Q_max_segments'])
    Q = np.zeros(n)
    for k in range(30):
        if rng.random() < .4:
            Q = np.where(on, qm * rng.choice([0., .3, .99, 1., 1.5, -.5], n), 0.)
            sm.Q_segments[:] = Q
        m = int(rng.choice([0, 1, 2, 50, 3000]))
        seg = rng.integers(0, n, m) if rng.random() < .7 else np.full(m, int(rng.integers(0, n)))
        E, c = 10**rng.uniform(-3, 4, m), rng.uniform(0, 1, m)
        if m:
            nel = 10**rng.uniform(0, 9, m)
            args = [np.array(v) for v in (nel, E, c, seg)]
            emit, el, ts = sm.SEY_process(*args)[:3]
            case.check(all(np.array_equal(u, v) for u, v in zip(args, (nel, E, c, seg))), 'inputs', '%s: the impacts were modified' % cfg.lab)
            _, y, _ = ref.emitted(E, c, seg, Q)
            case.check(np.allclose(emit, nel * y, rtol=1e-9, atol=0), 'direct-yield', lambda: '%s: yields %r, expected %r' % (cfg.lab, (emit / nel)[~np.isclose(emit, nel * y, rtol=1e-9, atol=0)][:3], y[~np.isclose(emit, nel * y, rtol=1e-9, atol=0)][:3]))
            net, gross = np.bincount(seg, nel - emit, n), np.bincount(seg, nel + emit, n)
            want = np.where(on, Q - QE * net / L, 0.)
            st = np.array(sm.Q_segments)
            case.check(bool(np.all(np.abs(st - want) <= 1e-9 * (np.abs(Q) + QE * gross / L * 1e-2))), 'direct-charge', lambda: '%s: stored %r, expected %r' % (cfg.lab, st, want))
            Q = st
            case.ok('direct|%d|%s' % (m, 'one' if len(set(seg)) == 1 else 'many'), m)
        Dt = float(rng.choice([0., 10**rng.uniform(-12, -7)]))
        sm.SEY_model_evol(Dt)
        want = np.where(on & (tau > 0), Q * np.exp(-Dt / np.where(tau > 0, tau, 1.)), Q)
        st = np.array(sm.Q_segments)
        case.check(bool(np.all(np.abs(st - want) <= 1e-12 * np.abs(Q))), 'direct-decay', lambda: '%s: after %g s %r, expected %r (tau %r)' % (cfg.lab, Dt, st, want, tau))
        Q = st
        case.ok('direct-decay')


def tasks(tier):
    k = 1 if tier == 'quick' else 12
    return [Task(simulated, 22 * k, name='one', min_ok=2000 * k), Task(simulated, 8 * k, name='two', clouds=1, min_ok=500 * k), Task(simulated, 4 * k, name='three', clouds=2, min_ok=200 * k),
            Task(simulated, 6 * k, name='irregular', irregular=True, min_ok=300 * k), Task(direct, 12 * k, name='direct', min_ok=5000 * k)]
