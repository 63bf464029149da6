"""Random mini-simulations (all trackers, uniform and irregular time axes, sub-steps, re-evaluation of the fields at sub-steps, custom
steps as used by the beam-tracking interface, beam as an instantaneous kick, one to three clouds, secondary beams, electromagnetic
tracking, cross-ionisation) are monitored step by step.  Before every step the fields of the clouds and of all beams are read at the
positions of each cloud and an independent Boris integration (or closed-form motion for the strong-field trackers) over the duration of
that step, taken from the configured time axis, is made; fields are re-evaluated at every sub-step where this is configured.  The
particles that reach the impact stage have to be these.  All stages (impacts, evolution of the surface, gas ionisation, photoemission,
cross-ionisation, deposition, recording, cleaning, regeneration) are logged with their time and step length, and an online checker of
the log decides that each is applied once per step (and beam), in an order in which each sees what the earlier ones did, and that nothing
changes the particles between recording and the end of a step that does not start a passage."""
import numpy as np
import scipy.io as sio
from vlib.harness import Task
from vlib import configs, restart, observe
from vlib.simgen import QE, ME, MACH, merge, DROP
from checks import p18
from checks.p10 import Field, rotate, uniform_exact
from checks.p11 import FakeMP
from checks.p34 import deposit

PROP = 'P32'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'online checker of the stage log plus an independent integration of every motion step of every particle'
NOTE = 'Boris scheme in numpy (sine/cosine rotation), fields read through the interpolation used for the particles, step length from the configured time axis'
RULE = 'an evaluation is one cloud moved by one step; distinct = tracker x step mode x number of clouds'
ASSUMPTIONS = ['fields at given positions are right (P11, P15, P33)', 'the tracker scheme is the one of P10']

ORDER = ['impacts', 'evol', 'gas', 'photo', 'cross', 'deposit', 'record', 'clean', 'regen']
# what has to be finished before a stage begins (of the same cloud up to the sources, of all clouds afterwards)
BEFORE = dict(evol=('impacts',), gas=('impacts',), photo=('impacts',), cross=('impacts', 'gas', 'photo'), deposit=('impacts', 'gas', 'photo', 'cross'),
              record=('impacts', 'gas', 'photo', 'cross', 'deposit'), clean=('record',), regen=('record', 'clean'))


def fields(sim, cl, r, v, beams=True, cloud=True):
    """Electric and magnetic field (3, n) of clouds and beams at given particles of a cloud."""
    n = r.shape[1]
    MP = FakeMP(r[0], r[1], np.ones(n), cl.MP_e.charge, v[0], v[1])
    MP.mass = cl.MP_e.mass
    E, B = np.zeros((3, n)), np.zeros((3, n))
    if cloud:
        if sim.flag_em_tracking:
            f = [np.asarray(a, float) + np.zeros(n) for a in sim.spacech_ele.get_sc_em_field(MP)]
            E[0], E[1], B[0], B[1], B[2] = f
        else:
            ex, ey = sim.spacech_ele.get_sc_eletric_field(MP)
            E[0], E[1] = np.asarray(ex, float), np.asarray(ey, float)
    if beams:
        for b in [sim.beamtim] + list(sim.sec_beams_list):
            ex, ey = b.get_beam_eletric_field(MP)
            E[0] += ex
            E[1] += ey
    return E, B


def boris(r, v, E, B, F, q, m, dt, n):
    for _ in range(n):
        b = np.array(F(r[0], r[1])) + B
        v = v + .5 * q / m * dt * E
        a = np.sqrt((b**2).sum(0))
        v = rotate(v, np.where(a > 0, b / np.where(a > 0, a, 1), 0), -2 * np.arctan(.5 * q / m * dt * a))
        v = v + .5 * q / m * dt * E
        r = r + v * dt
    return r, v


class Monitor:
    def __init__(self, case, cfg, sim, tracker, axis, custom):
        self.case, self.cfg, self.sim, self.tracker, self.axis, self.custom = case, cfg, sim, tracker, axis, custom
        m = merge(MACH, cfg.mach)
        rng = np.random.default_rng(0)
        F = Field(rng, 'none')
        F.B0 = np.array([float(m.get(k) or 0.) if m.get(k) is not DROP else 0. for k in ('B0x', 'B0y', 'B0z')])
        if tracker == 'StrongBdip':
            F.B0 = np.array([0, m['B'], 0])
        if tracker == 'StrongBgen':
            F.B0[2] = 0.
        if tracker == 'Boris_quad':
            F.kind, F.grad = 'quad', m['fact_Bmap']
        if tracker == 'BorisMultipole':
            F.kind, F.kn, F.ks = 'multipole', m['B_multip'], m.get('B_skew') if m.get('B_skew') is not DROP else None
        self.F = F
        self.nsub = m.get('N_sub_steps', 1)
        self.nsub = 1 if self.nsub in (DROP, None) else self.nsub
        self.reinterp = bool(cfg.sim.get('flag_reinterp_fields_at_substeps', False))
        self.strong = tracker.startswith('Strong')
        self.log = []
        self.seen = {}
        self.expect = {}
        self.kw = {}
        self.arrived = set()
        self.tlast = 0.
        for i, cl in enumerate(sim.cloud_list):
            self.hook(i, cl)
        if sim.cross_ion is not None:
            self.wrap(sim.cross_ion, 'generate', 'cross', None, 'Dt')
        sc = sim.spacech_ele

        def count(k):
            return lambda *a, **kk: self.log.append((k, None, None, None))
        o = sc.PyPICobj.scatter

        def scatter(*a, **k):
            self.note('deposit', None)
            return o(*a, **k)
        try:
            sc.PyPICobj.scatter = scatter
        except AttributeError:
            pass

    def note(self, stage, i, t=None, Dt=None, key=None):
        self.log.append((stage, i, t, Dt))
        self.seen[stage] = self.seen.get(stage, 0) + 1

    def wrap(self, obj, name, stage, i, arg=None):
        o = getattr(obj, name, None)
        if o is None:
            return
        import inspect
        try:
            sig = inspect.signature(o)
        except (TypeError, ValueError):
            sig = None

        def f(*a, **k):
            v = None
            if sig is not None and arg is not None:
                try:
                    v = sig.bind(*a, **k).arguments.get(arg)
                except TypeError:
                    v = None
            self.note(stage, i, Dt=None if v is None else float(v))
            return o(*a, **k)
        setattr(obj, name, f)

    def hook(self, i, cl):
        im = cl.impact_man
        stage = im.backtrack_and_second_emiss

        def impacts(old_pos, MP_e, *a, **k):
            t = a[0] if a else k.get('tt_curr')
            self.note('impacts', i, t=None if t is None else float(t))
            self.moved(i, old_pos, MP_e)
            return stage(old_pos, MP_e, *a, **k)
        im.backtrack_and_second_emiss = impacts
        self.wrap(im.sey_mod, 'SEY_model_evol', 'evol', i, 'Dt')
        if cl.resgasion is not None:
            self.wrap(cl.resgasion, 'generate', 'gas', i, 'Dt')
        if cl.phemiss is not None:
            self.wrap(cl.phemiss, 'generate', 'photo', i, 'Dt')
        if cl.pyeclsaver is not None:
            w = cl.pyeclsaver.witness

            def witness(*a, **k):
                self.note('record', i)
                self.recorded(i)
                return w(*a, **k)
            cl.pyeclsaver.witness = witness
        self.wrap(cl.MP_e, 'clean_small_MPs', 'clean', i)
        self.wrap(cl.MP_e, 'check_for_regeneration', 'regen', i)

    # one step

    def before(self, sim):
        bt = sim.beamtim
        self.t = float(bt.tt_curr)
        k = int(np.argmin(np.abs(self.axis - self.t)))
        self.Dt = float(self.axis[k + 1] - self.axis[k])
        self.log.clear()
        self.arrived.clear()
        self.expect = {}
        self.deposit0 = np.array(sim.spacech_ele.rho)
        for i, cl in enumerate(sim.cloud_list):
            MP = cl.MP_e
            n = int(MP.N_mp)
            r = np.array([MP.x_mp[:n], MP.y_mp[:n], MP.z_mp[:n]])
            v = np.array([MP.vx_mp[:n], MP.vy_mp[:n], MP.vz_mp[:n]])
            self.expect[i] = (r, v, self.integrate(sim, cl, r, v) if n else [(r, v)])
        self.recs = {}

    def integrate(self, sim, cl, r0, v0):
        """Possible (R, V) after this step."""
        q, m, T = cl.MP_e.charge, cl.MP_e.mass, self.Dt
        if self.strong:
            k = min(10, r0.shape[1])
            E, _ = fields(sim, cl, r0, v0)
            return [uniform_exact(r0[:, :k], v0[:, :k], E[:, :k], self.F.B0, q, m, T)]
        kick, re = False, self.reinterp
        if 'N_sub_steps_custom' in self.kw:
            ns, dt = [self.kw['N_sub_steps_custom']], [self.kw['Dt_substep_custom']]
            kick, re = self.kw.get('kick_mode_for_beam_field', False), re or self.kw.get('force_reinterp_fields_at_substeps', False)
        elif not self.unif:
            x = T / (self.Dt_conf / self.nsub)
            ns = sorted({max(1, int(np.round(x - 1e-6))), max(1, int(np.round(x + 1e-6)))})
            dt = [T / k for k in ns]
        else:
            ns, dt = [self.nsub], [T / self.nsub]
        out = []
        for n, d in zip(ns, dt):
            r, v = r0, v0
            if kick:
                E, _ = fields(sim, cl, r, v, cloud=False)
                v = v + q / m * E * d * n
            for _ in range(n if re else 1):
                E, B = fields(sim, cl, r, v, beams=not kick)
                r, v = boris(r, v, E, B, self.F, q, m, d, 1 if re else n)
            out.append((r, v))
        return out

    def moved(self, i, old_pos, MP):
        case, lab = self.case, self.cfg.lab
        if i in self.arrived:
            return
        self.arrived.add(i)
        r, v, cand = self.expect[i]
        n = int(MP.N_mp)
        if not case.check(n == r.shape[1], 'motion-number', lambda: '%s: %d particles before, %d after the motion of cloud %d at t=%g' % (lab, r.shape[1], n, i, self.t)):
            return
        if not n:
            return
        try:
            o = np.array([np.asarray(getattr(old_pos, k))[:n] for k in ('x_mp', 'y_mp', 'z_mp')])
        except AttributeError:
            o = None
        if o is not None:
            case.check(np.array_equal(o, r), 'old-positions', lambda: '%s: cloud %d: positions handed to the impact stage as those before the step at t=%g are not' % (lab, i, self.t))
        g = np.array([MP.x_mp[:n], MP.y_mp[:n], MP.z_mp[:n]]), np.array([MP.vx_mp[:n], MP.vy_mp[:n], MP.vz_mp[:n]])
        best = None
        for R, V in cand:
            k = R.shape[1]
            sr = np.abs(R - r[:, :k]).max() + 1e-15
            sv = np.abs(V).max() + 1e-9
            e = max(np.abs(g[0][:, :k] - R).max() / sr, np.abs(g[1][:, :k] - V).max() / sv)
            best = e if best is None else min(best, e)
        tol = 1e-6 * (1 + QE / ME * np.abs(self.F.B0).max() * self.Dt) if self.strong else 1e-6
        if not case.check(bool(best <= tol), 'motion', lambda: '%s: cloud %d moved in the step t=%g (Dt=%g, %s) differs from the integration by %.3g of the motion; mean |dr| %g, expected %g' % (
                lab, i, self.t, self.Dt, self.mode, best, np.abs(g[0][:, :k] - r[:, :k]).mean(), np.abs(cand[0][0] - r[:, :k]).mean())):
            raise StopIteration
        case.ok('%s|%s|%d' % (self.tracker, self.mode, len(self.sim.cloud_list)))
        case.count('particles-moved', n)

    def recorded(self, i):
        self.recs[i] = configs.snap(self.sim.cloud_list[i].MP_e)
        if i == 0 and not any(s[0] == 'record' for s in self.log[:-1]):
            self.judge_density()

    def judge_density(self):
        # the field used from now on is that of the particles as they are after all generation
        sim, sc, case = self.sim, self.sim.spacech_ele, self.case
        on = self.t > (self.cfg.sim.get('t_sc_ON') or 0.)
        due = self.Dt_sc is None or (self.t - self.tlast) >= self.Dt_sc
        if due:
            self.tlast = self.t
        rho = np.array(sc.rho)
        if (on and due) or self.kw.get('force_recompute_space_charge'):
            truth = 0
            for cl in sim.cloud_list:
                n = cl.MP_e.N_mp
                truth = truth + cl.MP_e.charge * deposit(cl.MP_e.x_mp[:n], cl.MP_e.y_mp[:n], cl.MP_e.nel_mp[:n], sc.xg, sc.yg)
            e = np.abs(rho - truth).max()
            case.check(e <= 1e-9 * np.abs(truth).max() + 1e-30, 'density-late', lambda: '%s: density after the step t=%g differs from that of the particles by %g of %g' % (self.cfg.lab, self.t, e, np.abs(truth).max()))
            case.count('density-updates')
        else:
            case.check(np.array_equal(rho, self.deposit0), 'density-untimely', '%s: density changed in the step t=%g in which no update was due' % (self.cfg.lab, self.t))

    def after(self, sim):
        case, lab = self.case, self.cfg.lab
        N = len(sim.cloud_list)
        pos = {}
        for k, (st, i, t, Dt) in enumerate(self.log):
            pos.setdefault((st, i), []).append(k)
        nb = 1 + len(sim.sec_beams_list)
        want = dict(impacts=1, evol=1, record=1)
        for i in range(N):
            for st, n in want.items():
                if st == 'record' and sim.cloud_list[i].pyeclsaver is None:
                    continue
                c = len(pos.get((st, i), ()))
                case.check(c == n or (st != 'impacts' and st not in self.ever()), 'stage-count-' + st, lambda: '%s: %s of cloud %d applied %d times in the step t=%g' % (lab, st, i, c, self.t))
            cl = sim.cloud_list[i]
            c = len(pos.get(('gas', i), ()))
            on = cl.gas_ion_flag == 1 and self.t < cl.t_ion
            case.check(c == (nb if on else 0) or 'gas' not in self.ever(), 'stage-count-gas', lambda: '%s: gas ionisation of cloud %d called %d times at t=%g for %d beams (on: %s)' % (lab, i, c, self.t, nb, on))
            c = len(pos.get(('photo', i), ()))
            case.check(c == int(cl.photoem_flag != 0) or 'photo' not in self.ever(), 'stage-count-photo', lambda: '%s: photoemission of cloud %d called %d times at t=%g' % (lab, i, c, self.t))
            new = bool(sim.beamtim.flag_new_bunch_pass)
            for st, skip in (('clean', self.kw.get('skip_MP_cleaning')), ('regen', self.kw.get('skip_MP_regen'))):
                c = len(pos.get((st, i), ()))
                case.check(c == int(new and not skip) or st not in self.ever(), 'stage-count-' + st, lambda: '%s: %s of cloud %d called %d times at t=%g (passage start: %s)' % (lab, st, i, c, self.t, new))
            if i in self.recs and (not new or (self.kw.get('skip_MP_cleaning') and self.kw.get('skip_MP_regen'))) and 'N_mp_async_regen' not in self.cfg.sim:
                case.check(configs.same(self.recs[i], configs.snap(cl.MP_e)), 'changed-after-recording', '%s: cloud %d changed between recording and the end of the step t=%g' % (lab, i, self.t))
        if sim.cross_ion is not None:
            c = len(pos.get(('cross', None), ()))
            case.check(c == 1, 'stage-count-cross', lambda: '%s: cross-ionisation called %d times at t=%g' % (lab, c, self.t))
        for k, (st, i, t, Dt) in enumerate(self.log):
            if t is not None:
                case.check(t == self.t, 'stage-time', lambda: '%s: %s of cloud %s with time %r in the step t=%r' % (lab, st, i, t, self.t))
            if Dt is not None and 'custom' not in self.mode:
                case.check(abs(Dt - self.Dt) <= 1e-9 * self.Dt, 'stage-length', lambda: '%s: %s of cloud %s with step length %r in a step of %r' % (lab, st, i, Dt, self.Dt))
            for b in BEFORE.get(st, ()):
                late = [kk for (s2, i2), kks in pos.items() if s2 == b and (i2 == i or i is None or i2 is None or st in ('cross', 'deposit', 'record')) for kk in kks if kk > k]
                case.check(not late, 'stage-order', lambda: '%s: %s of cloud %s before %s in the step t=%g: %r' % (lab, st, i, b, self.t, [(a, c) for a, c, _, _ in self.log]))
        case.count('steps')
        case.count('stages', len(self.log))
        if case.fails:
            raise StopIteration

    def ever(self):
        return self.seen


def axis_of(sim):
    return np.asarray(sim.beamtim.t, float)


def one(case, mode='uniform', clouds=None, em=False, cross=False, tracker=None):
    rng = case.rng
    clouds = int(rng.choice([0, 0, 1, 2])) if clouds is None else clouds
    if tracker is None:
        tracker = str(rng.choice(['Boris', 'BorisMultipole', 'Boris_quad', 'Boris_none'] + (['StrongBdip', 'StrongBgen'] if mode == 'uniform' and not clouds else []))) if not em else 'BorisMultipole'
    cfg = configs.random(rng, clouds=clouds, tracker=tracker, regen='none')
    cfg.sim.update(p18.LOW_REGEN[int(rng.integers(0, 4))])
    cfg.sim['Dt_sc'] = float(rng.choice([2e-10, 1e-10, 5e-10])) if em or rng.random() < .8 else None
    if rng.random() < .3:
        cfg.sim['t_sc_ON'] = float(rng.uniform(0, 2e-9))
    if em:
        cfg.sim['flag_em_tracking'] = True
        cfg.label.append('em')
    if cross:
        p18.cross_ion(rng, cfg)
    Dt = float(cfg.sim['Dt'])
    if mode != 'uniform' or not tracker.startswith('Strong'):
        if rng.random() < .4 and not tracker.startswith('Strong'):
            cfg.sim['flag_reinterp_fields_at_substeps'] = True
            cfg.label.append('reinterp')
    if mode == 'irregular':
        n = int(rng.integers(40, 120))
        if rng.random() < .35:
            # almost uniform: a few percent, or a single odd step
            d = Dt * rng.uniform(.97, 1.03, n)
            if rng.random() < .4:
                d[:] = Dt
                d[int(rng.integers(n))] *= rng.choice([.9, 1.1])
        else:
            d = Dt * rng.choice([.1, .3, .5, 1., 1.7, 3.], n) * (1 if rng.random() < .4 else rng.uniform(.9, 1.1, n))
        t = np.concatenate([[0.], np.cumsum(d)])
        lam = np.maximum(0, np.sin(t / 7e-10) + rng.normal(0, .3, len(t)))
        sio.savemat(case.path('prof.mat'), dict(t=t, lam_t_array=lam), oned_as='row')
        cfg.beam.update(flag_bunched_beam=0, sigmaz=-1., t_offs=0., filling_pattern_file=-1, beam_long_prof_file=case.path('prof.mat'), fact_beam=float(10**rng.uniform(11.5, 12.5)), b_spac=2.5e-9)
    if rng.random() < .35:
        secs = [dict(fact_beam=float(10**rng.uniform(10, 11)), t_offs=float(rng.uniform(.5e-9, 2e-9))) for _ in range(int(rng.integers(1, 3)))]
        if mode == 'irregular':
            for s in secs:
                s.pop('t_offs')
                s['x_beam_pos'] = float(rng.uniform(-2e-3, 2e-3))
        cfg.sec_beams = secs
        cfg.label.append('secbeam')
    cfg.label.append(mode)
    sim = cfg.build(case)
    axis = t if mode == 'irregular' else axis_of(sim)
    if mode != 'irregular':
        case.check(np.allclose(np.diff(axis), Dt, rtol=1e-6, atol=0), 'time-axis', '%s: the time axis has not the configured step' % cfg.lab)
    mon = Monitor(case, cfg, sim, tracker, axis, mode == 'custom')
    mon.unif = mode != 'irregular'
    mon.Dt_conf = Dt
    mon.Dt_sc = cfg.sim['Dt_sc']
    mon.mode = mode + ('-reinterp' if mon.reinterp else '')
    step = sim.sim_time_step

    def timed(*a, **k):
        if mode == 'custom' and rng.random() < .8:
            n = int(rng.integers(1, 8))
            k = dict(N_sub_steps_custom=n, Dt_substep_custom=float(Dt * rng.uniform(.2, 2) / n))
            k.update({x: True for x in ('kick_mode_for_beam_field', 'force_reinterp_fields_at_substeps', 'force_recompute_space_charge', 'skip_MP_cleaning', 'skip_MP_regen') if rng.random() < .4})
            mon.mode = 'custom' + ('-kick' if 'kick_mode_for_beam_field' in k else '') + ('-reinterp' if mon.reinterp or 'force_reinterp_fields_at_substeps' in k else '')
        mon.kw = k
        mon.before(sim)
        r = step(*a, **k)
        mon.after(sim)
        return r
    sim.sim_time_step = timed
    try:
        sim.run()
    except StopIteration:
        return
    for st in ('impacts', 'record', 'evol', 'deposit'):
        case.count('seen-' + st, mon.seen.get(st, 0))
    case.sample(config=cfg.lab, mode=mon.mode, stages=dict(mon.seen))


def tasks(tier):
    q = tier == 'quick'
    k = 1 if q else 12
    return [Task(one, 14 * k, name='uniform', min_ok=500), Task(one, 6 * k, name='irregular', mode='irregular', min_ok=200), Task(one, 8 * k, name='custom', mode='custom', min_ok=300),
            Task(one, 2 * k, name='em', em=True, min_ok=50), Task(one, 1 * k, name='em2', em=True, clouds=1, min_ok=20), Task(one, 2 * k, name='cross', clouds=1, cross=True, min_ok=50),
            Task(one, 1 * k, name='irregular-em', em=True, mode='irregular', clouds=1, min_ok=20), Task(one, 2 * k, name='strong', tracker='StrongBdip', clouds=0, min_ok=40)]
