"""P14: line density and timing of the beam."""
import numpy as np
import scipy.io as sio
from vlib import configs, simgen, chambers
from vlib.harness import Task
from vlib.simgen import QE, ME, CLIGHT, DROP

PROP, LEVEL = 'P14', 'exploration'
TECHNIQUE = 'runtime monitor of the beam clock and line density at every step against an independent evaluation of the configured train (or supplied profile), with charge conservation per bunch'
NOTE = 'Every step of every observed beam is judged; limited to the trains, profiles and time steps drawn.'
RULE = 'one evaluation = one beam step (time, step length, density, passage flag) or one bunch charge judged; distinct = (beam kind, judgement)'
MP_KG = 1.67262192369e-27


class Train:
    """Configured beam: bunched (pattern, lengths) or supplied profile."""

    def __init__(self, rng, case, kind, Dt, t_end, b_spac, t=None):
        self.kind, self.b_spac = kind, b_spac
        self.fact = float(10**rng.uniform(9, 11.5))
        self.coast = float(rng.choice([0., 0., 10**rng.uniform(6, 10)]))
        self.beam = dict(fact_beam=self.fact, coast_dens=self.coast, b_spac=b_spac)
        self.sigmaz = None
        if kind in ('list', 'mat', 'matsigma', 'scalar'):
            n = int(rng.integers(1, 9)) if kind != 'scalar' else 1
            self.ppb = rng.choice([0., 1., float(rng.uniform(.2, 2))], n)
            if kind == 'scalar':
                self.ppb = np.array([1.])
            if self.ppb.max() == 0:
                self.ppb[0] = 1.
            if n > 1 and rng.random() < .4:  # pilot bunches
                self.ppb[rng.integers(n)] = float(10**rng.uniform(-7, -1))
            self.t_offs = float(rng.uniform(.1, 1.2) * b_spac)
            self.sz = float(rng.uniform(.02, .15) * b_spac * CLIGHT)
            self.sigmaz = np.where(self.ppb > 0, self.sz, 0.)
            if kind == 'matsigma':
                self.sigmaz = np.where(self.ppb > 0, rng.uniform(.02, .15, n) * b_spac * CLIGHT, 0.)
            if kind in ('list',):
                pat = [float(v) for v in self.ppb]
            elif kind == 'scalar':
                pat = 1.
            else:
                pat = case.path('fill%d.mat' % rng.integers(1 << 30))
                d = dict(ppb_vect=self.ppb)
                if kind == 'matsigma':
                    d['sigmaz_vect'] = self.sigmaz
                sio.savemat(pat, d, oned_as='row')
            self.beam.update(flag_bunched_beam=1, sigmaz=-1. if kind == 'matsigma' else self.sz, t_offs=self.t_offs, filling_pattern_file=pat, beam_long_prof_file=-1)
            self.T = n * b_spac + t_end
        else:
            n = int(rng.integers(1, 5))
            if t is None:
                if kind == 'uniform':
                    t = np.arange(0, n * b_spac + 2 * Dt, float(Dt * rng.choice([1., rng.uniform(.5, 2)])))
                else:
                    d = Dt * rng.choice([.3, .5, 1., 2.], int(n * b_spac / Dt * 1.3)) * (1 if rng.random() < .5 else rng.uniform(.9, 1.1, int(n * b_spac / Dt * 1.3)))
                    w = rng.random()
                    if w < .25:  # nearly uniform
                        d = np.full(len(d), Dt) * (1 + rng.choice([3e-2, .3]) * rng.uniform(-1, 1, len(d)))
                    elif w < .4:  # uniform but for one step
                        d = np.full(len(d), Dt)
                        d[rng.integers(len(d))] *= rng.choice([.5, 1.2, 2.])
                    elif w < .5:  # a gap longer than a passage
                        d[rng.integers(len(d))] = rng.uniform(1.1, 2.5) * b_spac
                    t = np.concatenate([[0.], np.cumsum(d)])
            self.t = t
            self.lam = np.maximum(0, np.sin(t / b_spac * 2.7) + rng.normal(0, .3, len(t)))
            fn = case.path('prof%d' % rng.integers(1 << 30))
            sio.savemat(fn + '.mat', dict(t=self.t, lam_t_array=self.lam), oned_as='row')
            self.beam.update(flag_bunched_beam=0, sigmaz=-1., t_offs=0., filling_pattern_file=-1, beam_long_prof_file=fn + '.mat')
            self.T = t[-1]

    def density(self, t):
        if self.sigmaz is not None:
            v = np.zeros(len(t))
            z = CLIGHT * t
            for i, (p, s) in enumerate(zip(self.ppb, self.sigmaz)):
                if s > 0:
                    v += p / (s * np.sqrt(2 * np.pi)) * np.exp(-.5 * ((z - CLIGHT * (self.t_offs + i * self.b_spac)) / s)**2)
            return v * self.fact + self.coast
        return np.interp(t, self.t, self.lam) * self.fact + self.coast


def judge_steps(case, lab, rec, tr, b_spac, Dt, t_end, N_pass_tot, primary=True):
    tt, dt, lam, pn, fl = [np.array(v) for v in rec]
    ok = case.check(len(tt) > 0 and tt[0] == 0., 'start', '%s: first step at %r' % (lab, tt[:1]))
    case.check(np.all(np.diff(tt) > 0) and np.allclose(tt[:-1] + dt[:-1], tt[1:], rtol=0, atol=1e-9 * Dt), 'time', '%s: time does not advance by the reported step' % lab)
    if tr.kind in ('list', 'mat', 'matsigma', 'scalar') and primary:
        case.check(np.allclose(dt, Dt, rtol=1e-6) and np.allclose(tt, Dt * np.arange(len(tt)), rtol=0, atol=1e-6 * Dt), 'step', '%s: step %r, configured %r' % (lab, dt[0], Dt))
        end = tt[-1] + dt[-1]
        case.check(tr.T <= end * (1 + 1e-9) and end < tr.T + 2.5 * Dt, 'end', '%s: ends at %r, train plus tail %r' % (lab, end, tr.T))
    elif primary:
        case.check(len(tt) == len(tr.t) - 1 and np.array_equal(tt, tr.t[:-1]) and np.allclose(dt, np.diff(tr.t), rtol=1e-9), 'profile-time', '%s: time axis of the profile not followed' % lab)
    ref = tr.density(tt)
    s = max(ref.max(), 1.)
    bad = np.abs(lam - ref) > 1e-7 * s
    if case.check(not bad.any(), 'density', lambda: '%s t=%r: line density %r, configured %r' % (lab, tt[bad][0], lam[bad][0], ref[bad][0])):
        case.ok(lab + ' density', len(tt))
    # passages
    exp = np.floor(tt / b_spac + 1e-9)
    case.check(np.all((pn == exp) | (pn == np.floor(tt / b_spac - 1e-9))), 'pass-number', lambda: '%s: passage numbers %r' % (lab, pn[:10]))
    f = np.flatnonzero(fl)
    want = np.flatnonzero(np.diff(np.concatenate([[-1], pn])) > 0)
    if case.check(np.array_equal(f, want), 'pass-flag', lambda: '%s: passages flagged at steps %r, expected %r' % (lab, f[:8], want[:8])):
        case.ok(lab + ' passages', len(f))
    if primary:
        case.check(N_pass_tot >= pn[-1] + 1 - 1e-9 and N_pass_tot <= pn[-1] + 2, 'pass-total', '%s: %d passages announced, %d seen' % (lab, N_pass_tot, pn[-1] + 1))
    # charge per bunch
    if tr.sigmaz is not None and primary:
        for i, (p, sz) in enumerate(zip(tr.ppb, tr.sigmaz)):
            c = tr.t_offs + i * b_spac
            w = 6 * sz / CLIGHT
            if sz / CLIGHT < 2.5 * Dt or c - w < 0 or c + w > tt[-1] or np.any(tr.sigmaz / CLIGHT > .09 * b_spac):
                continue
            m = np.abs(tt - c) < .5 * b_spac
            q = np.sum((lam[m] - tr.coast) * dt[m]) * CLIGHT
            case.check(abs(q - p * tr.fact) < 2e-3 * tr.fact, 'bunch-charge', '%s: bunch %d carries %r, configured %r' % (lab, i, q, p * tr.fact))
            case.ok(lab + ' bunch')


KINDS = ('list', 'mat', 'matsigma', 'scalar', 'uniform', 'nonuniform')


def unit(case, kind):
    from PyECLOUD.beam_and_timing import beam_and_timing
    rng = case.rng
    ch, ref, lab = chambers.make(rng, 'ellip')
    for rep in range(3):
        Dt = float(10**rng.uniform(-11, -10))
        b_spac = float(rng.choice([2.5e-8, 5e-9, 2.5e-9, Dt * rng.integers(10, 100), Dt * rng.uniform(5, 100)]))
        Dt = min(Dt, b_spac / 5)
        t_end = float(rng.choice([0., rng.uniform(0, 2) * b_spac]))
        tr = Train(rng, case, kind, Dt, t_end, b_spac)
        common = dict(chamb=ch, sigmax=1e-3, sigmay=2e-3, Dh_beam_field=min(ch.x_aper, ch.y_aper) / 5)

        def build(tr, **k):
            b = tr.beam
            return beam_and_timing(b['flag_bunched_beam'], b['fact_beam'], b['coast_dens'], QE, 'computeFD', 0., b_spac=b_spac, sigmaz=b['sigmaz'], t_offs=b['t_offs'],
                                   filling_pattern_file=b['filling_pattern_file'], Dt=Dt, t_end=t_end, beam_long_prof_file=b['beam_long_prof_file'], **common, **k)
        bt = build(tr)
        sec, sbt = None, None
        if rng.random() < .6:
            k2 = str(rng.choice(KINDS[:4] + ('uniform',)))
            sec = Train(rng, case, k2, Dt, t_end, b_spac, t=np.array(bt.t))
            sbt = build(sec, flag_secodary_beam=True, t_primary_beam=bt.t)
        rec, rec2 = [[] for _ in range(5)], [[] for _ in range(5)]
        while not bt.end_simulation():
            bt.next_time_step()
            for l, v in zip(rec, (bt.tt_curr, bt.Dt_curr, bt.lam_t_curr, bt.pass_numb, bt.flag_new_bunch_pass)):
                l.append(v)
            if sbt is not None:
                sbt.next_time_step()
                for l, v in zip(rec2, (sbt.tt_curr, sbt.Dt_curr, sbt.lam_t_curr, sbt.pass_numb, sbt.flag_new_bunch_pass)):
                    l.append(v)
        judge_steps(case, kind, rec, tr, b_spac, Dt, t_end, bt.N_pass_tot)
        d = np.diff(rec[0])
        if kind != 'nonuniform':
            case.check(bt.flag_unif_Dt is True or bt.flag_unif_Dt == 1, 'uniform-flag', kind)
            case.check(abs(bt.Dt - rec[1][0]) < 1e-6 * bt.Dt, 'dt-reported', '%s: Dt %r, step %r' % (kind, bt.Dt, rec[1][0]))
        elif d.max() > 1.01 * d.mean():
            case.check(not bt.flag_unif_Dt, 'uniform-flag', kind)
        if sbt is not None:
            case.check(np.array_equal(rec[0], rec2[0]), 'secondary-time', '%s: secondary beam out of step' % sec.kind)
            judge_steps(case, 'secondary ' + sec.kind, rec2, sec, b_spac, Dt, t_end, sbt.N_pass_tot, primary=False)
            # a different time axis must be refused
            if kind in ('uniform',):
                t2 = np.array(bt.t)
                w = rng.integers(3)
                if w == 0:
                    t2 = t2 * 1.01
                elif w == 1:  # same ends
                    t2[1:-1] += .4 * (t2[1] - t2[0])
                else:
                    t2 = t2[:-1]
                bad = Train(rng, case, 'uniform', Dt, t_end, b_spac, t=t2)
                try:
                    build(bad, flag_secodary_beam=True, t_primary_beam=bt.t)
                    case.fail('secondary-axis', 'secondary beam with a different time axis accepted')
                except ValueError:
                    case.ok('secondary axis refused')
    case.sample(kind=kind, b_spac=b_spac, Dt=Dt, steps=len(rec[0]), passages=int(rec[3][-1]) + 1)


def simulate(case, kind):
    """The same through input files, with beam size from the optics, charge, and secondary beams."""
    rng = case.rng
    cfg = configs.random(rng, chamber='rect', tracker='Boris', sey='ECLOUD', sources=['unif'], regen='none')
    Dt = float(rng.choice([5e-11, 1e-10, rng.uniform(4e-11, 9e-11)]))
    t_end = float(rng.choice([0., 1.3e-9]))
    b_spac = float(rng.choice([2.5e-9, 3.1e-9]))
    cfg.sim.update(Dt=Dt, t_end=t_end)
    tr = Train(rng, case, kind, Dt, t_end, b_spac)
    pos = [float(v) for v in rng.uniform(-3e-3, 3e-3, 2)]
    eV = float(10**rng.uniform(9, 12.5))
    q = float(rng.choice([QE, -QE, 2 * QE]))
    m0 = float(rng.choice([MP_KG, ME, 20 * MP_KG])) if rng.random() < .5 else None
    nx, ny, dp = float(rng.uniform(1e-6, 5e-6)), float(rng.uniform(1e-6, 5e-6)), float(rng.choice([0., 3e-4]))
    bx, by, Dx, Dy = float(rng.uniform(20, 150)), float(rng.uniform(20, 150)), float(rng.choice([0., 1.])), float(rng.choice([0., .5]))
    explicit = rng.random() < .3
    b = dict(tr.beam)
    b.update(x_beam_pos=pos[0], y_beam_pos=pos[1], energy_eV=eV, nemittx=nx, nemitty=ny, Dp_p=dp, q_part=q)
    if m0 is not None:
        b['m0_part'] = m0
    if eV * QE < 1.2 * (m0 or MP_KG) * CLIGHT**2:  # total energy below the rest energy is no beam
        eV *= 50
        b['energy_eV'] = eV
    if explicit:
        b.update(sigmax=1.1e-3, sigmay=.7e-3)
    where = 'mach' if rng.random() < .5 else 'beam'
    if where == 'beam':
        b.update(betafx=bx, betafy=by, Dx=Dx, Dy=Dy)
        for k in ('betafx', 'betafy', 'Dx', 'Dy'):
            cfg.mach[k] = DROP
    else:
        cfg.mach.update(betafx=bx, betafy=by, Dx=Dx, Dy=Dy)
    cfg.beam = b
    secs = []
    if kind != 'nonuniform' and rng.random() < .6:
        n = None
        if kind in ('list', 'mat', 'matsigma', 'scalar'):
            t = np.arange(0., len(tr.ppb) * b_spac + t_end + 2 * Dt, Dt)
            k2 = str(rng.choice(['list', 'mat', 'matsigma', 'uniform']))
        else:
            t, k2 = np.array(tr.t), 'uniform'
        sec = Train(rng, case, k2, Dt, t_end, b_spac, t=t)
        sb = dict(sec.beam)
        sp = [float(v) for v in rng.uniform(-3e-3, 3e-3, 2)]
        sb.update(x_beam_pos=sp[0], y_beam_pos=sp[1], q_part=-q)
        if k2 == 'uniform' and rng.random() < .5:
            # profile in the input folder, given by its bare name
            import os
            import shutil
            name = os.path.basename(sb['beam_long_prof_file'])
            os.makedirs(case.path('sim'), exist_ok=True)
            src = sb['beam_long_prof_file']
            shutil.move(src, case.path('sim', name))
            sb['beam_long_prof_file'] = name[:-4] if rng.random() < .5 else name
            cfg.write(case.path('sim'))
        cfg.sec_beams.append(sb)
        secs.append((sec, sp, -q))
        if True:
            cfg.write(case.path('sim'))
    if kind in ('uniform', 'nonuniform') and rng.random() < .5:
        import os
        import shutil
        os.makedirs(case.path('sim'), exist_ok=True)
        name = os.path.basename(b['beam_long_prof_file'])
        shutil.move(b['beam_long_prof_file'], case.path('sim', name))
        cfg.beam['beam_long_prof_file'] = name[:-4] if rng.random() < .5 else name
        cfg.write(case.path('sim'))
    sim = cfg.build(case, skip_pyeclsaver=True)
    bt = sim.beamtim
    recs = [[[] for _ in range(5)] for _ in range(1 + len(secs))]
    beams = [bt] + list(sim.sec_beams_list or [])
    case.check(len(beams) == len(recs), 'sec-number', '%d beams' % len(beams))

    def after(sim):
        for rec, x in zip(recs, beams):
            for l, v in zip(rec, (x.tt_curr, x.Dt_curr, x.lam_t_curr, x.pass_numb, x.flag_new_bunch_pass)):
                l.append(v)
    configs.on_step(sim, after)
    lab = 'sim ' + kind
    if rng.random() < .5:  # in several parts, ending at or between steps
        ends = np.sort(rng.choice(bt.t[1:-1], 2))
        if rng.random() < .3:
            ends = ends + .3 * np.diff(bt.t).min()
        for e in ends:
            sim.run(t_end_sim=float(e))
            tt = recs[0][0]
            good = (tt[-1] >= e and (len(tt) < 2 or tt[-2] < e)) or bt.end_simulation()
            case.check(good, 'partial-end', lambda: '%s: asked to run until %r, steps at %r done' % (lab, e, tt[-2:]))
            case.ok(lab + ' partial')
    sim.run()
    judge_steps(case, lab, recs[0], tr, b_spac, Dt, t_end, bt.N_pass_tot)
    for (sec, sp, sq), rec, x in zip(secs, recs[1:], beams[1:]):
        judge_steps(case, 'sim secondary ' + sec.kind, rec, sec, b_spac, Dt, t_end, x.N_pass_tot, primary=False)
        case.check(np.array_equal(rec[0], recs[0][0]), 'secondary-time', lab)
        case.check(abs(x.x_beam_pos - sp[0]) + abs(x.y_beam_pos - sp[1]) < 1e-15 and x.beam_charge == sq, 'secondary-beam', lab)
    gam = eV * QE / ((m0 or MP_KG) * CLIGHT**2)
    if gam > 1:
        bg = np.sqrt(gam**2 - 1)
        sx, sy = np.sqrt(bx * nx / bg + (Dx * dp)**2), np.sqrt(by * ny / bg + (Dy * dp)**2)
        if explicit:
            sx, sy = 1.1e-3, .7e-3
        if case.check(abs(bt.sigmax - sx) < 1e-6 * sx and abs(bt.sigmay - sy) < 1e-6 * sy, 'beam-size', '%s: sizes %r %r, configured %r %r' % (lab, bt.sigmax, bt.sigmay, sx, sy)):
            case.ok('size ' + ('explicit' if explicit else where))
    case.check(bt.x_beam_pos == pos[0] and bt.y_beam_pos == pos[1] and bt.beam_charge == q, 'beam-position', lab)
    case.sample(kind=kind, steps=len(recs[0][0]), secondary=[s[0].kind for s in secs])


def tasks(tier):
    k = 1 if tier == 'quick' else 12
    t = [Task(unit, 8 * k, name='unit-' + s, kind=s, min_ok=200) for s in KINDS]
    t += [Task(simulate, 6 * k, name='sim-' + s, kind=s, min_ok=100) for s in KINDS]
    return t
