"""Random mini-simulations with every histogram and per-passage recording switched on in random combinations (energy, cosine, position,
segment, per-segment energy, lifetime, detailed profiles, kinetic energy of all particles, custom observables per passage and per file), one to three clouds, including clouds that
die out.  vlib/observe.py records every impact (position, energy, angle, charge, segment, time since the last impact) and everything
emitted from what enters and leaves the impact stage, and the cloud at every recording.  From these lists the checker recomputes each
histogram with its own linear charge sharing between neighbouring bins (entries beyond the last bin in the last bin), period by period,
and compares with the arrays of the output file; it also checks that the sum over all periods plus the rest still being accumulated
equals the total of all impacts, so nothing is counted twice or lost at a reset."""
import numpy as np
from vlib.harness import Task
from vlib import configs, observe, simgen
from vlib.simgen import QE
from checks.p16 import load, vec, files

PROP = 'P17'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'runtime monitor (every impact observed at the impact stage) compared offline with the histograms of the output files'
NOTE = 'all histograms recomputed from the observed impacts with an independent binning'
RULE = 'an evaluation is one histogram line or per-passage entry compared; distinct = quantity x configuration class'
ASSUMPTIONS = ['the convention of the program is kept: an entry is shared linearly between the two neighbouring bins (documented choice of compute_hist)']


def settings(rng, cfg, which=None):
    """Random recording settings of one cloud; returns the dict that goes to the input file."""
    s = dict(Dx_hist=float(rng.choice([1e-3, rng.uniform(3e-4, 4e-3)])), Dt_En_hist=float(rng.choice([2.5e-9, 1e-9, rng.uniform(1e-10, 4e-9), 1e-12])),
             Nbin_En_hist=int(rng.integers(3, 80)), En_hist_max=float(rng.choice([2000., rng.uniform(20, 600)])),
             cos_angle_width=float(rng.choice([.05, .1, .02, .15, .3, .25])), flag_hist_impact_seg=0)
    if rng.random() < .2:
        s['flag_cos_angle_hist'] = False
    if cfg.chamber is not None and rng.random() < .8:
        s['flag_hist_impact_seg'] = [1, True][int(rng.integers(0, 2))]
        s['flag_En_hist_seg'] = bool(rng.random() < .6)
    if rng.random() < .6:
        x = np.sort(rng.uniform(-1.5e-2, 1.5e-2, 2))
        y = np.sort(rng.uniform(-1.5e-2, 1.5e-2, 2))
        s.update(x_min_hist_det=float(x[0]), x_max_hist_det=float(x[1] + 1e-3), y_min_hist_det=float(y[0]), y_max_hist_det=float(y[1] + 1e-3), Dx_hist_det=float(rng.uniform(1e-4, 2e-3)))
    return s


def close(case, key, got, want, lab, what, scale=None):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not case.check(got.shape == want.shape, 'shape-' + key, lambda: '%s: %s has shape %r, expected %r' % (lab, what, got.shape, want.shape)):
        return False
    sc = (np.abs(want).max() if want.size else 0.) if scale is None else scale
    bad = ~(np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-9 * sc)
    return case.check(not bad.any(), 'value-' + key, lambda: '%s: %s differs in %d of %d entries, first at %r: %r, observed %r (totals %r, %r)' % (
        lab, what, bad.sum(), bad.size, tuple(np.argwhere(bad)[0]), got[bad][0], want[bad][0], got.sum(), want.sum()))


def mat(a, n):
    """Array of a file as (periods, bins)."""
    a = np.asarray(a, float)
    return a.reshape(n, -1) if n else a.reshape(0, 0)


def binned(recs, f, grid):
    h = np.zeros(len(grid))
    for s in recs:
        if s.imp is not None and len(s.imp.h):
            x, w = f(s.imp)
            h += observe.cic(x, w, grid)
    return h


def segments(recs, f, n):
    h = np.zeros(n)
    for s in recs:
        if s.imp is not None and len(s.imp.h):
            i, w = f(s.imp)
            np.add.at(h, np.asarray(i, int), w)
    return h


def f_tot(r):
    return r.X, r.nel


def f_energy_out(r):
    sel = np.concatenate((r.h, r.new))
    return r.a['x_mp'][sel], -r.a['nel_mp'][sel] * r.Eout[sel]


def seg_out(r):
    """Segments of everything present at the wall after the stage: replaced macroparticles, then new ones."""
    ok = r.owner >= 0
    i = np.concatenate((r.iseg, r.iseg[r.owner[ok]]))
    sel = np.concatenate((r.h, r.new[ok]))
    return i, r.a['nel_mp'][sel], r.Eout[sel]


def obs_vector(sim):
    M = sim.cloud_list[-1].MP_e
    return np.array([float(M.N_mp), float(M.nel_mp[:M.N_mp].sum()), float(np.sum(M.x_mp[:M.N_mp] * M.nel_mp[:M.N_mp])) * 1e3])


def obs_number(sim):
    return float(sim.beamtim.tt_curr) * 1e9 + 3. * sim.cloud_list[0].MP_e.N_mp


CUSTOM = dict(my_vector=obs_vector, my_number=obs_number)


def check_cloud(case, cfg, cl, steps, s, d, lab, life, scrub, impacts=None, custom=None):
    """steps: all steps up to the one at which the file was written."""
    cls = cfg.label[0].split('-')[0]
    mass = cl.MP_e.mass
    passes = [i for i, st in enumerate(steps) if st.new_pass]
    npass = len(passes)
    # --- grids
    xg = vec(d['xg_hist'])
    dx = np.diff(xg)
    bx = cfg.ref.bbox()
    case.check(np.allclose(dx, s['Dx_hist'], rtol=1e-9) and xg[0] <= bx[0] and xg[-1] >= bx[1] and np.allclose(xg, -xg[::-1], atol=1e-12), 'x-grid', lambda: '%s: position bins %r..%r step %r' % (lab, xg[0], xg[-1], dx[:2]))
    eg = vec(d['En_g_hist'])
    case.check(len(eg) == s['Nbin_En_hist'] and np.allclose(eg, np.linspace(0, s['En_hist_max'], s['Nbin_En_hist'])), 'energy-grid', lambda: '%s: energy bins %r' % (lab, eg[:3]))
    t_hist = vec(d['t_hist'])
    if not case.check(np.array_equal(t_hist, [steps[i].t for i in passes]), 'passages', lambda: '%s: %d recorded passages, %d simulated; %r %r' % (lab, len(t_hist), npass, t_hist[:3], [steps[i].t for i in passes][:3])):
        return
    # --- per passage
    names = dict(nel_hist=[], N_mp_pass=[], N_mp_ref_pass=[], nel_impact_hist_tot=[], nel_impact_hist_scrub=[], energ_eV_impact_hist=[])
    seg = s['flag_hist_impact_seg'] and cfg.chamber is not None
    nseg = len(cfg.ref.X) if seg else 0
    if seg:
        names.update(nel_hist_impact_seg=[], nel_hist_emit_seg=[], energ_eV_impact_seg=[])
    det = 'x_min_hist_det' in s
    if det:
        names['nel_hist_det'] = []
        xd = vec(d['xg_hist_det'])
        D = s['Dx_hist_det']
        case.check(np.allclose(np.diff(xd), D) and xd[0] <= s['x_min_hist_det'] and xd[-1] >= s['x_max_hist_det'] - 1e-12, 'det-grid', lambda: '%s: detailed bins %r..%r' % (lab, xd[0], xd[-1]))
    start = 0
    scale = dict.fromkeys(names, 0.)
    for i in passes:
        rec = steps[start:i + 1]
        start = i + 1
        st = steps[i].state
        names['nel_hist'].append(observe.cic(st['x_mp'], st['nel_mp'], xg))
        names['N_mp_pass'].append([st['N']])
        if 'phem' not in lab:  # photoemission asks the chamber as well
            names.setdefault('N_mp_impact_pass', []).append([impacts[i]])
        for k in custom or ():
            names.setdefault('custom_' + k, []).append(np.atleast_1d(steps[i].obs[k]))
        names['N_mp_ref_pass'].append([st['nel_mp_ref']])
        names['nel_impact_hist_tot'].append(binned(rec, f_tot, xg))
        names['nel_impact_hist_scrub'].append(binned(rec, lambda r: (r.X, r.nel * (r.E > scrub)), xg))
        ein = binned(rec, lambda r: (r.X, r.nel * r.E), xg)
        scale['energ_eV_impact_hist'] = max(scale['energ_eV_impact_hist'], ein.max())
        names['energ_eV_impact_hist'].append(ein + binned(rec, f_energy_out, xg))
        if seg:
            names['nel_hist_impact_seg'].append(segments(rec, lambda r: (r.iseg, r.nel), nseg))
            names['nel_hist_emit_seg'].append(segments(rec, lambda r: seg_out(r)[:2], nseg))
            e = segments(rec, lambda r: (r.iseg, r.nel * r.E), nseg)
            scale['energ_eV_impact_seg'] = max(scale['energ_eV_impact_seg'], e.max())
            names['energ_eV_impact_seg'].append(e - segments(rec, lambda r: (seg_out(r)[0], seg_out(r)[1] * seg_out(r)[2]), nseg))
        if det:
            m = (st['x_mp'] > s['x_min_hist_det']) & (st['x_mp'] < s['x_max_hist_det']) & (st['y_mp'] > s['y_min_hist_det']) & (st['y_mp'] < s['y_max_hist_det'])
            names['nel_hist_det'].append(observe.cic(st['x_mp'][m], st['nel_mp'][m], xd))
        if st['N'] == 0:
            case.count('empty-passages')
            case.ok('empty-passage|' + cls)
    amb = any(x.imp is not None and len(x.imp.h) and (x.imp.ambiguous or (x.imp.owner < 0).any()) for x in steps)
    for k, v in names.items():
        if amb and k in ('nel_hist_emit_seg', 'energ_eV_impact_seg'):
            case.count('ambiguous-emitter')
            continue
        kf = k[7:] if k.startswith('custom_') else k
        if not case.check(kf in d, 'missing-' + k, '%s: %s missing' % (lab, kf)):
            continue
        want = np.array(v, float)
        g = np.asarray(d[kf], float)
        if not case.check(g.size == want.size, 'shape-' + k, lambda: '%s: %s has shape %r, expected %r' % (lab, k, g.shape, want.shape)):
            continue
        close(case, k, g.reshape(want.shape), want, lab, k, scale.get(k) or None)
        case.ok('%s|%s|%s' % (k, cls, 'nz' if want.any() else '0'), npass)
        case.count('nonzero-' + k, int(np.count_nonzero(np.abs(want).sum(axis=1))))
    # --- energy and angle periods
    te = vec(d['t_En_hist'])
    idx = observe.groups(steps, te)
    if not case.check(idx is not None and len(idx) and idx[0] == 0, 'energy-periods', lambda: '%s: periods of the energy histogram start at %r' % (lab, te[:3])):
        return
    want, last = [], -1e9
    for i, stp in enumerate(steps):
        if stp.t >= last + s['Dt_En_hist'] or abs(stp.t - last - s['Dt_En_hist']) <= 1e-10 * abs(last + s['Dt_En_hist']):
            want.append(i)
            last = stp.t
    case.check(idx == want, 'energy-periods', lambda: '%s: energy histogram recorded at steps %r..., expected %r... (period %r)' % (lab, idx[:5], want[:5], s['Dt_En_hist']))
    n = len(idx)
    cosh = s.get('flag_cos_angle_hist', True)
    E, C, K, S = [], [], [], []
    cg = vec(d['xg_hist_cos_angle'])
    if cosh:
        case.check(len(cg) == int(1 / s['cos_angle_width']) + 1 and np.allclose(np.diff(cg), s['cos_angle_width'], rtol=1e-6) and cg[0] == 0, 'angle-grid', lambda: '%s: angle bins %r for width %r' % (lab, cg, s['cos_angle_width']))
    segE = bool(seg and s.get('flag_En_hist_seg'))
    start = 0
    for i in idx:
        rec = steps[start:i + 1]
        start = i + 1
        E.append(binned(rec, lambda r: (r.E, r.nel), eg))
        if cosh:
            C.append(binned(rec, lambda r: (r.cos, r.nel), cg))
        K.append(observe.cic(observe.ekin(steps[i].state, mass), steps[i].state['nel_mp'], eg))
        if segE:
            S.append([binned(rec, lambda r, j=j: (r.E[r.iseg == j], r.nel[r.iseg == j]), eg) for j in range(nseg)])
    for k, v in (('En_hist', E), ('all_Ekin_hist', K)) + ((('cos_angle_hist', C),) if cosh else ()):
        w = np.array(v)
        g = np.asarray(d[k], float)
        if not case.check(g.size == w.size, 'shape-' + k, lambda: '%s: %s has shape %r, expected %r' % (lab, k, g.shape, w.shape)):
            continue
        close(case, k, g.reshape(w.shape), w, lab, k)
        case.ok('%s|%s|%s' % (k, cls, 'nz' if w.any() else '0'), n)
        case.count('nonzero-' + k, int(np.count_nonzero(w.sum(axis=1))))
    if segE:
        w = np.array(S).transpose(1, 0, 2)
        g = np.asarray(d['En_hist_seg'], float)
        if case.check(g.size == w.size, 'shape-En_hist_seg', lambda: '%s: En_hist_seg has shape %r, expected %r' % (lab, g.shape, w.shape)):
            close(case, 'En_hist_seg', g.reshape(w.shape), w, lab, 'En_hist_seg')
            case.ok('En_hist_seg|%s|%s' % (cls, 'nz' if w.any() else '0'), n)
            case.count('nonzero-En_hist_seg', int(np.count_nonzero(w.sum(axis=(0, 2)))))
    # everything impacted is either in a recorded period or still being accumulated
    tot = sum(observe.tot(x.imp)[0] for x in steps[:idx[-1] + 1])
    got = float(np.asarray(d['En_hist'], float).sum())
    case.check(abs(got - tot) <= 1e-9 * max(tot, 1.), 'energy-total', lambda: '%s: %r electrons in the energy histograms, %r impacted until the last period' % (lab, got, tot))
    tot = sum(observe.tot(x.imp)[0] for x in steps[:passes[-1] + 1]) if passes else 0.
    if passes:
        got = float(np.asarray(d['nel_impact_hist_tot'], float).sum())
        case.check(abs(got - tot) <= 1e-9 * max(tot, 1.), 'position-total', lambda: '%s: %r electrons in the position histograms, %r impacted' % (lab, got, tot))
    case.ok('totals|' + cls, 2)
    # --- lifetime
    if life:
        lg = vec(d['lifetime_g_hist'])
        case.check(len(lg) == life['Nbin_lifetime_hist'] and np.allclose(lg, np.linspace(0, life['lifetime_hist_max'], life['Nbin_lifetime_hist']), rtol=1e-9), 'lifetime-grid', lambda: '%s: %r' % (lab, lg[:3]))
        tl = vec(d['t_lifetime_hist'])
        il = observe.groups(steps, tl)
        want, last = [], -1e9
        for i, stp in enumerate(steps):
            if stp.t >= last + life['Dt_lifetime_hist'] or abs(stp.t - last - life['Dt_lifetime_hist']) <= 1e-10 * abs(last + life['Dt_lifetime_hist']):
                want.append(i)
                last = stp.t
        if case.check(il == want, 'lifetime-periods', lambda: '%s: lifetime histogram recorded at steps %r..., expected %r...' % (lab, il and il[:5], want[:5])):
            L, start = [], 0
            for i in il:
                rec = steps[start:i + 1]
                start = i + 1

                def f(r):
                    tl0 = r.b['t_last_impact'][r.h]
                    m = tl0 > 0
                    return (r.tt - tl0)[m], r.nel[m]
                L.append(binned(rec, f, lg))
            w = np.array(L)
            g = np.asarray(d['lifetime_hist'], float)
            if case.check(g.size == w.size, 'shape-lifetime_hist', lambda: '%s: lifetime_hist has shape %r, expected %r' % (lab, g.shape, w.shape)):
                close(case, 'lifetime_hist', g.reshape(w.shape), w, lab, 'lifetime_hist')
                case.ok('lifetime_hist|%s|%s' % (cls, 'nz' if w.any() else '0'), len(il))
                case.count('nonzero-lifetime_hist', int(np.count_nonzero(w.sum(axis=1))))
        # the time of last impact itself
        for stp in steps:
            r = stp.imp
            if r is None or not len(r.h):
                continue
            ok = np.all(r.a['t_last_impact'][r.h] == r.tt) and np.all(r.a['t_last_impact'][r.new] == r.tt)
            miss = np.flatnonzero(~r.hit)
            ok = ok and np.array_equal(r.a['t_last_impact'][miss], r.b['t_last_impact'][miss])
            if not case.check(ok, 'last-impact-time', lambda: '%s: times of last impact after the impacts at t=%r' % (lab, r.tt)):
                break
            case.ok('last-impact|' + cls)


def simulate(case, clouds=0, dies=False, chamber=None):
    rng = case.rng
    cfg = configs.random(rng, clouds=clouds, chamber=chamber or ('convex' if rng.random() < .4 else None), sey='perfect_absorber' if dies else None,
                         sources=['unif'] if dies else None, tracker='Boris_none' if dies else None, pattern=[0., 0., 0., 0., 0.] if dies else None)
    if dies:
        cfg.mach['E_init_unif'] = float(rng.choice([600., 2000., 5000.]))
        cfg.sim['Dt_sc'] = 2.5e-10
    life = None
    if rng.random() < .6:
        life = dict(flag_lifetime_hist=True, Nbin_lifetime_hist=int(rng.integers(3, 40)), lifetime_hist_max=float(10**rng.uniform(-9.5, -8)), Dt_lifetime_hist=float(rng.choice([2.5e-9, rng.uniform(1e-10, 3e-9)])))
        cfg.sim.update(life)
    sets, lives, scrubs = [settings(rng, cfg)], [life], [simgen.merge(simgen.SEY, cfg.sey)['scrub_en_th']]
    cfg.sey['scrub_en_th'] = scrubs[0] = float(rng.choice([20., rng.uniform(5, 100)]))
    cfg.sim.update({k: v for k, v in sets[0].items()})
    for c in cfg.clouds.values():
        s = settings(rng, cfg)
        l2 = None
        if life:
            l2 = dict(life)
            if rng.random() < .6:
                l2.update(Nbin_lifetime_hist=int(rng.integers(3, 40)), lifetime_hist_max=float(10**rng.uniform(-9.5, -8)), Dt_lifetime_hist=float(rng.uniform(1e-10, 3e-9)))
        if rng.random() < .3:
            for k in list(s):
                if rng.random() < .5 and not k.endswith('_det') and k in sets[0]:
                    s[k] = sets[0][k]
        own = dict(s)
        if l2:
            own.update(l2)
        # parameters equal to the main cloud's may be left out of the file
        own = {k: v for k, v in own.items() if not (cfg.sim.get(k) == v and rng.random() < .5)}
        if 'x_min_hist_det' not in s and 'x_min_hist_det' in sets[0]:
            own.update(dict.fromkeys(('x_min_hist_det', 'x_max_hist_det', 'y_min_hist_det', 'y_max_hist_det', 'Dx_hist_det')))
        if 'flag_cos_angle_hist' not in s:
            own['flag_cos_angle_hist'] = s['flag_cos_angle_hist'] = True
        s.setdefault('flag_En_hist_seg', False)
        own.setdefault('flag_En_hist_seg', s['flag_En_hist_seg'])
        c.update(own)
        c['scrub_en_th'] = float(rng.uniform(5, 100))
        if rng.random() < .6:
            c.update(switch_model='ECLOUD', E_th=35., sigmafit=1.08, mufit=1.66, Emax=300., del_max=1.5, R0=.7, switch_no_increase_energy=0, thresh_low_energy=-1, secondary_angle_distribution='cosine_3D')
        c['E_init_unif'] = float(10**rng.uniform(0, 6)) if rng.random() < .5 else .1
        sets.append(s)
        lives.append(l2)
        scrubs.append(c['scrub_en_th'])
    custom, once = {}, bool(rng.random() < .5)
    kw = {}
    if rng.random() < .6:
        custom = CUSTOM
        kw['pass_by_pass_custom_observables'] = dict(CUSTOM)
    if once:
        kw['save_once_custom_observables'] = dict(my_once=obs_vector)
    sim = cfg.build(case, 'sim', **kw)
    base = int(sim.cloud_list[0].impact_man.chamb.N_mp_impact)  # the field solver asks the chamber for wall points when it is set up
    ob = observe.Observer(sim, CUSTOM)
    sim.run()
    lab = cfg.lab
    # macroparticles that reached the wall until every step, over all clouds (the counter belongs to the chamber they share)
    hits = base + np.cumsum([sum(len(l[i].imp.h) if l[i].imp is not None else 0 for l in ob.log) for i in range(min(len(l) for l in ob.log))])
    for ic, cl in enumerate(sim.cloud_list):
        steps = ob.log[ic]
        w = [i for i, st in enumerate(steps) if st.written]
        if not w:
            continue
        d = load(files(sim)[ic])
        check_cloud(case, cfg, cl, steps[:w[-1] + 1], sets[ic], d, '%s cloud %d' % (lab, ic), lives[ic], scrubs[ic], hits, custom)
        if once:
            want = steps[w[-1]].obs['my_vector']
            case.check('my_once' in d and np.array_equal(vec(d['my_once']), want), 'save-once', lambda: '%s cloud %d: observable taken at the writing of the file is %r, observed %r' % (lab, ic, d.get('my_once'), want))
            case.ok('save-once')
    case.count('impacts', int(sum(len(s.imp.h) for l in ob.log for s in l if s.imp is not None)))
    case.sample(config=lab, settings={k: v for k, v in sets[0].items()}, impacts=int(sum(len(s.imp.h) for s in ob.log[0] if s.imp is not None)))


def one(case, **kw):
    simulate(case, **kw)


def tasks(tier):
    q = tier == 'quick'
    return [Task(one, 24 if q else 300, name='one', min_ok=300), Task(one, 12 if q else 120, name='clouds2', clouds=1, min_ok=200),
            Task(one, 4 if q else 50, name='clouds3', clouds=2, min_ok=60), Task(one, 8 if q else 60, name='polygon', chamber='nonconvex', min_ok=50),
            Task(one, 4 if q else 40, name='dies', dies=True, min_ok=20)]
