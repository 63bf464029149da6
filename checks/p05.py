"""P05: observed emission of every model against an independent evaluation of its documented yield (values and event frequencies)."""
import numpy as np
from vlib import configs, impacts
from vlib.harness import Task
from vlib.simgen import ME

PROP, LEVEL = 'P05', 'exploration'
TECHNIQUE = 'runtime monitor of the emission stage: per-impact yield oracle and statistical test of observed event frequencies'
NOTE = ('Yields of every observed impact are recomputed from the documented formulas; event shares are judged by exact binomial/Poisson tails (false-alarm '
        'probability below 1e-9 per test). Limited to the parameter sets and energies drawn.')
RULE = ('one evaluation = one impact whose emitted charge was recomputed, or one (energy, angle, segment) group whose event frequencies were tested; '
        'distinct = (model, option set, kind of test)')
PMIN = 1e-10


def binom_bad(k, n, p):
    from scipy.stats import binom
    if not (0 <= p <= 1):
        return True
    return binom.cdf(k, n, p) < PMIN or binom.sf(k - 1, n, p) < PMIN


def call(sm, rng, E, c, seg, nel, split):
    n = len(E)
    v = np.sqrt(2 * E * impacts.QE / ME)
    th = rng.uniform(0, 2 * np.pi, n)
    nx, ny = np.cos(th), np.sin(th)
    s = np.sqrt(np.maximum(0, 1 - c * c)) * v
    ph = rng.uniform(0, 2 * np.pi, n)
    vn = -c * v
    vx = vn * nx - s * np.cos(ph) * ny
    vy = vn * ny + s * np.cos(ph) * nx
    vz = s * np.sin(ph)
    z = np.zeros(n)
    return sm.impacts_on_surface(ME, nel.copy(), z.copy(), z.copy(), z.copy(), vx, vy, vz, nx, ny, seg, vx * nx + vy * ny, E.copy(), c.copy(), split, seg is not None)


def model(case, sey):
    rng = case.rng
    cfg = configs.random(rng, sey=sey, chamber=None if sey in ('nunif', 'charging') else 'rect', tracker='Boris', sources=['unif'], regen='none', pattern=[1.])
    s = cfg.sey
    if sey in ('ACC_LOW', 'nunif', 'charging', 'cos_low_ene') and rng.random() < .5:
        s['E0'] = float(rng.uniform(20, 250))
    if sey == 'ACC_LOW':
        s['R0'] = float(rng.uniform(.2, .95))
        if rng.random() < .3:
            s['switch_model'] = 1
    if sey == 'furman_pivi':
        f = s['furman_pivi_surface']
        f.update(p1EInf=float(rng.uniform(0, .1)), p1Ehat=float(rng.uniform(.2, .55)), p1RInf=float(rng.uniform(.05, .2)), eHat0=float(rng.uniform(200, 350)),
                 s=float(rng.uniform(1.3, 1.8)), t1=float(rng.uniform(.3, .8)), t2=float(rng.uniform(.5, 1)), t3=float(rng.uniform(.3, .9)), t4=float(rng.uniform(.7, 1.2)),
                 use_ECLOUD_theta0_dependence=bool(rng.random() < .4), eEHat=float(rng.choice([0., 3., 10.])), w=float(rng.uniform(30, 80)), p=float(rng.uniform(.8, 1.2)))
        f.update(e1=float(rng.uniform(.05, .3)), r1=float(rng.uniform(.05, .3)), e2=float(rng.uniform(1.5, 2.5)), r2=float(rng.uniform(1.5, 2.5)))
        for k in ('theta_e_max', 'theta_r_max'):
            if rng.random() < .3:
                del f[k]
            elif rng.random() < .7:
                f[k] = float(rng.uniform(.5, 1.5))
        s['flag_costheta_delta_scale'] = bool(rng.random() < .7)
        s['flag_costheta_Emax_shift'] = bool(rng.random() < .7)
    if sey == 'from_file':
        t = cfg.files['sey.mat']
        lo = float(rng.choice([0., 0., 4., 12.]))
        step = float(rng.choice([.5, 1., 2.]))
        e = lo + step * np.arange(int(rng.integers(300, 1500)))
        tr, el = np.interp(e, t['energy_eV'], t['sey_true']), np.interp(e, t['energy_eV'], t['sey_elast'])
        g = -float(rng.uniform(0, 3e-4))
        t.update(energy_eV=e, sey_true=tr, sey_elast=el, extrapolate_grad_true=g, extrapolate_const_true=float(tr[-1] - g * e[-1]),
                 extrapolate_grad_elast=-1e-5, extrapolate_const_elast=float(el[-1] + 1e-5 * e[-1]))
    sim = cfg.build(case, skip_pyeclsaver=True)
    sm = sim.cloud_list[0].impact_man.sey_mod
    ref = impacts.seyref(cfg)
    lab = '%s|%s' % (sey, ','.join('%s=%d' % (k[:16], bool(s[k])) for k in sorted(s) if k.startswith('flag')))
    nseg = len(cfg.ref.X) if sey in ('nunif', 'charging') else 4
    Q = getattr(sm, 'Q_segments', None)
    # 1. values
    n = 400
    for i in range(6):
        E = [10**rng.uniform(-4, 1, n), 10**rng.uniform(0, 3.5, n), 10**rng.uniform(3, 6, n), np.full(n, 1e-6), rng.uniform(0, 40, n) + 1e-9, rng.uniform(100, 600, n)][i]
        c = rng.uniform(0, 1, n)
        c[:3] = [0., 1., .5]
        seg = rng.integers(0, nseg, n)
        nel = 10**rng.uniform(-2, 9, n)
        if Q is not None:
            Q[:] = np.where(np.asarray(cfg.chamber['flag_charging']) > 0, np.asarray(cfg.chamber['Q_max_segments']) * rng.choice([0., .2, .9, 1., 2., -1.], nseg), 0.)
            Q0 = Q.copy()
        try:
            out = call(sm, rng, E, c, seg, nel, 1e30)
        except ValueError as e:
            if sey == 'furman_pivi' and 'greater than 1' in str(e):
                de, dr, dts = ref.furman_pivi(E, c)
                case.check((de + dr).max() >= 1 - 1e-9, 'fp-refused', '%s: refused although delta_e+delta_r is %r at most' % (lab, (de + dr).max()))
                case.count('fp_refused_sets')
                return
            raise
        em, et = np.asarray(out[0], float), np.asarray(out[1]).astype(int)
        y = em / nel
        if not case.check(np.all(np.isfinite(y)) and np.all(y >= 0), 'yield-invalid', lambda: '%s: yield %r' % (lab, y[~(y >= 0)][:3])):
            return
        if ref.event_based:
            d1 = ref.furman_pivi(E, c)
            d2 = sm.yield_fun_furman_pivi(E, c, check=False)
            for k, nm in enumerate(['elastic', 'rediffused', 'true']):
                if nm == 'rediffused' and ref.p['furman_pivi_surface']['exclude_rediffused']:
                    continue
                bad = np.abs(d1[k] - d2[k]) > 1e-9 * np.abs(d1[k]) + 1e-13
                case.check(not bad.any(), 'fp-' + nm, lambda: '%s: %s yield %r at E=%r cos=%r, documented %r' % (
                    lab, nm, d2[k][np.argmax(bad)], E[np.argmax(bad)], c[np.argmax(bad)], d1[k][np.argmax(bad)]))
            case.check(np.all(d2[0] >= 0) and np.all(d2[2] >= 0), 'yield-invalid', '%s: negative yield component' % lab)
            case.check(np.all(np.abs(y - np.round(y)) < 1e-9), 'fp-integer', '%s: emitted charge is not a multiple of the impacting charge' % lab)
        else:
            if sey == 'charging':
                pe, ye, yt = ref.emitted(E, c, seg, Q0)
            else:
                pe, ye, yt = ref.emitted(E, c, seg)
            want = np.where(et == 1, yt, ye)
            bad = np.abs(y - want) > 1e-9 * want + 1e-13
            j = int(np.argmax(bad))
            case.check(not bad.any(), 'yield', lambda: '%s: yield %r for E=%r cos=%r segment %d, documented %r' % (lab, y[j], E[j], c[j], seg[j], want[j]))
            case.check(sey == 'perfect_absorber' or not np.any((et == 0) & (pe <= 0)), 'elastic-share', '%s: elastic event where the elastic share is 0' % lab)
            case.check(np.all(np.isin(et, [0, 1])), 'event-type', '%s: event types %r' % (lab, np.unique(et)))
        case.ok(lab + '|values', n)
    # 2. frequencies
    N = 4000 if case.tier == 'quick' else 30000
    for g in range(10 if sey != 'perfect_absorber' else 0):
        E0 = float([10**rng.uniform(-1, 1), 10**rng.uniform(0, 3), rng.uniform(1, 40), rng.uniform(150, 500)][g % 4])
        c0 = float(rng.uniform(.05, 1))
        sg = int(rng.integers(0, nseg))
        E, c, seg, nel = np.full(N, E0), np.full(N, c0), np.full(N, sg), 10**rng.uniform(3, 5, N)
        if Q is not None:
            Q[:] = 0.
        out = call(sm, rng, E, c, seg, nel, 1e30)
        em, et = np.asarray(out[0], float), np.asarray(out[1]).astype(int)
        if ref.event_based:
            de, dr, dts = [float(v[0]) for v in ref.furman_pivi(E[:1], c[:1])]
            m = np.round(em / nel).astype(int)
            lam = dts / (1 - de - dr)
            from scipy.stats import poisson
            M = ref.p['furman_pivi_surface']['M_cut']
            pn = poisson.pmf(np.arange(M + 1), lam)
            pn /= pn.sum()
            pt = 1 - de - dr
            tests = [('elastic', (et == 0).sum(), de), ('rediffused', (et == 2).sum(), dr), ('absorbed', (et == 3).sum(), pt * pn[0]), ('true', (et == 1).sum(), pt * (1 - pn[0]))]
            if lam < M * .8:
                tests += [('n=%d' % k, ((et == 1) & (m == k)).sum(), pt * pn[k]) for k in range(1, min(5, M + 1))]
                tests += [('n>=5', ((et == 1) & (m >= 5)).sum(), pt * pn[5:].sum())] if M >= 5 else []
        else:
            pe = float(ref.emitted(E[:1], c[:1], seg[:1], np.zeros(nseg))[0][0])
            tests = [('elastic', (et == 0).sum(), pe)]
        for nm, k, p in tests:
            case.check(not binom_bad(int(k), N, min(1., max(0., p))), 'frequency-' + nm.split('=')[0], '%s: %d of %d impacts at E=%r cos=%r segment %d were %s, model probability %r' % (lab, k, N, E0, c0, sg, nm, p))
            case.ok(lab + '|freq-' + nm)
            case.count('events_sampled', N)
    if sey != 'perfect_absorber':
        case.sample(model=lab, last_group=dict(E=E0, cos=c0, tests=[[a, int(b), float(p)] for a, b, p in tests[:3]]))


def curves(case, sey):
    """The emission curves reported by the program."""
    rng = case.rng
    cfg = configs.random(rng, sey=sey, chamber='rect', tracker='Boris', sources=['unif'], regen='none', pattern=[1.])
    sim = cfg.build(case, skip_pyeclsaver=True)
    cl = sim.cloud_list[0]
    ref = impacts.seyref(cfg)
    Es, cs = np.sort(10**rng.uniform(0, 3, 4)), np.sort(rng.uniform(.1, 1, 3))
    N = 3000
    d = cl.impact_man.extract_sey_curves(N, Es, cs, cl.MP_e.charge, cl.MP_e.mass)
    for i, c in enumerate(cs):
        for j, E in enumerate(Es):
            if ref.event_based:
                de, dr, dts = [float(v) for v in ref.furman_pivi(np.array(E), np.array(c))]
                lam = dts / (1 - de - dr)
                want = [('elast', de, de * (1 - de)), ('true', dts, (1 - de - dr) * (lam + lam**2) - dts**2)]
                if not ref.p['furman_pivi_surface']['exclude_rediffused']:
                    want.append(('rediff', dr, dr * (1 - dr)))
                if lam > 2.5:
                    want = want[:1]
            else:
                pe, ye, yt = [float(v) for v in ref.emitted(np.array([E]), np.array([c]))[:3]]
                want = [('elast', pe * ye, pe * (1 - pe) * ye**2), ('true', (1 - pe) * yt, pe * (1 - pe) * yt**2)]
            for k, m, var in want:
                got = float(d[k][i, j])
                tol = 7 * np.sqrt(max(var, 1e-12) / N) + 12 * max(1., m) / N
                case.check(abs(got - m) <= tol, 'curve-' + k, '%s: reported %s yield %r at E=%r cos=%r, model %r +- %r' % (sey, k, got, E, c, m, tol))
                case.ok('%s|curve-%s' % (sey, k))


def tasks(tier):
    k = 1 if tier == 'quick' else 6
    return [Task(model, (30 if s != 'furman_pivi' else 40) * k, name=s, sey=s, min_ok=1000) for s in configs.SEYS if s != 'perfect_absorber'] + \
        [Task(model, 2, name='perfect_absorber', sey='perfect_absorber')] + \
        [Task(curves, 8 * k, name='curves-' + s, sey=s, min_ok=10) for s in ('ECLOUD', 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file', 'furman_pivi')]
