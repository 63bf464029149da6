"""P12: macroparticles generated by residual-gas ionisation."""
import numpy as np
from vlib import chambers, configs, mpsys, simgen
from vlib.harness import Task
from vlib.simgen import QE, ME, CLIGHT, merge, DROP
from vlib.stats import ks2, zcheck

PROP, LEVEL = 'P12', 'exploration'
TECHNIQUE = 'runtime monitor of generated primaries: per-call amount bounds, cumulative charge test, positions and speeds against an independent sampler; black-box growth of clouds in simulations'
NOTE = 'Amounts are judged in every call to within one macroparticle; averages and distributions by tests with false-alarm probability below 1e-9. Limited to the chambers, beams and gas parameters drawn.'
RULE = 'one evaluation = one generation call (or simulation step) or distribution test judged; distinct = (chamber or simulation kind, kind of judgement)'
KB = 1.380649e-23


def rate(P, T, sig):
    return P * 133.32e-9 / (KB * T) * sig * 1e-22 * CLIGHT


def sampler(rng, ref, bb, f, sx, sy, x0, y0, n):
    """Independent draw of positions: fraction f uniform over the chamber, the rest Gaussian, both restricted to the inside."""
    X, Y = [], []
    nu = rng.binomial(n, f)
    for m, unif in ((nu, True), (n - nu, False)):
        got = 0
        while got < m:
            k = 2 * (m - got) + 100
            if unif:
                x, y = rng.uniform(-bb[0], bb[0], k), rng.uniform(-bb[1], bb[1], k)
            else:
                x, y = rng.normal(x0, sx, k), rng.normal(y0, sy, k)
            i = ref.inside(x, y)
            x, y = x[i][:m - got], y[i][:m - got]
            got += len(x)
            X.append(x), Y.append(y)
    return np.concatenate(X), np.concatenate(Y)


def positions(case, key, ref, bb, x, y, f, sx, sy, x0, y0, msg):
    if len(x) < 300:
        return
    rx, ry = sampler(case.rng, ref, bb, f, sx, sy, x0, y0, max(20000, len(x)))
    for nm, a, b in (('x', x, rx), ('y', y, ry), ('u', x + y, rx + ry), ('r', np.hypot(x - x0, y - y0), np.hypot(rx - x0, ry - y0))):
        if ks2(case, 'position-' + nm, a, b, msg + ' ' + nm):
            case.ok(key + ' ' + nm)


def speeds(case, key, vx, vy, vz, E, mass, msg):
    v0 = np.sqrt(2 * E / 3 * QE / mass)
    v = np.array([vx, vy, vz])
    case.check(np.all(np.isfinite(v)) and np.all(np.abs(v) <= .5 * v0 * (1 + 1e-9)), 'speed', lambda: '%s: velocity component %r, limit %r for %r eV' % (msg, np.abs(v).max(), .5 * v0, E))


def unit(case, kind):
    from PyECLOUD.gas_ionization_class import residual_gas_ionization
    rng = case.rng
    ch, ref, lab = chambers.make(rng, kind)
    MP, kw = mpsys.make(rng, ch, nmax=60000, moved=True)
    for _ in range(30):
        x0, y0 = rng.uniform(-.5, .5, 2) * (ch.x_aper, ch.y_aper)
        if ref.inside([x0], [y0])[0]:
            break
    else:
        x, y = chambers.inside_points(rng, ref, 1)
        x0, y0 = float(x[0]), float(y[0])
    sx, sy = ch.x_aper * rng.uniform(.01, .6), ch.y_aper * rng.uniform(.01, .6)
    f = float(rng.choice([0., 1., rng.random()]))
    P, T, sig, E = float(10**rng.uniform(0, 4)), float(rng.uniform(4, 400) if rng.random() < .7 else rng.uniform(.3, 6)), float(rng.uniform(.1, 5)), float(10**rng.uniform(-2, 2))
    g = residual_gas_ionization(f, P, sig, T, ch, E, flag_lifetime_hist=MP.flag_lifetime_hist)
    mpsys.append(rng, MP, ref, int(rng.integers(0, 300)))
    old = mpsys.capture(MP)
    k = rate(P, T, sig)
    ncall = 250
    mean = float(rng.choice([rng.uniform(.02, 3), rng.uniform(3, 60), float(rng.integers(1, 5))]))
    Dt = float(10**rng.uniform(-12, -10))
    tot, exp, var, V = 0, 0., 0., []
    for c in range(ncall):
        m = mean * rng.uniform(.5, 1.5) if c % 10 else 0.
        lam = m * MP.nel_mp_ref / (k * Dt)
        n0 = MP.N_mp
        r = g.generate(MP, lam, Dt, sx, sy, x_beam_pos=x0, y_beam_pos=y0)
        n = MP.N_mp - n0
        case.check(r is MP, 'returns', lab)
        if case.check(np.floor(m * (1 - 1e-6)) <= n <= np.floor(m * (1 + 1e-6)) + 1 and (m > 0 or n == 0), 'amount', lambda: '%s: %d macroparticles generated, %r expected' % (lab, n, m)):
            case.ok(kind + ' amount')
        tot += n
        exp += m
        var += (m % 1) * (1 - m % 1)
        if n:
            V.append([MP.vx_mp[n0], MP.vy_mp[n0], MP.vz_mp[n0]])
        if MP.N_mp > 55000:
            break
    zcheck(case, 'amount-average', tot, exp, np.sqrt(var) + .5, '%s: total of %d calls' % (lab, ncall))
    case.ok(kind + ' average')
    new = slice(old.N, int(MP.N_mp))
    now = mpsys.capture(MP)
    case.check(now.keys()[:old.N] == old.keys() and np.array_equal(now.q[:old.N], old.q), 'old-particles', '%s: existing particles changed' % lab)
    x, y = np.array(MP.x_mp[new]), np.array(MP.y_mp[new])
    if not len(x):
        return
    out = ~ref.inside(x, y) & (ref.dist(x, y) > 1e-12)
    case.check(not out.any(), 'outside', lambda: '%s: generated at (%r,%r) outside the chamber' % (lab, x[out][0], y[out][0]))
    case.check(np.all(MP.nel_mp[new] == MP.nel_mp_ref), 'charge', '%s: generated charge %r, reference %r' % (lab, MP.nel_mp[new][0], MP.nel_mp_ref))
    case.check(np.all(MP.z_mp[new] == 0), 'z', lab)
    if MP.flag_lifetime_hist:
        case.check(np.all(MP.t_last_impact[new] == -1), 'last-impact', '%s: new particles have time of last impact %r' % (lab, MP.t_last_impact[new][:3]))
    speeds(case, kind, MP.vx_mp[new], MP.vy_mp[new], MP.vz_mp[new], E, MP.mass, lab)
    V = np.array(V)
    if len(V) >= 150:
        v0 = np.sqrt(2 * E / 3 * QE / MP.mass)
        for i in range(3):
            case.check(np.abs(V[:, i]).max() > .42 * v0 and abs(V[:, i].mean()) < 6.5 * v0 / np.sqrt(12. * len(V)), 'speed-spread', lambda: '%s: components reach %r of %r, mean %r' % (lab, np.abs(V[:, i]).max(), .5 * v0, V[:, i].mean()))
        case.ok(kind + ' speed')
    positions(case, kind, ref, (ch.x_aper, ch.y_aper), x, y, f, sx, sy, x0, y0, '%s f=%.2f' % (lab, f))
    case.sample(chamber=lab, calls=ncall, expected=exp, generated=tot, fraction_uniform=f)


def capacity(case):
    """A generation that does not fit is refused with an error and changes nothing beyond the arrays."""
    from PyECLOUD.gas_ionization_class import residual_gas_ionization
    rng = case.rng
    ch, ref, lab = chambers.make(rng, 'ellip')
    MP, kw = mpsys.make(rng, ch, nmax=500, moved=True)
    g = residual_gas_ionization(1., 1e3, 1., 300., ch, .1, flag_lifetime_hist=MP.flag_lifetime_hist)
    mpsys.append(rng, MP, ref, int(rng.integers(400, 500)))
    cap, n0 = len(MP.x_mp), int(MP.N_mp)
    room = cap - n0
    want = room + int(rng.integers(-3, 4))
    lam = (want + .001) * MP.nel_mp_ref / (rate(1e3, 300., 1.) * 1e-11)
    try:
        g.generate(MP, lam, 1e-11, 1e-3, 1e-3)
        bad = MP.N_mp > cap
        case.check(not bad, 'overfull', 'N_mp=%d with arrays of %d' % (MP.N_mp, cap))
        case.ok('fits')
    except Exception as e:
        case.check(want + 1 > room - 1, 'refused', 'refused %d with room for %d: %s' % (want, room, e))
        case.ok('refused')


def simulate(case, nsec, nclouds, unif_dt=True):
    """Nothing hits the wall and only the gas is a source: growth of every cloud in every step."""
    rng = case.rng
    cfg = configs.random(rng, chamber=str(rng.choice(['rect', 'ellip', 'convex'])), tracker='Boris', sey='perfect_absorber', sources=['gas'], clouds=0, regen='none')
    m = cfg.mach
    par = [dict(P_nTorr=float(10**rng.uniform(6, 7)), sigma_ion_MBarn=float(rng.uniform(.5, 3)), Temp_K=float(rng.uniform(10, 400)), unif_frac=0., E_init_ion=float(10**rng.uniform(-4, -2)))]
    m.update(par[0], init_unif_flag=0, B0x=0., B0y=0., B0z=0.)
    names = ['main']
    t_ion = [float(rng.choice([100., rng.uniform(1e-9, 4e-9)]))]
    cfg.sim['t_ion'] = t_ion[0]
    for i in range(nclouds):
        d = dict(simgen.CLOUD_ION)
        p = dict(P_nTorr=float(10**rng.uniform(6, 7)), sigma_ion_MBarn=float(rng.uniform(.5, 3)), Temp_K=float(rng.uniform(10, 400)), unif_frac=0., E_init_ion=float(10**rng.uniform(-4, -2)))
        t_ion.append(float(rng.choice([100., rng.uniform(1e-9, 4e-9)])))
        d.update(p, gas_ion_flag=1 if rng.random() < .8 else 0, init_unif_flag=0, t_ion=t_ion[-1])
        if not d['gas_ion_flag']:
            p = None
        cfg.clouds['ion%d' % i] = d
        par.append(p)
    cfg.sim['cloud_name'] = 'main'
    cfg.sim['t_sc_ON'] = 1e3
    cfg.beam.update(fact_beam=1e8, x_beam_pos=0., y_beam_pos=0., nemittx=2e-6, nemitty=2e-6, filling_pattern_file=[1., 1., 0., .5], energy_eV=1e9, sigmaz=.1)
    for k in range(nsec):
        cfg.sec_beams.append(dict(x_beam_pos=float(rng.uniform(3e-3, 6e-3) * (-1)**k), y_beam_pos=float(rng.uniform(-3e-3, 3e-3)), fact_beam=float(10**rng.uniform(7.5, 8.5)), t_offs=float(rng.uniform(5e-10, 2e-9)),
                                  filling_pattern_file=[1., 0., 1., 1.], nemittx=float(2e-6 * 10**rng.uniform(-1.3, .7)), nemitty=float(2e-6 * 10**rng.uniform(-1.3, .7))))
    cfg.sim['Dt'] = 5e-11
    k0 = [rate(p['P_nTorr'], p['Temp_K'], p['sigma_ion_MBarn']) if p else 0. for p in par]
    # reference charges such that most steps generate some macroparticles
    lam_max = 1e8 / (.1 * np.sqrt(2 * np.pi)) * (1 + nsec)
    for i, k in enumerate(k0):
        if k:
            (cfg.sim if i == 0 else cfg.clouds['ion%d' % (i - 1)])['nel_mp_ref_0'] = float(k * lam_max * 5e-11 / rng.uniform(5, 40))
    sim = cfg.build(case, skip_pyeclsaver=True)
    lab = '%dsec %dcl' % (nsec, nclouds + 1)
    beams = [sim.beamtim] + list(sim.sec_beams_list if nsec else [])
    st = dict(n=[0] * len(sim.cloud_list), tot=np.zeros((len(sim.cloud_list))), exp=np.zeros(len(sim.cloud_list)), var=np.zeros(len(sim.cloud_list)))
    newpos = [[] for _ in sim.cloud_list]
    expw = np.zeros((len(sim.cloud_list), 1 + nsec))

    def before(sim):
        st['n'] = [int(c.MP_e.N_mp) for c in sim.cloud_list]
        st['ref'] = [float(c.MP_e.nel_mp_ref) for c in sim.cloud_list]

    def after(sim):
        tt = sim.beamtim.tt_curr
        for i, c in enumerate(sim.cloud_list):
            MP = c.MP_e
            n = int(MP.N_mp) - st['n'][i]
            if (c.impact_man.Nel_impact_last_step or 0) > 0 or st.get('stop'):
                st['stop'] = True  # a particle reached the wall: the growth is no longer the source alone
                continue
            lo = hi = 0
            on = k0[i] > 0 and tt < t_ion[i]
            for b, bt in enumerate(beams):
                mm = k0[i] * bt.lam_t_curr * sim.beamtim.Dt_curr / st['ref'][i] if on else 0.
                lo += np.floor(mm * (1 - 1e-6))
                hi += (np.floor(mm * (1 + 1e-6)) + 1) if mm > 0 else 0
                st['exp'][i] += mm
                st['var'][i] += (mm % 1) * (1 - mm % 1)
                expw[i, b] += mm
            st['tot'][i] += n
            if case.check(lo <= n <= hi, 'sim-amount', lambda: '%s cloud %d t=%g: %d macroparticles appeared, between %d and %d expected (t_ion %g, charge %g, clean threshold %g)' % (lab, i, tt, n, lo, hi, t_ion[i], MP.nel_mp_ref, MP.nel_mp_cl_th)):
                case.ok(lab + ' step' + (' off' if not on else ''))
            if n > 0:
                s = slice(int(MP.N_mp) - n, int(MP.N_mp))
                newpos[i].append((np.array(MP.x_mp[s]), np.array(MP.y_mp[s])))
                speeds(case, lab, MP.vx_mp[s], MP.vy_mp[s], MP.vz_mp[s], par[i]['E_init_ion'], MP.mass, lab)
    configs.on_step(sim, after, before)
    sim.run()
    for i in range(len(sim.cloud_list)):
        if st['exp'][i] > 0:
            zcheck(case, 'sim-average', st['tot'][i], st['exp'][i], np.sqrt(st['var'][i]) + .5, lab)
            case.ok(lab + ' average')
            # each beam generates around itself
            if newpos[i]:
                x, y = np.concatenate([p[0] for p in newpos[i]]), np.concatenate([p[1] for p in newpos[i]])
                if len(x) > 300:
                    rx, ry = [], []
                    w = expw[i] / expw[i].sum()
                    nn = np.random.default_rng(1).multinomial(20000, w)
                    for b, m_ in zip(beams, nn):
                        a, bb = sampler(case.rng, cfg.ref, (1, 1), 0., b.sigmax, b.sigmay, b.x_beam_pos, b.y_beam_pos, int(m_))
                        rx.append(a), ry.append(bb)
                    ks2(case, 'sim-position-x', x, np.concatenate(rx), lab)
                    ks2(case, 'sim-position-y', y, np.concatenate(ry), lab)
                    case.ok(lab + ' position')
    if nsec:
        for k in range(nsec):
            sb = sim.sec_beams_list[k]
            case.check(abs(sb.x_beam_pos - cfg.sec_beams[k]['x_beam_pos']) < 1e-15 and abs(sb.y_beam_pos - cfg.sec_beams[k]['y_beam_pos']) < 1e-15, 'sec-beam', lab)
    case.sample(kind=lab, expected=st['exp'].tolist(), generated=st['tot'].tolist())


def tasks(tier):
    k = 4 if tier == 'quick' else 20
    t = [Task(unit, 14 * k, name='unit-' + c, kind=c, min_ok=500) for c in ('rect', 'ellip', 'convex', 'nonconvex')]
    t.append(Task(capacity, 10 * k))
    t += [Task(simulate, 6 * k, name='sim-%d-%d' % (s, c), nsec=s, nclouds=c, min_ok=100) for s, c in ((0, 0), (1, 0), (2, 1), (0, 2))]
    return t
