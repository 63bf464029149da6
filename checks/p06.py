"""P06: where, how fast and in which direction electrons leave the wall."""
import numpy as np
from vlib import configs, impacts
from vlib.harness import Task
from vlib.simgen import ME, QE

PROP, LEVEL = 'P06', 'exploration'
TECHNIQUE = 'runtime monitor of every emitted macroparticle (position, direction, energy limits) plus distribution tests of observed spectra and angles'
NOTE = ('Hard limits are judged on every emitted macroparticle observed; spectra and angular distributions by Kolmogorov-Smirnov tests with false-alarm '
        'probability below 1e-9 per test. Limited to the models, parameters and energies drawn.')
RULE = ('one evaluation = one emitted macroparticle judged against its impact (point, direction, energy), or one distribution test; distinct = '
        '(model, angular law, kind of emission, kind of test)')


def judge(case, r, sey, lab, ref, what):
    """Simulation monitor: everything that left the wall in this step."""
    if not len(r.h):
        return
    a = r.a
    idx = np.concatenate([r.h, r.new]).astype(int)
    own = np.concatenate([np.arange(len(r.h)), r.owner]).astype(int)
    live = (a['nel_mp'][idx] > 0)
    if not case.check(np.all(own[live] >= 0), 'orphan', '%s: new macroparticle not at an impact point (%s)' % (lab, what)):
        return
    idx, own = idx[live], own[live]
    if not len(idx):
        return
    vx, vy, vz = a['vx_mp'][idx], a['vy_mp'][idx], a['vz_mp'][idx]
    vm = np.sqrt(vx**2 + vy**2 + vz**2)
    vn = vx * r.nx[own] + vy * r.ny[own]
    bad = vn < -1e-9 * vm
    i = int(np.argmax(bad))
    case.check(not bad.any(), 'outward', lambda: '%s: emitted with velocity (%r,%r,%r), normal component %r; impact velocity (%r,%r,%r), normal (%r,%r), E=%r (%s)' % (
        lab, vx[i], vy[i], vz[i], vn[i], r.vx[own[i]], r.vy[own[i]], r.vz[own[i]], r.nx[own[i]], r.ny[own[i]], r.E[own[i]], what))
    bad = (a['x_mp'][idx] != r.X[own]) | (a['y_mp'][idx] != r.Y[own]) | (a['z_mp'][idx] != r.Z[own])
    case.check(not bad.any(), 'emission-point', lambda: '%s: emitted away from the impact point (%s)' % (lab, what))
    E = r.Eout[idx]
    case.check(np.all(np.isfinite(E)) and np.all(E >= 0), 'energy-invalid', lambda: '%s: emitted energy %r (%s)' % (lab, E[~(E >= 0)][:1], what))
    if ref.p['switch_model'] == 'furman_pivi':
        s = ref.p['furman_pivi_surface']
        if not s['use_ECLOUD_energy']:
            bad = E > r.E[own] * (1 + 1e-9)
            case.check(not bad.any(), 'energy-gain', lambda: '%s: %r eV emitted by an impact of %r eV (%s)' % (lab, E[np.argmax(bad)], r.E[own][np.argmax(bad)], what))
    else:
        spec = np.abs(E - r.E[own]) <= 1e-7 * r.E[own]
        lim = np.full(len(E), ref.p['E_th'])
        if ref.p['switch_no_increase_energy'] == 2:
            lim = np.where(r.E[own] < ref.p['thresh_low_energy'], r.E[own], np.minimum(lim, r.E[own]))
        bad = ~spec & (E > lim * (1 + 1e-9))
        case.check(not bad.any(), 'energy-limit', lambda: '%s: true secondary with %r eV, limit %r (impact %r eV, %s)' % (
            lab, E[np.argmax(bad)], lim[np.argmax(bad)], r.E[own][np.argmax(bad)], what))
    case.ok(lab, len(idx))
    case.count('emitted', len(idx))
    case.count('impacts_moving_inward', int((r.vn > 0).sum()))


def simulate(case, sey):
    from checks.p04 import attach  # noqa: same wrapping point
    cfg = configs.random(case.rng, sey=sey)
    sim = cfg.build(case)
    cl = sim.cloud_list[0]
    im, ref = cl.impact_man, impacts.seyref(cfg)
    orig = im.backtrack_and_second_emiss
    lab = '%s|%s|%s' % (cfg.mach['chamb_type'], sey, cfg.sey['secondary_angle_distribution'])

    def wrapped(old_pos, MP_e, *args, **kw):
        tt = args[0] if args else kw.get('tt_curr')
        r = impacts.observe(im, sim.chamb, old_pos, MP_e, tt, lambda: orig(old_pos, MP_e, *args, **kw))
        judge(case, r, sey, lab, ref, '%s t=%r' % (cfg.lab, tt))
        if len(case.fails) > 8:
            raise StopIteration
        return r.result
    im.backtrack_and_second_emiss = wrapped
    try:
        sim.run()
    except StopIteration:
        return
    case.sample(config=cfg.lab)


def ks(case, key, v, cdf, msg):
    from scipy.stats import kstest
    v = np.asarray(v)
    if len(v) < 200:
        return
    st, p = kstest(v, cdf)[:2]
    case.check(p > 1e-10, key, lambda: '%s: observed distribution differs from the configured one (n=%d, D=%.3f, p=%.1e, mean %r, max %r)' % (msg, len(v), st, p, v.mean(), v.max()))
    case.ok(key)
    case.count('samples_tested', len(v))


def angles(case, law, lab, vx, vy, vz, nx, ny):
    vm = np.sqrt(vx**2 + vy**2 + vz**2)
    m = vm > 0
    vn = (vx * nx + vy * ny)[m] / vm[m]
    vt = (vy * nx - vx * ny)[m] / vm[m]
    uz = vz[m] / vm[m]
    if not case.check(np.all(vn >= -1e-9), 'outward', lambda: '%s: %s emission with direction cosine %r' % (lab, law, vn.min())):
        return
    if law == 'normal_emission':
        case.check(np.all(vn > 1 - 1e-9), 'angle-normal', lambda: '%s: emission not along the normal' % lab)
        case.ok('normal')
        return
    s = np.sqrt(vt**2 + uz**2)
    ks(case, 'angle-theta', s**2 if law == 'cosine_3D' else s, 'uniform', '%s: %s polar angle' % (lab, law))
    ks(case, 'angle-phi', (np.arctan2(vt, uz)) / (2 * np.pi) + .5, 'uniform', '%s: %s azimuth' % (lab, law))


def batch(case, sey):
    """Direct observation of the emission model at fixed impact energy and angle."""
    from checks.p05 import call
    from scipy.stats import lognorm
    from scipy.special import gammainc, erf
    rng = case.rng
    cfg = configs.random(rng, sey=sey, chamber=None if sey in ('nunif', 'charging') else 'rect', tracker='Boris', sources=['unif'], regen='none', pattern=[1.])
    law = cfg.sey['secondary_angle_distribution']
    if sey == 'furman_pivi':
        f = cfg.sey['furman_pivi_surface']
        f.update(q=float(rng.uniform(.2, 1.5)), sigmaE=float(rng.uniform(1, 5)), p_n=[float(v) for v in rng.uniform(1.3, 4, 10)], eps_n=[float(v) for v in rng.uniform(1, 8, 10)])
    sim = cfg.build(case, skip_pyeclsaver=True)
    sm = sim.cloud_list[0].impact_man.sey_mod
    ref = impacts.seyref(cfg)
    p = ref.p
    nseg = len(cfg.ref.X) if cfg.chamber is not None else 4
    N = 3000 if case.tier == 'quick' else 20000
    for g in range(6):
        E0 = float([10**rng.uniform(-2, 0), 10**rng.uniform(0, 1.5), 10**rng.uniform(1.5, 3), rng.uniform(150, 500), rng.uniform(3, 60), 10**rng.uniform(2, 4)][g])
        E, c, seg = np.full(N, E0), rng.uniform(.02, 1, N), rng.integers(0, nseg, N)
        nel = np.full(N, 1e6)
        split = 1e30 if rng.random() < .3 else float(10**rng.uniform(5.3, 6.3))
        v = np.sqrt(2 * E * QE / ME)
        th = rng.uniform(0, 2 * np.pi, N)
        nx, ny = np.cos(th), np.sin(th)
        s = np.sqrt(1 - c * c) * v
        ph = rng.uniform(0, 2 * np.pi, N)
        vx, vy, vz = -c * v * nx - s * np.cos(ph) * ny, -c * v * ny + s * np.cos(ph) * nx, s * np.sin(ph)
        x, y, z = rng.normal(0, 1e-2, (3, N))
        out = sm.impacts_on_surface(ME, nel.copy(), x.copy(), y.copy(), z.copy(), vx.copy(), vy.copy(), vz.copy(), nx.copy(), ny.copy(), seg.copy(),
                                    vx * nx + vy * ny, E.copy(), c.copy(), split, True)
        (em, et, info, q1, x1, y1, z1, vx1, vy1, vz1, s1, q2, x2, y2, z2, vx2, vy2, vz2, s2) = out
        et = np.asarray(et).astype(int)
        lab = '%s %s E=%r' % (sey, law, E0)
        # owner of the new ones
        key = {k: i for i, k in enumerate(zip(x.tolist(), y.tolist(), z.tolist()))}
        own = np.array([key.get(k, -1) for k in zip(np.asarray(x2).tolist(), np.asarray(y2).tolist(), np.asarray(z2).tolist())], int)
        if not case.check(len(own) == 0 or own.min() >= 0, 'orphan', '%s: new macroparticle not at an impact point' % lab):
            return
        case.check(np.array_equal(np.asarray(s1), seg) and (len(own) == 0 or np.array_equal(np.asarray(s2), seg[own])), 'segment', '%s: emitted particles attributed to another segment' % lab)
        live = np.asarray(q1) > 0
        E1 = .5 * ME / QE * (vx1**2 + vy1**2 + vz1**2)
        E2 = .5 * ME / QE * (np.asarray(vx2)**2 + np.asarray(vy2)**2 + np.asarray(vz2)**2)
        el = live & (et == 0)
        tr = live & (et == 1)
        fp = sey == 'furman_pivi'
        if fp:
            f = p['furman_pivi_surface']
        if not fp or f['use_ECLOUD_energy']:
            vn = vx * nx + vy * ny
            d = np.sqrt((vx1 - vx + 2 * vn * nx)**2 + (vy1 - vy + 2 * vn * ny)**2 + (vz1 - vz)**2)
            bad = el & (d > 1e-9 * v)
            j = int(np.argmax(bad))
            case.check(not bad.any(), 'specular', lambda: '%s: elastic reflection of (%r,%r,%r) on normal (%r,%r) gives (%r,%r,%r)' % (
                lab, vx[j], vy[j], vz[j], nx[j], ny[j], vx1[j], vy1[j], vz1[j]))
            case.ok('%s|specular' % sey, int(el.sum()))
        # directions of everything that is not reflected
        if fp and not f['use_ECLOUD_energy']:
            m1 = live
        else:
            m1 = live & ~el
        cat = np.concatenate
        angles(case, law, lab, cat([vx1[m1], vx2]), cat([vy1[m1], vy2]), cat([vz1[m1], vz2]), cat([nx[m1], nx[own]]), cat([ny[m1], ny[own]]))
        # true secondaries
        if not fp or f['use_ECLOUD_energy']:
            Et = cat([E1[tr], E2])
            sw = p['switch_no_increase_energy']
            lim = p['E_th'] if sw == 0 else min(p['E_th'], E0)
            if sw == 2 and E0 < p['thresh_low_energy']:
                def cdf(e):
                    return np.clip(e / E0, 0, 1)**2
                lim = E0
            else:
                L = lognorm(p['sigmafit'], scale=np.exp(p['mufit']))

                def cdf(e, L=L, lim=lim):
                    return np.clip(L.cdf(e) / L.cdf(lim), 0, 1)
            if not (fp and f['conserve_energy']):
                ks(case, 'energy-true', Et, cdf, '%s switch %d: energy of true secondaries' % (lab, sw))
            if len(Et):
                case.check(np.all(np.isfinite(Et)) and Et.max() <= lim * (1 + 1e-9), 'energy-limit', lambda: '%s: true secondary with %r eV, limit %r' % (lab, Et.max(), lim))
                case.ok('%s|%s|limit' % (sey, law), len(Et))
        if fp:
            n = np.round(np.asarray(em) / nel).astype(int)
            if not f['use_ECLOUD_energy']:
                sg = f['sigmaE']
                if f['use_modified_sigmaE']:
                    sg = sg - 1.88 + 2.5 * (1 + np.tanh(1e-2 * (E0 - 150.)))
                r2 = np.sqrt(2) * sg
                ks(case, 'energy-elastic', E1[el], lambda e: np.clip(1 - erf((E0 - e) / r2) / erf(E0 / r2), 0, 1), '%s: energy of elastic electrons' % lab)
                if not f['conserve_energy']:
                    for k in range(1, 5):
                        m = tr & (n == k)
                        Ek = cat([E1[m], E2[n[own] == k]]) if len(own) else E1[m]
                        a, b = f['p_n'][k - 1], f['eps_n'][k - 1]
                        if gammainc(a, E0 / b) > 1e-6:
                            ks(case, 'energy-true', Ek, lambda e: np.clip(gammainc(a, e / b) / gammainc(a, E0 / b), 0, 1), '%s: energy of true secondaries of events with %d' % (lab, k))
                Eall = cat([E1[live], E2])
                if len(Eall):
                    case.check(np.all(np.isfinite(Eall)) and Eall.min() >= 0 and Eall.max() <= E0 * (1 + 1e-9), 'energy-gain', lambda: '%s: emitted energy range %r..%r' % (lab, Eall.min(), Eall.max()))
                    case.ok('%s|%s|limit' % (sey, law), len(Eall))
            if not f['exclude_rediffused']:
                ks(case, 'energy-rediffused', E1[live & (et == 2)], lambda e: np.clip(e / E0, 0, 1)**(f['q'] + 1), '%s: energy of rediffused electrons' % lab)
            if f['conserve_energy'] and len(own):
                tot = np.where(tr, E1, 0.)
                np.add.at(tot, own, E2)
                bad = tr & (n > 1) & (tot > E0 * (1 + 1e-9))
                case.check(not bad.any(), 'event-energy', lambda: '%s: %d electrons with %r eV in total emitted with energy conservation' % (lab, n[np.argmax(bad)], tot[np.argmax(bad)]))
                case.ok('furman_pivi|conserve', int((tr & (n > 1)).sum()))
    case.sample(model=sey, law=law, last_energy=E0)


def mixed(case, sey):
    """Impacts of very different energies in one call, many of them split: every part is judged against the limits of its own impact."""
    rng = case.rng
    cfg = configs.random(rng, sey=sey, chamber=None if sey in ('nunif', 'charging') else 'rect', tracker='Boris', sources=['unif'], regen='none', pattern=[1.])
    cfg.sey['switch_no_increase_energy'] = int(rng.choice([0, 2, 2, 2]))
    if sey == 'furman_pivi':
        cfg.sey['furman_pivi_surface'].update(use_ECLOUD_energy=bool(rng.random() < .5), conserve_energy=bool(rng.random() < .3))
    sim = cfg.build(case, skip_pyeclsaver=True)
    sm = sim.cloud_list[0].impact_man.sey_mod
    p = impacts.seyref(cfg).p
    nseg = len(cfg.ref.X) if cfg.chamber is not None else 4
    law = cfg.sey['secondary_angle_distribution']
    for g in range(8):
        N = int(rng.choice([2, 10, 300]))
        E, c, seg = 10**rng.uniform(-1, 3.3, N), rng.uniform(.02, 1, N), rng.integers(0, nseg, N)
        nel = 10**rng.uniform(4, 7, N)
        split = float(10**rng.uniform(4, 6))
        v = np.sqrt(2 * E * QE / ME)
        th, ph = rng.uniform(0, 2 * np.pi, (2, N))
        nx, ny = np.cos(th), np.sin(th)
        s = np.sqrt(1 - c * c) * v
        vx, vy, vz = -c * v * nx - s * np.cos(ph) * ny, -c * v * ny + s * np.cos(ph) * nx, s * np.sin(ph)
        x, y, z = rng.normal(0, 1e-2, (3, N))
        out = sm.impacts_on_surface(ME, nel.copy(), x.copy(), y.copy(), z.copy(), vx.copy(), vy.copy(), vz.copy(), nx.copy(), ny.copy(), seg.copy(),
                                    vx * nx + vy * ny, E.copy(), c.copy(), split, True)
        et, q1, vx1, vy1, vz1 = [np.asarray(out[i]) for i in (1, 3, 7, 8, 9)]
        q2, x2, y2, z2, vx2, vy2, vz2, s2 = [np.asarray(v) for v in out[11:]]
        lab = '%s %s mixed energies' % (sey, law)
        key = {k: i for i, k in enumerate(zip(x.tolist(), y.tolist(), z.tolist()))}
        own = np.array([key.get(k, -1) for k in zip(x2.tolist(), y2.tolist(), z2.tolist())], int)
        if not case.check(len(own) == 0 or own.min() >= 0, 'orphan', '%s: new macroparticle not at an impact point' % lab):
            return
        case.check(len(own) == 0 or np.array_equal(s2.astype(int), seg[own]), 'segment', '%s: emitted particles attributed to another segment' % lab)
        o = np.concatenate([np.arange(N), own]).astype(int)
        q, ax, ay, az = [np.concatenate([np.asarray(a), np.asarray(b)]) for a, b in ((q1, q2), (vx1, vx2), (vy1, vy2), (vz1, vz2))]
        live = q > 0
        Eo = .5 * ME / QE * (ax**2 + ay**2 + az**2)
        vn = ax * nx[o] + ay * ny[o]
        bad = live & ~(vn >= -1e-9 * np.sqrt(ax**2 + ay**2 + az**2))
        case.check(not bad.any(), 'outward', lambda: '%s: emitted with normal velocity %r' % (lab, vn[np.argmax(bad)]))
        if sey == 'furman_pivi' and not cfg.sey['furman_pivi_surface']['use_ECLOUD_energy']:
            lim = E[o]
        else:
            refl = np.concatenate([et.astype(int) != 1, np.zeros(len(own), bool)])
            lim = np.full(len(o), p['E_th'])
            if p['switch_no_increase_energy'] == 2:
                lim = np.where(E[o] < p['thresh_low_energy'], E[o], np.minimum(lim, E[o]))
            lim = np.where(refl, E[o], lim)
        bad = live & ~(Eo <= lim * (1 + 1e-9))
        case.check(not bad.any(), 'energy-limit', lambda: '%s: electron of %r eV emitted by an impact of %r eV, limit %r' % (lab, Eo[np.argmax(bad)], E[o][np.argmax(bad)], lim[np.argmax(bad)]))
        case.ok('%s|%s|mixed|%d' % (sey, law, p['switch_no_increase_energy']), int(live.sum()))
        case.count('mixed_new', len(own))


def extraction(case, sey):
    """The energy distributions a simulation extracts and saves are those of the electrons the surface model emitted, by kind of emission."""
    rng = case.rng
    cfg = configs.random(rng, sey=sey, chamber=None if sey in ('nunif', 'charging') else 'rect', tracker='Boris', sources=['unif'], regen='none', pattern=[1.])
    if rng.random() < .7:
        cfg.sey.update(R0=float(rng.uniform(.5, 1)), del_max=float(rng.uniform(2, 4)))
    sim = cfg.build(case, skip_pyeclsaver=True)
    cl = sim.cloud_list[0]
    im, cls = cl.impact_man, type(cl.impact_man.sey_mod)
    orig, rows = cls.impacts_on_surface, []

    def spy(self, *a, **k):
        out = orig(self, *a, **k)
        rows.append([None if v is None or isinstance(v, dict) else np.array(v) for v in out] + [k])
        return out
    cls.impacts_on_surface = spy
    try:
        for g in range(12):
            E0, nb, fac = float(10**(rng.uniform(0, 3) if g < 3 else rng.uniform(1.2, 1.9))), int(rng.integers(5, 80)), float(rng.choice([.6, 1., 1.5]))
            cs = np.sort(rng.uniform(.05, 1., 3))
            n = int(rng.choice([1, 20, 400]))  # (kinds of emission mixed in every order)
            rows.clear()
            d = im.extract_energy_distributions(n, E0, cs, ME, nb, fac)
            lab = '%s: energy distributions for %r eV (%d impacts, %d bins)' % (sey, E0, n, nb)
            grid = np.linspace(0, E0 * fac, nb)
            case.check(np.allclose(d['emit_ene_g_hist'], grid, rtol=1e-12, atol=0), 'extraction-grid', '%s: energy grid differs' % lab)
            if not case.check(len(rows) == len(cs), 'extraction-calls', '%s: %d calls for %d angles' % (lab, len(rows), len(cs))):
                return
            for j, r in enumerate(rows):
                et = r[1].astype(int)
                E = np.concatenate([.5 * ME / QE * sum(r[i]**2 for i in (7, 8, 9)), .5 * ME / QE * sum(r[i]**2 for i in (15, 16, 17))])
                et = np.concatenate([et, np.ones(len(r[15]), int)])
                for code, nm in im.sey_mod.event_types.items():
                    want = np.zeros(nb)
                    u = E[et == code] / grid[1]
                    i = np.minimum(np.floor(u).astype(int), nb - 1)
                    w = np.where(i < nb - 1, u - i, 0.)
                    np.add.at(want, i, 1 - w)
                    np.add.at(want, np.minimum(i + 1, nb - 1), w)
                    got = d[nm][:, j]
                    case.check(abs(got.sum() - len(u)) < 1e-6 * (1 + len(u)), 'extraction-count', lambda: '%s: %r %s emissions recorded, %d happened' % (lab, got.sum(), nm, len(u)))
                    case.check(np.abs(got - want).max() < 1e-5 * (1 + len(u)), 'extraction-hist', lambda: '%s: %s emissions at cos=%r recorded %r in a bin, expected %r' % (
                        lab, nm, cs[j], got[np.argmax(np.abs(got - want))], want[np.argmax(np.abs(got - want))]))
                    case.ok('%s|extraction|%s' % (sey, nm), len(u))
    finally:
        cls.impacts_on_surface = orig


def tasks(tier):
    k = 1 if tier == 'quick' else 8
    out = [Task(batch, (16 if s != 'furman_pivi' else 48) * k, name='batch-' + s, sey=s, min_ok=1000) for s in configs.SEYS if s != 'perfect_absorber']
    out += [Task(simulate, 16 * k, name='sim-' + s, sey=s, min_ok=1000) for s in configs.SEYS if s != 'perfect_absorber']
    out += [Task(mixed, 12 * k, name='mixed-' + s, sey=s, min_ok=1000) for s in configs.SEYS if s != 'perfect_absorber']
    out += [Task(extraction, 10 * k, name='extraction-' + s, sey=s, min_ok=100) for s in configs.SEYS]
    return out
