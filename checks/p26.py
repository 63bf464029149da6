"""Random simulations with cross-ionisation (one to four processes, one to three clouds, products that are projectiles of others, shared
products, tables linear or logarithmic in energy, beams, decimated recording) and, in a second kind of case, the module fed directly
with crafted projectile populations (energies below, at, between and above the points of the table, up to hundreds of products per
projectile, visibly used up gas).  A monitor around the stage takes all particles of all clouds before and after, makes
its own interpolation of the tables and its own account of every gas, and decides for every step: which projectiles ionised how much
(number of products per projectile, stochastic rounding bounds and total, in charge), that products lie on their projectiles with the
configured velocities and size, equal for all products where requested, that nothing else changed, that the gas lost what was generated,
and that the recorded data say so.  Sampled fractions and velocities are tested as distributions over the whole case."""
import os
import numpy as np
import scipy.io as sio
from vlib.harness import Task, loadmat
from vlib import configs, chambers, stats, mpsys, observe
from vlib.simgen import QE, ME
from checks import p18

PROP = 'P26'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'online checker of the ionisation stage: independent rate equation, gas account and provenance of every product particle'
NOTE = 'cross sections by independent interpolation (numpy) of the tables; distributions by Kolmogorov-Smirnov and normal tests at p<1e-10'
RULE = 'an evaluation is one process in one step; distinct = table kind x products x equal generation x number of processes'
ASSUMPTIONS = ['outside the tabulated energies the cross section is zero, as commented in the code']


def table(rng):
    n = int(rng.integers(5, 1200))
    kind = str(rng.choice(['log', 'lin']))
    if kind == 'log':
        e = 10**np.linspace(rng.uniform(-1, 2), rng.uniform(2.5, 4.5), n)
    else:
        a = float(rng.integers(0, 60))
        e = a + np.arange(n) * float(rng.choice([.5, 1., 2., 5.]))
    shape = rng.random()
    if shape < .6:
        s = e / 100. * np.exp(1 - e / 100.) + rng.uniform(0, .3)
    elif shape < .8:
        s = rng.uniform(0, 1, n)
    else:
        s = np.where(e > np.median(e), 1., 0.)
    return kind, e, s * 10**rng.uniform(-16, -14.5)


def sigma(tab, E):
    """m^2 and the tolerance from the step of the table being known to 8 decimals."""
    kind, e, s = tab
    f = np.log10 if kind == 'log' else np.asarray
    with np.errstate(divide='ignore'):
        x = f(np.maximum(E, 1e-300))
    xe = f(np.maximum(e, 1e-300))
    # at the ends of the table rounding decides
    out = np.interp(x, xe, s)
    inside = (E >= e[0]) & (E <= e[-1])
    edge = (np.abs(E - e[0]) <= 1e-9 * e[0]) | (np.abs(E - e[-1]) <= 1e-9 * e[-1])
    h = (xe[-1] - xe[0]) / (len(xe) - 1)
    drift = 2e-8 * len(e) / h * np.abs(np.diff(s)).max() + 1e-9 * s.max()
    return np.where(inside, out, 0.) * 1e-4, drift * 1e-4, edge


def definitions(rng, names, nproc, dens):
    d, tabs, files = {}, {}, {}
    E0 = float(10**rng.uniform(-1, 1.5))
    for j in range(nproc):
        pr = str(rng.choice(names))
        prod = [str(v) for v in rng.choice(names, int(rng.integers(1, len(names) + 1)), replace=False)]
        tab = table(rng)
        fn = 'sigma%d' % j
        files[fn + '.mat'] = dict(energy_eV=tab[1], cross_section_cm2=tab[2])
        p = 'proc%d' % len(d.get(pr, {}))
        d.setdefault(pr, {})[p] = dict(target_density=float(10**rng.uniform(*dens)), E_eV_init=E0, products=prod, cross_section=fn + ('.mat' if rng.random() < .5 else ''), extract_sigma=False)
        if rng.random() < .8:
            d[pr][p]['generate_equally'] = bool(rng.random() < .5)
        tabs[pr, p] = tab
    return d, tabs, files


def rows(MP):
    n = int(MP.N_mp)
    return {k: np.array(getattr(MP, k)[:n]) for k in configs.ATTRS + (('t_last_impact',) if MP.flag_lifetime_hist else ())}


class Watch:
    def __init__(self, case, lab, cross, defs, tabs, area, size_step=None):
        self.case, self.lab, self.cross, self.defs, self.tabs, self.area = case, lab, cross, defs, tabs, area
        self.gas = {(pr, p): d['target_density'] * area for pr in defs for p, d in defs[pr].items()}
        self.steps = 0
        self.z = {}
        self.vel = {}
        self.acc = {}
        orig = cross.generate

        def generate(Dt, cloud_list):
            before = {c.name: (rows(c.MP_e), float(c.MP_e.nel_mp_ref)) for c in cloud_list}
            r = orig(Dt=Dt, cloud_list=cloud_list)
            self.judge(float(Dt), cloud_list, before)
            return r
        cross.generate = generate

    def densities(self):
        out = {}
        for pr, lst in self.cross.projectiles_dict.items():
            for p in lst:
                out[pr, p.name] = float(p.target_dens)
        return out

    def judge(self, Dt, clouds, before):
        case, lab = self.case, self.lab
        if case.fails:
            return
        self.steps += 1
        lo = {c.name: {} for c in clouds}
        hi = {c.name: {} for c in clouds}
        dens = self.densities()
        mean, var, exact = {c.name: 0. for c in clouds}, {c.name: 0. for c in clouds}, {}
        sizes = {c.name: set() for c in clouds}
        speeds = {c.name: set() for c in clouds}
        contrib = {}
        expDN, tolDN = {c.name: 0. for c in clouds}, {c.name: 0. for c in clouds}
        mass = {c.name: float(c.MP_e.mass) for c in clouds}
        nfeed = {}
        for pr in self.defs:
            st, _ = before[pr]
            v = np.sqrt(st['vx_mp']**2 + st['vy_mp']**2 + st['vz_mp']**2)
            E = .5 * mass[pr] / QE * v**2
            for p, d in self.defs[pr].items():
                s, tol, edge = sigma(self.tabs[pr, p], E)
                n = self.gas[pr, p] / self.area
                q = v * Dt * st['nel_mp'] * n
                DN, dDN = s * q, tol * q
                # at the edges of the table both answers are right
                dDN = np.where(edge, np.maximum(dDN, self.tabs[pr, p][2].max() * 1e-4 * q), dDN)
                tot, dtot = float(DN.sum()), float(dDN.sum())
                f = 1.
                if tot > .01 * self.gas[pr, p]:
                    case.count('gas-visibly-used')
                left = self.gas[pr, p] - f * tot
                case.check(abs(dens[pr, p] * self.area - left) <= dtot + 2e-3 + 4e-15 * self.gas[pr, p] + 1e-9 * tot, 'gas-density',
                           lambda: '%s: gas of %s/%s: %r per metre left, expected %r (was %r, %g generated) in step %d' % (lab, pr, p, dens[pr, p] * self.area, left, self.gas[pr, p], f * tot, self.steps))
                case.check(dens[pr, p] >= -1e-3 / self.area, 'gas-negative', lambda: '%s: gas of %s/%s has density %r' % (lab, pr, p, dens[pr, p]))
                # follow the density in use, so that errors do not pile up
                self.gas[pr, p] = max(0., dens[pr, p] * self.area)
                eq = bool(d.get('generate_equally', False))
                refs = [before[x][1] for x in d['products']]
                for x in d['products']:
                    ref = float(np.mean(refs)) if eq else before[x][1]
                    k = f * DN / ref
                    dk = f * dDN / ref + 1e-9 * (k + 1)
                    sizes[x].add(ref)
                    speeds[x].add(np.sqrt(2 * d['E_eV_init'] / 3. * QE / mass[x]))
                    expDN[x] += f * tot
                    tolDN[x] += dtot
                    nfeed[x] = nfeed.get(x, 0) + 1
                    contrib.setdefault(x, []).append((pr, p, ref, k, dk, eq))
                case.ok('%s|%d|%s|%d' % (self.tabs[pr, p][0], len(d['products']), 'equal' if eq else 'own', sum(len(z) for z in self.defs.values())))
                case.count('projectiles', len(v))
        got = {}
        for c in clouds:
            nm = c.name
            a, r = rows(c.MP_e), before[nm][0]
            n0 = len(r['x_mp'])
            if not case.check(len(a['x_mp']) >= n0, 'lost', lambda: '%s: cloud %s lost %d particles by cross-ionisation' % (lab, nm, n0 - len(a['x_mp']))):
                return
            for k in r:
                case.check(np.array_equal(a[k][:n0], r[k]), 'existing-' + k, lambda: '%s: cross-ionisation changed %s of particles of cloud %s' % (lab, k, nm))
            case.check(float(c.MP_e.nel_mp_ref) == before[nm][1], 'reference-size', '%s: reference size of %s changed' % (lab, nm))
            new = {k: a[k][n0:] for k in a}
            N = len(new['x_mp'])
            case.count('products', N)
            if nm not in contrib:
                case.check(N == 0, 'not-a-product', lambda: '%s: %d particles generated in cloud %s, which is no product' % (lab, N, nm))
                continue
            sz = np.array(sorted(sizes[nm]))
            if N:
                # np.mean and a sum of fractions round differently
                case.check(bool(np.all(np.abs(new['nel_mp'][:, None] / sz - 1).min(1) <= 1e-12)), 'product-size', lambda: '%s: products in %s of size %r, expected %r' % (lab, nm, np.unique(new['nel_mp'])[:4], sz))
                if 't_last_impact' in new:
                    case.check(bool(np.all(new['t_last_impact'] == -1)), 'product-time', '%s: products count as having hit the wall' % lab)
                vmax = max(speeds[nm])
                for ax in 'xyz':
                    w = new['v%s_mp' % ax]
                    case.check(bool(np.all(np.abs(w) <= .5 * vmax * (1 + 1e-12))), 'product-speed', lambda: '%s: product of %s with v%s=%r, at most %r expected' % (lab, nm, ax, np.abs(w).max(), .5 * vmax))
                    if len(speeds[nm]) == 1:
                        self.vel.setdefault((nm, ax), []).append(w / vmax)
            # which projectile did they come from
            P, L, H = [], [], []
            for pr, p, ref, k, dk, eq in contrib[nm]:
                st = before[pr][0]
                m = k + dk > 0
                P.append(np.array([st['x_mp'][m], st['y_mp'][m], st['z_mp'][m]]).T)
                L.append(np.maximum(0, np.floor(k[m] - dk[m])))
                H.append(np.floor(k[m] + dk[m]) + 1)
            P, L, H = np.concatenate(P).reshape(-1, 3), np.concatenate(L), np.concatenate(H)
            Q = np.array([new['x_mp'], new['y_mp'], new['z_mp']]).T
            _, inv = np.unique(np.concatenate([P, Q]), axis=0, return_inverse=True)
            inv = inv.ravel()
            M = inv.max() + 1 if len(inv) else 0
            low, high, num = np.bincount(inv[:len(P)], L, M), np.bincount(inv[:len(P)], H, M), np.bincount(inv[len(P):], minlength=M)
            bad = np.nonzero((num > 0) & (np.bincount(inv[:len(P)], minlength=M) == 0))[0]
            if len(bad):
                case.fail('product-position', '%s: a product in %s at %r, where no projectile can ionise' % (lab, nm, Q[inv[len(P):] == bad[0]][0]))
                return
            bad = np.nonzero((num < low) | (num > high))[0]
            if len(bad):
                j = bad[0]
                case.fail('product-number', '%s: %d products in %s from the projectile at %r, expected between %g and %g (step %d)' % (lab, num[j], nm, P[inv[:len(P)] == j][0], low[j], high[j], self.steps))
                return
            mu = sum(float(k.sum()) for _, _, _, k, _, _ in contrib[nm])
            dmu = sum(float(dk.sum()) for _, _, _, _, dk, _ in contrib[nm])
            fr = [k - np.floor(k) for _, _, _, k, _, _ in contrib[nm]]
            vv = sum(float((f * (1 - f)).sum()) for f in fr)
            z = self.z.setdefault(nm, [0., 0., 0., 0.])
            z[0] += N
            z[1] += mu
            z[2] += vv
            z[3] += dmu
            if any(x[5] for x in contrib[nm]):
                u, m = np.unique(Q, axis=0, return_counts=True)
                got[nm] = (u.tobytes(), m.tobytes())
            A = self.acc.setdefault(nm, [])
            A.append((float(new['nel_mp'].sum()), N, expDN[nm], tolDN[nm]))
        # equally: every projectile gives the same number to all products
        for pr in self.defs:
            for p, d in self.defs[pr].items():
                if d.get('generate_equally') and all(nfeed.get(x) == 1 for x in d['products']):
                    c0 = got.get(d['products'][0])
                    for x in d['products'][1:]:
                        case.check(got.get(x) == c0, 'equally', lambda: '%s: process %s/%s generates differently in %s and %s' % (lab, pr, p, d['products'][0], x))
                        case.count('equal-pairs')

    def final(self):
        case, lab = self.case, self.lab
        for nm, (N, mu, vv, d) in self.z.items():
            stats.zcheck(case, 'number', N, mu, np.sqrt(vv) + 2 + d, '%s: total number of products in %s' % (lab, nm), z=7)
        for (nm, ax), w in self.vel.items():
            w = np.concatenate(w)
            if len(w) >= 200:
                stats.ks(case, 'velocity', w + .5, 'uniform', '%s: v%s of products in %s' % (lab, ax, nm))


def simulated(case, clouds=1, sey='ECLOUD', dense=(17.5, 19.5), steps=None, **kw):
    rng = case.rng
    cfg = p18.config(rng, clouds=clouds, sey=sey, **kw)
    names = ['main'] + list(cfg.clouds)
    defs, tabs, files = definitions(rng, names, int(rng.integers(1, 4)), dense)
    cfg.files.update(files)
    cfg.sim['cross_ion_definitions'] = defs
    for c in cfg.clouds.values():
        c['nel_mp_ref_0'] = float(10**rng.uniform(3.5, 5))
    cfg.sim['dec_fact_out'] = int(rng.choice([1, 1, 2, 7]))
    cfg.sim['flag_lifetime_hist'] = False
    for k in ('Nbin_lifetime_hist', 'lifetime_hist_max', 'Dt_lifetime_hist'):
        cfg.sim.pop(k, None)
    if steps:
        # more records than the initial size of the recorder's arrays
        cfg.beam['filling_pattern_file'] = [1., 1., 0.]
        cfg.sim.update(Dt=7.5e-9 / float(rng.choice(steps)), Dt_sc=2.5e-9, dec_fact_out=1)
        cfg.mach['Nel_init_unif'] = 2e7
    lab = cfg.lab
    sim = cfg.build(case, 'sim')
    area = cfg.ref.area
    case.check(abs(sim.chamb.area - area) <= 1e-9 * area, 'area', '%s: chamber area %r, expected %r' % (lab, sim.chamb.area, area))
    w = Watch(case, lab, sim.cross_ion, defs, tabs, area)
    times = []
    Dts = []
    g = sim.cross_ion.generate

    def generate(Dt, cloud_list):
        Dts.append(float(Dt))
        return g(Dt=Dt, cloud_list=cloud_list)
    sim.cross_ion.generate = generate
    configs.on_step(sim, lambda s: times.append(float(s.beamtim.tt_curr)))
    sim.run()
    w.final()
    if case.fails:
        return
    case.check(len(Dts) == len(times) and np.allclose(Dts, cfg.sim['Dt'], rtol=1e-6, atol=0), 'step', '%s: cross-ionisation in %d of %d steps, step lengths %r' % (lab, len(Dts), len(times), sorted(set(Dts))[:3]))
    for c in sim.cloud_list:
        fn = c.pyeclsaver.filen_main_outp
        d = loadmat(fn)
        t = d['t'].ravel()
        idx = [times.index(float(x)) for x in t if float(x) in times]
        if not case.check(len(idx) == len(t), 'record-time', '%s: recorded times are no steps' % lab):
            return
        for nm in ('Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion'):
            if not case.check(d[nm].size == t.size, 'record-length-' + nm, lambda: '%s: %s of cloud %s has %d entries for %d recorded times' % (lab, nm, c.name, d[nm].size, t.size)):
                return
        A = np.array(w.acc.get(c.name, [(0., 0, 0., 0.)] * len(times)))
        start = 0
        for j, i in enumerate(idx):
            e = A[start:i + 1].sum(0)
            start = i + 1
            for k, (nm, tol) in enumerate((('Nel_cross_ion', 1e-9), ('N_mp_cross_ion', 0), ('DN_cross_ion', 1e-6))):
                g = float(d[nm].ravel()[j])
                case.check(abs(g - e[k]) <= tol * abs(e[k]) + 1e-12 + (e[3] if k == 2 else 0), 'record-' + nm, lambda: '%s: %s of cloud %s at t=%g is %r, %r generated since the previous record' % (lab, nm, c.name, t[j], g, e[k]))
            case.count('records')
    case.sample(config=lab, processes={pr: list(v) for pr, v in defs.items()}, products={k: v[0] for k, v in w.z.items()}, expected={k: round(v[1], 1) for k, v in w.z.items()})


class FakeCloud:
    pass


def direct(case, thin=False):
    rng = case.rng
    from PyECLOUD.cross_ionization import Cross_Ionization
    from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
    ch = ellip_cham_geom_object(2e-2, 1.5e-2, flag_verbose_file=False)
    from vlib.geomref import EllipRef
    ref = EllipRef(2e-2, 1.5e-2)
    names = ['el', 'ion', 'third'][:int(rng.integers(1, 4))]
    clouds = []
    for nm in names:
        c = FakeCloud()
        c.name = nm
        c.MP_e, _ = mpsys.make(rng, ch, nmax=60000, nel_mp_ref_0=float(10**rng.uniform(2, 4)), name=nm, moved=True)
        clouds.append(c)
    nproc = int(rng.integers(1, 5))
    defs, tabs, files = definitions(rng, names, nproc, (17., 19.))
    for f, d in files.items():
        sio.savemat(case.path(f), d, oned_as=str(rng.choice(['row', 'column'])))
    area = float(10**rng.uniform(-4, -2))
    if thin:
        for pr in defs:
            for p in defs[pr].values():
                p['target_density'] = float(10**rng.uniform(3., 6.) / area)
    lab = 'direct %d clouds %d processes%s' % (len(names), nproc, ' thin' if thin else '')
    cross = Cross_Ionization(case.scratch, defs, clouds, area)
    case.check(all(c.MP_e.N_mp == 0 for c in clouds), 'constructed', '%s: particles appeared during construction' % lab)
    w = Watch(case, lab, cross, defs, tabs, area)
    for _ in range(int(rng.integers(1, 5))):
        for c in clouds:
            MP = c.MP_e
            MP.N_mp = 0
            n = int(rng.choice([0, 1, 30, 300]))
            if n:
                x, y = chambers.inside_points(rng, ref, n)
                E = 10**rng.uniform(-2, 5, n)
                mine = [tabs[k] for k in tabs if k[0] == c.name]
                if mine:
                    e = mine[int(rng.integers(0, len(mine)))][1]
                    k = rng.random(n)
                    E = np.where(k < .6, rng.uniform(e[0], e[-1], n), np.where(k < .75, np.maximum(e[rng.integers(0, len(e), n)], 1e-3), E))
                    E = np.where(k > .97, 0., E)
                u = rng.normal(0, 1, (3, n))
                v = u / np.sqrt((u**2).sum(0)) * np.sqrt(2 * E * QE / MP.mass)
                MP.add_new_MPs(n, MP.nel_mp_ref * 10**rng.uniform(-2, 1, n), x, y, rng.normal(0, .1, n), v[0], v[1], v[2], -1.)
        # a step that gives a fraction to a hundred products per projectile
        big = use = 0.
        for (pr, p), tab in tabs.items():
            c = [c for c in clouds if c.name == pr][0].MP_e
            if c.N_mp:
                v = np.sqrt(c.vx_mp[:c.N_mp]**2 + c.vy_mp[:c.N_mp]**2 + c.vz_mp[:c.N_mp]**2)
                s, _, _ = sigma(tab, .5 * c.mass / QE * v**2)
                m = min(x.MP_e.nel_mp_ref for x in clouds)
                use = max(use, float((s * v * c.nel_mp[:c.N_mp]).sum() / area))
                big = max(big, float((s * v * c.nel_mp[:c.N_mp] * w.gas[pr, p] / area).sum() / m))
        if thin:
            # up to half of what is left
            Dt = float(rng.uniform(.05, .5) / use) if use else 1e-9
        else:
            Dt = float(10**rng.uniform(-2, 3.8) / big) if big else 1e-11
        cross.generate(Dt=Dt, cloud_list=clouds)
        if case.fails:
            return
        for c in clouds:
            g = cross.save_cross_ion_data(c.name)
            e = w.acc.get(c.name, [(0., 0, 0., 0.)])[-1]
            case.check(abs(g[0] - e[0]) <= 1e-9 * abs(e[0]) and g[1] == e[1] and abs(g[2] - e[2]) <= 1e-6 * abs(e[2]) + 1e-9 + e[3], 'account', lambda: '%s: account of %s says %r, generated %r' % (lab, c.name, g, e))
    w.final()
    case.sample(config=lab, products={k: v[0] for k, v in w.z.items()})


def extraction(case):
    """Curves extracted at construction agree with the table, change nothing; impossible definitions are refused."""
    rng = case.rng
    from PyECLOUD.cross_ionization import Cross_Ionization
    from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
    ch = ellip_cham_geom_object(2e-2, 1.5e-2, flag_verbose_file=False)
    names = ['el', 'ion']
    clouds = []
    for nm in names:
        c = FakeCloud()
        c.name = nm
        c.MP_e, _ = mpsys.make(rng, ch, nmax=5000, nel_mp_ref_0=1e4, name=nm)
        mpsys.append(rng, c.MP_e, __import__('vlib.geomref', fromlist=['EllipRef']).EllipRef(2e-2, 1.5e-2), 20)
        clouds.append(c)
    defs, tabs, files = definitions(rng, names, 1, (21., 23.5))
    (pr, p), tab = list(tabs.items())[0]
    d = defs[pr][p]
    if rng.random() < .5:
        d.pop('extract_sigma')
    else:
        d['extract_sigma'] = True
    f = list(files)[0]
    sio.savemat(case.path(f), files[f])
    a = [mpsys.capture(c.MP_e).full() for c in clouds]
    E = np.sort(np.concatenate([10**rng.uniform(-1, 5, 30), rng.uniform(tab[1][0], tab[1][-1], 50)]))
    n = 300
    cross = Cross_Ionization(case.scratch, defs, clouds, 1e-3, n_rep_test=n, energy_eV_test=E)
    case.check(a == [mpsys.capture(c.MP_e).full() for c in clouds], 'extract-cloud', 'the extraction changed the clouds')
    dens = [q.target_dens for q in cross.projectiles_dict[pr]]
    case.check(np.allclose(dens, d['target_density'], rtol=1e-12), 'extract-gas', 'the extraction used up gas: %r instead of %r' % (dens, d['target_density']))
    for c in clouds:
        case.check(tuple(cross.save_cross_ion_data(c.name)) == (0, 0, 0), 'extract-account', 'the extraction is in the account')
    fn = case.path(f[:-4] + '_extracted.mat')
    if not case.check(os.path.exists(fn), 'extract-file', 'no extracted cross section written'):
        return
    o = loadmat(fn)
    s, tol, edge = sigma(tab, E)
    case.check(np.array_equal(o['energy_eV'].ravel(), E), 'extract-energy', 'extracted at other energies')
    g = o['sigma_cm2_interp'].ravel()
    case.check(bool(np.all((np.abs(g - s * 1e4) <= tol * 1e4 + 1e-9 * s * 1e4) | edge)), 'extract-interp', lambda: 'cross section in use differs from the table: %r and %r at %r' % (g[np.argmax(np.abs(g - s * 1e4))], s[np.argmax(np.abs(g - s * 1e4))] * 1e4, E[np.argmax(np.abs(g - s * 1e4))]))
    m = [c for c in clouds if c.name == pr][0].MP_e
    v = np.sqrt(2 * E * QE / m.mass)
    for x in d['products']:
        k = o['sigma_cm2_sampled_' + x].ravel() * 1e-4
        per = d['target_density'] * v * 25e-11 * m.nel_mp_ref / 1e4  # products per projectile
        mean = s * per
        sd = np.sqrt(np.maximum((mean % 1) * (1 - mean % 1), 1e-12) / n) + tol * per
        bad = np.abs(k * per - mean) > 8 * sd + 3. / n + 1e-9 * mean
        case.check(not np.any(bad & ~edge), 'extract-sampled', lambda: 'sampled cross section of %s: %r, expected %r' % (x, k[bad][:3], s[bad][:3]))
    case.ok('extraction', len(E))
    # refusals
    import copy
    for what in ('projectile', 'product', 'spacing'):
        z = copy.deepcopy(defs)
        z[pr][p]['extract_sigma'] = False
        if what == 'projectile':
            z['nobody'] = z.pop(pr)
        elif what == 'product':
            z[pr][p]['products'] = list(z[pr][p]['products']) + ['nobody']
        else:
            e = np.sort(rng.uniform(1, 1000, 50))
            sio.savemat(case.path('bad.mat'), dict(energy_eV=e, cross_section_cm2=e * 1e-18))
            z[pr][p]['cross_section'] = 'bad.mat'
        try:
            Cross_Ionization(case.scratch, z, clouds, 1e-3)
            case.fail('accepted-' + what, 'a definition with an impossible %s was accepted' % what)
        except (AssertionError, ValueError, KeyError):
            case.ok('refused-' + what)


def tasks(tier):
    k = 1 if tier == 'quick' else 15
    return [Task(simulated, 8 * k, name='two', clouds=1, min_ok=300 * k), Task(simulated, 6 * k, name='three', clouds=2, min_ok=200 * k), Task(simulated, 3 * k, name='dense', clouds=1, dense=(19.5, 20.5), min_ok=100 * k),
            Task(simulated, 2 * k, name='long', clouds=1, dense=(20.3, 21.3), steps=[1100, 1300, 2100], min_ok=500 * k),
            Task(direct, 60 * k, name='direct', min_ok=80 * k), Task(direct, 30 * k, name='thin', thin=True, min_ok=40 * k), Task(extraction, 4 * k, name='extraction', min_ok=100 * k)]
