"""P08: every full regeneration is compared, phase-space cell by phase-space cell, with the cloud it replaced."""
import itertools
import numpy as np
from vlib import configs, mpsys, chambers
from vlib.harness import Task

PROP, LEVEL = 'P08', 'exploration'
TECHNIQUE = 'runtime monitor around every regeneration check: trigger, charge, containment and cell-by-cell phase-space comparison with the replaced cloud'
NOTE = ('Every observed regeneration is judged against the full cloud content before it with an independent assignment to phase-space cells; positions within a cell '
        'by a distribution test (false-alarm probability below 1e-9). Limited to the histories and simulations run.')
RULE = 'one evaluation = one observed regeneration check (acting or not); distinct = (acting, trigger, source, chamber, kind of distribution)'


def tail(x, q, xg0, Dx, n, cut):
    """Largest |x| that is not part of the negligible tail (linear sharing between neighbouring grid lines)."""
    u = (x - xg0) / Dx
    i = np.floor(u).astype(int)
    f = u - i
    h = np.bincount(i, weights=q * (1 - f), minlength=n) + np.bincount(i + 1, weights=q * f, minlength=n)[:max(n, i.max() + 2)][:n] if len(x) else np.zeros(n)
    tot = h.sum()
    k = 1
    while h[:k].sum() + h[-k:].sum() < cut * tot:
        k += 1
    return (n - k + 1) * Dx + xg0


class Watch:
    def __init__(self, case, MP, ref, lab):
        self.case, self.MP, self.ref, self.lab = case, MP, ref, lab
        self.ref0, self.n_before = float(MP.nel_mp_ref_0), 0
        orig = MP.check_for_regeneration

        def f(*a, **k):
            b = mpsys.capture(MP)
            b.xy = np.array(MP.x_mp[:b.N]), np.array(MP.y_mp[:b.N])
            b.v = np.array(MP.vx_mp[:b.N]), np.array(MP.vy_mp[:b.N]), np.array(MP.vz_mp[:b.N])
            r = orig(*a, **k)
            self.judge(b, mpsys.capture(MP))
            return r
        MP.check_for_regeneration = f

    def judge(self, b, a):
        c, MP = self.case, self.MP
        up = b.N > MP.N_mp_regen
        low = b.N < MP.N_mp_regen_low and b.ref > self.ref0
        if not (up or low):
            c.check(a.full() == b.full() and a.ref == b.ref, 'acted', lambda: '%s: regeneration check with %d macroparticles (window %r..%r, reference %r, initial %r) changed the cloud: %d left, charge %r -> %r, reference %r' % (
                self.lab, b.N, MP.N_mp_regen_low, MP.N_mp_regen, b.ref, self.ref0, a.N, b.tot, a.tot, a.ref))
            c.ok('idle|%s' % self.lab.split(' ')[0])
            return
        want = max(b.tot / MP.N_mp_after_regen, self.ref0)
        what = '%s: regeneration of %d macroparticles (%r charges, target %d)' % (self.lab, b.N, b.tot, MP.N_mp_after_regen)
        if not c.check(abs(a.ref - want) <= 1e-9 * want, 'new-ref', '%s: reference size %r, expected %r' % (what, a.ref, want)):
            return
        c.check(abs(a.split - MP.fact_split * a.ref) <= 1e-12 * a.split and abs(a.cl - MP.fact_clean * a.ref) <= 1e-12 * max(a.cl, 1e-300), 'thresholds', '%s: splitting/cleaning sizes %r, %r with reference %r' % (what, a.split, a.cl, a.ref))
        c.check(np.all(np.abs(a.q - a.ref) <= 1e-12 * a.ref), 'unequal', lambda: '%s: sizes %r..%r, reference %r' % (what, a.q.min(), a.q.max(), a.ref))
        x, y = np.array(MP.x_mp[:a.N]), np.array(MP.y_mp[:a.N])
        v = np.array(MP.vx_mp[:a.N]), np.array(MP.vy_mp[:a.N]), np.array(MP.vz_mp[:a.N])
        if a.N:
            bad = ~(self.ref.inside(x, y) | (self.ref.dist(x, y) < 1e-12))
            c.check(not bad.any(), 'outside', lambda: '%s: regenerated particle at (%r, %r) outside the chamber' % (what, x[np.argmax(bad)], y[np.argmax(bad)]))
            if a.life:
                t = np.array(MP.t_last_impact[:a.N])
                c.check(np.all(t == -1), 'lifetime', lambda: '%s: new macroparticles have a time of last impact (%r)' % (what, t[t != -1][0]))
        # the replaced distribution without its negligible tail
        n1 = len(np.arange(0, MP.chamb.x_aper + 2. * MP.Dx_hist_reg, MP.Dx_hist_reg, float))
        xm = tail(b.xy[0], b.q, -(n1 - 1) * MP.Dx_hist_reg, MP.Dx_hist_reg, 2 * n1 - 1, MP.regen_hist_cut)
        kp = np.abs(b.xy[0]) <= xm
        near = np.abs(np.abs(b.xy[0]) - xm) < 1e-12 * MP.Dx_hist_reg
        q = b.q[kp]
        c.check(b.q[~kp].sum() <= MP.regen_hist_cut * b.tot * (1 + 1e-9) + 1e-300, 'oracle', 'tail')
        if near.any() or not len(q):
            return
        n = np.array([MP.Nx_reg, MP.Ny_reg, MP.Nvx_reg, MP.Nvy_reg, MP.Nvz_reg])
        old = np.array([b.xy[0][kp], b.xy[1][kp]] + [w[kp] for w in b.v])
        mx = np.array([xm, MP.chamb.y_aper] + [np.abs(w).max() or 1e-5 for w in old[2:]])
        D = 2 * mx / (n - 1)
        bias = np.ceil(n / 2.)
        u = old / D[:, None]
        i0 = np.clip(np.rint(u) + bias[:, None], 1, n[:, None]).astype(int)
        amb = np.abs(np.abs(u - np.floor(u)) - .5) < 1e-7
        new = np.array([x, y] + list(v))
        un = new / D[:, None]
        i1 = (np.rint(un) + bias[:, None]).astype(int)
        lo, hi = {}, {}
        for p in range(i0.shape[1]):
            if not amb[:, p].any():
                k = tuple(i0[:, p])
                lo[k] = lo.get(k, 0.) + q[p]
                hi[k] = hi.get(k, 0.) + q[p]
            else:
                ch = [sorted({int(np.clip(np.floor(u[d, p]) + e + bias[d], 1, n[d])) for e in (0, 1)}) if amb[d, p] else [int(i0[d, p])] for d in range(5)]
                for k in itertools.product(*ch):
                    lo[k] = lo.get(k, 0.)
                    hi[k] = hi.get(k, 0.) + q[p]
        cnt = {}
        for k in zip(*i1.tolist()):
            cnt[k] = cnt.get(k, 0) + 1
        mean = var = 0.
        for k, m in cnt.items():
            if k not in hi:
                d = min(hi, key=lambda h: sum(abs(s - t) for s, t in zip(h, k)))
                c.fail('new-cell', '%s: %d macroparticles in phase-space cell %s of the %s grid where there was no charge (nearest occupied cell %s)' % (what, m, k, tuple(n), d))
                return
        tot_lo = tot_hi = 0
        for k in hi:
            m = cnt.get(k, 0)
            l, h = np.floor(lo[k] / a.ref * (1 - 1e-9)), np.floor(hi[k] / a.ref * (1 + 1e-9)) + 1
            if not c.check(l <= m <= h, 'cell-charge', lambda: '%s: cell %s held %r reference charges, now %d' % (what, k, hi[k] / a.ref, m)):
                return
            f = hi[k] / a.ref % 1
            mean += m - hi[k] / a.ref
            var += f * (1 - f)
        if not amb.any():
            c.check(abs(mean) <= 7 * np.sqrt(var) + 1e-6 * len(hi), 'rounding-bias', '%s: %d occupied cells, %r macroparticles more than expected (deviation %r allowed)' % (what, len(hi), mean, 7 * np.sqrt(var)))
        from scipy.stats import kstest
        for d in range(2, 5):
            fr = un[d] - np.rint(un[d]) + .5
            if len(fr) >= 100:
                st, p = kstest(fr, 'uniform')[:2]
                c.check(p > 1e-11, 'within-cell', '%s: velocities are not spread over their cells (axis %d, D=%.3f, p=%.1e)' % (what, d - 2, st, p))
        self.n_before += 1
        c.count('regenerations')
        c.count('cells', len(hi))
        c.count('regenerated_particles', a.N)
        c.ok('acting|%s|%s' % ('up' if up else 'low', self.lab.split(' ')[0]))


def cloud(case, rng, MP, ref, n):
    """Adds n particles with some structure."""
    k = str(rng.choice(['unif', 'stripe', 'cold', 'cluster', 'tailed']))
    x, y = chambers.inside_points(rng, ref, n)
    if k in ('stripe', 'cluster'):
        x0, y0 = chambers.inside_points(rng, ref, 1)
        f = 10**rng.uniform(-4, -1)
        xs = x0 + f * (x - x0) if k == 'cluster' else x
        ys = y0 + f * (y - y0)
        m = ref.inside(xs, ys) & (ref.dist(xs, ys) > 1e-9 * ref.scale)
        x, y = np.where(m, xs, x), np.where(m, ys, y)
    v0 = np.sqrt(2 * 10**rng.uniform(-1, 3) * 1.6e-19 / MP.mass)
    if k == 'cold':
        v = np.tile(rng.normal(0, v0, (3, 1)), (1, n)) * (1 if rng.random() < .5 else 0)
    elif k == 'tailed':
        v = v0 * rng.standard_t(2, (3, n))
    else:
        v = rng.normal(0, v0, (3, n))
    q = MP.nel_mp_ref * 10**rng.uniform(-2, .5, n)
    if rng.random() < .2:
        q[rng.random(n) < .2] = 0.
    MP.add_new_MPs(n, q, x.copy(), y.copy(), np.zeros(n), v[0].copy(), v[1].copy(), v[2].copy(), rng.uniform(0, 1e-7, n))
    return k


def history(case):
    rng = case.rng
    kind = str(rng.choice(['ellip', 'rect', 'convex', 'nonconvex']))
    ch, ref, clab = chambers.make(rng, kind)
    nmax = 3000
    g = (lambda: int(rng.integers(3, 40)))
    MP, kw = mpsys.make(rng, ch, nmax=nmax, N_mp_regen=int(rng.integers(100, 900)), N_mp_after_regen=int(rng.integers(50, 1200)), N_mp_regen_low=int(rng.choice([0, 60, 200])),
                        Nx_reg=g(), Ny_reg=g(), Nvx_reg=g(), Nvy_reg=g(), Nvz_reg=g())
    w = Watch(case, MP, ref, 'history-%s %s' % (kind, clab))
    for i in range(10):
        k = '-'
        room = nmax - MP.N_mp
        if rng.random() < .8 and room > 0:
            k = cloud(case, rng, MP, ref, int(min(room, rng.choice([3, 40, 400, 1200]))))
        if MP.N_mp == 0 or rng.random() < .3:  # simulations always clean before
            MP.clean_small_MPs()
        w.lab = 'history-%s-%s %s' % (kind, k, clab)
        MP.check_for_regeneration()
        if rng.random() < .3:  # heavy macroparticles, so that the lower limit matters
            MP.set_nel_mp_ref(MP.nel_mp_ref * float(rng.uniform(1, 4)))
        if case.fails:
            return
    case.sample(chamber=clab, grid=[kw[k] for k in ('Nx_reg', 'Ny_reg', 'Nvx_reg', 'Nvy_reg', 'Nvz_reg')], left=int(MP.N_mp))


def simulate(case):
    cfg = configs.random(case.rng, regen='hard')
    cfg.sim.update(N_mp_regen=int(case.rng.integers(120, 300)), N_mp_after_regen=int(case.rng.integers(60, 150)), t_ON_regen_low=1e-10, N_mp_regen_low=40,
                   regen_hist_cut=float(case.rng.choice([1e-4, 1e-2])), **{k: int(case.rng.integers(5, 30)) for k in ('Nx_regen', 'Ny_regen', 'Nvx_regen', 'Nvy_regen', 'Nvz_regen')})
    sim = cfg.build(case)
    for cl in sim.cloud_list:
        w = Watch(case, cl.MP_e, cfg.ref, 'sim-%s %s' % (cfg.mach['chamb_type'], cfg.lab))

    def after(s):
        if case.fails:
            raise StopIteration
    configs.on_step(sim, after)
    try:
        sim.run()
    except StopIteration:
        return
    case.sample(config=cfg.lab)


def tasks(tier):
    k = 1 if tier == 'quick' else 10
    return [Task(history, 240 * k, min_ok=800), Task(simulate, 30 * k, min_ok=50)]
