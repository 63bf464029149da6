"""P07: cleaning and soft/asynchronous regeneration observed operation by operation."""
import numpy as np
from vlib import configs, mpsys, chambers
from vlib.harness import Task

PROP, LEVEL = 'P07', 'exploration'
TECHNIQUE = 'runtime monitor around every cleaning and soft regeneration (content before versus after), in random operation histories and in real simulations'
NOTE = 'Every observed operation is judged against the complete cloud content before it; limited to the histories and simulations run. Randomness of the kept subset by statistical tests (false-alarm probability below 1e-9 per test).'
RULE = 'one evaluation = one observed cleaning or soft regeneration; distinct = (operation, acted or not, lifetime attribute, source, size class)'


class Watch:
    """Wraps the public operations of one MP_system."""

    def __init__(self, case, MP, lab):
        self.case, self.MP, self.lab = case, MP, lab
        self.fact = (float(MP.fact_split), float(MP.fact_clean))
        self.ref0 = float(MP.nel_mp_ref_0)
        self.kept, self.indep = [], []
        self.depth = 0
        self.nel_init = float(MP.nel_mp_ref_0)
        for name in ('clean_small_MPs', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
            self.wrap(name)

    def wrap(self, name):
        orig = getattr(self.MP, name)

        def f(*a, **k):
            if self.depth:
                return orig(*a, **k)
            self.depth += 1
            b = mpsys.capture(self.MP)
            try:
                r = orig(*a, **k)
            finally:
                self.depth -= 1
            self.judge(name, b, mpsys.capture(self.MP))
            return r
        setattr(self.MP, name, f)

    def common(self, name, b, a):
        c = self.case
        c.check(abs(a.split - self.fact[0] * a.ref) <= 1e-12 * a.split and abs(a.cl - self.fact[1] * a.ref) <= 1e-12 * max(a.cl, 1e-300), 'thresholds',
                '%s: after %s the reference size is %r but the splitting and cleaning sizes are %r, %r' % (self.lab, name, a.ref, a.split, a.cl))
        return c.check(0 <= a.N <= b.N, 'count', '%s: %s took the number of macroparticles from %d to %d' % (self.lab, name, b.N, a.N))

    def cleaned(self, b):
        keep = ~(b.q < b.cl)
        o = mpsys.Rows.__new__(mpsys.Rows)
        o.__dict__.update(b.__dict__)
        o.r, o.q = b.r[keep], b.q[keep]
        o.N, o.tot = int(keep.sum()), float(b.q[keep].sum())
        return o

    def judge(self, name, b, a):
        c = self.case
        if not self.common(name, b, a):
            return
        key = '%s|%%s|%s|%s|%d' % (name, b.life, self.lab.split(' ')[0], len(str(b.N)))
        if name == 'clean_small_MPs':
            w = self.cleaned(b)
            good = c.check(w.full() == a.full(), 'clean', lambda: '%s: cleaning of %d below %r: %d of %d kept, expected %d (charge %r, expected %r)' % (
                self.lab, int((b.q < b.cl).sum()), b.cl, a.N, b.N, w.N, a.tot, w.tot))
            want = self.ref0 if w.N == 0 else b.ref
            good &= c.check(abs(a.ref - want) <= 1e-12 * want, 'clean-ref', '%s: reference size after cleaning %r, expected %r (%d left)' % (self.lab, a.ref, want, a.N))
            c.ok(key % (w.N < b.N))
            return
        MP = self.MP
        if name == 'check_for_async_regeneration':
            on, thr, target = MP.flag_async_regen, getattr(MP, 'N_mp_async_regen', None), getattr(MP, 'N_mp_after_async_regen', None)
            if on and b.N > thr:
                b = self.cleaned(b)
                if b.N == 0:
                    b.ref = self.ref0
        else:
            on, thr, target = MP.flag_soft_regen, getattr(MP, 'N_mp_soft_regen', None), getattr(MP, 'N_mp_after_soft_regen', None)
        if not on or b.N <= thr or b.N <= target:
            c.check(b.full() == a.full() and abs(a.ref - b.ref) <= 1e-12 * b.ref, 'acted-below-trigger',
                    lambda: '%s: %s with %d macroparticles (trigger %s, target %s) changed the cloud: %d left, charge %r -> %r, reference %r -> %r' % (
                        self.lab, name, b.N, thr, target, a.N, b.tot, a.tot, b.ref, a.ref))
            c.ok(key % False)
            return
        self.regen(name, b, a, target)
        c.ok(key % True)

    def regen(self, name, b, a, target):
        c = self.case
        pos = {}
        for i, k in enumerate(b.keys()):
            pos.setdefault(k, []).append(i)
        ia = []
        for k in a.keys():
            lst = pos.get(k)
            if not lst:
                c.fail('altered', '%s: %s left a macroparticle that was not there before (%r)' % (self.lab, name, np.frombuffer(k)))
                return
            ia.append(lst.pop())
        ia = np.array(ia, int)
        c.check(abs(a.tot - b.tot) <= 1e-10 * b.tot, 'charge', '%s: %s changed the charge of the cloud from %r to %r (%d -> %d)' % (self.lab, name, b.tot, a.tot, b.N, a.N))
        m = b.q[ia] > 0
        if m.any():
            f = a.q[m] / b.q[ia][m]
            c.check(f.max() - f.min() <= 1e-9 * f.max(), 'factor', lambda: '%s: %s rescaled charges by different factors %r..%r' % (self.lab, name, f.min(), f.max()))
            c.check(np.all(a.q[~m] == 0), 'factor', '%s: empty macroparticles got charge' % self.lab)
        want = max(b.tot / target, self.ref0)
        c.check(abs(a.ref - want) <= 1e-9 * want, 'new-ref', '%s: %s of %r charges to %d macroparticles: reference size %r, expected %r' % (self.lab, name, b.tot, target, a.ref, want))
        p = target / b.N
        s = np.sqrt(b.N * p * (1 - p)) + 1e-9
        c.check(abs(a.N - target) <= 7 * s + 1, 'kept-number', '%s: %s kept %d of %d, target %d' % (self.lab, name, a.N, b.N, target))
        c.count('kept', a.N)
        if 50 <= a.N < b.N and len(ia) == a.N:
            # the kept ones are a random subset: mean rank of every attribute, of the charge and of the storage order
            N, n = b.N, a.N
            for j, v in enumerate(list(b.r.T) + [b.q, np.arange(N)]):
                if np.ptp(v) == 0:
                    continue
                rk = np.argsort(np.argsort(v, kind='stable'), kind='stable') / (N - 1.) - .5
                z = rk[ia].mean() / np.sqrt((1. / 12.) / n * (1 - n / float(N)) + 1e-30)
                c.check(abs(z) < 7, 'not-random', lambda: '%s: %s prefers large or small %s (z=%.1f, %d of %d kept)' % (self.lab, name, (mpsys.ROW[:b.r.shape[1]] + ('charge', 'order'))[j], z, n, N))


def history(case):
    rng = case.rng
    kind = str(rng.choice(['ellip', 'rect', 'convex', 'nonconvex']))
    ch, ref, clab = chambers.make(rng, kind)
    nmax = int(rng.choice([300, 1000, 4000]))
    thr = int(nmax * rng.uniform(.2, .8))
    over = {}
    mode = str(rng.choice(['soft', 'async', 'both', 'off'], p=[.35, .35, .2, .1]))
    if mode in ('soft', 'both'):
        over.update(N_mp_soft_regen=thr, N_mp_after_soft_regen=int(max(45, thr * rng.uniform(.1, 1.1))))
    if mode in ('async', 'both'):
        over.update(N_mp_async_regen=thr + 10, N_mp_after_async_regen=int(max(45, thr * rng.uniform(.1, 1.1))))
    MP, kw = mpsys.make(rng, ch, nmax=nmax, **over)
    Watch(case, MP, 'history-%s %s' % (mode, clab))
    saved = []
    for i in range(60 if case.tier == 'quick' else 150):
        op = str(rng.choice(['add', 'clean', 'soft', 'async', 'save', 'init', 'unif', 'full', 'regen', 'sparse'], p=[.36, .12, .17, .17, .04, .05, .03, .02, .02, .02]))
        room = nmax - MP.N_mp
        if op == 'add':
            n0, n = MP.N_mp, int(min(room, rng.choice([1, 7, nmax // 6, nmax // 3])))
            mpsys.append(rng, MP, ref, n)
            if rng.random() < .3 and MP.nel_mp_cl_th > 0:
                # charges at the threshold
                s = n0 + np.flatnonzero(rng.random(n) < .3)
                MP.nel_mp[s] = rng.choice([MP.nel_mp_cl_th, np.nextafter(MP.nel_mp_cl_th, 0), np.nextafter(MP.nel_mp_cl_th, np.inf)], len(s))
            if rng.random() < .2:
                # nearly all charge in a few macroparticles
                s = n0 + np.flatnonzero(rng.random(n) < .02)
                MP.nel_mp[s] = MP.nel_mp_ref * 10**rng.uniform(2, 6, len(s))
        elif op == 'sparse' and MP.nel_mp_cl_th > 0:
            # a cloud of which very few survive
            n, k = int(rng.integers(1, 30)), int(rng.integers(0, 4))
            d = {a: rng.normal(0, 1e-3, n) for a in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp')}
            q = MP.nel_mp_cl_th * rng.uniform(0, .99, n)
            q[rng.permutation(n)[:k]] = MP.nel_mp_cl_th * rng.uniform(1.01, 50, min(k, n))
            d.update(N_mp=n, nel_mp=q)
            if MP.flag_lifetime_hist:
                d['t_last_impact'] = rng.uniform(0, 1e-6, n)
            MP.init_from_dict(d)
            MP.clean_small_MPs()
        elif op == 'full':
            mpsys.append(rng, MP, ref, room)
        elif op == 'clean':
            MP.clean_small_MPs()
        elif op == 'soft':
            MP.check_for_soft_regeneration()
        elif op == 'async':
            MP.check_for_async_regeneration()
        elif op == 'save':
            saved.append(MP.extract_dict())
        elif op == 'init' and saved:
            MP.init_from_dict(saved[int(rng.integers(len(saved)))])
        elif op == 'unif' and room > 10:
            n = int(rng.integers(1, room))
            MP.add_uniform_MP_distrib(n * MP.nel_mp_ref * .9, 10., None, None, None, None) if kind != 'convex' and kind != 'nonconvex' else None
        elif op == 'regen' and MP.N_mp > 20:
            MP.set_nel_mp_ref(MP.nel_mp_ref_0 * float(rng.uniform(1, 3)))
        if len(case.fails) > 5:
            return
    case.sample(chamber=clab, mode=mode, final=int(MP.N_mp))


def simulate(case, regen):
    cfg = configs.random(case.rng, regen=regen)
    cfg.sim.update(fact_clean=float(case.rng.choice([1e-6, 1e-2, .2])))
    if case.rng.random() < .5:
        cfg.sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=50, lifetime_hist_max=1e-8, Dt_lifetime_hist=2.5e-9)
    if regen == 'soft':
        cfg.sim.update(N_mp_soft_regen=300, N_mp_after_soft_regen=100)
    elif regen == 'async':
        cfg.sim.update(N_mp_async_regen=400, N_mp_after_async_regen=150)
    sim = cfg.build(case)
    w = [Watch(case, cl.MP_e, 'sim-%s %s' % (regen, cfg.lab)) for cl in sim.cloud_list]
    # when the operations happen: cleaning and soft regeneration once per passage, asynchronous regeneration every step
    log = []
    mp = sim.cloud_list[0].MP_e
    for name in ('clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration'):
        def f(*a, _n=name, _o=getattr(mp, name), **k):
            if w[0].depth == 0:
                log.append(_n)
            return _o(*a, **k)
        setattr(mp, name, f)

    def before(s):
        log.clear()

    def after(s):
        want = ['check_for_async_regeneration'] if mp.flag_async_regen else []
        if s.beamtim.flag_new_bunch_pass:
            want = ['clean_small_MPs', 'check_for_regeneration', 'check_for_soft_regeneration'][:3 if mp.flag_soft_regen else 2] + want
        got = [n for n in log if (mp.flag_async_regen or n != 'check_for_async_regeneration') and (mp.flag_soft_regen or n != 'check_for_soft_regeneration')]
        case.check(got == want, 'schedule', 'step at %r (new passage: %s): operations %s, expected %s' % (s.beamtim.tt_curr, s.beamtim.flag_new_bunch_pass, got, want))
        if case.fails:
            raise StopIteration
    configs.on_step(sim, after, before)
    try:
        sim.run()
    except StopIteration:
        return
    case.sample(config=cfg.lab)


def tasks(tier):
    k = 1 if tier == 'quick' else 8
    return [Task(history, 160 * k, min_ok=1000)] + [Task(simulate, 16 * k, name='sim-' + r, regen=r, min_ok=200) for r in ('none', 'hard', 'soft', 'async')]
