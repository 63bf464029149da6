"""P09: every addition of macroparticles is compared with what was asked for; nothing is lost silently at full capacity."""
import numpy as np
import scipy.io as sio
from vlib import configs, mpsys, chambers, simgen
from vlib.harness import Task
from vlib.simgen import QE

PROP, LEVEL = 'P09', 'exploration'
TECHNIQUE = 'runtime monitor around every addition of macroparticles (content before, request, content after), with fault pressure at full capacity'
NOTE = ('Every observed addition is judged against the request and the complete content before it; limited to the histories and simulations run. '
        'Uniformity and numbers of random distributions by statistical tests (false-alarm probability below 1e-9 per test).')
RULE = 'one evaluation = one observed addition; distinct = (operation, chamber kind, size class, room: plenty / exact / exceeded)'
STALE = 7.77e33


def new_rows(MP, n0):
    n = int(MP.N_mp)
    return {k: np.array(getattr(MP, k)[n0:n]) for k in mpsys.ROW[:6] + ('nel_mp',) + (('t_last_impact',) if MP.flag_lifetime_hist else ())}


def old_same(case, MP, b, what):
    o = np.ascontiguousarray(np.array([np.array(getattr(MP, k)[:b.N]) for k in mpsys.ROW if k != 't_last_impact' or b.life]).T)
    if not case.check(o.shape == b.r.shape and np.array_equal(o, b.r) and np.array_equal(np.array(MP.nel_mp[:b.N]), b.q), 'existing-changed', '%s changed particles that were already there' % what):
        return False
    return case.check(MP.nel_mp_ref == b.ref, 'ref-changed', '%s changed the reference size' % what)


class Op:
    """One requested addition: call(), expected number range, judge(new rows)."""

    def __init__(self, name, call, nmin, nmax, judge):
        self.name, self.call, self.nmin, self.nmax, self.judge = name, call, nmin, nmax, judge


def do(case, MP, op, lab):
    b = mpsys.capture(MP)
    room = b.cap - b.N
    what = '%s: %s with %d of %d places used' % (lab, op.name, b.N, b.cap)
    # whatever is left in the unused storage is not content
    names = [k for k in mpsys.ROW[:6] + ('nel_mp',) + (('t_last_impact',) if MP.flag_lifetime_hist else ())]
    for k in names:
        getattr(MP, k)[b.N:] = STALE
    try:
        op.call()
    except Exception as e:
        if op.nmax <= room:
            case.fail('refused', '%s raised %s: %s, although %d..%d macroparticles fit' % (what, type(e).__name__, e, op.nmin, op.nmax))
            return False
        case.check(MP.N_mp == b.N, 'count-after-failure', '%s failed and left N_mp = %r' % (what, MP.N_mp))
        old_same(case, MP, b, what + ' (failed)')
        case.ok('%s|%s|exceeded' % (op.name, lab.split(' ')[0]))
        case.count('loud_failures')
        return False
    n = MP.N_mp
    if not case.check(isinstance(n, (int, np.integer)) and n <= b.cap, 'over-capacity', '%s: now N_mp = %r, no error' % (what, n)):
        return False
    if not case.check(op.nmin <= n - b.N <= op.nmax, 'number', '%s: %d macroparticles added, %d..%d expected' % (what, n - b.N, op.nmin, op.nmax)):
        return False
    if not old_same(case, MP, b, what):
        return False
    r = new_rows(MP, b.N)
    for k in names:
        case.check(not np.any(np.abs(r[k] / STALE - 1) < 1e-9), 'not-set', lambda: '%s: %s of new particles not set' % (what, k))
    op.judge(r, what)
    case.ok('%s|%s|%s' % (op.name, lab.split(' ')[0], 'exact' if n == b.cap else len(str(n - b.N))))
    case.count('added', n - b.N)
    return True


def make_op(case, rng, MP, ch, ref, n, kind):
    """An addition of about n macroparticles."""
    life = MP.flag_lifetime_hist
    bx = (ref.X.min(), ref.X.max(), ref.Y.min(), ref.Y.max()) if ref.kind == 'poly' else (-ref.a, ref.a, -ref.b, ref.b)
    if kind == 'new':
        x, y = chambers.inside_points(rng, ref, n) if n else (np.zeros(0), np.zeros(0))
        w = dict(x_mp=x, y_mp=y, z_mp=rng.normal(0, .1, n), vx_mp=rng.normal(0, 1e6, n), vy_mp=rng.normal(0, 1e6, n), vz_mp=rng.normal(0, 1e6, n), nel_mp=rng.uniform(1, 1e6, n), t_last_impact=rng.uniform(0, 1e-6, n))
        scal = str(rng.choice(['', 'nel_mp', 't_last_impact', 'z_mp']))
        if scal:
            w[scal] = float(rng.uniform(1, 5))

        def judge(r, what):
            for k in r:
                case.check(np.array_equal(r[k], np.broadcast_to(w[k], (n,))), 'content', lambda: '%s: %s stored %r, requested %r' % (what, k, r[k][:3], np.atleast_1d(w[k])[:3]))
        a = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in w.items()}
        return Op('add_new_MPs', lambda: MP.add_new_MPs(n, a['nel_mp'], a['x_mp'], a['y_mp'], a['z_mp'], a['vx_mp'], a['vy_mp'], a['vz_mp'], a['t_last_impact']), n, n, judge)
    if kind in ('dict', 'file'):
        d = {k: rng.normal(0, 1., n) for k in mpsys.ROW[:6]}
        d['nel_mp'] = rng.uniform(1, 1e6, n)
        d['N_mp'] = n
        tl = rng.random() < .5
        if tl:
            d['t_last_impact'] = rng.uniform(0, 1e-6, n)

        def judge(r, what):
            for k in r:
                e = d[k] if k in d else np.full(n, -1.)
                case.check(np.array_equal(r[k], e), 'content', lambda: '%s: %s loaded %r, file has %r' % (what, k, r[k][:3], e[:3]))
        if kind == 'file':
            sio.savemat(case.path('mp.mat'), d, oned_as=str(rng.choice(['row', 'column'])))
            return Op('add_from_file', lambda: MP.add_from_file(case.path('mp.mat')), n, n, judge)
        return Op('add_from_dict', lambda: MP.add_from_file({k: np.array(v) for k, v in d.items()}), n, n, judge)
    if kind in ('unif', 'dens'):
        E = float(10**rng.uniform(-2, 3))
        if ch.chamb_type in ('rect', 'ellip') and rng.random() < .5 or kind == 'dens':
            win = [None] * 4
        else:
            # a window that contains part of the inside
            x0, y0 = chambers.inside_points(rng, ref, 1)
            f = rng.uniform(.05, .8, 4)
            win = [float(x0[0] + f[0] * (bx[1] - x0[0])), float(x0[0] - f[1] * (x0[0] - bx[0])), float(y0[0] + f[2] * (bx[3] - y0[0])), float(y0[0] - f[3] * (y0[0] - bx[2]))]
        v0 = np.sqrt(2 * E / 3 * QE * (abs(MP.charge) / QE) / MP.mass)
        q = MP.nel_mp_ref
        full = [v if v is not None else d for v, d in zip(win, (ch.x_aper, -ch.x_aper, ch.y_aper, -ch.y_aper))]

        def judge(r, what):
            m = len(r['x_mp'])
            if not m:
                return
            x, y = r['x_mp'], r['y_mp']
            ins = ref.inside(x, y) | (ref.dist(x, y) < 1e-12)
            case.check(ins.all(), 'outside', lambda: '%s: (%r, %r) outside the chamber' % (what, x[~ins][0], y[~ins][0]))
            ok = (x <= full[0]) & (x >= full[1]) & (y <= full[2]) & (y >= full[3])
            case.check(ok.all(), 'window', lambda: '%s: (%r, %r) outside the window %r' % (what, x[~ok][0], y[~ok][0], full))
            case.check(np.all(r['z_mp'] == 0), 'content', '%s: z %r' % (what, r['z_mp'][:3]))
            case.check(np.all(r['nel_mp'] == q), 'size', lambda: '%s: sizes %r..%r, reference %r' % (what, r['nel_mp'].min(), r['nel_mp'].max(), q))
            for k in ('vx_mp', 'vy_mp', 'vz_mp'):
                case.check(np.all(np.abs(r[k]) <= .5 * v0 * (1 + 1e-9)), 'speed', lambda: '%s: %s up to %r, limit %r for %r eV' % (what, k, np.abs(r[k]).max(), .5 * v0, E))
            if 't_last_impact' in r:
                case.check(np.all(r['t_last_impact'] == -1), 'lifetime', lambda: '%s: time of last impact %r for particles that never hit the wall' % (what, r['t_last_impact'][:3]))
            if m >= 500:
                from scipy.stats import ks_2samp
                xs, ys = rng.uniform(full[1], full[0], 60000), rng.uniform(full[3], full[2], 60000)
                i = ref.inside(xs, ys)
                if i.sum() > 1000:
                    for u, w, nm in ((x, xs[i], 'x'), (y, ys[i], 'y'), (x + y, (xs + ys)[i], 'x+y')):
                        st, p = ks_2samp(u, w)[:2]
                        case.check(p > 1e-11, 'uniformity', '%s: %s is not uniform over the window inside the chamber (p=%.1e)' % (what, nm, p))
        if kind == 'unif':
            N = n + float(rng.choice([0., rng.random()]))
            return Op('add_uniform_MP_distrib', lambda: MP.add_uniform_MP_distrib(N * q, E, *win), int(np.floor(N * (1 - 1e-12))), int(np.floor(N * (1 + 1e-12))) + 1, judge)
        box = 4 * ch.x_aper * ch.y_aper
        frac = ref.area / box
        dens = n / frac * q / box
        s = 7 * np.sqrt(n / frac * frac * (1 - frac) + 1)
        return Op('add_uniform_ele_density', lambda: MP.add_uniform_ele_density(dens, E, *win), max(0, int(n - s - 2)), int(n + s + 2), judge)
    if kind == 'gas':
        from PyECLOUD.gas_ionization_class import residual_gas_ionization
        g = residual_gas_ionization(float(rng.random()), 10., 2., 300., ch, .1, flag_lifetime_hist=life)
        sx = 1e-3
        ins = ref.dist([0.], [0.])[0] > 1e-3 and ref.inside([0.], [0.])[0]
        x0, y0 = (0., 0.) if ins else [float(v[0]) for v in chambers.inside_points(rng, ref, 1)]
        from scipy.constants import c, k as kb
        lam = n * MP.nel_mp_ref / (10. * 133.32e-9 / (kb * 300.) * 2e-22 * c * 1e-10)

        def judge(r, what):
            case.check(np.all(r['nel_mp'] == MP.nel_mp_ref) and np.all(r['z_mp'] == 0), 'content', '%s: sizes or z wrong' % what)
            case.check(np.all(ref.inside(r['x_mp'], r['y_mp']) | (ref.dist(r['x_mp'], r['y_mp']) < 1e-12)), 'outside', '%s: outside the chamber' % what)
            if 't_last_impact' in r:
                case.check(np.all(r['t_last_impact'] == -1), 'lifetime', lambda: '%s: time of last impact %r' % (what, r['t_last_impact'][:3]))
        return Op('gas_ionization', lambda: g.generate(MP, lam, 1e-10, sx, sx, x0, y0), max(0, n - 1), n + 1, judge)


def history(case):
    rng = case.rng
    kind = str(rng.choice(['ellip', 'rect', 'convex', 'nonconvex']))
    ch, ref, clab = chambers.make(rng, kind)
    nmax = int(rng.choice([1, 50, 500, 3000]))
    MP, kw = mpsys.make(rng, ch, nmax=nmax, moved=True)
    lab = '%s %s' % (kind, clab)
    for i in range(40):
        room = nmax - MP.N_mp
        op = str(rng.choice(['new', 'dict', 'file', 'unif', 'dens', 'gas']))
        if op == 'dens' and (abs(ch.x_aper * ch.y_aper * 4) < 1e-12):
            continue
        # sizes around the remaining room are the interesting ones
        n = int(rng.choice([1, 2, 10, max(1, room // 3), max(room - 1, 1), max(1, room), room + 1, room + 20], p=[.15, .1, .2, .25, .08, .1, .06, .06]))
        if op == 'file' and n == 0:
            continue
        case.reseed(i)
        o = make_op(case, rng, MP, ch, ref, n, op)
        do(case, MP, o, lab)
        if case.fails:
            return
        u = rng.random()
        if u < .25 and MP.N_mp:
            # make room again, leaving used storage behind
            MP.nel_mp[:MP.N_mp][rng.random(MP.N_mp) < rng.choice([.3, .9, 1.])] = 0.
            MP.fact_clean = 1e-9
            MP.set_nel_mp_ref(MP.nel_mp_ref)
            MP.clean_small_MPs()
        elif u < .3:
            d = MP.extract_dict()
            b = mpsys.capture(MP)
            MP.init_from_dict(d)
            a = mpsys.capture(MP)
            case.check(np.array_equal(a.r[:, :6], b.r[:, :6]) and np.array_equal(a.q, b.q) and a.N == b.N, 'extract-init', '%s: extract_dict/init_from_dict changed the cloud' % lab)
            case.check(not b.life or np.array_equal(a.r, b.r), 'extract-init-lifetime', '%s: extract_dict/init_from_dict lost the times of last impact' % lab)
            case.ok('extract-init|' + kind)
    case.sample(chamber=clab, capacity=nmax, final=int(MP.N_mp))


def uniform(case):
    """Large initial distributions."""
    rng = case.rng
    kind = str(rng.choice(['ellip', 'rect', 'convex', 'nonconvex']))
    ch, ref, clab = chambers.make(rng, kind)
    MP, kw = mpsys.make(rng, ch, nmax=40000, moved=True)
    for i in range(4):
        case.reseed(i)
        do(case, MP, make_op(case, rng, MP, ch, ref, int(rng.integers(500, 8000)), str(rng.choice(['unif', 'dens']))), '%s %s' % (kind, clab))


def fractions(case):
    """A charge that is no multiple of the macroparticle size: the extra macroparticle comes with the right frequency."""
    rng = case.rng
    kind = str(rng.choice(['ellip', 'rect', 'convex', 'nonconvex']))
    ch, ref, clab = chambers.make(rng, kind)
    MP, kw = mpsys.make(rng, ch, nmax=3000, moved=True)
    MP.nel_mp[:] = 0.
    MP.N_mp = 0
    f, m, k = float(rng.choice([.02, .98, rng.uniform(.1, .9)])), int(rng.integers(0, 4)), 400
    extra = 0
    case.reseed(0)
    for i in range(k):
        n0 = MP.N_mp
        MP.add_uniform_MP_distrib((m + f) * MP.nel_mp_ref, 10., None, None, None, None)
        d = MP.N_mp - n0 - m
        if not case.check(d in (0, 1), 'number', '%s: %d macroparticles for a charge of %g of them' % (clab, d + m, m + f)):
            return
        extra += d
        if MP.N_mp > 2500:
            MP.N_mp = 0
            MP.nel_mp[:] = 0.
    from scipy.stats import binomtest
    p = binomtest(int(extra), k, f).pvalue
    if case.check(p > 1e-11, 'fraction', '%s: %d of %d additions of %g macroparticles gave the extra one' % (clab, extra, k, m + f)):
        case.ok('fraction|' + kind)


def watch_stages(case, sim, cfg):
    """The stages that insert particles in a running simulation: what was there stays, what is new is complete."""
    for c in sim.cloud_list:
        MP = c.MP_e
        names = mpsys.ROW + ('nel_mp',)

        def wrap(obj, meth, what, MP=MP, names=names):
            orig = getattr(obj, meth)

            def stage(*a, **k):
                have = [x for x in names if x != 't_last_impact' or MP.flag_lifetime_hist]
                n0 = int(MP.N_mp)
                old = {x: np.array(getattr(MP, x)[:n0]) for x in have}
                r = orig(*a, **k)
                n1 = int(MP.N_mp)
                if not case.check(n0 <= n1 <= len(MP.x_mp), 'stage-number', lambda: '%s: %d particles before %s, %d after, %d places' % (cfg.lab, n0, what, n1, len(MP.x_mp))):
                    return r
                hit = np.array(obj.flag_impact[:n0]) if what == 'impacts' and n0 else np.zeros(n0, bool)
                t = k['tt_curr'] if 'tt_curr' in k else a[2] if what == 'impacts' and len(a) > 2 else -1
                for x in have:
                    v = np.array(getattr(MP, x)[:n1])
                    case.check(np.array_equal(v[:n0][~hit], old[x][~hit]), 'stage-existing', lambda: '%s: %s changed %s of particles it does not concern' % (cfg.lab, what, x))
                    case.check(np.all(np.isfinite(v[n0:])), 'stage-content', lambda: '%s: %s gave new particles %s=%r' % (cfg.lab, what, x, v[n0:][~np.isfinite(v[n0:])][0]))
                    if x == 't_last_impact':
                        case.check(np.all(v[n0:] == t), 'stage-content', lambda: '%s: %s gave new particles a last impact at %r instead of %r' % (cfg.lab, what, v[n0:][v[n0:] != t][0], t))
                case.ok('stage|' + what)
                case.count('inserted by ' + what, n1 - n0)
                return r
            setattr(obj, meth, stage)
        wrap(c.impact_man, 'backtrack_and_second_emiss', 'impacts')
        if getattr(c, 'resgasion', None) is not None and cfg.mach.get('gas_ion_flag'):
            wrap(c.resgasion, 'generate', 'gas ionisation')
        if getattr(c, 'phemiss', None) is not None and cfg.mach.get('photoem_flag'):
            wrap(c.phemiss, 'generate', 'photoemission')


def simulate(case):
    """Simulations whose clouds grow into the capacity limit: every stage either fits or fails loudly."""
    rng = case.rng
    cfg = configs.random(rng, sey=str(rng.choice(['ECLOUD', 'furman_pivi', 'cos_low_ene'])), regen='none')
    cfg.sim.update(N_mp_max=int(rng.integers(60, 900)), N_mp_regen=100000, nel_mp_ref_0=float(10**rng.uniform(3.5, 5.5)))
    cfg.mach['Nel_init_unif'] = float(cfg.sim['nel_mp_ref_0'] * rng.integers(5, 60))
    cfg.mach['init_unif_edens_flag'] = 0
    cfg.sey['del_max'] = 2.4
    if rng.random() < .5:
        cfg.sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=50, lifetime_hist_max=1e-8, Dt_lifetime_hist=2.5e-9)
    sim = cfg.build(case)
    st = [0, 0]

    def after(s):
        st[0] += 1
        MP = s.cloud_list[0].MP_e
        st[1] = max(st[1], MP.N_mp)
        if not case.check(MP.N_mp <= len(MP.x_mp), 'over-capacity', '%s: N_mp = %d of %d and no error' % (cfg.lab, MP.N_mp, len(MP.x_mp))):
            raise StopIteration
        case.ok('sim|' + cfg.mach['chamb_type'])
    configs.on_step(sim, after)
    watch_stages(case, sim, cfg)
    try:
        sim.run()
    except StopIteration:
        return
    except (ValueError, IndexError) as e:
        MP = sim.cloud_list[0].MP_e
        # refused while less than half full would not be a capacity problem
        case.check(st[1] > .3 * len(MP.x_mp) or len(MP.x_mp) < 300, 'refused', '%s: %s with at most %d of %d places used' % (cfg.lab, e, st[1], len(MP.x_mp)))
        case.ok('sim|overflow|' + cfg.mach['chamb_type'])
        case.count('simulations_stopped_at_capacity')
    case.sample(config=cfg.lab, steps=st[0], max_used=int(st[1]), capacity=cfg.sim['N_mp_max'])


def tasks(tier):
    k = 1 if tier == 'quick' else 8
    return [Task(history, 200 * k, min_ok=3000), Task(uniform, 40 * k, min_ok=60), Task(fractions, 16 * k, min_ok=16), Task(simulate, 40 * k, min_ok=200)]
