"""P04: conservation monitor around the wall-impact stage (boundary arrays before/after), in simulations and on stress batches."""
import numpy as np
from vlib import configs, impacts, simgen
from vlib.harness import Task

PROP, LEVEL = 'P04', 'exploration'
TECHNIQUE = 'runtime conservation monitor around every wall-impact stage, with an independent yield and splitting oracle per impact'
NOTE = ('Every observed call of the impact stage is judged per impact from the arrays before and after it; assurance is limited to the simulations and '
        'stress batches run. Impact points and normals are taken from the chamber object (checked by P02).')
RULE = ('one evaluation = one call of the impact stage with at least one wall hit, whose charges, energies, doses, untouched particles and splitting were '
        'all recomputed; distinct = (configuration class, number-of-hits class, split or not)')


def close(a, b, scale, tol=1e-9):
    return abs(a - b) <= tol * max(abs(scale), 1e-300)


def judge(case, r, im, ref, lab, what):
    """The clauses of P04 on one record."""
    a, b, h = r.a, r.b, r.h
    n = b['N']
    keep = ~r.hit
    for k in configs.ATTRS + (('t_last_impact',) if 't_last_impact' in a else ()):
        if not np.array_equal(a[k][:n][keep], b[k][keep]):
            i = int(np.flatnonzero(keep)[np.argmax(a[k][:n][keep] != b[k][keep])])
            case.fail('untouched', '%s: %s of particle %d that did not hit the wall changed from %r to %r (%s)' % (lab, k, i, b[k][i], a[k][i], what))
            return False
    if a['N'] < n:
        case.fail('lost', '%s: number of macroparticles went from %d to %d (%s)' % (lab, n, a['N'], what))
        return False
    Qimp = b['nel_mp'][h].sum() if len(h) else 0.
    tot0, tot1 = b['nel_mp'].sum(), a['nel_mp'].sum()
    emit = (a['nel_mp'][h].sum() + a['nel_mp'][n:].sum()) if len(h) else a['nel_mp'][n:].sum()
    good = True
    good &= case.check(close(tot1, tot0 - Qimp + emit, tot0 + emit, 1e-10), 'total', '%s: total %r, expected %r - %r + %r (%s)' % (lab, tot1, tot0, Qimp, emit, what))
    good &= case.check(close(im.Nel_impact_last_step, Qimp, Qimp), 'reported-impact', '%s: reported impacting charge %r, observed %r (%s)' % (lab, im.Nel_impact_last_step, Qimp, what))
    good &= case.check(close(im.Nel_emit_last_step, emit, max(Qimp, emit)), 'reported-emit', '%s: reported emitted charge %r, observed %r (%s)' % (lab, im.Nel_emit_last_step, emit, what))
    Ein = (r.E * r.nel).sum() if len(h) else 0.
    idx = np.concatenate([h, r.new]).astype(int)
    Eout = (r.Eout[idx] * a['nel_mp'][idx]).sum() if len(h) else 0.
    good &= case.check(close(im.En_imp_last_step_eV, Ein, Ein), 'reported-energy', '%s: reported impact energy %r, observed %r (%s)' % (lab, im.En_imp_last_step_eV, Ein, what))
    good &= case.check(close(im.En_emit_last_step_eV, Eout, max(Ein, Eout)), 'reported-emit-energy', '%s: reported emitted energy %r, observed %r (%s)' % (lab, im.En_emit_last_step_eV, Eout, what))
    for name, want, sc in [('nel_impact_hist_tot', Qimp, Qimp), ('nel_impact_hist_scrub', r.nel[r.E > im.scrub_en_th].sum() if len(h) else 0., Qimp),
                           ('energ_eV_impact_hist', Ein - Eout, Ein + Eout)]:
        got = r.hist1[name].sum() - r.hist0[name].sum()
        tol = 1e-9 + 1e-12 * np.abs(r.hist0[name]).sum() / max(sc, 1e-300)
        near = len(h) and name.endswith('scrub') and np.any(np.abs(r.E - im.scrub_en_th) < 1e-9 * im.scrub_en_th)
        good &= case.check(near or close(got, want, sc, tol), name, '%s: %s grew by %r, observer has %r (%s)' % (lab, name, got, want, what))
    if 'nel_hist_impact_seg' in r.hist1 and len(h) and r.iseg is not None:
        nseg = len(r.hist1['nel_hist_impact_seg'])
        own = np.concatenate([np.arange(len(h)), r.owner]).astype(int)
        okk = own >= 0
        for name, seg, w in [('nel_hist_impact_seg', r.iseg, r.nel),
                             ('nel_hist_emit_seg', r.iseg[own[okk]], a['nel_mp'][idx[okk]]),
                             ('energ_eV_impact_seg', np.concatenate([r.iseg, r.iseg[own[okk]]]), np.concatenate([r.E * r.nel, -(r.Eout * a['nel_mp'])[idx[okk]]]))]:
            want = np.bincount(seg, weights=w, minlength=nseg)
            got = r.hist1[name] - r.hist0[name]
            sc = np.abs(w).sum() + 1e-3 * np.abs(r.hist0[name]).sum()
            good &= case.check(np.all(np.abs(got - want) <= 1e-9 * sc + 1e-300), name, lambda: '%s: %s changed by %r, observer has %r (%s)' % (
                lab, name, got[np.argmax(np.abs(got - want))], want[np.argmax(np.abs(got - want))], what))
    if not len(h):
        return good
    # per impact
    if (r.owner < 0).any():
        s = r.new[np.argmax(r.owner < 0)]
        case.fail('orphan', '%s: new macroparticle %d at (%r, %r, %r) is at no impact point (%s)' % (lab, s, a['x_mp'][s], a['y_mp'][s], a['z_mp'][s], what))
        return False
    at = (a['x_mp'][h] == r.X) & (a['y_mp'][h] == r.Y) & (a['z_mp'][h] == r.Z)
    alive = a['nel_mp'][h] > 0
    if not case.check(np.all(at | ~alive), 'emission-point', lambda: '%s: replaced macroparticle not at its impact point (%s)' % (lab, what)):
        return False
    if r.ambiguous:
        case.count('ambiguous_steps')
        return good
    nel, k = r.nel, r.own_n
    some = nel > 0
    tot = a['nel_mp'][h] + r.own_q
    if ref.event_based:
        m = tot[some] / nel[some]
        mi = np.round(m)
        bad = (np.abs(m - mi) > 1e-9 * np.maximum(m, 1)) | (mi < 0) | (mi > ref.p['furman_pivi_surface']['M_cut']) | (mi != np.where(alive[some], k[some], 0))
        share = nel
    else:
        pe, qe_, qt = ref.emitted(r.E, r.cos, r.iseg, r.Q0)
        m = np.where(some, tot / np.where(some, nel, 1), 0)
        e1, e2 = np.abs(m - qe_) <= 1e-8 * (qe_ + 1e-12), np.abs(m - qt) <= 1e-8 * (qt + 1e-12)
        bad = (~(e1 & (pe > 0) | e2) & some)[some]
        share = tot / k
        mi = m[some]
    if bad.any():
        i = int(np.flatnonzero(some)[np.argmax(bad)])
        case.fail('yield', '%s: impact with E=%r eV, cos=%r, segment %s, charge %r emitted %r in %d parts (%s)' % (
            lab, r.E[i], r.cos[i], None if r.iseg is None else r.iseg[i], nel[i], tot[i], k[i], what))
        good = False
    # equal shares
    own = np.concatenate([np.arange(len(h)), r.owner]).astype(int)
    q = a['nel_mp'][idx]
    live = np.concatenate([alive, np.ones(len(r.new), bool)])
    bad = live & (np.abs(q - share[own]) > 1e-9 * share[own])
    if bad.any():
        i = own[np.argmax(bad)]
        case.fail('share', '%s: impact emitting %r in %d parts has a part with %r (%s)' % (lab, tot[i], k[i], q[np.argmax(bad)], what))
        good = False
    if not ref.event_based:
        th = r.split
        vr = np.sqrt(np.maximum(r.E, 1e-300))
        elast = (k == 1) & (np.abs(r.Eout[h] - r.E) <= 1e-6 * r.E) & (np.abs(a['vz_mp'][h] - r.vz) <= 1e-9 * np.sqrt(2 * impacts.QE / r.mass) * vr)
        bad = (k > 1) & (tot <= th * (1 - 1e-9))
        case.check(not bad.any(), 'needless-split', lambda: '%s: %r emitted in %d parts below the threshold %r (%s)' % (lab, tot[np.argmax(bad)], k[np.argmax(bad)], th, what))
        bad2 = (share > th * (1 + 1e-9)) & ~elast
        case.check(not bad2.any(), 'missing-split', lambda: '%s: part of %r above the threshold %r (emission %r in %d parts, %s)' % (
            lab, share[np.argmax(bad2)], th, tot[np.argmax(bad2)], k[np.argmax(bad2)], what))
    case.ok('%s|%d|%s' % (lab, len(str(len(h))), bool((k > 1).any())))
    case.count('impacts', len(h))
    case.count('new_macroparticles', len(r.new))
    case.count('impacts_split', int((k > 1).sum()))
    return good


def attach(case, sim, cfg, lab):
    """Wraps the impact stage of every cloud."""
    from vlib.seyref import YieldRef
    from vlib.simgen import SEY, merge
    for j, cl in enumerate(sim.cloud_list):
        im = cl.impact_man
        if j == 0:
            ref = impacts.seyref(cfg)
        else:
            d = list(cfg.clouds.values())[j - 1]
            ref = YieldRef(merge(merge(SEY, cfg.sey), {k: v for k, v in d.items()}), cfg.chamber, cfg.files.get('sey.mat'))
        orig = im.backtrack_and_second_emiss

        def wrapped(old_pos, MP_e, *args, _im=im, _ref=ref, _orig=orig, _name=cl.name, **kw):
            tt = args[0] if args else kw.get('tt_curr')
            r = impacts.observe(_im, sim.chamb, old_pos, MP_e, tt, lambda: _orig(old_pos, MP_e, *args, **kw))
            judge(case, r, _im, _ref, '%s|%s' % (lab, _name or 0), 't=%r' % tt)
            if len(case.fails) > 8:
                raise StopIteration
            return r.result
        im.backtrack_and_second_emiss = wrapped


def simulate(case, sey, clouds=0):
    cfg = configs.random(case.rng, sey=sey, clouds=clouds)
    if cfg.mach['chamb_type'] != 'ellip' and case.rng.random() < .5:
        cfg.sim['flag_hist_impact_seg'] = 1
    if case.rng.random() < .4:
        cfg.sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=50, lifetime_hist_max=1e-8, Dt_lifetime_hist=2.5e-9)
    if clouds and case.rng.random() < .5:
        for d in cfg.clouds.values():
            d.update(switch_model='ECLOUD', del_max=float(case.rng.uniform(.5, 2)), R0=float(case.rng.uniform(.2, .9)))
    sim = cfg.build(case)
    attach(case, sim, cfg, cfg.lab)
    try:
        sim.run()
    except StopIteration:
        return
    case.sample(config=cfg.lab)


def batches(case, sey, nb=25):
    rng = case.rng
    cfg = configs.random(rng, sey=sey, clouds=0, sources=['unif'], regen='none')
    cfg.sim.update(N_mp_max=400000, N_mp_regen=390000, fact_split=float(rng.uniform(1.1, 3)))
    if cfg.mach['chamb_type'] != 'ellip' and rng.random() < .5:
        cfg.sim['flag_hist_impact_seg'] = 1
    if rng.random() < .4:
        cfg.sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=50, lifetime_hist_max=1e-8, Dt_lifetime_hist=2.5e-9)
    sim = cfg.build(case, skip_pyeclsaver=True)
    cl = sim.cloud_list[0]
    MP, im = cl.MP_e, cl.impact_man
    ref = impacts.seyref(cfg)
    for i in range(nb):
        n = int(rng.choice([1, 2, 5, 30, 300, 2000]))
        kind = str(rng.choice(['all', 'some', 'few', 'none'], p=[.4, .3, .25, .05]))
        old = impacts.synthetic(rng, cfg.ref, sim.chamb, MP, kind, n)
        tt = float(rng.uniform(1e-9, 1e-6))
        r = impacts.observe(im, sim.chamb, old, MP, tt, lambda: im.backtrack_and_second_emiss(old, MP, tt))
        judge(case, r, im, ref, '%s-%s' % (cfg.lab, kind), 'batch %d of %d particles' % (i, n))
        if case.fails:
            return
        if getattr(im.sey_mod, 'Q_segments', None) is not None:
            # charging surfaces: put the stored charge in an interesting range before the next batch
            q = np.asarray(cfg.chamber['Q_max_segments']) * rng.choice([0., .3, .9, 1., 2., -1.], len(im.sey_mod.Q_segments))
            im.sey_mod.Q_segments[:] = np.where(np.asarray(cfg.chamber['flag_charging']) > 0, q, 0.)
    case.sample(config=cfg.lab, batches=nb)


def ties(case, sey):
    """Emitted charges exactly at the splitting threshold are not split; just above they are."""
    rng = case.rng
    cfg = configs.random(rng, sey=sey, clouds=0, sources=['unif'], regen='none')
    sim = cfg.build(case, skip_pyeclsaver=True)
    sm = sim.cloud_list[0].impact_man.sey_mod
    nseg = len(cfg.ref.X) if cfg.chamber is not None else 4
    for g in range(20):
        n = int(rng.choice([1, 3, 20]))
        E, c, nel = float(10**rng.uniform(0, 3)), float(rng.uniform(.05, 1)), float(10**rng.uniform(3, 8))
        one = np.ones(n)
        v = np.sqrt(2 * E * impacts.QE / simgen.ME)
        seg = np.full(n, int(rng.integers(0, nseg)))

        def call(th):
            if getattr(sm, 'Q_segments', None) is not None:
                sm.Q_segments[:] = 0.
            out = sm.impacts_on_surface(simgen.ME, nel * one, np.arange(n) * 1e-6, 0 * one, 0 * one, -c * v * one, np.sqrt(1 - c * c) * v * one, 0 * one,
                                        one.copy(), 0 * one, seg.copy(), -c * v * one, E * one, c * one, th, True)
            return np.asarray(out[0]), np.asarray(out[1]).astype(int), np.asarray(out[3]), np.asarray(out[11]), np.asarray(out[12])
        tot0 = call(1e30)[0]
        q = float(tot0.max())
        if not q > 0:
            continue
        for th, what in ((q, 'equal to'), (float(np.nextafter(q, np.inf)), 'just below'), (q / 2, 'twice'), (q / 1.5, '1.5 times'), (q * .999999, 'just above')):
            tot, et, q1, q2, x2 = call(th)
            got = q1.sum() + q2.sum()
            case.check(close(got, tot.sum(), tot.sum()), 'total', '%s: %r emitted in total, %r reported' % (sey, got, tot.sum()))
            if what in ('equal to', 'just below'):
                case.check(len(q2) == 0 or tot.max() > th, 'needless-split', lambda: '%s: emitted charges %r %s the splitting threshold %r are split' % (sey, tot[:3], what, th))
            else:
                big = (et == 1) & (tot > th)
                case.check(np.all(q1[big] <= th * (1 + 1e-9)), 'missing-split', lambda: '%s: part of %r above the threshold %r (emission %r)' % (sey, q1[big].max(), th, tot.max()))
            case.ok('%s|%s|%d' % (sey, what, n))


def tasks(tier):
    k = 1 if tier == 'quick' else 8
    out = []
    for s in configs.SEYS:
        out.append(Task(simulate, 14 * k, name='sim-' + s, sey=s, min_ok=30))
        out.append(Task(batches, 20 * k, name='batch-' + s, sey=s, min_ok=50))
    out += [Task(ties, 4 * k, name='ties-' + s, sey=s, min_ok=20) for s in configs.SEYS if s not in ('furman_pivi', 'perfect_absorber')]
    out.append(Task(simulate, 16 * k, name='clouds', sey=None, clouds=1, min_ok=30))
    return out
