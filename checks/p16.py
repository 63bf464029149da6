"""Every case builds a random mini-simulation (all chambers, trackers, emission models, sources, regeneration kinds, one to three
clouds, one or two beams) with random recording options, runs it, and attaches vlib/observe.py to the impact stage and the recorder of
every cloud.  The observer keeps, for every step, the impacts (charge and energy before and after the stage), the macroparticles at the
moment of recording, the beam density and the values of the custom observables.  When the run has ended (and at a random intermediate
write) the output file of every cloud is read back and every step-by-step array is compared with the observer's values: the recorded
times have to be simulated steps, spaced by the decimation factor; charge and energy of impacts and emission are summed over the whole
group of steps; the instantaneous values are those of the recorded step; all arrays have the same length; totals are compared with
those of the same run (same random numbers) without decimation.  Runs that ask for selected entries only must give exactly those, equal to the full output's, and the recorded
times of space-charge computations are those at which one was due.  A task of its own runs more than 1000 and 2000 recorded steps (growing
buffers) and one non-uniform steps."""
import os
import numpy as np
import scipy.io as sio
from vlib.harness import Task, Output, loadmat
from vlib import configs, observe, simgen
from vlib.simgen import QE, EPS0, DROP

PROP = 'P16'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'runtime monitor (step observer at the impact stage and the recorder) compared offline with the output files'
NOTE = 'impacts and particles of every step recomputed from what enters and leaves the stages; files read back with scipy'
RULE = 'an evaluation is one array entry of an output file compared with the observer; distinct = quantity x configuration class'
ASSUMPTIONS = ['scipy.io.loadmat reads back what savemat wrote', 'impact points are taken from the chamber object (property P02)']

STEP = ('t', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time', 'En_kin_eV_time', 'cen_density')


def load(fn):
    d = loadmat(fn)
    return Output({k: np.asarray(v) for k, v in d.items() if not k.startswith('__')})


def vec(a):
    return np.asarray(a, float).reshape(-1)


def dens(st, x, y, r):
    m = (st['x_mp'] - x)**2 + (st['y_mp'] - y)**2 < r * r
    return float(st['nel_mp'][m].sum()) / (np.pi * r * r)


def electric_energy(sim, Dh):
    """Energy of the space-charge field, summed over the inside of the bounding box on a grid of pitch Dh."""
    ch = sim.chamb
    xx, yy = np.meshgrid(np.arange(-ch.x_aper * 1.01, ch.x_aper * 1.01, Dh), np.arange(-ch.y_aper * 1.01, ch.y_aper * 1.01, Dh), indexing='ij')
    ex, ey = sim.spacech_ele.PyPICobj.gather(xx.ravel(), yy.ravel())
    return .5 * EPS0 / QE * Dh * Dh * float(np.sum(ex**2 + ey**2))


def compare(case, cfg, ic, cl, steps, opts, d, lab, Dt, unif):
    t = vec(d['t'])
    idx = observe.groups(steps, t)
    if not case.check(idx is not None, 'time-not-a-step', lambda: '%s: recorded times %r... are not simulated steps' % (lab, t[:4])):
        return None
    if not case.check(len(t) > 0 and idx[0] == 0, 'first-step-missing', lambda: '%s: first recorded time %r, first step %r' % (lab, t[:1], steps[0].t)):
        return None
    dec = opts['dec']
    # which steps have to be there
    want, last = [], -1e9
    for i, s in enumerate(steps):
        if (s.t - last) >= (dec - 1e-4) * Dt:
            want.append(i)
            last = s.t
    if unif:
        assert want == list(range(0, len(steps), dec)), (want[:5], dec)
    if not case.check(idx == want, 'recorded-steps', lambda: '%s: %d recorded steps, expected %d (decimation %d); first difference %r' % (
            lab, len(idx), len(want), dec, next(((a, b) for a, b in zip(idx, want) if a != b), None))):
        return None
    n = len(idx)
    mass = cl.MP_e.mass
    ref = {k: np.zeros(n) for k in STEP}
    tol = {}
    start = 0
    for j, i in enumerate(idx):
        s = steps[i]
        ref['t'][j], ref['lam_t_array'][j] = s.t, s.lam
        st = s.state
        ref['Nel_timep'][j] = st['nel_mp'].sum()
        ref['En_kin_eV_time'][j] = np.sum(st['nel_mp'] * observe.ekin(st, mass))
        ref['cen_density'][j] = dens(st, 0., 0., opts['r_center'])
        for s2 in steps[start:i + 1]:
            for k, v in zip(('Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time'), observe.tot(s2.imp)):
                ref[k][j] += v
        start = i + 1
    if opts['detail']:
        ref['N_mp_time'] = np.array([steps[i].state['N'] for i in idx], float)
        ref['nel_mp_ref_time'] = np.array([steps[i].state['nel_mp_ref'] for i in idx])
    for k in opts['custom']:
        ref[k] = np.array([steps[i].obs[k] for i in idx], float)
    if opts['Dh_U']:
        ref['En_electric_eV_time'] = np.array([steps[i].obs['_U'] for i in idx])
    for k, v in ref.items():
        if not case.check(k in d, 'missing-' + k, '%s: %s not in the output file' % (lab, k)):
            continue
        got = vec(d[k])
        if not case.check(len(got) == n, 'length-' + k, lambda: '%s: %s has %d entries, t has %d' % (lab, k, len(got), n)):
            continue
        # sums of event energies can cancel only between positive terms: relative tolerance
        sc = 1e-9 * np.abs(v) + 1e-12 * np.abs(v).max()
        bad = np.flatnonzero(~(np.abs(got - v) <= sc))
        case.check(not len(bad), 'value-' + k, lambda: '%s: %s[%d] = %r, observed %r (%d of %d differ; t=%r)' % (lab, k, bad[0], got[bad[0]], v[bad[0]], len(bad), n, t[bad[0]]))
        nz = int(np.count_nonzero(v))
        case.ok('%s|%s%s' % (k, cfg.label[0].split('-')[0], '|nz' if nz else ''), n)
        case.count('entries-' + k, n)
        case.count('nonzero-' + k, nz)
    if opts['probes']:
        p = np.asarray(d['el_dens_at_probes'], float)
        if case.check(p.shape == (len(opts['probes']), n), 'length-probes', lambda: '%s: probe array %r for %d probes and %d recorded steps' % (lab, p.shape, len(opts['probes']), n)):
            for q, pr in enumerate(opts['probes']):
                v = np.array([dens(steps[i].state, pr['x'], pr['y'], pr['r_obs']) for i in idx])
                bad = np.flatnonzero(~(np.abs(p[q] - v) <= 1e-9 * np.abs(v) + 1e-12 * np.abs(v).max()))
                case.check(not len(bad), 'value-probes', lambda: '%s: probe %d entry %d = %r, observed %r' % (lab, q, bad[0], p[q][bad[0]], v[bad[0]]))
                case.ok('probe|' + cfg.label[0].split('-')[0], n)
                case.count('nonzero-probes', int(np.count_nonzero(v)))
    if opts['probes']:
        for k, kk in (('x_el_dens_probes', 'x'), ('y_el_dens_probes', 'y'), ('r_el_dens_probes', 'r_obs')):
            case.check(np.array_equal(vec(d[k]), [p[kk] for p in opts['probes']]), 'probe-setup', '%s: %s = %r' % (lab, k, d[k]))
    return ref


def options(rng, cfg, many=False):
    o = dict(dec=int(rng.choice([1, 1, 2, 3, 5, 7])), detail=int(rng.random() < .6), r_center=float(rng.choice([1e-3, rng.uniform(3e-4, 1e-2)])), probes=[], custom={}, Dh_U=None)
    cfg.sim.update(dec_fact_out=o['dec'], flag_detailed_MP_info=o['detail'], r_center=o['r_center'])
    if rng.random() < .6:
        o['probes'] = [dict(x=float(rng.uniform(-1e-2, 1e-2)), y=float(rng.uniform(-1e-2, 1e-2)), r_obs=float(rng.uniform(5e-4, 8e-3))) for _ in range(int(rng.integers(1, 4)))]
        cfg.sim['el_density_probes'] = o['probes']
    if rng.random() < .4 and not many:
        o['Dh_U'] = float(rng.uniform(5e-4, 2e-3))
        cfg.sim['Dh_electric_energy'] = o['Dh_U']
    return o


def obs_meanx(sim):
    MP = sim.cloud_list[0].MP_e
    return float(np.sum(MP.x_mp[:MP.N_mp] * MP.nel_mp[:MP.N_mp]))


def obs_last(sim):
    MP = sim.cloud_list[-1].MP_e
    return float(np.sum(MP.nel_mp[:MP.N_mp])) + 1e-3 * sim.beamtim.tt_curr


def run(case, cfg, o, name='sim', functions=None, spy=None, **kw):
    rng = case.rng
    sim = cfg.build(case, name, **kw)
    f = dict(o['custom'])
    if o['Dh_U']:
        f['_U'] = lambda s: electric_energy(s, o['Dh_U'])
    f.update(functions or {})
    ob = observe.Observer(sim, f, on_witness=spy)
    sim.run()
    return sim, ob


def files(sim):
    return [c.pyeclsaver.filen_main_outp for c in sim.cloud_list]


def check_run(case, cfg, o, sim, ob, lab, save_every):
    refs = []
    fl = files(sim)
    case.check(len(set(fl)) == len(fl), 'files-shared', '%s: clouds share the output file %r' % (lab, fl))
    for ic, cl in enumerate(sim.cloud_list):
        steps = ob.log[ic]
        w = [i for i, s in enumerate(steps) if s.written]
        exp = [i for i, s in enumerate(steps) if s.new_pass and (s.pass_numb + 1) % save_every == 0]
        if not case.check(w == exp, 'file-writes', lambda: '%s: output file of cloud %d written at steps %r, expected %r' % (lab, ic, w[:5], exp[:5])):
            continue
        if not exp:
            continue
        d = load(fl[ic])
        refs.append(compare(case, cfg, ic, cl, steps[:exp[-1] + 1], o, d, '%s cloud %d' % (lab, ic), cfg.sim['Dt'], sim.beamtim.flag_unif_Dt))
        if d.get('sec_beam_profiles') is not None and sim.sec_beams_list:
            k = o.get('secdec', 1)
            p = np.asarray(d['sec_beam_profiles'], float)
            want = np.array([sb.lam_t_array[::k] for sb in sim.sec_beams_list])
            case.check(np.array_equal(p.reshape(want.shape) if p.size == want.size else p, want) and np.array_equal(vec(d['t_sec_beams']), sim.beamtim.t[::k]),
                       'sec-beam-profile', '%s: secondary beam profiles' % lab)
            case.ok('sec-beam-profile', p.size)
    return refs


def recomputations(sim):
    """Times at which the simulation was told to compute the space-charge field."""
    due, sc = [], sim.spacech_ele
    ask = sc.check_for_recomputation

    def check_for_recomputation(*a, **k):
        r = ask(*a, **k)
        if r:
            due.append(float(sim.beamtim.tt_curr))
        return r
    sc.check_for_recomputation = check_for_recomputation
    return due


def simulate(case, clouds=0, sey=None, chamber=None, long=False):
    rng = case.rng
    cfg = configs.random(rng, clouds=clouds, sey=sey, chamber=chamber)
    o = options(rng, cfg)
    for i, c in enumerate(cfg.clouds.values()):
        if rng.random() < .5:
            c.update(switch_model='ECLOUD', del_max=1.2)
        c['r_center'] = o['r_center']
    if rng.random() < .3:
        n = int(rng.integers(1, 3))
        cfg.sec_beams = [dict(fact_beam=float(10**rng.uniform(10, 11)), t_offs=float(rng.uniform(.5e-9, 2e-9))) for _ in range(n)]
        o['secdec'] = int(rng.choice([1, 2, 5]))
        cfg.sim['dec_fac_secbeam_prof'] = o['secdec']
    npass = len(cfg.beam['filling_pattern_file'])
    save_every = 1
    N = int(np.ceil((npass * 2.5e-9) / 2.5e-9))
    kw = {}
    if rng.random() < .5:
        o['custom'] = dict(my_mean=obs_meanx, my_last=obs_last)
        kw['step_by_step_custom_observables'] = o['custom']
    lab = cfg.lab
    late = int(rng.integers(1, 5))
    inter = {}
    seen = [0]

    def spy(ic, s):
        # one intermediate write is read back as well
        if s.written and ic == 0 and 'd' not in inter:
            seen[0] += 1
            if seen[0] == late:
                inter['d'] = load(files_[0])
                inter['n'] = len(holder[0].log[0])
    sim = cfg.build(case, 'sim', **kw)
    files_ = files(sim)
    f = dict(o['custom'])
    if o['Dh_U']:
        f['_U'] = lambda s: electric_energy(s, o['Dh_U'])
    holder = []
    ob = observe.Observer(sim, f, on_witness=spy)
    holder.append(ob)
    due = recomputations(sim)
    sim.run()
    for ic, fn in enumerate(files_):
        if sim.cloud_list[ic].pyeclsaver is None or not ob.log[ic] or not any(s.written for s in ob.log[ic]):
            continue
        d = load(fn)
        got = vec(d['t_sc_video'])
        end = max(s.t for s in ob.log[ic] if s.written)
        want = [t for t in due if t <= end]
        case.check(np.array_equal(got, want), 'recomputation-times', lambda: '%s cloud %d: %d times of space-charge computation recorded, %d computations due; first recorded %r, due %r' % (
            lab, ic, len(got), len(want), got[:3], want[:3]))
        case.check(len(vec(d['U_sc_eV'])) == len(want), 'length-U_sc_eV', lambda: '%s cloud %d: U_sc_eV has %d entries for %d computations' % (lab, ic, len(vec(d['U_sc_eV'])), len(want)))
        case.ok('t_sc_video', len(want) + 1)
    refs = check_run(case, cfg, o, sim, ob, lab, save_every)
    if 'd' in inter:
        compare(case, cfg, 0, sim.cloud_list[0], ob.log[0][:inter['n']], o, inter['d'], lab + ' intermediate file', cfg.sim['Dt'], True)
        case.count('intermediate-files')
    case.sample(config=lab, decimation=o['dec'], steps=len(ob.log[0]), impacts=int(sum(len(s.imp.h) for s in ob.log[0] if s.imp is not None)))
    return cfg, o, sim, ob, refs


def one(case, **kw):
    simulate(case, **kw)


def decimation(case):
    """Same configuration and random numbers with and without decimation: event totals are equal, instantaneous values coincide."""
    rng = case.rng
    cfg = configs.random(rng, sey=str(rng.choice(['ECLOUD', 'ACC_LOW', 'flat_low_ene', 'from_file'])), regen='none')
    cfg.sim['dec_fact_out'] = 1
    res = {}
    dec = int(rng.integers(2, 12))
    for k in (1, dec):
        cfg.sim['dec_fact_out'] = k
        sim = cfg.build(case, 'dec%d' % k)
        sim.run()
        res[k] = load(files(sim)[0])
    a, b = res[1], res[dec]
    ta, tb = vec(a['t']), vec(b['t'])
    case.check(np.array_equal(tb, ta[::dec][:len(tb)]) and len(tb) == len(ta[::dec]), 'decimated-times', '%s: %d and %d times at decimation %d' % (cfg.lab, len(ta), len(tb), dec))
    last = dec * (len(tb) - 1)
    for k in ('Nel_imp_time', 'Nel_emit_time', 'En_imp_eV_time', 'En_emit_eV_time'):
        va, vb = vec(a[k])[:last + 1].sum(), vec(b[k]).sum()
        case.check(abs(va - vb) <= 1e-9 * abs(va) + 1e-12, 'decimated-total-' + k, lambda: '%s: total %s %r without and %r with decimation %d' % (cfg.lab, k, va, vb, dec))
        case.ok('total|%s|%s' % (k, 'nz' if va else '0'))
    for k in ('lam_t_array', 'Nel_timep', 'En_kin_eV_time', 'cen_density'):
        case.check(np.array_equal(vec(a[k])[:last + 1:dec], vec(b[k])), 'decimated-value-' + k, lambda: '%s: %s differs at the recorded steps (decimation %d)' % (cfg.lab, k, dec))
        case.ok('inst|' + k)


def longrun(case):
    """More recorded steps than the initial buffers."""
    rng = case.rng
    cfg = configs.random(rng, sey=str(rng.choice(['ECLOUD', 'perfect_absorber', 'flat_low_ene'])), tracker=str(rng.choice(['Boris', 'StrongBdip', 'BorisMultipole'])),
                         chamber=str(rng.choice(['rect', 'ellip'])), sources=['unif', 'gas'], regen='soft')
    o = options(rng, cfg, many=True)
    while len(o['probes']) < 2 and not case.index:
        o = options(rng, cfg, many=True)
    o['dec'] = 1
    cfg.sim['dec_fact_out'] = 1
    N = int(rng.choice([1001, 1500, 2100, 2600])) if case.index else 2100
    pat = [1., 0., 1.]
    cfg.beam['filling_pattern_file'] = pat
    cfg.sim['Dt'] = 2.5e-9 * len(pat) / N
    cfg.sim.update(Dt_sc=2.5e-9)
    o['custom'] = dict(my_mean=obs_meanx)
    cfg.mach['Nel_init_unif'] = 2e7
    sim, ob = run(case, cfg, o, step_by_step_custom_observables=o['custom'])
    check_run(case, cfg, o, sim, ob, cfg.lab + ' long', 1)
    case.count('long-steps', len(ob.log[0]))
    case.ok('long|%d' % (len(ob.log[0]) // 1000))


def selected(case):
    """With a list of requested entries, the file holds exactly those, with the values of the full output."""
    rng = case.rng
    cfg = configs.random(rng, clouds=int(rng.integers(0, 2)), sey=str(rng.choice(['ECLOUD', 'ACC_LOW', 'from_file'])))
    o = options(rng, cfg)
    cfg.sim.update(flag_En_hist_seg=False)
    sim = cfg.build(case, 'full')
    sim.run()
    full = [load(f) for f in files(sim)]
    names = sorted(full[0])
    for it in range(2):
        only = [str(k) for k in rng.permutation(names)[:int(rng.integers(1, 8))]]
        if it:
            only = sorted(set(only) | {'t', 'lam_t_array', 'Nel_timep'})
        cfg.sim['save_only'] = only
        s2 = cfg.build(case, 'only%d' % it)
        s2.run()
        for ic, (a, fn) in enumerate(zip(full, files(s2))):
            b = load(fn)
            lab = '%s cloud %d: requested %r' % (cfg.lab, ic, only)
            case.check(set(b) == set(only), 'selected-entries', lambda: '%s, file holds %r' % (lab, sorted(b)))
            for k in only:
                if k in b:
                    x, y = np.asarray(a[k]), np.asarray(b[k])
                    same = x.shape == y.shape and x.dtype.kind == y.dtype.kind and (np.array_equal(x, y, equal_nan=True) if x.dtype.kind == 'f' else str(x) == str(y))
                    case.check(same, 'selected-value', lambda: '%s: %s differs from that of the full output (%r and %r)' % (lab, k, y.shape, x.shape))
                    case.ok('selected|' + k)


def safety_copies(case):
    """The output file is copied to the safety folder every copy_main_outp_DT (at the next passage), whenever there is an output file."""
    rng = case.rng
    cfg = configs.random(rng, clouds=int(rng.integers(0, 2)), sey=str(rng.choice(['ECLOUD', 'perfect_absorber'])), pattern=[1., 0., 0., 1., 1.])
    sim0 = cfg.build(case, 'probe', skip_pyeclsaver=True)
    N = int(sim0.beamtim.N_pass_tot)
    cfg.sim['save_mat_every'] = int(rng.choice([k for k in range(1, N + 1) if N % k == 0 and k < N]))
    DT = float(rng.choice([1e-12, 1.7e-9 + 1e-13, 4.3e-9 + 1e-13, 6.1e-9 + 1e-13]))
    cfg.sim.update(copy_main_outp_DT=DT, copy_main_outp_folder=case.path('safe'))
    sim = cfg.build(case, 'sim')
    main = files(sim)
    safe = [os.path.join(case.path('safe'), os.path.basename(f)) for f in main]
    last, n, before = [0.] * len(main), [0], [None] * len(main)
    seen = [observe.stamp(f) for f in safe]

    def read(f):
        try:
            with open(f, 'rb') as fid:
                return fid.read()
        except OSError:
            return None

    def spy(ic, s):
        now = observe.stamp(safe[ic])
        after = read(main[ic]) if s.written or before[ic] is None else before[ic]
        copied, due = now != seen[ic], s.t - last[ic] >= DT
        seen[ic] = now
        have = before[ic] is not None
        if copied:
            case.check(due, 'copy-not-due', lambda: '%s cloud %d: copied at t=%r, last copy at %r, interval %r' % (cfg.lab, ic, s.t, last[ic], DT))
            case.check(read(safe[ic]) in (before[ic], after), 'copy-content', '%s cloud %d: the copy made at t=%r is not the output file' % (cfg.lab, ic, s.t))
            case.check(os.path.exists(main[ic]), 'copy-content', 'output file gone')
            last[ic] = s.t
            n[0] += 1
        else:
            case.check(not (due and have and s.new_pass), 'copy-missing', lambda: '%s cloud %d: no copy at t=%r, last copy at %r, interval %r' % (cfg.lab, ic, s.t, last[ic], DT))
        before[ic] = after
        case.ok('copy|%s|%s' % (copied, due))
    observe.Observer(sim, {}, keep_state=False, on_witness=spy)
    sim.run()
    case.count('safety-copies', n[0])


def save_every(case):
    rng = case.rng
    cfg = configs.random(rng, sey='ECLOUD')
    cfg.beam['filling_pattern_file'] = [1., 0., 1., 1.]
    sim0 = cfg.build(case, 'probe', skip_pyeclsaver=True)
    N = int(sim0.beamtim.N_pass_tot)
    div = [k for k in range(1, N + 1) if N % k == 0]
    k = int(rng.choice(div))
    o = options(rng, cfg)
    cfg.sim['save_mat_every'] = k
    sim, ob = run(case, cfg, o)
    check_run(case, cfg, o, sim, ob, cfg.lab + ' every %d of %d' % (k, N), k)
    case.ok('every|%d of %d' % (k, N))


def non_uniform(case):
    rng = case.rng
    cfg = configs.random(rng, sey=str(rng.choice(['ECLOUD', 'cos_low_ene'])), tracker=str(rng.choice(['Boris', 'BorisMultipole'])), sources=['unif'])
    Dt = 5e-11
    n = int(rng.integers(60, 140))
    dts = Dt * rng.choice([.5, 1., 1.5, 2.], n)
    t = np.concatenate(([0.], np.cumsum(dts)))
    lam = np.where(rng.random(n + 1) < .5, 0., rng.uniform(0, 5e11, n + 1))
    cfg.beam.update(flag_bunched_beam=0, beam_long_prof_file='prof.mat', sigmaz=-1, filling_pattern_file=-1, fact_beam=1., b_spac=float(t[-1] / 2.5))
    cfg.files['prof.mat'] = dict(t=t, lam_t_array=lam)
    cfg.sim['Dt'] = Dt
    o = options(rng, cfg)
    sim, ob = run(case, cfg, o)
    if sim.beamtim.flag_unif_Dt:
        case.count('uniform-after-all')
    check_run(case, cfg, o, sim, ob, cfg.lab + ' non-uniform', 1)
    case.ok('nonunif|' + cfg.label[1])


def tasks(tier):
    q = tier == 'quick'
    out = [Task(one, 16 if q else 160, name='one', min_ok=1000), Task(one, 8 if q else 80, name='clouds2', clouds=1, min_ok=500),
           Task(one, 4 if q else 40, name='clouds3', clouds=2, min_ok=300),
           Task(decimation, 8 if q else 60, min_ok=20), Task(longrun, 1 if q else 8, min_ok=1000), Task(safety_copies, 3 if q else 30, min_ok=50), Task(selected, 3 if q else 30, min_ok=10), Task(save_every, 4 if q else 30, min_ok=10)]
    out.append(Task(non_uniform, 4 if q else 40, min_ok=10))
    return out
