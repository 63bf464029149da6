"""The same input is run twice with checkpoints: once undisturbed and once with one to four crashes injected at random places (after a
step, before it, in the middle of a step just before one of the recorders is called; before the first checkpoint, right after a
checkpoint, in the last passage), each followed by a restart through the constructor with the random generator put to where it was
when the loaded checkpoint had been written.  At the end every variable of every output file of the second run (main output of each
cloud, its safety copy, macroparticle states, movies) is compared with the same variable of the first run, bit by bit, and the set of
files as well.  Configurations vary over everything that is recorded: decimation, probes, detailed info, histograms of all kinds with
intervals that are not multiples of the passage, per-segment data, custom observables, save_only, save_mat_every, movies, macroparticle
states, electric energy, secondary beams, extracted emission curves, cross-ionisation, additional clouds, time vectors that grow."""
import os
import shutil
import numpy as np
import scipy.io as sio
from vlib.harness import Task
from vlib import configs, restart
from checks import p16, p17, p18

PROP = 'P19'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'crash injection with restart and a differential oracle over all output files'
NOTE = 'the uninterrupted run of the same tree is the reference; every variable of every file is compared exactly'
RULE = 'an evaluation is one output variable of an interrupted run compared with the uninterrupted run; distinct = variable x moment of the crash'
ASSUMPTIONS = ['the random generator of numpy is the only source of randomness']


def tree(folder):
    out = {}
    for d, _, ff in os.walk(folder):
        for f in ff:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = p
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shape %s, uninterrupted %s' % (b.shape, a.shape)
    if a.dtype == object:
        return None if all(same(x, y) is None for x, y in zip(a.ravel(), b.ravel())) else 'differs'
    if np.array_equal(a, b) or (a.dtype.kind == 'f' and np.array_equal(a, b, equal_nan=True)):
        return None
    w = np.argwhere(np.atleast_1d(a != b))
    return '%d of %d elements differ, first at %s: %r, uninterrupted %r' % (len(w), a.size, w[0], np.atleast_1d(b)[tuple(w[0])], np.atleast_1d(a)[tuple(w[0])])


def compare_files(case, A, B, lab, key, skip=()):
    fa, fb = tree(A), tree(B)
    for d in (fa, fb):
        for f in list(d):
            if f.startswith('ckp') or f.endswith(('.input', '.txt', '.beam', '.cloud')) or f in skip or f.endswith('.pkl'):
                del d[f]
    case.check(sorted(fa) == sorted(fb), 'files', lambda: '%s: files %r, uninterrupted %r' % (lab, sorted(fb), sorted(fa)))
    for f in sorted(set(fa) & set(fb)):
        a, b = sio.loadmat(fa[f]), sio.loadmat(fb[f])
        if f.startswith('copy'):
            # the safety copy is an earlier version of the output, in the resumed run as well
            z = sio.loadmat(fb[os.path.basename(f)])
            for k in ('t', 't_hist', 'Nel_timep', 'nel_hist'):
                if k in b and k in z and b[k].size:
                    u, v = (b[k].ravel(), z[k].ravel()[:b[k].size]) if k != 'nel_hist' else (b[k], z[k][:len(b[k])])
                    case.check(np.array_equal(u, v), 'copy-' + k, lambda: '%s: the safety copy %s is not an earlier version of the output' % (lab, f))
            continue
        ka, kb = [sorted(k for k in d if not k.startswith('__')) for d in (a, b)]
        case.check(ka == kb, 'variables', lambda: '%s: %s has variables %r instead of %r' % (lab, f, kb, ka))
        for k in sorted(set(ka) & set(kb)):
            e = same(a[k], b[k])
            if e is None:
                case.ok('%s|%s' % (k, key))
            else:
                case.fail('output-' + k, '%s: %s in %s of the resumed run: %s' % (lab, k, f, e))


def obs_charge(sim):
    MP = sim.cloud_list[0].MP_e
    return float(np.sum(MP.nel_mp[:MP.N_mp]))


def obs_vec(sim):
    MP = sim.cloud_list[0].MP_e
    return np.array([MP.N_mp, float(np.sum(MP.x_mp[:MP.N_mp])), sim.beamtim.tt_curr])


def setup(rng, clouds, movies=True, long=False, **kw):
    cfg = p18.config(rng, clouds=clouds, **kw)
    n = len(cfg.beam['filling_pattern_file'])
    if n < 4:
        cfg.beam['filling_pattern_file'] = [float(v) for v in (rng.random(int(rng.integers(4, 8))) < .7)]
    if long:
        # the recorded time vectors have to grow, before and after the crash
        cfg.beam['filling_pattern_file'] = [1., 0.] * int(rng.integers(6, 14))
        cfg.sim.update(Dt=2.5e-11, N_mp_regen=20000, N_mp_after_regen=500)
        cfg.beam['fact_beam'] = 1e10
    kwb, every = recording(rng, cfg, movies)
    if long:
        cfg.sim['dec_fact_out'] = 1
    return cfg, kwb, len(cfg.beam['filling_pattern_file']), every


def recording(rng, cfg, movies=True):
    # random recording options of all kinds; returns keyword arguments and whether save_mat_every is to be used
    n = len(cfg.beam['filling_pattern_file'])
    p16.options(rng, cfg)
    for s, own in [(cfg.sim, False)] + [(c, True) for c in cfg.clouds.values()]:
        if own and rng.random() < .5:
            continue
        st = p17.settings(rng, cfg)
        if own:
            for k in ('flag_En_hist_seg',):
                st.pop(k, None)
        s.update(st)
    cfg.sim['Dt_En_hist'] = float(rng.choice([2.5e-9, rng.uniform(3e-10, 6e-9)]))
    if rng.random() < .5:
        cfg.sim['save_mp_state_time_file'] = [float(t) for t in np.sort(rng.uniform(0, 2.5e-9 * n, 5))]
    if movies and rng.random() < .5:
        cfg.sim.update(flag_movie=int(rng.random() < .7), flag_sc_movie=int(rng.random() < .7))
    if rng.random() < .3:
        cfg.sim['dec_fac_secbeam_prof'] = 3
    kwb = {}
    if rng.random() < .5:
        kwb['step_by_step_custom_observables'] = dict(my_charge=obs_charge)
    if rng.random() < .5:
        kwb['pass_by_pass_custom_observables'] = dict(my_vec=obs_vec, my_lambda=lambda sim: float(sim.beamtim.lam_t_curr))
    if rng.random() < .3:
        kwb['save_once_custom_observables'] = dict(my_once=obs_charge)
    every = rng.random() < .4
    if rng.random() < .15:
        cfg.sim['save_only'] = ['Nel_timep', 't_hist', 'nel_hist'] if rng.random() < .5 else ['t', 't_hist', 't_sc_video', 'Nel_timep', 'En_hist']
    if rng.random() < .3 and 'furman_pivi' not in cfg.label and 'charging' not in cfg.label:
        kwb['extract_sey'] = True
    return kwb, every


def fast_extraction():
    # the extraction of emission curves with fewer events
    from PyECLOUD import impact_management_class as imc
    cls = imc.impact_management
    if not hasattr(cls, '_full_extraction') and hasattr(cls, 'extract_sey_curves'):
        cls._full_extraction = cls.extract_sey_curves
        cls.extract_sey_curves = lambda self, n_rep, E, *a, **k: cls._full_extraction(self, 30, E[::40], *a, **k)


def one(case, clouds=0, copy=False, **kw):
    rng = case.rng
    cfg, kwb, n, every = setup(rng, clouds, **kw)
    lab = cfg.lab
    DT = float(rng.choice([2.4e-9, 4.9e-9, 1e-12, 1.1e-8]))
    cfg.sim['checkpoint_DT'] = DT
    if copy:
        cfg.sim['copy_main_outp_DT'] = float(rng.choice([2.4e-9, 7e-9]))
    if every:
        N = int(cfg.build(case, 'probe', skip_pyeclsaver=True).beamtim.N_pass_tot)
        cfg.sim['save_mat_every'] = int(rng.choice([k for k in range(1, N + 1) if N % k == 0]))
    fast_extraction()
    ld = restart.Loader()
    slash = '/' if rng.random() < .6 else ''

    def build(side, rngs, reseed):
        f = case.path(side)
        if not os.path.isdir(f):
            cfg.write(f)
        case.reseed(reseed)
        k = dict(kwb)
        if copy:
            k['copy_main_outp_folder'] = os.path.join(f, 'copy')
        return ld.build(f, rngs, filen_main_outp=os.path.join(f, 'Pyecltest.mat'), checkpoint_folder=os.path.join(f, 'ckp') + slash, **k)
    simA = build('A', None, 0)
    watch = restart.FileWatch(simA, case.path('A', 'ckp'), lambda f: f.endswith('.pkl'))
    times = []
    configs.on_step(simA, lambda s: (times.append(float(s.beamtim.tt_curr)), watch.scan(s)))
    simA.run()
    saved = {f: (watch.when[f][1], watch.rng[f]) for f in watch.when}
    if not saved:
        case.count('no-checkpoint')
    rr = {f: v[1] for f, v in saved.items()}
    # interrupted run
    name, start = None, -1
    crashes = int(rng.integers(1, 5))
    moments = []
    for attempt in range(crashes + 1):
        simB = build('B', rr, 0 if name is None else 900 + attempt)
        case.check(simB.loaded == name, 'checkpoint-loaded', '%s: folder holds %r, loaded %r' % (lab, name, simB.loaded))
        left = len(times) - start - 1
        if attempt < crashes and left > 0:
            r = rng.random()
            if r < .25 and saved:
                # right after a checkpoint
                nxt = [times.index(t) - start for t, _ in saved.values() if times.index(t) > start]
                stop = int(rng.choice(nxt)) if nxt else int(rng.integers(1, left + 1))
            else:
                stop = int(rng.integers(1, left + 1))
            how = str(rng.choice(['after', 'before', 'recorder']))
        else:
            stop, how = 10**9, 'never'
        inject(simB, stop, how, int(rng.integers(0, len(simB.cloud_list))))
        try:
            simB.run()
            done = True
        except restart.Interrupted:
            done = False
            t = simB.beamtim.tt_curr
            moments.append(how + ('-passage' if simB.beamtim.flag_new_bunch_pass else '-mid'))
            case.count('crashes')
        if done:
            break
        lst = sorted(os.listdir(case.path('B', 'ckp')))
        if len(lst) > 1:
            case.fail('checkpoint-count', '%s: %r in the checkpoint folder after a crash' % (lab, lst))
            return
        name = lst[0] if lst else None
        start = times.index(saved[name][0]) if name in saved else -1
        if name is not None and name not in saved:
            case.fail('checkpoint-name', '%s: unexpected checkpoint %r' % (lab, name))
            return
    compare_files(case, case.path('A'), case.path('B'), '%s, crashes %s' % (lab, moments), '+'.join(sorted(set(moments)))[:40])
    case.sample(config=lab, passages=n, crashes=moments, checkpoints=len(saved), files=len(tree(case.path('B'))))


def inject(sim, stop, how, ic):
    orig = sim.sim_time_step
    n = [0]

    def step(*a, **k):
        n[0] += 1
        if how == 'before' and n[0] == stop:
            raise restart.Interrupted
        if how == 'recorder' and n[0] == stop:
            def witness(*a, **k):
                raise restart.Interrupted
            sim.cloud_list[ic].pyeclsaver.witness = witness
        r = orig(*a, **k)
        if how == 'after' and n[0] == stop:
            raise restart.Interrupted
        return r
    sim.sim_time_step = step


def tasks(tier):
    q = tier == 'quick'
    return [Task(one, 24 if q else 260, name='single', min_ok=400), Task(one, 6 if q else 80, name='clouds', clouds=1, min_ok=200),
            Task(one, 3 if q else 30, name='clouds3', clouds=2, min_ok=60), Task(one, 3 if q else 30, name='cross', clouds=1, cross=True, min_ok=60),
            Task(one, 4 if q else 40, name='copy', copy=True, min_ok=60), Task(one, 2 if q else 20, name='long', long=True, sey='perfect_absorber', min_ok=30),
            Task(one, 4 if q else 40, name='segments', sey='nunif', min_ok=60), Task(one, 3 if q else 30, name='charging', sey='charging', min_ok=60),
            Task(one, 2 if q else 20, name='em', em=True, min_ok=30)]
