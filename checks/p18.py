"""A run is recorded step by step (digests of all macroparticle attributes, times, every field array of every grid, surface charges, gas
densities), with simulation states saved at random times (also in the first step, in steps that start a passage, several per run) and,
in other cases, with checkpoints and a crash injected at a random step.  A second simulation is built from the same input files, the
saved state is loaded (through load_state, or by the constructor from the checkpoint folder), the random generator is put to where it
was when the state was saved, and the run is continued with the same recording; consecutive restarts are chained.  Every step of the
resumed run is compared, component by component, bit by bit, with the same step of the uninterrupted run.  Configurations vary over
chambers, trackers, emission models (including charging surfaces), sources, clean/regeneration kinds, one to three clouds, secondary
beams, cross-ionisation, field solvers and electromagnetic tracking."""
import os
import numpy as np
from vlib.harness import Task
from vlib import configs, restart, simgen, observe
from vlib.simgen import QE, ME, DROP

PROP = 'P18'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'fault injection (interruption and restart) with a differential trace monitor, bit-exact per step'
NOTE = 'the uninterrupted run of the same tree is the reference; digests of all particles, fields, surface and gas state'
RULE = 'an evaluation is one step of a resumed run compared with the uninterrupted one; distinct = configuration class x moment of saving'
ASSUMPTIONS = ['the random generator of numpy is the only source of randomness']

LOW_REGEN = [dict(), dict(N_mp_regen=500, N_mp_after_regen=150, N_mp_regen_low=0, t_ON_regen_low=10.), dict(N_mp_regen=10**9, N_mp_regen_low=400, N_mp_after_regen=600, t_ON_regen_low=0.),
             dict(N_mp_soft_regen=300, N_mp_after_soft_regen=150), dict(N_mp_async_regen=400, N_mp_after_async_regen=200)]


def config(rng, clouds=0, em=False, cross=False, sey=None, mode=None):
    if mode in ('FFT_PEC_Boundary', 'FFT_OpenBoundary'):
        sey = str(rng.choice(['ECLOUD', 'furman_pivi', 'from_file', 'flat_low_ene']))
    cfg = configs.random(rng, clouds=clouds, sey=sey, regen='none', tracker='BorisMultipole' if em else None, chamber='rect' if mode in ('FFT_PEC_Boundary', 'FFT_OpenBoundary') else None)
    cfg.sim.update(LOW_REGEN[int(rng.integers(0, len(LOW_REGEN)))])
    cfg.sim['Dt_sc'] = float(rng.choice([2e-10, 1e-10, 5e-10]))
    if rng.random() < .3:
        cfg.sim['t_sc_ON'] = float(rng.uniform(0, 4e-9))
    if not em:
        restart.pic_mode(rng, cfg, mode)
        if rng.random() < .2:
            cfg.sim['Dt_sc'] = None
    else:
        cfg.sim['flag_em_tracking'] = True
        cfg.label.append('em')
    if rng.random() < .3:
        cfg.sec_beams = [dict(fact_beam=float(10**rng.uniform(10, 11)), t_offs=float(rng.uniform(.5e-9, 2e-9))) for _ in range(int(rng.integers(1, 3)))]
        cfg.label.append('secbeam')
    if rng.random() < .4:
        cfg.sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=10, lifetime_hist_max=1e-8, Dt_lifetime_hist=1e-9)
    if rng.random() < .4:
        cfg.mach['N_sub_steps'] = cfg.mach.get('N_sub_steps', DROP)
    if cross:
        cross_ion(rng, cfg)
    return cfg


def cross_ion(rng, cfg):
    names = ['main'] + list(cfg.clouds)
    e = 10**np.linspace(0, 4, 200) if rng.random() < .5 else np.linspace(1., 2000., 400)
    sig = 1e-15 * e / 100. * np.exp(1 - e / 100.) + 2e-16
    cfg.files['sigma.mat'] = dict(energy_eV=e, cross_section_cm2=sig)
    d = {}
    for _ in range(int(rng.integers(1, 3))):
        pr = str(rng.choice(names))
        prod = [str(v) for v in rng.choice(names, int(rng.integers(1, len(names) + 1)), replace=False)]
        # a thin gas that is visibly used up
        d.setdefault(pr, {})['process%d' % len(d.get(pr, {}))] = dict(target_density=float(10**rng.uniform(17.5, 18.5)), E_eV_init=1., products=prod, cross_section='sigma.mat', extract_sigma=False,
                                                                       generate_equally=bool(rng.random() < .4))
    cfg.sim['cross_ion_definitions'] = d
    for c in cfg.clouds.values():
        c.setdefault('nel_mp_ref_0', 1e5)
    cfg.label.append('cross')


def save_times(rng, T, n):
    """Times at which states are requested; some coincide with the start of a passage."""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .4:
            out.append(2.5e-9 * int(rng.integers(0, max(1, int(T / 2.5e-9)))) + 1e-15)
        elif r < .5:
            out.append(0.)
        else:
            out.append(float(rng.uniform(0, .95 * T)))
    return sorted(out)


def compare(case, ref, i0, got, lab, kind):
    """got[k] has to equal ref[i0 + 1 + k]."""
    n = len(ref) - (i0 + 1)
    if not case.check(len(got) == n, kind + '-steps', '%s: the resumed run made %d steps, the uninterrupted one had %d left' % (lab, len(got), n)):
        if len(got) == 0:
            return False
    for k in range(min(n, len(got))):
        d = restart.differences(ref[i0 + 1 + k], got[k])
        if d:
            a, b = ref[i0 + 1 + k], got[k]
            case.fail('%s-%s' % (kind, '+'.join(sorted({x.split('.')[0].rstrip('0123456789') for x in d}))[:60]),
                      '%s: step %d after the restart (t=%s) differs in %s; e.g. %s: %r uninterrupted, %r resumed' % (lab, k + 1, a['time'], d[:6], d[0], a.get(d[0]), b.get(d[0])))
            return False
        case.ok()
    return True


def states(case, clouds=0, **kw):
    rng = case.rng
    cfg = config(rng, clouds=clouds, **kw)
    T = 2.5e-9 * len(cfg.beam['filling_pattern_file'])
    times = save_times(rng, T, int(rng.integers(1, 5)))
    cfg.sim['save_simulation_state_time_file'] = times if rng.random() < .7 else 'times.mat'
    lab = cfg.lab
    fA = case.path('sim')
    if isinstance(cfg.sim['save_simulation_state_time_file'], str):
        import scipy.io as sio
        sio.savemat(case.path('times.mat'), dict(t_obs=np.array(times + [1.])))  # at least two entries
        cfg.sim['save_simulation_state_time_file'] = case.path('times.mat')
    os.makedirs(case.path('outA'))
    sim = cfg.build(case, 'sim', filen_main_outp=case.path('outA', 'Pyecltest.mat'))
    watch = restart.FileWatch(sim, case.path('outA'), lambda f: f.startswith('simulation_state'))
    log = restart.trace(sim, on=watch.scan)
    sim.run()
    when = {s['time'].split(' ')[0]: i for i, s in enumerate(log)}
    lastt = float(log[-1]['time'].split(' ')[0])
    ts = [float(s['time'].split(' ')[0]) for s in log]
    # one state per requested time (one per step at most), at the first step not before it
    exp, nxt = [], 0
    for t in times:
        i = max(nxt, int(np.searchsorted(ts, t)))
        if i < len(ts):
            exp.append(i)
            nxt = i + 1
    names = sorted(watch.when, key=lambda f: int(f.split('_')[-1].split('.')[0]))
    got = [when[repr(watch.when[f][1])] for f in names]
    case.check(got == exp, 'state-times', lambda: '%s: states saved at steps %r, expected %r' % (lab, got, exp))
    ld = restart.Loader()
    for k, f in enumerate(names):
        os.makedirs(case.path('outB%d' % k))
        case.reseed(77 + k)
        simB = ld.build(fA, None, filen_main_outp=case.path('outB%d' % k, 'Pyecltest.mat'), save_simulation_state_time_file=times)
        chain = rng.random() < .5
        simB.rng_at_load = watch.rng[f]
        simB.load_state(f, load_from_folder=case.path('outA') + '/', force_disable_save_simulation_state=not chain)
        d = restart.differences(restart.state(simB), log[got[k]])
        # the step in which the state was saved may be completed at loading or not be needed; the following steps decide
        watchB = restart.FileWatch(simB, case.path('outB%d' % k), lambda f: f.startswith('simulation_state')) if chain else None
        logB = restart.trace(simB, on=watchB.scan if chain else None)
        simB.run()
        new = bool(int(log[got[k]]['time'].split(' ')[2]) != (int(log[got[k] - 1]['time'].split(' ')[2]) if got[k] else -2))
        key = '%s|%s' % ('+'.join(sorted(set(cfg.label))), 'passage' if new else 'mid')
        if compare(case, log, got[k], logB, '%s, state saved at %s' % (lab, log[got[k]]['time']), 'restart'):
            case.ok(key)
            case.count('restarts')
            case.count('restarts-at-passage', new)
            case.count('resumed-steps', len(logB))
        else:
            break
        if chain and watchB.when:
            # restart again from a state saved by the resumed run
            g = sorted(watchB.when, key=lambda f: watchB.when[f][1])[-1]
            i1 = when[repr(watchB.when[g][1])]
            os.makedirs(case.path('outC%d' % k))
            simC = ld.build(fA, None, filen_main_outp=case.path('outC%d' % k, 'Pyecltest.mat'))
            simC.rng_at_load = watchB.rng[g]
            simC.load_state(g, load_from_folder=case.path('outB%d' % k) + '/')
            logC = restart.trace(simC)
            simC.run()
            if compare(case, log, i1, logC, '%s, second restart from %s' % (lab, log[i1]['time']), 'second-restart'):
                case.ok('chained|' + key)
                case.count('chained-restarts')
    case.sample(config=lab, steps=len(log), states=[ts[i] for i in got])


def checkpoints(case, clouds=0, **kw):
    """Crash at random steps, resumed by the constructor from the checkpoint folder, possibly several times."""
    rng = case.rng
    cfg = config(rng, clouds=clouds, **kw)
    if len(cfg.beam['filling_pattern_file']) < 4:
        cfg.beam['filling_pattern_file'] = [float(v) for v in (rng.random(int(rng.integers(4, 7))) < .7)]
    lab = cfg.lab
    ck = case.path('ckp') + '/'
    cfg.sim.update(checkpoint_DT=float(rng.choice([2.4e-9, 4.9e-9, 1e-12])), checkpoint_folder=ck)
    fA = case.path('sim')
    cfg.write(fA)
    ld = restart.Loader()
    # reference: no interruption, same recording
    case.reseed()
    sim = ld.build(fA, None, filen_main_outp=os.path.join(fA, 'Pyecltest.mat'))
    watch = restart.FileWatch(sim, ck, lambda f: f.endswith('.pkl'))
    rngs = {}
    ref = restart.trace(sim, on=watch.scan)
    sim.run()
    saved = {f: (watch.when[f][1], watch.rng[f]) for f in watch.when}
    ts = [float(s['time'].split(' ')[0]) for s in ref]
    if not saved:
        raise AssertionError('no checkpoint written')
    import shutil
    shutil.rmtree(case.path('ckp'))
    os.makedirs(case.path('ckp'))
    # interrupted run
    first = min(t for t, _ in saved.values())
    start = -1
    name = None
    for attempt in range(int(rng.integers(1, 4)) + 1):
        if name is None:
            case.reseed()
        else:
            case.reseed(500 + attempt)
        rr = {f: v[1] for f, v in saved.items()}
        simB = ld.build(fA, rr, filen_main_outp=os.path.join(fA, 'Pyecltest.mat'))
        listing = sorted(os.listdir(ck))
        if name is not None:
            case.check(simB.loaded == name, 'checkpoint-loaded', '%s: folder holds %r, loaded %r' % (lab, listing, simB.loaded))
            t0 = saved[name][0]
            start = ts.index(t0)
        elif simB.loaded is not None:
            case.fail('checkpoint-loaded', '%s: loaded %r from an empty folder' % (lab, simB.loaded))
        left = len(ref) - start - 1
        last = attempt >= 1 and rng.random() < .5
        stop = int(rng.integers(1, left + 1)) if left and not last else 10**9
        if name is None:
            stop = max(stop, ts.index(first) + 2)

        def crash(s):
            if len(log) + 1 >= stop:
                log.append(restart.state(s))
                raise restart.Interrupted
        log = []
        log2 = restart.trace(simB, on=None)
        # put the recording in one list and the crash after it
        orig = simB.sim_time_step
        cnt = [0]

        def step(*a, **k):
            r = orig(*a, **k)
            cnt[0] += 1
            if cnt[0] >= stop:
                raise restart.Interrupted
            return r
        simB.sim_time_step = step
        try:
            simB.run()
            done = True
        except restart.Interrupted:
            done = False
        n = len(log2)
        if not compare(case, ref[:start + 1 + n] if not done else ref, start, log2, '%s, run %d from %s' % (lab, attempt, name), 'checkpoint' if name else 'plain'):
            return
        if name is not None:
            case.count('restarts')
            case.ok('ckp|' + '+'.join(sorted(set(cfg.label))))
            case.count('resumed-steps', n)
        if done:
            break
        lst = os.listdir(ck)
        if not case.check(len(lst) == 1, 'checkpoint-count', '%s: %r in the checkpoint folder after a crash' % (lab, lst)):
            return
        name = lst[0]
        # the newest checkpoint of this run at the moment of the crash
        tc = ts[start + n]
        newest = max((f for f in saved if saved[f][0] <= tc), key=lambda f: saved[f][0])
        case.check(name == newest, 'checkpoint-newest', '%s: %r left, newest is %r' % (lab, name, newest))
    case.sample(config=lab, checkpoints={f: saved[f][0] for f in saved})


def tasks(tier):
    q = tier == 'quick'
    out = [Task(states, 10 if q else 150, name='states', min_ok=200), Task(states, 5 if q else 70, name='states2', clouds=1, min_ok=100), Task(states, 2 if q else 25, name='states3', clouds=2, min_ok=20),
           Task(states, 3 if q else 30, name='em', em=True, min_ok=30), Task(states, 3 if q else 40, name='cross', clouds=1, cross=True, min_ok=30),
           Task(states, 3 if q else 30, name='charging', sey='charging', min_ok=30),
           Task(checkpoints, 6 if q else 80, name='checkpoints', min_ok=100), Task(checkpoints, 3 if q else 40, name='checkpoints2', clouds=1, min_ok=50),
           Task(checkpoints, 1 if q else 15, name='checkpoints-cross', clouds=1, cross=True, min_ok=10)]
    for m in ('FiniteDifferences_Staircase', 'ShortleyWeller_WithTelescopicGrids', 'FFT_PEC_Boundary', 'FFT_OpenBoundary'):
        out.append(Task(states, 1 if q else 12, name='solver-' + m, mode=m, min_ok=10))
    return out
