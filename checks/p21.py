"""The same physical configuration is run several times: once without the recorder (skip_pyeclsaver), and two to three times with random
sets of recording options of every kind (decimation, probes, detailed info, histograms, per-segment data, detectors, lifetime
histograms, electric energy, movies, macroparticle and simulation states, checkpoints, safety copies, save_only, save_mat_every,
custom observables, log and progress files, several output files, extraction of emission curves), each with the random generator put to
the same state before the first step.  All particles, fields, surface charges, gas densities and times are recorded as digests after
every step and compared bit by bit with the run without recorder.  In a second kind of case the run is disturbed on purpose: at random
steps emission curves and energy distributions are extracted, states are saved and pickled, results and fields are read, and the
digests before and after and of all later steps are compared.  Random numbers used by a diagnostic itself are put back by the harness, so
that only effects on the physics are seen.  Dx_hist is at the same time the grid of the regeneration of macroparticles, and
therefore only varied where nothing is regenerated."""
import copy
import os
import pickle
import numpy as np
from vlib.harness import Task
from vlib import configs, restart
from checks import p16, p17, p18, p19

PROP = 'P21'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'differential trace monitor: same run with different diagnostics, bit-exact per step'
NOTE = 'the run of the same tree without recorder is the reference; digests of all particles, fields, surface and gas state'
RULE = 'an evaluation is one step of a run with diagnostics compared with the run without; distinct = configuration class x diagnostic options'
ASSUMPTIONS = ['the random generator of numpy is the only source of randomness']


def quiet_extraction():
    """Extraction of emission curves with few events and without net use of random numbers."""
    from PyECLOUD import impact_management_class as imc
    cls = imc.impact_management
    for nm in ('extract_sey_curves', 'extract_energy_distributions'):
        f = getattr(cls, nm, None)
        if f is None or getattr(f, '_quiet', False):
            continue

        def g(self, n_rep, E, *a, _f=f, **k):
            r = np.random.get_state()
            try:
                return _f(self, 30, E if np.ndim(E) == 0 else np.asarray(E)[::40], *a, **k)
            finally:
                np.random.set_state(r)
        g._quiet = True
        setattr(cls, nm, g)


def surface(sim):
    """State of the emission models beyond restart.state."""
    out = {}
    for i, cl in enumerate(sim.cloud_list):
        sm = cl.impact_man.sey_mod
        for k, v in sorted(vars(sm).items()):
            if isinstance(v, (int, float, np.ndarray)) and not isinstance(v, bool) and np.asarray(v).dtype != object:
                out['cloud%d.model-%s' % (i, k)] = restart.dig(np.asarray(v))
        ch = cl.impact_man.chamb
        for k in ('Vx', 'Vy', 'del_max_segments', 'R0_segments', 'Emax_segments'):
            v = getattr(ch, k, None)
            if v is not None:
                out['chamber.' + k] = restart.dig(np.asarray(v, float))
    return out


def traced(sim, before=None):
    log = []
    configs.on_step(sim, lambda s: log.append(restart.state(s)), before=before)
    return log


def optional(rng, cfg, case, name):
    """Random recording options on a copy of the configuration; returns (cfg, kwargs, label)."""
    c = copy.deepcopy(cfg)
    kwb, every = p19.recording(rng, c, movies=not c.clouds)
    lab = []
    # the pitch of the position histogram is at the same time the grid of the regeneration
    if any(k in cfg.sim for k in ('N_mp_regen', 'N_mp_regen_low', 'N_mp_soft_regen', 'N_mp_async_regen')):
        for d, d0 in [(c.sim, cfg.sim)] + [(c.clouds[q], cfg.clouds[q]) for q in c.clouds]:
            d.pop('Dx_hist', None)
            if 'Dx_hist' in d0:
                d['Dx_hist'] = d0['Dx_hist']
    if every:
        kwb['_every'] = True
    n = len(c.beam['filling_pattern_file'])
    if rng.random() < .5:
        kwb.update(checkpoint_DT=float(rng.choice([1e-12, 2.4e-9, 5e-9])), checkpoint_folder=case.path(name + '-ckp') + '/')
        lab.append('checkpoints')
    if rng.random() < .4:
        kwb.update(copy_main_outp_DT=float(rng.choice([1e-12, 2.4e-9])), copy_main_outp_folder=case.path(name + '-copy'))
        os.makedirs(case.path(name + '-copy'))
        lab.append('copy')
    if rng.random() < .5:
        kwb['save_simulation_state_time_file'] = [float(t) for t in np.sort(rng.uniform(0, 2.5e-9 * n, 3))]
        lab.append('states')
    if rng.random() < .4:
        c.sim['save_mp_state_time_file'] = [float(t) for t in np.sort(rng.uniform(0, 2.5e-9 * n, 4))]
        lab.append('mp-states')
    if rng.random() < .5:
        c.sim.update(flag_lifetime_hist=True, Nbin_lifetime_hist=int(rng.integers(2, 30)), lifetime_hist_max=float(10**rng.uniform(-9.5, -7.5)), Dt_lifetime_hist=float(rng.choice([1e-9, 1e-12])))
        lab.append('lifetime')
    if rng.random() < .5:
        c.sim.update(logfile_path=case.path(name + '-log.txt'), progress_path=case.path(name + '-prog'))
        lab.append('log')
    if rng.random() < .3:
        c.sim['flag_verbose_file'] = True
    if rng.random() < .3:
        c.sim['stopfile'] = case.path(name + '-stop')
    if rng.random() < .3:
        kwb.pop('_every', None)
        kwb['skip_pyeclsaver'] = True
        lab.append('skip')
    for k, t in (('flag_movie', 'rho-movie'), ('flag_sc_movie', 'field-movie'), ('Dh_electric_energy', 'energy'), ('save_only', 'save_only'), ('flag_hist_impact_seg', 'segments')):
        if c.sim.get(k):
            lab.append(t)
    lab += [k for k in kwb if 'custom' in k or k == 'extract_sey']
    return c, kwb, '+'.join(sorted(set(lab)))


def build(case, cfg, kwb, name, seed=5):
    kwb = dict(kwb)
    if kwb.pop('_every', False):
        N = int(cfg.build(case, name + '-probe', skip_pyeclsaver=True).beamtim.N_pass_tot)
        kwb['save_mat_every'] = int(case.rng.choice([k for k in range(1, N + 1) if N % k == 0]))
    sim = cfg.build(case, name, **kwb)
    return sim


def compare(case, ref, log, lab, key):
    case.check(len(log) == len(ref), 'steps', lambda: '%s: %d steps, %d without recorder' % (lab, len(log), len(ref)))
    for k in range(min(len(ref), len(log))):
        # times of the last impact are only kept for the lifetime histogram
        d = [w for w in restart.differences(ref[k], log[k]) if not (w.endswith('t_last_impact') and (w not in ref[k] or w not in log[k]))]
        if d:
            case.fail('changed-' + '+'.join(sorted({x.split('.')[0].rstrip('0123456789') for x in d}))[:60],
                      '%s: step %d (t=%s) differs from the run without recorder in %s; e.g. %s: %r instead of %r' % (lab, k, ref[k]['time'], d[:6], d[0], log[k].get(d[0]), ref[k].get(d[0])))
            return False
        case.ok()
    return case.ok(key)


def options(case, **kw):
    rng = case.rng
    quiet_extraction()
    cfg = p18.config(rng, **kw)
    for k in ('flag_lifetime_hist', 'Nbin_lifetime_hist', 'lifetime_hist_max', 'Dt_lifetime_hist'):
        cfg.sim.pop(k, None)
    sim = cfg.build(case, 'ref', skip_pyeclsaver=True)
    case.reseed(3)
    ref = traced(sim)
    sim.run()
    s0 = surface(sim)
    for j in range(int(rng.integers(2, 4))):
        c, kwb, what = optional(rng, cfg, case, 'v%d' % j)
        sim = build(case, c, kwb, 'v%d' % j)
        case.reseed(3)
        log = traced(sim)
        sim.run()
        lab = '%s with %s' % (cfg.lab, what)
        compare(case, ref, log, lab, '%s|%s' % (cfg.lab, what))
        s1 = surface(sim)
        d = [k for k in restart.differences(s0, s1) if not k.split('-')[-1].startswith('flag')]
        case.check(not d, 'model-changed', '%s: state of the emission model or chamber differs at the end: %s' % (lab, d[:5]))
        case.count('runs')
        case.count('steps', len(log))
        for w in what.split('+'):
            case.count('with-' + w)
    case.sample(config=cfg.lab, steps=len(ref))


# disturbances in the middle of a run: reading and extracting

def extract(rng, sim, case):
    im = sim.cloud_list[int(rng.integers(0, len(sim.cloud_list)))]
    E = 10**rng.uniform(-1, 3.3, 6)
    im.impact_man.extract_sey_curves(30, np.repeat(E, 40), np.linspace(0.05, 1., 3), im.MP_e.charge, im.MP_e.mass)
    return 'extract-curves'


def extract_energy(rng, sim, case):
    im = sim.cloud_list[int(rng.integers(0, len(sim.cloud_list)))]
    im.impact_man.extract_energy_distributions(30, 10**rng.uniform(1, 3), np.linspace(0.05, 1., 3), im.MP_e.mass, 40, 1.5)
    return 'extract-energies'


def pickled(rng, sim, case):
    pickle.dumps([c.MP_e for c in sim.cloud_list])
    return 'pickle'


def read_fields(rng, sim, case):
    x, y = rng.uniform(-.01, .01, (2, 50))
    if sim.spacech_ele is not None and not sim.spacech_ele.flag_em_tracking:
        sim.spacech_ele.PyPICobj.gather(x, y)
        sim.spacech_ele.get_sc_eletric_field(sim.cloud_list[0].MP_e)
    sim.beamtim.get_beam_eletric_field(sim.cloud_list[0].MP_e) if hasattr(sim.beamtim, 'get_beam_eletric_field') else None
    return 'fields'


def read_mps(rng, sim, case):
    for c in sim.cloud_list:
        c.MP_e.get_positions()
        c.MP_e.extract_dict()
        c.impact_man.chamb.is_outside(c.MP_e.x_mp[:c.MP_e.N_mp], c.MP_e.y_mp[:c.MP_e.N_mp])
    return 'particles'


def disturbed(case, **kw):
    rng = case.rng
    quiet_extraction()
    cfg = p18.config(rng, **kw)
    sim = cfg.build(case, 'ref')
    case.reseed(3)
    ref = traced(sim)
    sim.run()
    sim = cfg.build(case, 'again')
    case.reseed(3)
    kinds = [read_fields, read_mps, pickled]
    kinds += [extract, extract_energy] * 2
    did = []
    p = float(rng.choice([.05, .2, .6]))

    def before(s):
        if s.beamtim.tt_curr is None or rng.random() > p:
            return
        f = kinds[int(rng.integers(0, len(kinds)))]
        if 'furman' in cfg.lab and f in (extract,) and rng.random() < .8:
            return
        a = dict(restart.state(s), **surface(s))
        r = np.random.get_state()
        w = f(rng, s, case)
        np.random.set_state(r)
        b = dict(restart.state(s), **surface(s))
        d = restart.differences(a, b)
        did.append(w)
        case.check(not d, 'reading-%s-changes-state' % w, '%s: %s at %g changed %s' % (cfg.lab, w, s.beamtim.tt_curr, d[:6]))
        case.count('readings-' + w)
    log = traced(sim, before)
    sim.run()
    compare(case, ref, log, '%s disturbed by %s' % (cfg.lab, sorted(set(did))), '%s|%s' % (cfg.lab, '+'.join(sorted(set(did)))))
    case.count('steps', len(log))


def tasks(tier):
    q = tier == 'quick'
    out = [Task(options, 14 if q else 160, name='options', min_ok=400), Task(options, 3 if q else 40, name='options2', clouds=1, min_ok=100), Task(options, 1 if q else 15, name='options3', clouds=2, min_ok=30),
           Task(options, 2 if q else 20, name='options-em', em=True, min_ok=50), Task(options, 2 if q else 20, name='options-cross', clouds=1, cross=True, min_ok=50),
           Task(options, 4 if q else 40, name='options-charging', sey='charging', min_ok=100), Task(options, 2 if q else 25, name='options-segments', sey='nunif', min_ok=50)]
    for s in ('ECLOUD', 'furman_pivi', 'charging', 'nunif', 'from_file', 'cos_low_ene'):
        out.append(Task(disturbed, 2 if q else 20, name='disturbed-' + s, sey=s, min_ok=50))
    out.append(Task(disturbed, 2 if q else 20, name='disturbed2', clouds=1, min_ok=50))
    return out
