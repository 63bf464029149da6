"""The same input files are simulated several times with the same state of the random generator and every step (digests of all
macroparticle attributes, times, fields, surface charge, gas densities) and every entry of every output file is compared bit by bit.
The repetitions differ in everything that must not matter: other simulations (other configurations, also aborted ones) before in the same
process; another simulation interleaved step by step, each with its own random generator; another folder (moved, blanks in the name,
relative path and other working directory); another process with another hash seed and with freshly allocated memory filled with
different patterns (so that anything read before it is written shows up); two sets of
input files of the same names and different contents, alone in fresh processes and one after the other in one process; and consecutive
partial runs with random end times, which moreover have to stop at the first step at or after the requested time."""
import copy
import json
import os
import shutil
import subprocess
import sys
import numpy as np
import scipy.io as sio
from vlib.harness import Task, HarnessError
from vlib import configs, restart, simgen
from checks import p18, p19

PROP = 'P30'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'differential trace monitor (bit-exact per step and output entry) under perturbed process history, memory, hashing, paths and call splitting'
NOTE = 'repetitions within and across processes; memory perturbation through the allocator'
RULE = 'an evaluation is one step or one output entry compared; distinct = configuration class x perturbation'
ASSUMPTIONS = ['the random generator of numpy is the only intended source of randomness']


def outputs(folder):
    out = {}
    for root, _, files in os.walk(folder):
        for f in files:
            if f.endswith('.mat'):
                fn = os.path.join(root, f)
                try:
                    out[os.path.relpath(fn, folder)] = {k: v for k, v in sio.loadmat(fn).items() if not k.startswith('__')}
                except Exception as e:
                    out[os.path.relpath(fn, folder)] = {'unreadable': np.array([type(e).__name__])}
            elif not f.endswith(('.pkl', '.input', '.beam', '.cloud')) and not f.startswith(('simulation_state', 'simulation_checkpoint')):
                out.setdefault('others', {})[os.path.relpath(os.path.join(root, f), folder)] = np.array([0])
    return out


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.names:
        return all(equal(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def compare(case, cfg, kind, ref, got):
    lab = cfg.lab
    (la, oa), (lb, ob) = ref, got
    for k, (x, y) in enumerate(zip(la, lb)):
        d = restart.differences(x, y)
        if d:
            case.fail(kind + '-' + '+'.join(sorted({q.split('.')[0].rstrip('0123456789') for q in d}))[:50],
                      '%s (%s): step %d (t=%s) differs in %s' % (lab, kind, k, x['time'], d[:6]))
            return
    case.ok('%s|%s' % (kind, '+'.join(lab.split('+')[:3])), len(la))
    if not case.check(len(la) == len(lb), kind + '-steps', '%s (%s): %d and %d steps' % (lab, kind, len(la), len(lb))):
        return
    if not case.check(sorted(oa) == sorted(ob), kind + '-files', lambda: '%s (%s): output files %s and %s' % (lab, kind, sorted(oa), sorted(ob))):
        return
    for f in oa:
        case.check(sorted(oa[f]) == sorted(ob[f]), kind + '-entries', lambda: '%s (%s): entries of %s differ: %s' % (lab, kind, f, sorted(set(oa[f]) ^ set(ob[f]))[:8]))
        for k in oa[f]:
            if k in ob[f]:
                case.check(equal(oa[f][k], ob[f][k]), kind + '-output-' + k, lambda: '%s (%s): %s of %s differs' % (lab, kind, k, f))
                case.ok()
    case.count(kind)


def config(rng, clouds=0, em=False, cross=False):
    cfg = p18.config(rng, clouds=clouds, em=em, cross=cross)
    cfg.kwb, _ = p19.recording(rng, cfg)
    return cfg


def solo(case, cfg, name, folder=None, parts=None, seed=0, kw=None, other=None, cwd=None):
    """Runs cfg in a folder of its own; returns (trace, outputs)."""
    folder = folder or case.path(name)
    if not os.path.isdir(folder):
        cfg.write(folder)
    k = dict(filen_main_outp=os.path.join(folder, 'Pyecltest.mat'))
    k.update(cfg.kwb)
    k.update(kw or {})
    case.reseed(seed)
    here = os.getcwd()
    os.chdir(cwd or (case.scratch if os.path.isabs(folder) else here))
    sim = simgen.build(folder, **k)
    log = restart.trace(sim)
    for T in parts or []:
        n = len(log)
        t0 = sim.beamtim.tt_curr
        sim.run(t_end_sim=T)
        t = [float(s['time'].split(' ')[0]) for s in log]
        case.check(all(x < T for x in t[:-1]) if len(t) > n else True, 'partial-late', lambda: '%s: run(t_end_sim=%r) went on after t=%r' % (cfg.lab, T, t[-2:]))
        case.check((t0 is not None and t0 >= T) == (len(t) == n) or sim.beamtim.end_simulation(), 'partial-empty', lambda: '%s: run(t_end_sim=%r) from t=%r made %d steps' % (cfg.lab, T, t0, len(t) - n))
        case.check((len(t) and t[-1] >= T) or sim.beamtim.end_simulation(), 'partial-early', lambda: '%s: run(t_end_sim=%r) stopped at t=%r' % (cfg.lab, T, t[-1:]))
    sim.run()
    case.check(bool(sim.beamtim.end_simulation()), 'run-end', '%s: run() returned before the end' % cfg.lab)
    return log, outputs(folder)


def repeat(case, clouds=0, **kw):
    """Same process: after other simulations, interleaved, in another folder, in parts."""
    rng = case.rng
    p19.fast_extraction()
    cfg = config(rng, clouds=clouds, **kw)
    ref = solo(case, cfg, 'sim')
    case.count('steps', len(ref[0]))
    case.sample(config=cfg.lab, steps=len(ref[0]), files=sorted(ref[1]))
    kind = str(rng.choice(['after-others', 'interleaved', 'other-path', 'parts']))
    if kind == 'after-others':
        for j in range(int(rng.integers(1, 3))):
            o = config(rng, clouds=int(rng.choice([0, 0, 1, 2])), cross=False)
            o.sim['t_end'] = 1e-10
            f = o.write(case.path('other%d' % j))
            s = simgen.build(f, filen_main_outp=os.path.join(f, 'out.mat'))
            s.run(t_end_sim=float(rng.uniform(0, 4e-9)))
            if rng.random() < .5:
                del s
        got = solo(case, cfg, 'again')
    elif kind == 'other-path':
        f = case.path('a b', 'deep', 'er', 'sim.v2')
        if rng.random() < .5:
            got = solo(case, cfg, None, folder=f)
        else:
            cfg.write(f)
            w = case.path('a b', 'deep', 'elsewhere')
            os.makedirs(w)
            here = os.getcwd()
            os.chdir(w)
            try:
                rel = os.path.join('..', 'er', 'sim.v2') + ('/' if rng.random() < .5 else '')
                got = solo(case, cfg, None, folder=rel, kw=dict(filen_main_outp=os.path.join(rel, 'Pyecltest.mat')))
                got = got[0], outputs(f)
            finally:
                os.chdir(here)
    elif kind == 'parts':
        T = float(ref[0][-1]['time'].split(' ')[0])
        parts = sorted(rng.uniform(0, T * 1.05, int(rng.integers(1, 7))))
        if rng.random() < .5:
            # exactly at steps
            t = [float(s['time'].split(' ')[0]) for s in ref[0]]
            parts = sorted([float(rng.choice(t)) for _ in parts])
            if rng.random() < .3:
                parts.insert(0, parts[0])
        got = solo(case, cfg, 'again', parts=[float(p) for p in parts])
    else:
        # the same inputs, another seed, one step each in turn
        other = cfg if rng.random() < .5 else config(rng, clouds=int(rng.choice([0, 1])))
        seed2 = 77
        ref2 = solo(case, other, 'other-solo', seed=seed2)
        sims, logs, rngs = [], [], []
        for nm, c, sd in (('again', cfg, 0), ('other', other, seed2)):
            f = case.path(nm)
            c.write(f)
            case.reseed(sd)
            s = simgen.build(f, filen_main_outp=os.path.join(f, 'Pyecltest.mat'), **c.kwb)
            sims.append(s)
            logs.append(restart.trace(s))
            rngs.append(np.random.get_state())
        stop = [False, False]
        while not all(stop):
            j = int(rng.integers(0, 2))
            if stop[j]:
                j = 1 - j
            np.random.set_state(rngs[j])
            t = sims[j].beamtim.tt_curr
            sims[j].run(t_end_sim=float(np.nextafter(t, 1.)) if t is not None else -1.)
            rngs[j] = np.random.get_state()
            stop[j] = bool(sims[j].beamtim.end_simulation())
        compare(case, other, 'interleaved', ref2, (logs[1], outputs(case.path('other'))))
        got = logs[0], outputs(case.path('again'))
    compare(case, cfg, kind, ref, got)


def process(case, clouds=0, **kw):
    """Other processes: hash seeds, allocator patterns, working directories."""
    rng = case.rng
    cfg = config(rng, clouds=clouds, **kw)
    cfg.kwb = {}
    res = []
    for j in range(2):
        f = case.path('run%d' % j)
        cfg.write(f)
        req = dict(path=[p for p in sys.path], cwd=case.scratch if j == 0 else f, seed=case.np_seed, folder=f, kw=dict(filen_main_outp=os.path.join(f, 'Pyecltest.mat')), answer=case.path('answer%d.json' % j))
        json.dump(req, open(case.path('req%d.json' % j), 'w'))
        env = dict(os.environ, PYTHONHASHSEED=str([0, 4242][j]), MALLOC_PERTURB_=str([0, int(rng.choice([0x55, 0xAA, 0x7f, 1]))][j]), PYTHONDONTWRITEBYTECODE='1')
        if j == 0:
            env.pop('MALLOC_PERTURB_')
        p = subprocess.run([sys.executable, '-m', 'vlib.child', case.path('req%d.json' % j)], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', timeout=200)
        if not os.path.exists(req['answer']):
            raise HarnessError('the process of run %d ended with %d: %s' % (j, p.returncode, p.stderr[-1500:]))
        res.append((json.load(open(req['answer'])), outputs(f)))
    case.reseed()
    here = solo(case, cfg, 'here')
    here = json.loads(json.dumps(here[0])), here[1]
    compare(case, cfg, 'process', res[0], res[1])
    compare(case, cfg, 'process-here', res[0], here)


def data_files(rng, cfg):
    """Input data read from files, all under names relative to the input folder or to the working directory."""
    m, b = cfg.mach, cfg.beam
    if m.get('track_method') == 'Boris' and rng.random() < .7:
        g = np.linspace(-3e-2, 3e-2, 25)
        X, Y = np.meshgrid(g, g, indexing='ij')
        m['B_map_file'] = 'Bmap.mat'
        m['fact_Bmap'] = 1.
        cfg.files['Bmap.mat'] = dict(xx=g, yy=g, Bx=Y * float(rng.uniform(.1, 5)), By=X * float(rng.uniform(.1, 5)))
        cfg.label.append('Bmap')
    if m.get('photoem_flag') and rng.random() < .7:
        m['inv_CDF_refl_photoem_file'] = 'psi.mat'
        u = np.linspace(0, 1, 50)
        cfg.files['psi.mat'] = dict(u_sam=u, inv_CDF=(u**float(rng.uniform(.5, 2)) - .5) * 2.)
        cfg.label.append('psi')
    if not cfg.sec_beams and rng.random() < .5:
        t = np.arange(0, 2.5e-9 * len(b['filling_pattern_file']), cfg.sim['Dt'])
        b.update(flag_bunched_beam=0, sigmaz=-1., t_offs=0., filling_pattern_file=-1, beam_long_prof_file='prof.mat', fact_beam=float(10**rng.uniform(11., 12.)), b_spac=2.5e-9)
        cfg.files['prof.mat'] = dict(t=t, lam_t_array=np.maximum(0, np.sin(t / float(rng.uniform(4e-10, 9e-10)))))
        cfg.label.append('prof')
    elif rng.random() < .5:
        cfg.files['fill.mat'] = dict(ppb_vect=np.array(b['filling_pattern_file']))
        b['filling_pattern_file'] = 'fill.mat'
        cfg.label.append('fill')
    if rng.random() < .4:
        g = np.linspace(-3.5e-2, 3.5e-2, 30)
        X, Y = np.meshgrid(g, g, indexing='ij')
        r2 = X**2 + Y**2 + float(rng.uniform(1e-3, 4e-3))**2
        b['beam_field_file'] = 'beam.mat'
        cfg.files['beam.mat'] = dict(xx=g, yy=g, Ex=X / r2 * 2e-9, Ey=Y / r2 * 2e-9)
        cfg.label.append('field')


def varied(rng, cfg):
    """The same input files, names included, with other numbers in some of the data files."""
    o = copy.deepcopy(cfg)
    fields = {'Bmap.mat': ('Bx', 'By'), 'psi.mat': ('inv_CDF',), 'prof.mat': ('lam_t_array',), 'fill.mat': ('ppb_vect',), 'beam.mat': ('Ex', 'Ey'), 'sey.mat': ('sey_true', 'sey_elast'), 'sigma.mat': ('cross_section_cm2',)}
    done = []
    for f in cfg.files:
        if rng.random() < .8 or len(cfg.files) == 1:
            for k in fields[f]:
                o.files[f][k] = cfg.files[f][k] * float(rng.uniform(.6, .9))
            done.append(f[:-4])
    if cfg.chamber is not None and rng.random() < .5:
        for k in ('Vx', 'Vy', 'x_sem_ellip_insc', 'y_sem_ellip_insc'):
            o.chamber[k] = np.asarray(cfg.chamber[k]) * .95
        done.append('chamber')
    if rng.random() < .3:
        o.sey['del_max'] = cfg.sey['del_max'] * .9
    return o, done


def child(case, cfg, name):
    f = case.path(name)
    cfg.write(f)
    req = dict(path=[p for p in sys.path], cwd=f, seed=case.np_seed, folder=f, kw=dict(filen_main_outp=os.path.join(f, 'Pyecltest.mat')), answer=case.path(name + '-answer.json'))
    json.dump(req, open(case.path(name + '-req.json'), 'w'))
    p = subprocess.run([sys.executable, '-m', 'vlib.child', case.path(name + '-req.json')], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', timeout=200)
    if not os.path.exists(req['answer']):
        raise HarnessError('the process of %s ended with %d: %s' % (name, p.returncode, p.stderr[-1500:]))
    return json.load(open(req['answer'])), outputs(f)


def rewritten(case, clouds=0, **kw):
    """Two sets of input files of the same names and different contents, each simulated in a fresh process; then both in one process,
    one after the other in the same folder or in two folders."""
    rng = case.rng
    cfg = p18.config(rng, clouds=clouds, sey='from_file' if rng.random() < .7 else None, **kw)
    cfg.kwb = {}
    data_files(rng, cfg)
    other, done = varied(rng, cfg)
    pair = [cfg, other]
    if rng.random() < .5:
        pair.reverse()
    ref = [child(case, c, 'ref%d' % j) for j, c in enumerate(pair)]
    case.count('different' if ref[0][0] != ref[1][0] else 'alike')
    same = rng.random() < .5
    here = os.getcwd()
    for j, c in enumerate(pair):
        f = case.path('shared' if same else 'folder%d' % j)
        if os.path.isdir(f):
            shutil.rmtree(f)
        c.write(f)
        os.chdir(f)
        try:
            got = solo(case, c, None, folder=f, cwd=f)
        finally:
            os.chdir(here)
        compare(case, c, 'rewritten' if same else 'same-names', ref[j], (json.loads(json.dumps(got[0])), got[1]))
    case.sample(config=cfg.lab, varied=done, same_folder=bool(same))
    for d in done:
        case.count('varied-' + d)


def tasks(tier):
    q = tier == 'quick'
    k = 1 if q else 12
    return [Task(repeat, 16 * k, name='repeat', min_ok=1000), Task(repeat, 6 * k, name='repeat-clouds', clouds=1, min_ok=300), Task(repeat, 3 * k, name='repeat-three', clouds=2, min_ok=100),
            Task(repeat, 2 * k, name='repeat-em', em=True, min_ok=50), Task(repeat, 2 * k, name='repeat-cross', clouds=1, cross=True, min_ok=50),
            Task(rewritten, 8 * k, name='rewritten', min_ok=200), Task(rewritten, 2 * k, name='rewritten-cross', clouds=1, cross=True, min_ok=40),
            Task(process, 4 * k, name='process', min_ok=200), Task(process, 2 * k, name='process-clouds', clouds=1, min_ok=100), Task(process, 1 * k, name='process-cross', clouds=2, cross=True, min_ok=50)]
