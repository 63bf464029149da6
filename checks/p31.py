"""Random mini-simulations with one to three clouds request macroparticle states at random times (exactly at steps, at passage starts where
cleaning and regeneration follow, several within one step, before the start and after the end, per cloud, as list or as file).  Monitors
take the particles of every cloud when its recorder is called; the files found afterwards are compared with what they must be: which files,
at which step each, and every particle bit by bit.  Every file is then used as initial distribution of a new simulation (alone, on top of
other initial particles, for the main and for additional clouds, with too little room), whose clouds are compared with the file before the
first step and through its density after it.  The same for states kept in memory (extract_dict, init_from_dict), taken at random steps of a
running simulation and put back later or into another simulation; they must not change with the simulation they were taken from."""
import os
import numpy as np
import scipy.io as sio
from vlib.harness import Task, loadmat
from vlib import configs, simgen, observe
from vlib.simgen import DROP
from checks import p18
from checks.p34 import deposit

PROP = 'P31'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'state snapshots at the recorder boundary compared with the saved files, and saved files with the clouds built from them'
NOTE = 'snapshot oracle, bit-exact'
RULE = 'an evaluation is one saved state or one restored cloud compared; distinct = configuration class x kind of request'
ASSUMPTIONS = ['files hold no time of last impact: particles read from them count as not yet having hit']
A = configs.ATTRS


def requests(rng, T, Dt):
    n = int(rng.integers(1, 6))
    t = []
    for _ in range(n):
        r = rng.random()
        if r < .25:
            t.append(2.5e-9 * int(rng.integers(0, int(T / 2.5e-9))) + 1e-15)
        elif r < .4:
            t.append(float(Dt * int(rng.integers(0, T / Dt))))
        elif r < .5:
            t.append(-1e-9)
        elif r < .6:
            t.append(10 * T)
        elif r < .7 and t:
            t.append(t[-1] + .1 * Dt)
        else:
            t.append(float(rng.uniform(0, T)))
    return sorted(t)


def config(rng, clouds, **kw):
    cfg = p18.config(rng, clouds=clouds, **kw)
    if rng.random() < .25:
        cfg.mach['init_unif_flag'] = 0
        cfg.mach['init_unif_edens_flag'] = 0
        cfg.label.append('empty')
    if rng.random() < .4:
        for c in cfg.clouds.values():
            c['init_unif_flag'] = int(rng.random() < .5)
    return cfg


def saved(case, clouds=0, **kw):
    rng = case.rng
    cfg = config(rng, clouds, **kw)
    lab = cfg.lab
    T = 2.5e-9 * len(cfg.beam['filling_pattern_file'])
    Dt = cfg.sim['Dt']
    names = (['main'] if clouds else [None]) + list(cfg.clouds)
    want, how = {}, {}
    for i, nm in enumerate(names):
        t = requests(rng, T, Dt)
        r = rng.random()
        how[i] = 'list'
        if r < .3:
            f = case.path('times%d.mat' % i)
            sio.savemat(f, dict(t_obs=np.array(t)), oned_as=str(rng.choice(['row', 'column'])))
            how[i] = 'file'
            val = f
        elif r < .45:
            val, t, how[i] = -1, [], 'none'
        else:
            val = t
        if i == 0:
            cfg.sim['save_mp_state_time_file'] = val
            want[0] = t
        elif rng.random() < .6:
            cfg.clouds[nm]['save_mp_state_time_file'] = val
            want[i] = t
        else:
            want[i], how[i] = want[0], 'inherited'
    # the first step takes place right after construction: keep the run short but with passages
    sim = cfg.build(case, 'sim')
    rec = observe.Observer(sim)
    start = [configs.snap(c.MP_e) for c in sim.cloud_list]
    sim.run()
    folder = case.path('sim')
    found = {f for f in os.listdir(folder) if f.startswith('MP_state')}
    expected = set()
    files = []
    for i, nm in enumerate(names):
        steps = rec.log[i]
        k = 0
        for j, t in enumerate(want[i]):
            # one file per step at most
            while k < len(steps) and not (steps[k].t >= t and steps[k].state['N'] > 0):
                k += 1
            if k == len(steps):
                break
            f = 'MP_state_%s%d' % (nm + '_' if nm else '', j)
            f = f if f in found else f + '.mat'
            expected.add(f)
            s = steps[k]
            early = [x for x in steps[:k] if x.t >= t and x.state['N'] > 0]
            k2, k = k, k + 1
            if f not in found:
                case.fail('state-missing', '%s: no file %s for t=%g (requests %r of cloud %d)' % (lab, f, t, want[i], i))
                continue
            d = loadmat(os.path.join(folder, f))
            tt = float(np.squeeze(d['tt']))
            if tt != s.t and j > 0 and tt == steps[k2 - 1].t:
                # two requests served in one step
                s = steps[k2 - 1]
                k = k2
            case.check(tt == s.t, 'state-time', lambda: '%s: %s of t=%r, requested %r (step %r)' % (lab, f, tt, t, s.t))
            for a in A:
                g = np.asarray(d[a]).ravel()
                case.check(np.array_equal(g, s.state[a]), 'state-' + a, lambda: '%s: %s of %s differs from the cloud (%d and %d particles) at t=%g' % (lab, a, f, len(g), s.state['N'], s.t))
            case.check(int(np.squeeze(d['N_mp'])) == s.state['N'], 'state-number', lambda: '%s: N_mp in %s' % (lab, f))
            case.ok('%s|%s|%s' % (how[i], 'new' if s.new_pass else 'mid', '+'.join(cfg.label[:3])))
            case.count('files')
            case.count('files-at-passage', s.new_pass)
            case.count('particles', s.state['N'])
            files.append((os.path.join(folder, f), s.state))
    case.check(found <= expected, 'state-untimely', lambda: '%s: files %r with requests %r' % (lab, sorted(found - expected), want))
    case.sample(config=lab, requests=[float(t) for t in want[0]], files=len(found))
    if files:
        restore(case, cfg, files, start)


def restore(case, cfg, files, start):
    rng, lab = case.rng, cfg.lab
    names = [None] + list(cfg.clouds)
    new = {}
    for nm in names:
        if nm is None or rng.random() < .6:
            new[nm] = files[int(rng.integers(0, len(files)))]
    if rng.random() < .3 and len(names) > 1:
        new.pop(None)
    keep = rng.random() < .4
    import copy
    c2 = copy.deepcopy(cfg)
    c2.sim['save_mp_state_time_file'] = -1
    if rng.random() < .6:
        c2.sim.update(Dt_sc=None, t_sc_ON=-1.)
    for nm in names:
        m = c2.mach if nm is None else c2.clouds[nm]
        m.pop('save_mp_state_time_file', None) if nm else None
        if nm in new:
            m['filename_init_MP_state'] = new[nm][0]
            if not keep:
                m['init_unif_flag'] = m['init_unif_edens_flag'] = 0
                if nm is None:
                    for c in c2.clouds.values():
                        c.setdefault('init_unif_edens_flag', 0)
        elif nm is not None:
            m['filename_init_MP_state'] = None
    sim = c2.build(case, 'restored')
    base = None
    if keep:
        c3 = copy.deepcopy(c2)
        c3.mach.pop('filename_init_MP_state', None)
        for c in c3.clouds.values():
            c['filename_init_MP_state'] = None
        base = [configs.snap(c.MP_e) for c in c3.build(case, 'base').cloud_list]
    for i, nm in enumerate(names):
        got = configs.snap(sim.cloud_list[i].MP_e)
        n0 = base[i]['N'] if base else (got['N'] if nm not in new else 0)
        n1 = new[nm][1]['N'] if nm in new else 0
        if nm not in new and not keep:
            continue
        if not case.check(got['N'] == n0 + n1, 'restored-number', lambda: '%s: cloud %d has %d particles, %d from the file and %d others expected' % (lab, i, got['N'], n1, n0)):
            continue
        for a in A:
            if base:
                case.check(np.array_equal(got[a][:n0], base[i][a]), 'restored-others-' + a, lambda: '%s: reading a state changed %s of the other particles of cloud %d' % (lab, a, i))
            if n1:
                case.check(np.array_equal(got[a][n0:], new[nm][1][a]), 'restored-' + a, lambda: '%s: %s of cloud %d differs from the saved state' % (lab, a, i))
        if 't_last_impact' in got and n1:
            case.check(bool(np.all(got['t_last_impact'][n0:] == -1)), 'restored-t_last_impact', lambda: '%s: particles read from a file have hit the wall at %r' % (lab, np.unique(got['t_last_impact'][n0:])[:4]))
        case.ok('restored|%s|%s' % ('added' if base else 'alone', 'main' if nm is None else 'additional'))
        case.count('restored-particles', n1)
    # density of the first step contains them
    q = [float(c.MP_e.charge) for c in sim.cloud_list]
    rec = observe.Observer(sim)
    step = sim.sim_time_step
    done = []

    def first(*a, **k):
        r = step(*a, **k)
        done.append(1)
        return r
    sim.sim_time_step = first
    sim.run(t_end_sim=-1.)
    sc = sim.spacech_ele
    if rec.log[0] and rec.log[0][0].t > (c2.sim.get('t_sc_ON') or 0.) and not hasattr(sc.PyPICobj, 'pic_list') and c2.sim.get('Dt_sc') is None:
        truth = 0
        for i in range(len(names)):
            s = rec.log[i][0].state
            truth = truth + q[i] * deposit(s['x_mp'], s['y_mp'], s['nel_mp'], sc.xg, sc.yg)
        case.check(np.abs(sc.rho - truth).max() <= 1e-9 * np.abs(truth).max(), 'restored-density', lambda: '%s: the density after the first step is not that of the restored particles' % lab)
        case.count('densities')
    # no room
    if new and new[list(new)[0]][1]['N'] > 1 and rng.random() < .5:
        nm = list(new)[0]
        c4 = copy.deepcopy(c2)
        lim = max(1, new[nm][1]['N'] // 2)
        if nm is None and not keep and not cfg.clouds:
            c4.sim['N_mp_max'] = lim
            try:
                c4.build(case, 'noroom')
                case.fail('no-room', '%s: a state of %d particles fitted into room for %d' % (lab, new[nm][1]['N'], lim))
            except (ValueError, MemoryError, IndexError):
                case.count('refused')


def memory(case, clouds=0, **kw):
    rng = case.rng
    cfg = config(rng, clouds, **kw)
    lab = cfg.lab
    sim = cfg.build(case, 'sim')
    twin = cfg.build(case, 'twin')
    p = float(rng.uniform(.05, .3))
    held = []

    def same(a, b, key, msg, charge=True):
        for k in A + (('t_last_impact',) if 't_last_impact' in a and 't_last_impact' in b else ()):
            case.check(np.array_equal(a[k], b[k]), key + '-' + k, lambda: '%s: %s: %s differs' % (lab, msg, k))
        case.check(a['N'] == b['N'], key + '-number', lambda: '%s: %s: %d and %d particles' % (lab, msg, a['N'], b['N']))
        case.ok('%s|%s' % (key, '+'.join(cfg.label[:3])))

    def after(s):
        if case.fails:
            return
        i = int(rng.integers(0, len(s.cloud_list)))
        MP = s.cloud_list[i].MP_e
        if rng.random() < p:
            held.append((i, MP.extract_dict(), configs.snap(MP)))
            case.count('extracted')
        if held and rng.random() < p:
            i, d, st = held[int(rng.integers(0, len(held)))]
            # what is held must not have changed meanwhile
            g = {k: np.asarray(d[k]) for k in A}
            g['N'] = int(d['N_mp'])
            if 't_last_impact' in d:
                g['t_last_impact'] = np.asarray(d['t_last_impact'])
            same(g, st, 'held', 'state held in memory')
            MP = (s if rng.random() < .6 else twin).cloud_list[i].MP_e
            ref = float(MP.nel_mp_ref)
            MP.init_from_dict(d)
            same(configs.snap(MP), st, 'put-back', 'state put back')
            case.check(not np.any(MP.nel_mp[MP.N_mp:]), 'put-back-rest', '%s: charge beyond the last particle after putting back a state' % lab)
            case.check(float(MP.nel_mp_ref) == ref, 'put-back-ref', '%s: reference size changed' % lab)
            if rng.random() < .3:
                # changing the cloud must not change the state
                MP.x_mp[:MP.N_mp] += 1e-6
                MP.nel_mp[:MP.N_mp] *= .5
                same(g, st, 'held-after', 'state after changing the cloud')
                MP.init_from_dict(d)
            case.count('put-back')
        if rng.random() < p:
            # a state added to what a running cloud holds
            i = int(rng.integers(0, len(s.cloud_list)))
            d = configs.snap(s.cloud_list[i].MP_e)
            MP = s.cloud_list[i].MP_e
            if d['N'] > 400 or d['N'] < 2 or MP.N_mp + d['N'] > len(MP.x_mp):
                return
            old = configs.snap(MP)
            if rng.random() < .5:
                # particles hit and removed leave their traces behind the last one
                MP.nel_mp[int(rng.integers(0, MP.N_mp)):MP.N_mp] = 0.
                MP.clean_small_MPs()
                old = configs.snap(MP)
            f = case.path('added%d.mat' % len(os.listdir(case.scratch)))
            sio.savemat(f, dict(N_mp=d['N'], **{a: d[a] for a in A}), oned_as='row')
            MP.add_from_file(f)
            new = configs.snap(MP)
            n = old['N']
            case.check(new['N'] == n + d['N'], 'added-number', lambda: '%s: %d particles from a file and %d others make %d' % (lab, d['N'], n, new['N']))
            for a in A:
                case.check(np.array_equal(new[a][:n], old[a]) and np.array_equal(new[a][n:], d[a]), 'added-' + a, lambda: '%s: %s after adding a state' % (lab, a))
            if 't_last_impact' in new:
                case.check(np.array_equal(new['t_last_impact'][:n], old['t_last_impact']) and bool(np.all(new['t_last_impact'][n:] == -1)), 'added-t_last_impact',
                           lambda: '%s: times of last impact %r of particles from a file added to %d others' % (lab, np.unique(new['t_last_impact'][n:])[:4], n))
            case.ok('added|%s' % ('lifetime' if 't_last_impact' in new else 'plain'))
            case.count('added')
            held.append((i, MP.extract_dict(), new))
            s.cloud_list[i].MP_e.init_from_dict(held[0][1] if held[0][0] == i else held[-1][1])
    configs.on_step(sim, after)
    sim.run()
    case.sample(config=lab, held=len(held))


def tasks(tier):
    k = 1 if tier == 'quick' else 15
    return [Task(saved, 20 * k, name='saved', min_ok=20 * k), Task(saved, 8 * k, name='saved-clouds', clouds=1, min_ok=10 * k), Task(saved, 5 * k, name='saved-three', clouds=2, min_ok=6 * k),
            Task(saved, 2 * k, name='saved-cross', clouds=1, cross=True, min_ok=1), Task(memory, 8 * k, name='memory', min_ok=50 * k), Task(memory, 4 * k, name='memory-clouds', clouds=1, min_ok=20 * k)]
