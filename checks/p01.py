"""P01: containment monitor attached to every step of real simulations."""
import numpy as np
from vlib import configs
from vlib.harness import Task

PROP, LEVEL = 'P01', 'exploration'
TECHNIQUE = 'runtime monitor over step-by-step state of real simulations'
NOTE = 'Every state of every cloud after every step of the simulations run is judged against an independent inside/outside test; assurance is limited to the configurations and seeds run.'
RULE = ('random complete simulations (chamber x tracker x emission model x sources x regeneration x number of clouds) with a monitor after every '
        'step; an evaluation is one cloud state after one step with at least one macroparticle; distinct = configuration class')


def monitor(case, sim, ref, lab):
    st = dict(steps=0, mp=0, maxmp=0, imp=0, refs={}, grow=0)

    def after(sim):
        st['steps'] += 1
        for cl in sim.cloud_list:
            mp = cl.MP_e
            n = mp.N_mp
            if not case.check(isinstance(n, (int, np.integer)) and 0 <= n <= len(mp.x_mp), 'bad-count', '%s: N_mp = %r of %d' % (lab, n, len(mp.x_mp))):
                raise StopIteration
            x, y = mp.x_mp[:n], mp.y_mp[:n]
            for k in configs.ATTRS:
                v = getattr(mp, k)[:n]
                if not np.all(np.isfinite(v)):
                    i = int(np.argmin(np.isfinite(v)))
                    case.fail('non-finite', '%s: cloud %s %s[%d] = %r at t = %r' % (lab, cl.name, k, i, v[i], sim.beamtim.tt_curr))
                    raise StopIteration
            if n:
                ins = ref.inside(x, y) | (ref.dist(x, y) < 1e-13)
                out = np.asarray(sim.chamb.is_outside(np.ascontiguousarray(x), np.ascontiguousarray(y)), bool)
                bad = ~ins | out
                if bad.any():
                    i = int(np.argmax(bad))
                    case.fail('outside', '%s: cloud %s particle %d at (%r, %r) outside the chamber (distance %g, is_outside %s) at t = %r' % (
                        lab, cl.name, i, x[i], y[i], ref.dist([x[i]], [y[i]])[0], out[i], sim.beamtim.tt_curr))
                    raise StopIteration
                case.check(np.all(mp.nel_mp[:n] >= 0), 'negative-charge', lambda: '%s: cloud %s negative macroparticle size %r' % (lab, cl.name, mp.nel_mp[:n].min()))
                case.ok(lab)
                st['mp'] += n
                st['maxmp'] = max(st['maxmp'], n)
            if cl.MP_e.nel_mp_ref != st['refs'].get(cl.name, cl.MP_e.nel_mp_ref):
                case.count('regenerations')
            st['refs'][cl.name] = cl.MP_e.nel_mp_ref
    configs.on_step(sim, after)
    return st


def simulate(case, clouds=0, chamber=None):
    cfg = configs.random(case.rng, clouds=clouds, chamber=chamber)
    if case.rng.random() < .2:
        cfg.sim['flag_reinterp_fields_at_substeps'] = cfg.mach.get('track_method') in ('Boris', 'BorisMultipole')
    sim = cfg.build(case)
    try:
        st = monitor(case, sim, cfg.ref, cfg.lab)
        sim.run()
    except StopIteration:
        return
    case.count('steps', st['steps'])
    case.count('particle_states', st['mp'])
    case.sample(config=cfg.lab, steps=st['steps'], max_macroparticles=st['maxmp'])


def tasks(tier):
    k = 1.6 if tier == 'quick' else 8
    return [Task(simulate, int(30 * k), name='rect', chamber='rect', min_ok=500), Task(simulate, int(30 * k), name='ellip', chamber='ellip', min_ok=500),
            Task(simulate, int(40 * k), name='convex', chamber='convex', min_ok=500), Task(simulate, int(50 * k), name='nonconvex', chamber='nonconvex', min_ok=500),
            Task(simulate, int(40 * k), name='clouds', clouds=1, min_ok=500), Task(simulate, int(20 * k), name='3clouds', clouds=2, min_ok=300)]
