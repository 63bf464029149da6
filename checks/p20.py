"""A simulation with checkpoints is brought to a step in which a checkpoint is written (the first one, later ones, with one or several
clouds, with and without safety copies).  That step is then executed again and again in forked processes, each of which dies at a
different place: before every single operation on the files of the run (creation, rename, removal, copy; intercepted by an audit hook),
and in the middle of every file that is written, after 0, 1, some or all but one bytes (the process is killed by the kernel through a
file size limit, nothing is flushed or cleaned up).  After every death the simulation is started again from what is on the disk, in a
fresh process, and its state is compared with the recorded states of the uninterrupted run: it has to be the one of the newest complete
checkpoint.  In part of the cases the resumed run is continued to its end and the final states are compared too.  Other cases put
truncated, empty, foreign or several checkpoint files (indices 9 and 10 included) in the folder."""
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import numpy as np
from vlib.harness import Task, HarnessError
from vlib import configs, restart
from checks import p18

PROP = 'P20'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'crash-point enumeration by fault injection (process death at every file operation and inside every write) with a recovery oracle'
NOTE = 'process death by _exit or SIGXFSZ in forked processes; recovery judged by the state of the newly built simulation'
RULE = 'an evaluation is one crash (or one damaged folder) followed by a restart whose state is decided; distinct = file operation x place of the crash x kind of checkpoint'
ASSUMPTIONS = ['crashes are crashes of the process, not of the operating system (no loss of data already handed to the kernel)']

WRITES = os.O_WRONLY | os.O_RDWR


def forked(fn, hook=None):
    """Runs fn() in a forked process and returns (exit code or -signal, pickled result or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            res = fn()
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException as e:
            try:
                os.write(w, pickle.dumps(e if not isinstance(e, restart.Interrupted) else 'interrupted'))
            except BaseException:
                pass
            code = 71
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    try:
        return code, pickle.loads(data) if data else None
    except Exception:
        return code, None


class Ops:
    """Counts the operations on files below root; crash(k, how) dies at the k-th one."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.log = []
        self.k = self.how = None
        self.on = True
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on or event not in ('open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'shutil.copyfile', 'os.link', 'os.symlink'):
            return
        p = args[0]
        if isinstance(p, int) or p is None:
            return
        if event == 'open':
            mode, flags = (tuple(args) + (None, None))[1:3]
            w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (mode is None and isinstance(flags, int) and flags & WRITES)
            if not w:
                return
        p = os.path.realpath(os.fsdecode(p))
        if not p.startswith(self.root + os.sep):
            return
        self.log.append((event, os.path.relpath(p, self.root)))
        if self.k is not None and len(self.log) == self.k + 1:
            if self.how == 'before':
                os._exit(9)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.how, self.how))


def content(folder):
    out = {}
    if os.path.isdir(folder):
        for f in os.listdir(folder):
            with open(os.path.join(folder, f), 'rb') as fid:
                out[f] = fid.read()
    return out


def put(folder, files):
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    for f in files:
        with open(os.path.join(folder, f), 'wb') as fid:
            fid.write(files[f])


def complete(name, data):
    """A file is complete when it can be loaded to its end (decided without the code under test)."""
    import pickletools
    try:
        last = None
        for op, _, _ in pickletools.genops(data):
            last = op
        return last is not None and last.name == 'STOP'
    except Exception:
        return False


class Setup:
    def __init__(self, case, clouds=0, copy=False, passes=None, **kw):
        rng = case.rng
        self.cfg = cfg = p18.config(rng, clouds=clouds, **kw)
        n = passes or int(rng.integers(3, 6))
        cfg.beam['filling_pattern_file'] = [float(v) for v in (rng.random(n) < .7)]
        cfg.sim['checkpoint_DT'] = float(rng.choice([1e-12, 2.4e-9, 4.9e-9]))
        self.lab = cfg.lab
        self.folder = case.path('sim')
        cfg.write(self.folder)
        self.ckp = os.path.join(self.folder, 'ckp')
        self.kw = dict(filen_main_outp=os.path.join(self.folder, 'Pyecltest.mat'), checkpoint_folder=self.ckp + ('/' if rng.random() < .6 else ''))
        if copy:
            self.kw['copy_main_outp_folder'] = os.path.join(self.folder, 'safe')
            self.kw['copy_main_outp_DT'] = 2.4e-9
        self.ld = restart.Loader()
        self.case = case
        self.rngs = None

    def build(self, rngs=None, reseed=0):
        self.case.reseed(reseed)
        return self.ld.build(self.folder, rngs, **self.kw)

    def clean(self):
        for f in os.listdir(self.folder):
            p = os.path.join(self.folder, f)
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif f.endswith('.mat') and f.startswith('Pyecl'):
                os.remove(p)

    def reference(self, keep_files=False):
        """Uninterrupted run: states per step, and per checkpoint its step and the random generator."""
        sim = self.build()
        w = restart.FileWatch(sim, self.ckp, lambda f: f.endswith('.pkl'))
        self.files = {}

        def on(s):
            w.scan(s)
            if keep_files:
                for f in os.listdir(self.ckp):
                    if f not in self.files:
                        with open(os.path.join(self.ckp, f), 'rb') as fid:
                            self.files[f] = fid.read()
        self.ref = restart.trace(sim, on=on)
        sim.run()
        t = [float(s['time'].split(' ')[0]) for s in self.ref]
        self.at = {f: t.index(w.when[f][1]) for f in w.when}
        self.rngs = {f: w.rng[f] for f in w.rng}
        self.order = sorted(self.at, key=lambda f: self.at[f])
        self.left = sorted(os.listdir(self.ckp))
        self.clean()
        return sim

    def restarted(self, run):
        """State of a simulation started from what is on the disk (in a forked process)."""
        def go():
            s = self.build(self.rngs, reseed=12345)
            if s.loaded is None:
                return None, None, None
            st = restart.state(s)
            fin = None
            if run:
                s.run()
                fin = restart.state(s)
            return s.loaded, st, fin
        return forked(go)

    def decide(self, must, newest, run, what, key):
        """must: names one of which has to be resumed from (None: nothing complete yet); newest: the only acceptable one if known."""
        case = self.case
        code, res = self.restarted(run)
        if code != 0:
            e = repr(res)[:200]
            if must and not what.startswith('damaged'):
                case.fail('no-usable-checkpoint', '%s: %s: restart fails (%s, exit %s) with %r in the folder' % (self.lab, what, e, code, sorted(os.listdir(self.ckp))))
                return
            case.ok('refused|' + key)
            case.count('refused-' + e.split('(')[0])
            return
        loaded, st, fin = res
        if loaded is None:
            if must:
                case.fail('checkpoint-ignored', '%s: %s: the run starts from the beginning although %r is complete' % (self.lab, what, must))
                return
            case.ok('fresh|' + key)
            case.count('fresh-starts')
            return
        idx = [i for i, r in enumerate(self.ref) if r['time'] == st['time']]
        good = [f for f in (must or self.order) if self.at.get(f) in idx]
        d = restart.differences(self.ref[idx[0]], st) if idx else ['time']
        if not idx or d or not good:
            case.fail('wrong-state', '%s: %s: loaded %r at %s, which differs from the uninterrupted run in %s (complete: %r)' % (self.lab, what, loaded, st['time'], d[:5], must))
            return
        if newest is not None and self.at[newest] not in idx:
            case.fail('not-the-newest', '%s: %s: resumed from %r although %r is complete' % (self.lab, what, loaded, newest))
            return
        if run and restart.differences(self.ref[-1], fin):
            case.fail('continued-run', '%s: %s: the run resumed from %r ends in a different state: %s' % (self.lab, what, loaded, restart.differences(self.ref[-1], fin)[:5]))
            return
        case.ok('resumed|' + key)
        case.count('resumed')
        case.count('resumed-to-end', bool(run))


def crashes(case, **kw):
    rng = case.rng
    S = Setup(case, **kw)
    S.reference()
    if not S.at:
        case.fail('no-checkpoint', '%s: no checkpoint in the folder after any step of a run over %d passages, checkpoint_DT %r' % (S.lab, len(S.cfg.beam['filling_pattern_file']), S.cfg.sim['checkpoint_DT']))
        return
    case.check(len(S.left) == 1 and S.left[0] == S.order[-1], 'left-at-end', '%s: %r left after the uninterrupted run' % (S.lab, S.left))
    which = sorted(set([0, len(S.order) - 1] + [int(rng.integers(0, len(S.order)))])) if case.tier != 'quick' else sorted({int(rng.integers(0, len(S.order))), len(S.order) - 1})
    targets = [S.at[S.order[i]] for i in which]
    sim = S.build()
    state = {'i': -1}
    orig = sim.sim_time_step

    def step(*a, **k):
        state['i'] += 1
        if state['i'] in targets:
            explore(case, S, rng, lambda: orig(*a, **k), state['i'])
        return orig(*a, **k)
    sim.sim_time_step = step
    sim.run()
    case.sample(config=S.lab, checkpoints=S.order, crash_steps=targets)


def explore(case, S, rng, do_step, i):
    new = [f for f in S.order if S.at[f] == i][0]
    before = [f for f in S.order if S.at[f] < i]
    prev = before[-1] if before else None
    rs = np.random.get_state()
    keep = {d: content(os.path.join(S.folder, d)) for d in ('ckp', 'safe') if os.path.isdir(os.path.join(S.folder, d))}
    mats = {f: open(os.path.join(S.folder, f), 'rb').read() for f in os.listdir(S.folder) if f.startswith('Pyecl')}

    def reset():
        for d in keep:
            put(os.path.join(S.folder, d), keep[d])
        for f in os.listdir(S.folder):
            if f.startswith('Pyecl'):
                os.remove(os.path.join(S.folder, f))
        for f in mats:
            with open(os.path.join(S.folder, f), 'wb') as fid:
                fid.write(mats[f])

    def dry():
        ops = Ops(S.folder)
        do_step()
        sizes = {}
        for _, p in ops.log:
            q = os.path.join(S.folder, p)
            sizes[p] = os.path.getsize(q) if os.path.isfile(q) else None
        return ops.log, sizes
    code, res = forked(dry)
    if code != 0:
        raise HarnessError('dry run failed: %r' % (res,))
    log, sizes = res
    final = content(S.ckp)
    if new not in final:
        case.fail('not-written', '%s: %r is not in the folder after the step that writes it: %r' % (S.lab, new, sorted(final)))
        return
    size_new = len(final[new])
    reset()
    plan = []
    for k, (ev, p) in enumerate(log):
        plan.append((k, 'before'))
        if ev == 'open':
            n = sizes.get(p)
            n = n if n else size_new
            inside = p.startswith('ckp')
            ns = [0, 1, n - 1, int(rng.integers(1, n))] + ([int(rng.integers(1, n)) for _ in range(2)] if inside else [])
            plan += [(k, v) for v in (sorted(set(ns)) if inside else ns[3:4])]
    plan.append((len(log), 'end'))
    case.count('file-operations', len(log))
    for k, how in plan:
        def die():
            ops = Ops(S.folder)
            ops.k, ops.how = k, how
            do_step()
            os._exit(9)
        np.random.set_state(rs)
        code, _ = forked(die)
        if code not in (9, -signal.SIGXFSZ):
            # the limit was not reached, or the code noticed the failing write and went on
            case.count('crash-not-reached')
        now = content(S.ckp)
        case.count('crashes')
        done = [f for f in now if f in S.at and S.at[f] <= i and complete(f, now[f])]
        must = ([prev] if prev else []) + ([new] if new in done else [])
        newest = new if now.get(new) == final[new] else None
        ev, p = log[k] if k < len(log) else ('end', 'end')
        where = 'before' if how == 'before' else ('end' if how == 'end' else ('empty' if how == 0 else 'partial'))
        S.decide(must, newest, rng.random() < (.15 if case.tier == 'quick' else .3), 'crash (%s, %s, %s) in the step of %s, folder %r' % (ev, os.path.basename(p), how, new, {f: len(now[f]) for f in now}),
                 '%s|%s|%s|%s' % (ev, p.split(os.sep)[0] if os.sep in p else os.path.splitext(p)[1], where, 'first' if prev is None else 'later'))
        reset()
    np.random.set_state(rs)


def damaged(case, **kw):
    rng = case.rng
    S = Setup(case, passes=int(rng.integers(3, 6)), **kw)
    S.cfg.sim['checkpoint_DT'] = 1e-12
    S.cfg.write(S.folder)
    S.reference(keep_files=True)
    names = [f for f in S.order if f in S.files]
    if len(names) < 2:
        case.fail('no-checkpoint', '%s: checkpoints %r of a run over %d passages, checkpoint_DT %r' % (S.lab, names, len(S.cfg.beam['filling_pattern_file']), S.cfg.sim['checkpoint_DT']))
        return
    i = int(rng.integers(0, len(names) - 1))
    E, F = names[i], names[-1]
    dE, dF = S.files[E], S.files[F]

    def trunc(d):
        return d[:int(rng.choice([0, 1, len(d) - 1, int(rng.integers(1, len(d)))]))]

    def index(f, j):
        return '_'.join(f.split('_')[:-1] + ['%d.pkl' % j])

    def situation(files, must, newest, what, alias=None):
        put(S.ckp, files)
        at, rngs = dict(S.at), dict(S.rngs)
        for f, g in (alias or {}).items():
            S.at[f], S.rngs[f] = at[g], rngs[g]
        S.decide(must, newest, False, what, what)
        S.at, S.rngs = at, rngs
        case.count('folders')
    situation({}, None, None, 'empty folder')
    situation({F: dF}, [F], F, 'one complete checkpoint')
    situation({F: trunc(dF)}, ['nothing'], None, 'damaged: only a truncated checkpoint')
    situation({E: dE, F: dF}, [F], F, 'damaged: two complete checkpoints')
    situation({E: dE, F: trunc(dF)}, [E], None, 'damaged: complete older and truncated newer checkpoint')
    situation({E: trunc(dE), F: dF}, [F], F, 'damaged: truncated older and complete newer checkpoint')
    a, b = index(F, 9), index(F, 10)
    situation({a: dE, b: dF}, [b], b, 'damaged: checkpoints 9 and 10', {a: E, b: F})
    a, b = index(F, 99), index(F, 100)
    situation({a: dE, b: dF}, [b], b, 'damaged: checkpoints 99 and 100', {a: E, b: F})
    situation({F: dF, 'notes.txt': b'hello'}, [F], F, 'damaged: a foreign file')
    situation({F: dF, '.nfs0000012': dE}, [F], F, 'damaged: a hidden foreign file')
    situation({F: dF, index(F, 50) + '.tmp': trunc(dF)}, [F], F, 'damaged: a temporary file')
    S.clean()


def tasks(tier):
    q = tier == 'quick'
    return [Task(crashes, 10 if q else 90, name='crashes', min_ok=60), Task(crashes, 3 if q else 30, name='crashes-clouds', clouds=1, min_ok=30),
            Task(crashes, 3 if q else 30, name='crashes-copy', copy=True, min_ok=30), Task(damaged, 4 if q else 40, name='damaged', min_ok=20),
            Task(damaged, 1 if q else 15, name='damaged-clouds', clouds=1, min_ok=5)]
