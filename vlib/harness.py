"""Runner shared by all checks: schedules cases over worker processes, collects what the monitors observed, applies the
known-findings list, writes the evidence file and gives the verdict.

A check module defines PROP, LEVEL, RULE and tasks(tier) -> list of Task.  A task function receives a Case and reports
to it: case.ok(key) for every decided evaluation, case.fail(key, message) for every violation.

Exit codes: 0 held on everything explored, 1 violated, 2 error of the check, 3 monitors did not reach what they had to.
"""
import collections
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The check itself could not decide (never counts as a violation)."""


class Task:
    def __init__(self, fn, n, name=None, min_ok=1, **kw):
        self.fn, self.n, self.kw, self.min_ok = fn, n, kw, min_ok
        self.name = name or fn.__name__
        if kw and name is None:
            self.name += ':' + ','.join('%s=%s' % (k, kw[k]) for k in sorted(kw))


class Case:
    MAXSAMPLES = 2

    def __init__(self, prop, task, index, seed, tier, scratch):
        import numpy as np
        self.prop, self.task, self.index, self.seed, self.tier = prop, task, index, seed, tier
        self.scratch = scratch
        self.id = '%s#%d' % (task, index)
        self.np_seed = zlib.crc32(('%s|%s|%d|%d' % (prop, task, index, seed)).encode()) & 0x7fffffff
        self.rng = np.random.default_rng([seed, zlib.crc32(task.encode()), index])
        np.random.seed(self.np_seed)
        self.n_ok = 0
        self.keys = set()
        self.counts = collections.Counter()
        self.samples = []
        self.fails = []
        self.info = {}

    def reseed(self, extra=0):
        import numpy as np
        np.random.seed((self.np_seed + extra) & 0x7fffffff)

    def ok(self, key=None, n=1):
        self.n_ok += n
        if key is not None:
            self.keys.add(str(key))

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def sample(self, **kw):
        if len(self.samples) < self.MAXSAMPLES:
            self.samples.append(dict(case=self.id, **kw))

    def fail(self, key, msg):
        if len(self.fails) < 20:
            self.fails.append((str(key), '%s: %s' % (self.id, msg)))

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def path(self, *p):
        return os.path.join(self.scratch, *p)


def _quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.__stdout__ = sys.stdout


def _origin(tb, pkgdir):
    """'target' if the exception was raised inside the code under test (or something it called), else 'harness'."""
    frames = traceback.extract_tb(tb)
    last_pkg = last_h = -1
    for i, f in enumerate(frames):
        fn = os.path.abspath(f.filename)
        if fn.startswith(pkgdir) or fn.startswith('/repo/'):
            last_pkg = i
        elif fn.startswith(VERIF + '/vlib') or fn.startswith(VERIF + '/checks'):
            last_h = i
    return 'target' if last_pkg > last_h else 'harness'


class MissingOutput(Exception):
    """The simulation did not write a file or an entry that it has to write."""


class Output(dict):
    def __missing__(self, key):
        raise MissingOutput(key)


def loadmat(path):
    """Output file of a simulation; a missing file or entry is a violation."""
    import scipy.io as sio
    if not os.path.exists(path) and not os.path.exists(str(path) + '.mat'):
        raise MissingOutput('file %s' % os.path.basename(path))
    return Output(sio.loadmat(path))


def run_case(prop, task, index, seed, tier, pkgdir):
    scratch = tempfile.mkdtemp(prefix='vcase-')
    case = Case(prop, task.name, index, seed, tier, scratch)
    cwd = os.getcwd()
    err = None
    t0 = time.time()
    try:
        os.chdir(scratch)
        task.fn(case, **task.kw)
    except HarnessError as e:
        err = 'HarnessError: %s' % e
    except MissingOutput as e:
        case.fail('missing-output', '%s is missing in the output\n%s' % (e, traceback.format_exc()[-700:]))
    except Exception as e:
        txt = traceback.format_exc()
        if _origin(e.__traceback__, pkgdir) == 'target' and 'Vstub' not in txt and not isinstance(e, MemoryError):
            case.fail('exception-%s' % type(e).__name__, 'unexpected %s: %s\n%s' % (type(e).__name__, e, txt[-1500:]))
        else:
            err = txt
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(task=task.name, index=index, n_ok=case.n_ok, keys=list(case.keys), counts=dict(case.counts),
                samples=case.samples, fails=case.fails, err=err, wall=time.time() - t0)


def _worker(conn, modname, prop, seed, tier, pkgdir):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if not os.environ.get('VERIF_SHOW'):
        _quiet()
    # the warning pause of the 2D emission and the two git calls of every output file are not what is being observed
    import subprocess
    real_output = subprocess.check_output
    time.sleep = lambda *a: None
    subprocess.check_output = lambda cmd, *a, **k: b'none' if cmd and cmd[0] == 'git' else real_output(cmd, *a, **k)
    mod = importlib.import_module(modname)
    tasks = {t.name: t for t in mod.tasks(tier)}
    while True:
        try:
            item = conn.recv()
        except EOFError:
            break
        if item is None:
            break
        name, index = item
        res = run_case(prop, tasks[name], index, seed, tier, pkgdir)
        conn.send(res)
    os._exit(0)


def load_known(prop):
    known = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line.startswith('finding: property='):
                continue
            rest = line[len('finding: property='):]
            pid, rest = rest.split(' ', 1)
            if pid != prop:
                continue
            assert rest.startswith('key=')
            key, desc = rest[4:].split(' ', 1)
            known[key] = desc
    return known


def native_report(pid):
    """What the sanitizers wrote about a process."""
    d = os.environ.get('VERIF_SANLOG')
    out = ''
    if d:
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.%d' % pid):
                with open(os.path.join(d, fn), errors='replace') as f:
                    out += f.read()
    return ': ' + out[:1500] if out else ''


class Pool:
    def __init__(self, n, args, case_timeout):
        self.ctx = mp.get_context('fork')
        self.n, self.args, self.case_timeout = n, args, case_timeout
        self.workers = []

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b,) + self.args, daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.]

    def run(self, items, deadline):
        items = collections.deque(items)
        ws = [self.spawn() for _ in range(min(self.n, max(1, len(items))))]
        results, skipped = [], 0
        try:
            while True:
                if time.time() > deadline:
                    skipped += len(items)
                    items.clear()
                for w in ws:
                    if w[2] is None and items:
                        it = items.popleft()
                        w[1].send(it)
                        w[2], w[3] = it, time.time()
                busy = [w for w in ws if w[2] is not None]
                if not busy:
                    break
                mp.connection.wait([w[1] for w in busy], timeout=1.)
                for w in busy:
                    if w[1].poll():
                        try:
                            results.append(w[1].recv())
                            w[2] = None
                            continue
                        except (EOFError, OSError):
                            pass
                        w[0].join(10)
                        rc = w[0].exitcode
                        report = native_report(w[0].pid)
                        name, idx = w[2]
                        r = dict(task=name, index=idx, n_ok=0, keys=[], counts={}, samples=[], fails=[], err=None,
                                 wall=time.time() - w[3])
                        if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                                 signal.SIGFPE, signal.SIGILL):
                            r['fails'] = [('crash-signal-%d' % -rc, '%s#%d: process died with signal %d%s' % (name, idx, -rc, report))]
                        elif rc is not None and rc > 0:
                            r['fails'] = [('crash-exit-%d' % rc, '%s#%d: process ended itself with status %d (run-time error of compiled code)%s' % (name, idx, rc, report))]
                        else:
                            r['err'] = 'worker ended with %s' % rc
                        results.append(r)
                        w[:] = self.spawn()
                    elif time.time() - w[3] > self.case_timeout:
                        name, idx = w[2]
                        w[0].kill()
                        w[0].join()
                        results.append(dict(task=name, index=idx, n_ok=0, keys=[], counts={}, samples=[], err=None,
                                            wall=self.case_timeout,
                                            fails=[('no-termination', '%s#%d: no answer within %d s' % (name, idx, self.case_timeout))]))
                        w[:] = self.spawn()
                        # the verdict is known: no need to wait for others that may hang as well
                        skipped += len(items)
                        items.clear()
        finally:
            for w in ws:
                try:
                    w[1].send(None)
                except Exception:
                    pass
            for w in ws:
                w[0].join(2)
                if w[0].is_alive():
                    w[0].kill()
        return results, skipped


def main(modname, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    only = None
    i = 0
    while i < len(argv):
        if argv[i] in ('quick', 'thorough'):
            tier = argv[i]
        elif argv[i] == '--replay':
            i += 1
            replay = json.load(open(argv[i]))
            seed, tier = replay['seed'], replay['tier']
        elif argv[i] == '--only':
            i += 1
            only = argv[i]
        i += 1
    os.environ['VERIF_TIER'] = tier
    t0 = time.time()
    from . import native
    with open(os.path.join(VERIF, *modname.split('.')) + '.py') as f:
        if "\nVARIANT = 'san'\n" in f.read() and 'VERIF_VARIANT' not in os.environ:
            return native.under_sanitizers(modname, argv)
    scratch_root = tempfile.mkdtemp(prefix='vrun-')
    tempfile.tempdir = scratch_root
    rc = 2
    try:
        variant = os.environ.get('VERIF_VARIANT', 'plain')
        try:
            native.make_package(os.path.join(scratch_root, 'pkg'), variant)
        except native.BuildError as e:
            print('the tree does not build: %s' % e)
            return 2
        pkgdir = os.path.join(scratch_root, 'pkg')
        sys.path.insert(0, pkgdir)
        sys.dont_write_bytecode = True
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        import warnings
        warnings.filterwarnings('ignore')
        import numpy as np
        np.seterr(all='ignore')
        mod = importlib.import_module(modname)
        try:
            import io
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                import PyECLOUD.buildup_simulation  # noqa: warm import before forking
        except Exception:
            traceback.print_exc()
            print('the tree cannot be imported')
            return 2
        rc = _main(mod, modname, tier, seed, pkgdir, replay, only, t0)
        return rc
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def _main(mod, modname, tier, seed, pkgdir, replay, only, t0):
    prop = mod.PROP
    tasks = mod.tasks(tier)
    assert len({t.name for t in tasks}) == len(tasks), [t.name for t in tasks]
    if replay:
        items = [(replay['task'], replay['index'])]
    else:
        items = []
        todo = [(t, k) for t in tasks for k in range(t.n) if only is None or only in t.name]
        # interleave the tasks so that a deadline cuts them evenly; slowest tasks first
        todo.sort(key=lambda tk: tk[1] / max(1, tk[0].n))
        items = [(t.name, k) for t, k in todo]
    limit = getattr(mod, 'TIME', {}).get(tier, 400 if tier == 'quick' else 3000)
    case_timeout = getattr(mod, 'CASE_TIMEOUT', 240)
    nproc = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    pool = Pool(nproc, (modname, prop, seed, tier, pkgdir), case_timeout)
    sys.stdout.flush()
    results, skipped = pool.run(items, t0 + limit)

    known = load_known(prop)
    keys, counts, samples, fails, errs = set(), collections.Counter(), [], [], []
    n_ok = collections.Counter()
    per_task = {t.name: dict(cases=0, evaluations=0) for t in tasks}
    for r in results:
        n_ok[r['task']] += r['n_ok']
        per_task[r['task']]['cases'] += 1
        per_task[r['task']]['evaluations'] += r['n_ok']
        keys.update(r['task'].split(':')[0] + '|' + k for k in r['keys'])
        counts.update(r['counts'])
        if r['err']:
            errs.append((r['task'], r['index'], r['err']))
        for k, m in r['fails']:
            fails.append((k, m, r['task'], r['index']))
    seen_task = set()
    for r in results:
        if r['samples'] and r['task'] not in seen_task:
            seen_task.add(r['task'])
            samples.extend(r['samples'][:1])
    new, old = [], collections.OrderedDict()
    for k, m, t, i in fails:
        if k in known:
            old.setdefault(k, (m, t, i))
        else:
            new.append((k, m, t, i))
    starved = []
    if not replay and only is None and not fails:
        for t in tasks:
            if n_ok[t.name] < t.min_ok:
                starved.append('%s: %d < %d' % (t.name, n_ok[t.name], t.min_ok))
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=int(sum(n_ok.values())), distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=(samples or [dict(note='no sample recorded')])[:12],
                            cases_run=len(results), cases_skipped_by_deadline=skipped, per_task=per_task,
                            observed=dict(sorted(counts.items())),
                            slowest_case_s=round(max([r['wall'] for r in results] or [0]), 2), slowest=['%s#%d %.1f s' % (r['task'], r['index'], r['wall']) for r in sorted(results, key=lambda r: -r['wall'])[:3]]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay and only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fn = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(fn + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=_js)
        os.replace(fn + '.tmp', fn)
    for k, (m, t, i) in old.items():
        print('KNOWN-FINDING: property=%s %s (key=%s, seen in %s#%d)' % (prop, known[k], k, t, i))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        bykey = collections.OrderedDict()
        for k, m, t, i in new:
            bykey.setdefault(k, []).append((m, t, i))
        for j, (k, lst) in enumerate(bykey.items()):
            m, t, i = lst[0]
            fn = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (prop, ''.join(c if c.isalnum() or c in '-_' else '_' for c in k)[:60], seed))
            with open(fn, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, task=t, index=i, key=k, message=m), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, fn))
            print('   key=%s (%d occurrences): %s' % (k, len(lst), m))
            if j >= 9:
                break
        return 1
    if errs:
        print('ERROR: %d cases could not be decided' % len(errs))
        for t, i, e in errs[:5]:
            print('--- %s#%d\n%s' % (t, i, e))
        return 2
    if starved:
        print('INCONCLUSIVE: monitors not reached: ' + '; '.join(starved))
        return 3
    print('OK property=%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %d cases (%d skipped), %.1f s'
          % (prop, tier, seed, sum(n_ok.values()), len(keys), len(results), skipped, time.time() - t0))
    return 0


def _js(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.bool_,)):
        return bool(o)
    return str(o)
