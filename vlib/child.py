"""Runs one simulation in a process of its own: python -m vlib.child REQUEST.json (sys.path comes from the request)."""
import json
import os
import sys


def main(fn):
    req = json.load(open(fn))
    sys.path[:] = req['path']
    sys.dont_write_bytecode = True
    import subprocess
    import time
    real = subprocess.check_output
    time.sleep = lambda *a: None
    subprocess.check_output = lambda cmd, *a, **k: b'none' if cmd and cmd[0] == 'git' else real(cmd, *a, **k)
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    os.chdir(req['cwd'])
    from vlib import restart, simgen
    np.random.seed(req['seed'])
    sim = simgen.build(req['folder'], **req['kw'])
    log = restart.trace(sim)
    sim.run()
    with open(req['answer'] + '.tmp', 'w') as f:
        json.dump(log, f)
    os.replace(req['answer'] + '.tmp', req['answer'])


if __name__ == '__main__':
    main(sys.argv[1])
