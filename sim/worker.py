"""Runs whole optimisations in an interpreter of its own: jobs as JSON on
stdin, results as JSON on stdout."""
import json
import os
import sys

from . import core


def main():
    d = json.load(sys.stdin)
    real_out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    core.warm_up()
    import numpy as np
    import random
    import tempfile
    from . import book, world
    R = random.Random(d['seed'])
    tempfile._name_sequence = ('%08x' % R.randrange(1 << 32)
                               for _ in iter(int, 1))
    np.random.seed(R.randrange(1 << 30))
    random.seed(R.random())
    out = [None]*len(d['jobs'])
    for k in d['order']:
        j = d['jobs'][k]
        scratch = os.path.join(d['dir'], 'w%d' % k)
        os.makedirs(scratch)
        if d.get('cwd'):
            os.chdir(scratch)
        clk = world.KillClock(j['tick'], j['stalls'], j.get('jumps'),
                              j.get('offset', 0.0))
        w = world.simulate(j, scratch, save=j['save'], clk=clk,
                           random_seed=j.get('random_seed'))
        out[k] = world.report(w, j['save'])
        np.random.random(R.randrange(5))
    with os.fdopen(real_out, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
