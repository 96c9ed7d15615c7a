"""Prints violations of any category met by a check's runs, whether the check reports them or not (development)."""
import sys, random
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
from dst import runner
c = runner.load(sys.argv[1]); n = int(sys.argv[2]); cats = sys.argv[3].split(','); lim = int(sys.argv[4]) if len(sys.argv) > 4 else 5
seed = 1
for i in range(n):
    rng = random.Random(runner.seed_of(seed, c.id, i))
    spec = c.gen(rng, 'quick', i)
    run = runner.execute(c, spec)
    for v in run.vio:
        if v[0] in cats:
            print(i, runner.describe(v)); lim -= 1
            if lim <= 0: sys.exit()
