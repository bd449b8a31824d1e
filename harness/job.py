"""One shard of a check: generate, run the library, record a trace."""
import json
import os
import random
import sys


def main():
    spec = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from harness.recorder import Recorder, setup_process
    setup_process(mem_gb=spec.get('mem', 4))
    from harness import registry
    rng = random.Random("%s-%s-%s-%s" % (spec['seed'], spec['pid'], spec['tier'], spec['i']))
    rng.run_seed = spec["seed"]
    rec = Recorder(spec['out'], call_timeout=spec.get('call_timeout', 60), deadline=spec.get('deadline'))
    registry.GENERATORS[spec['pid']](rec, rng, spec['pid'], spec['tier'], spec['i'], spec['n'])
    rec.close()


if __name__ == '__main__':
    main()
