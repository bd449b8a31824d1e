"""Runs one check: generate and record in parallel, validate with TLC, report."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import tlc
from . import mc
from . import registry

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
JOB_LIMIT = {'quick': 500, 'thorough': 5400}
DEADLINE = {'quick': 200, 'thorough': 2400}
TLC_LIMIT = {'quick': 600, 'thorough': 5400}


class CheckError(Exception):
    pass


def python_for(pid):
    return '/opt/venv-sage/bin/python' if pid == 'C27' else '/opt/venv/bin/python'


def environment(i):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED=str(i * 7919 % 4294967295),
               HOME=os.environ.get('HOME') or '/root', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               DOT_SAGE=env.get('DOT_SAGE', '/root/.sage'))
    return env


def record_job(pid, tier, seed, i, n, work):
    out = os.path.join(work, 'trace%d.ndjson' % i)
    scratch = os.path.join(work, 'cwd%d' % i)
    os.makedirs(scratch, exist_ok=True)
    spec = {"pid": pid, "tier": tier, "seed": seed, "i": i, "n": n, "out": out, "deadline": DEADLINE[tier],
            "call_timeout": 60 if tier == 'quick' else 180, "work": work}
    for attempt in (1, 2):
        try:
            p = subprocess.run([python_for(pid), os.path.join(HERE, 'harness', 'job.py'), json.dumps(spec)],
                               cwd=scratch, env=environment(seed * 100 + i), capture_output=True, text=True,
                               timeout=JOB_LIMIT[tier])
        except subprocess.TimeoutExpired:
            raise CheckError("recording shard %d exceeded its time" % i)
        if p.returncode == 0 and os.path.exists(out):
            with open(out + '.stats') as f:
                return out, json.load(f)
    raise CheckError("recording shard %d failed (%s):\n%s" % (i, p.returncode, p.stderr[-3000:]))


STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def run_tlc(module, cfg, work, name, env=None, heap='2g', limit=600, extra=()):
    meta = os.path.join(work, 'meta-' + name)
    e = dict(os.environ)
    e.update(env or {})
    with open(os.path.join(work, name + '.log'), 'w') as log:
        try:
            p = subprocess.run(tlc.command(module, cfg, meta, heap=heap, extra=extra), cwd=work, env=e, stdout=log,
                               stderr=subprocess.STDOUT, timeout=limit)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s (%s) exceeded %d s" % (module, name, limit))
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, name + '.log'), errors='replace') as f:
        text = f.read()
    st = STATES.findall(text)
    gen, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    return p.returncode, text, gen, dist


def validate(trace, work, name, tier, module='Trace'):
    """[(line, clause)], states, transitions, events"""
    fails, start, gen, dist = [], 2, 0, 0
    for attempt in range(30):
        rc, text, g, d = run_tlc(module, os.path.join(tlc.SPEC, module + '.cfg'), work, name,
                                 {'TRACE': trace, 'START': str(start)}, limit=TLC_LIMIT[tier])
        gen, dist = gen + g, dist + d
        new = {(int(a), b) for a, b in re.findall(r'@@FAIL (\d+) (\S+?)"', text)}
        fails += sorted(new)
        done = re.search(r'@@DONE (\d+) (\d+)', text)
        if done:
            return fails, dist, gen, int(done.group(1))
        # TLC could not evaluate an event: the recorded value is not of the
        # form the specification can read.  Report it and go on behind it.
        at = re.findall(r'/\\ i = (\d+)', text) or re.findall(r'^i = (\d+)', text, re.M)
        if not at:
            raise CheckError("TLC gave no answer on %s:\n%s" % (name, text[-3000:]))
        i = int(at[-1])
        fails.append((i, 'unreadable-result'))
        start = i + 1
        with open(os.path.join(work, name + '.unreadable%d.log' % i), 'w') as f:
            f.write(text)
    raise CheckError("too many unreadable events in %s" % name)


def model_check(module, constants, invariants, work, name, tier, violated=None, props=()):
    cfg = os.path.join(work, name + '.cfg')
    with open(cfg, 'w') as f:
        if constants:
            f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in constants.items()))
        f.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
        f.write(''.join('INVARIANT %s\n' % x for x in invariants))
        f.write(''.join('PROPERTY %s\n' % x for x in props))
    rc, text, gen, dist = run_tlc(module, cfg, work, name, limit=TLC_LIMIT[tier], heap='3g')
    if violated:
        if 'Error: Invariant %s is violated.' % violated not in text:
            raise CheckError("the wrong model %s %s does not violate %s:\n%s" % (module, constants, violated, text[-2000:]))
    elif 'Model checking completed. No error has been found.' not in text:
        raise CheckError("model check %s %s failed:\n%s" % (module, constants, text[-3000:]))
    return gen, dist


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    return str(v)


# ---- known findings --------------------------------------------------------------

def known_findings(pid):
    """[(selector, text)] of the lines  known: property=<id> event=<json> <what>"""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) event=(\{.*?\})  (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


def matches(sel, event, clause):
    for k, v in sel.items():
        if k == 'clause':
            if v != clause:
                return False
        elif event.get(k) != v:
            return False
    return True


# ---- main -----------------------------------------------------------------------

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='%s-' % a.pid, dir=os.path.join(HERE, 'build'))
    try:
        return check(a.pid, a.tier, a.seed, work, t0)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (a.pid, e))
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def shard_run(pid, tier, seed, i, work):
    trace, stats = record_job(pid, tier, seed, i, SHARDS, work)
    fails, dist, gen, n = validate(trace, work, 'trace%d' % i, tier,
                                     registry.TRACE_MODULE.get(pid, 'Trace'))
    if n != stats['events']:
        raise CheckError('shard %d: %d events recorded, %d validated' % (i, stats['events'], n))
    return trace, stats, fails, dist, gen


def check(pid, tier, seed, work, t0):
    import random
    models = mc.models(pid, tier, random.Random('%s-%s' % (seed, pid)))
    shards, mcs = [], []
    with cf.ThreadPoolExecutor(SHARDS) as ex:
        fs = [ex.submit(shard_run, pid, tier, seed, i, work) for i in range(SHARDS)]
        ms = [ex.submit(model_check, e[0], e[1], e[2], work, 'model%d' % j, tier, *e[3:]) for j, e in enumerate(models)]
        for f in fs:
            shards.append(f.result())
        for (m, c, inv, *violated), f in zip(models, ms):
            gen, dist = f.result()
            mcs.append({**({"violates_as_expected": violated[0]} if violated else {}),
                        "module": m, "constants": {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in c.items()},
                        "invariants": list(inv), "states": dist, "transitions": gen})
        mcs += [m for _, s, _, _, _ in shards for m in s.get('models', [])]
    # report
    known = known_findings(pid)
    seen_known, violations = set(), []
    for trace, stats, fails, dist, gen in shards:
        if not fails:
            continue
        with open(trace) as f:
            lines = f.read().splitlines()
        for line, clause in fails:
            ev = json.loads(lines[line - 1])
            for j, (sel, text) in enumerate(known):
                if matches(sel, ev, clause):
                    seen_known.add(j)
                    break
            else:
                violations.append((clause, lines[0], lines[line - 1], ev))
    for j, (sel, text) in enumerate(known):
        if j in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    kinds = {}
    for _, s, _, _, _ in shards:
        for k, v in s['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
    events = sum(s['events'] for _, s, _, _, _ in shards)
    grs = sorted({tuple(g) for _, s, _, _, _ in shards for g in s['grs']})
    cov = {
        "states": sum(d for _, _, _, d, _ in shards) + sum(m['states'] for m in mcs),
        "transitions": sum(g for _, _, _, _, g in shards) + sum(m['transitions'] for m in mcs),
        "traces_validated_against_impl": sum(s.get('traces', 1) for _, s, _, _, _ in shards),
        "samples": [e for _, s, _, _, _ in shards[:3] for e in s['sample'][-3:]][:8],
        "events_validated": events,
        "events_by_kind": kinds,
        "library_calls": sum(s['calls'] for _, s, _, _, _ in shards),
        "skipped_for_time": sum(s['skipped'] for _, s, _, _, _ in shards),
        "grassmannians": len(grs),
        "grassmannian_list": ["%s(%d,%d)" % g for g in grs][:400],
        "model_checking_runs": mcs,
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json') if os.path.isdir(os.path.join(HERE, 'evidence'))
              else mkevidence(pid), 'w') as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": ["TLC 1.8.0 and the CommunityModules evaluate the specification faithfully",
                                   "the harness (harness/) records arguments and results faithfully",
                                   "inputs not enumerated or sampled in this run are not covered"],
                   "wall_s": round(time.time() - t0, 2), "violations": len(violations)}, f, indent=1)
    if violations:
        os.makedirs(os.path.join(HERE, 'build', 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'build', 'replay', '%s-%s-%d.ndjson' % (pid, tier, seed))
        head = violations[0][1]
        with open(path, 'w') as f:
            f.write(head + '\n')
            for clause, h, line, ev in violations:
                if h == head:
                    f.write(line + '\n')
        for clause, h, line, ev in violations[:5]:
            print('  violated clause %s: %s' % (clause, line[:600]))
        print('%d violating events of %d' % (len(violations), events))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    slowest = max([st.get('slowest_call', 0) for _, st, _, _, _ in shards])
    print('OK property=%s events=%d states=%d wall=%.1fs slowest call %.1fs'
          % (pid, events, cov['states'], time.time() - t0, slowest))
    return 0


def mkevidence(pid):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    return os.path.join(HERE, 'evidence', pid + '.json')
