"""Histories of calls through the memoising decorators (C28).

The bounded histories are enumerated by TLC from MCCache.tla and replayed; long
random histories with other capacities are recorded.  Both are judged by
Cache.tla (Replay)."""
import json
import os
import re
import resource
import subprocess
import tempfile

from . import tlc

INVARIANTS = ['NoDup', 'Bounded', 'OnceWithinCapacity', 'MostRecent', 'RaisedForgotten', 'Emitted']


def no_memory_limit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v)) + '}'
    return str(v)


def run_model(rec, module, constants, invariants, extra=(), limit=400, props=(), complete=True):
    """Runs TLC; the behaviours it prints."""
    with tempfile.TemporaryDirectory() as d:
        cfg = os.path.join(d, 'model.cfg')
        with open(cfg, 'w') as f:
            f.write('CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in constants.items()))
            f.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n')
            f.write(''.join('INVARIANT %s\n' % x for x in invariants))
            f.write(''.join('PROPERTY %s\n' % x for x in props))
        out = os.path.join(d, 'out')
        with open(out, 'w') as f:
            subprocess.run(tlc.command(module, cfg, os.path.join(d, 'meta'), heap='2g', extra=extra), cwd=d, stdout=f,
                           stderr=subprocess.STDOUT, timeout=limit, preexec_fn=no_memory_limit)
        behaviours, text = [], []
        with open(out, errors='replace') as f:
            for line in f:
                if line.startswith('"@@B '):
                    behaviours.append(json.loads(json.loads(line)[4:]))
                elif len(text) < 300:
                    text.append(line)
                else:
                    text = text[-200:] + [line]
        text = ''.join(text)
        if 'Error:' in text or complete and 'Model checking completed. No error has been found.' not in text:
            raise RuntimeError('model %s failed:\n%s' % (module, text[-3000:]))
        st = re.findall(r'(\d+) states generated, (\d+) distinct states found', text) or \
            re.findall(r'(\d+) states (checked|generated)', text)
        gen = int(st[-1][0]) if st else 0
        dist = int(st[-1][1]) if st and st[-1][1].isdigit() else gen
        rec.models.append({"module": module, "constants": {k: sorted(v) if isinstance(v, (set, frozenset)) else v
                                                           for k, v in constants.items()},
                           "invariants": list(invariants), "states": dist, "transitions": gen,
                           "behaviours": len(behaviours)})
        return behaviours


class Boom(Exception):
    pass


class Thing:
    """An object used as self or as an argument: equal only to itself."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Thing(%d)' % self.name


def enc(a):
    if isinstance(a, Thing):
        return {"t": "obj", "v": str(a.name)}
    if isinstance(a, bool):
        return {"t": "bool", "v": str(a)}
    if isinstance(a, int):
        return {"t": "int", "v": str(a)}
    if isinstance(a, float):
        return {"t": "float", "v": str(a)}
    if isinstance(a, str):
        return {"t": "str", "v": a}
    if a is None:
        return {"t": "none", "v": ""}
    return {"t": "list" if isinstance(a, list) else "tuple", "v": json.dumps([enc(x) for x in a])}


def plain(args, kw):
    """What the undecorated function answers: insensitive to list/tuple."""
    def canon(a):
        return 'seq' + repr([canon(x) for x in a]) if isinstance(a, (list, tuple)) else type(a).__name__ + repr(a)
    return '|'.join([canon(a) for a in args] + ['%s=%s' % (k, canon(kw[k])) for k in sorted(kw)])


class Subject:
    """A decorated function or method whose computations are recorded."""

    def __init__(self, method, maxsize, typed=False, default=False):
        from schubertpy.utils.hash import hashable_lru_cache, hashable_lru_cache_method
        self.ops, self.answers = [], []
        self.script = []                # for each computation to come: what it does
        self.entered = False
        self.method = method
        me = self

        def body(*args, **kw):
            me.entered = True
            return me.compute(args, kw)
        deco = hashable_lru_cache_method if method else hashable_lru_cache
        opts = {} if default else {"maxsize": maxsize, "typed": True} if typed else {"maxsize": maxsize}
        if method:
            class Host(Thing):
                @deco(**opts)
                def f(self, *args, **kw):
                    return body(self, *args, **kw)
            self.host = Host
        else:
            self.fn = deco(**opts)(body)
        self.cap = 128 if default else -1 if maxsize is None else maxsize

    def compute(self, args, kw):
        key = self.keys[-1]
        self.ops.append({"o": "call", "key": key, "hit": False})
        want = plain(args, kw)
        act = self.script.pop(0) if self.script else None
        raised = False
        try:
            if act:
                for nested in act.get('nested', ()):
                    self.call(*nested)
                if act.get('raise'):
                    raised = True
                    raise Boom(want)
        finally:
            self.ops.append({"o": "ret", "key": key, "raised": raised})
        return want

    keys = ()

    def call(self, args, kw):
        key = {"pos": [enc(a) for a in args], "kw": [{"n": k, "a": enc(kw[k])} for k in sorted(kw)]}
        self.keys = list(self.keys) + [key]
        self.entered = False
        before = len(self.ops)
        want = plain(args, kw)
        try:
            if self.method:
                got = args[0].f(*args[1:], **kw)
            else:
                got = self.fn(*args, **kw)
        except Boom as e:
            got = want if e.args[0] == want else 'raised ' + str(e)
        except Exception as e:
            got = 'failed %s: %s' % (type(e).__name__, str(e)[:100])
        finally:
            self.keys = self.keys[:-1]
        if len(self.ops) == before:
            self.ops.append({"o": "call", "key": key, "hit": True})
        self.answers.append([got if isinstance(got, str) else repr(got), want])

    def record(self, rec):
        rec.calls += len(self.answers)
        rec.emit('cache', cap=self.cap, ops=self.ops, answers=self.answers, method=self.method)


def respell(rng, a):
    """A list and the tuple with the same entries are one argument."""
    if isinstance(a, tuple):
        return list(a) if rng.random() < 0.6 else a
    return a


def argument_pool(rng, subject, n, typed=False):
    """n different calls: (args, kw)."""
    things = [(subject.host if subject.method else Thing)(j + 1) for j in range(3)]
    out, seen = [], set()
    while len(out) < n:
        args = [things[rng.randrange(3)]] if subject.method else []
        for _ in range(rng.randint(0 if subject.method else 1, 2)):
            r = rng.random()
            if typed and r < 0.5:
                args.append(rng.choice([1, 1.0, 2, 2.0, 0, 0.0]))
            elif r < 0.45:
                args.append(tuple(rng.randint(0, 3) for _ in range(rng.randint(0, 3) if rng.random() < 0.9 else rng.randint(4, 12))))
            elif r < 0.7:
                args.append(rng.randint(-2, 3))
            else:
                args.append(rng.choice([None, 'a', 'b', 'S[1]', '', things[0] if not subject.method else None, ('a', 1), ((1, 2), 3)]))
        kw = {}
        if rng.random() < 0.35:
            kw['x'] = rng.choice([(1,), (2, 1), (1, 2), (0, 3, 1), (), 1, 2, None, 'a', 'b'])
        if rng.random() < 0.1:
            kw['y'] = rng.choice([(1,), 1, (1, 2), (2, 1), ()])
        c = plain(args, kw)
        if c not in seen:
            seen.add(c)
            out.append((args, kw))
    return out


def concrete(rng, call):
    return [respell(rng, a) for a in call[0]], {k: respell(rng, v) for k, v in call[1].items()}


def replay(rng, subject, pool, hist):
    """Drive the decorated function through a behaviour of the model."""
    # computations in order of entry, with the calls nested in them
    tree, stack, top = [], [], []
    for op in hist:
        if op['o'] == 'call':
            node = {'k': op['k'], 'hit': op['hit'], 'sub': [], 'raise': False}
            (stack[-1]['sub'] if stack else top).append(node)
            if not op['hit']:
                stack.append(node)
                tree.append(node)
        else:
            stack.pop()['raise'] = op['raised']
    subject.script = [{'nested': [concrete(rng, pool[c['k'] - 1]) for c in nd['sub']], 'raise': nd['raise']} for nd in tree]
    for nd in top:
        subject.call(*concrete(rng, pool[nd['k'] - 1]))


def gen_cache(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    # every history of the model, within the bounds
    combos = [(3, 2, 0, 11, {3}), (3, 1, 0, 10, {2}), (4, 3, 0, 8, {4}), (3, 2, 1, 8, {3}), (3, 99, 0, 10, {1}),
              (3, 0, 0, 8, {1}), (4, 2, 0, 8, {1}), (3, 1, 1, 8, {1, 2})]
    if not quick:
        combos += [(4, 2, 1, 8, {2}), (4, 3, 0, 11, {1}), (3, 2, 0, 14, {3}), (5, 3, 0, 9, {2}), (5, 4, 0, 10, set()),
                   (3, 3, 1, 9, {1}), (4, 99, 1, 8, {3}), (3, 2, 1, 10, {1})]
    for j, (nk, cap, nest, depth, raising) in enumerate(combos):
        if j % n != i:
            continue
        c = {"NKeys": nk, "Cap": cap, "Depth": depth, "Raising": raising, "Nest": nest, "Emit": True}
        beh = run_model(rec, 'MCCache', c, INVARIANTS)
        limit = 2500 if quick else 40000
        if len(beh) > limit:
            beh = rng.sample(beh, limit)
        for h in beh:
            if rec.over():
                break
            s = Subject(rng.random() < 0.5, None if cap == 99 else cap)
            replay(rng, s, argument_pool(rng, s, nk), h)
            s.record(rec)
            rec.traces += 1
    # long random histories
    for _ in range(30 if quick else 600):
        if rec.over():
            return
        default = rng.random() < 0.08
        cap = rng.choice([None, 1, 2, 3, 4, 5, 8, 16])
        typed = rng.random() < 0.25
        s = Subject(rng.random() < 0.6, cap, typed=typed, default=default)
        size = 160 if default else rng.randint(2, 12) if cap is None else cap + rng.choice([-1, 0, 1, 2, 5])
        pool = argument_pool(rng, s, max(1, size), typed and not default)
        steps = 400 if default else rng.randint(10, 80)
        recent = []
        nesting = rng.random() < 0.25
        for j in range(steps):
            if default and j < 150:
                c = pool[j % len(pool)]
            elif recent and rng.random() < 0.4:
                c = rng.choice(recent[-6:])
            else:
                c = rng.choice(pool)
            recent.append(c)
            s.script = [{'raise': rng.random() < 0.1,
                         'nested': [concrete(rng, d) for d in [rng.choice(pool)] if d is not c] if nesting and rng.random() < 0.5 else []}]
            a, kw = concrete(rng, c)
            s.call(a, kw)
            # lists are the caller's: changing them afterwards changes nothing
            for x in a:
                if isinstance(x, list):
                    x.append(9)
        s.record(rec)
        rec.traces += 1
