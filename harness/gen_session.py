"""Sessions (C17): behaviours of MCSession.tla replayed into the library, and
sessions from several threads.  Every answer is compared (by SessionTrace.tla)
with the answer of a process that computed nothing before; everything the
caller holds is observed after every call."""
import contextlib
import io
import json
import os
import pickle
import random
import signal
import struct
import sys
import threading

from . import algebra as al
from . import varieties as va
from .gen_cache import run_model
from .inputs import make, linear, coef


class Interrupted(BaseException):
    pass


class TooLong(BaseException):
    pass


def content(x):
    """The observable content of a value, as text."""
    from schubertpy import LinearCombination, Schur
    import sympy as sp
    if isinstance(x, Schur):
        return 'Schur' + content(x.p)
    if isinstance(x, LinearCombination):
        return 'LC ' + content(x.expr)
    if isinstance(x, sp.Expr):
        try:
            return 'poly ' + json.dumps(al.record(al.walk(x)), sort_keys=True)
        except Exception:
            return 'expr ' + str(x)
    if type(x).__name__ == 'Partition':
        return 'Partition ' + content(x.partition)
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + '[' + ', '.join(content(y) for y in x) + ']'
    return type(x).__name__ + ' ' + repr(x)


def mutables(x):
    """What the caller could change in a value it holds."""
    from schubertpy import LinearCombination, Schur
    if isinstance(x, (LinearCombination, Schur)) or type(x).__name__ == 'Partition':
        return [x]
    if isinstance(x, (list, tuple)):
        return ([x] if isinstance(x, list) else []) + [z for y in x for z in mutables(y)]
    return []


# ---- questions -----------------------------------------------------------------
# A question is (variety, op, args): args are encoded values.

def decode(a):
    from schubertpy import LinearCombination, Schur
    kind, v = a
    if kind == 'list':
        return list(v)
    if kind == 'schur':
        return Schur(list(v))
    if kind == 'lc':
        return LinearCombination(v)
    return v            # text, int


UNARY = ['giambelli', 'qgiambelli', 'toS', 'qtoS', 'dualize', 'part2index', 'part2pair', 'miami_swap']


def run_op(g, op, args):
    if op in ('describe',):
        return str(g)
    if op == 'table':
        from schubertpy import MultTable, QMultTable
        t = (QMultTable if args[0] else MultTable)(g)
        return [list(t.df.index), list(t.df.columns), t.to_matrix()]
    if op == 'index_back':
        return g.index2part(g.part2index(args[0]))
    if op == 'pair_back':
        return g.pair2part(g.part2pair(args[0]))
    if op in VALUE_OPS:
        return VALUE_OPS[op](*args)
    return getattr(g, op)(*args)


def as_lc(x):
    from schubertpy import LinearCombination
    return x if isinstance(x, LinearCombination) else LinearCombination(x)


def as_schur(x):
    from schubertpy import Schur
    return x if isinstance(x, Schur) else Schur(x)


def apply_first(x, fail=False):
    """Substitution by a function that changes the list it is given."""
    from schubertpy import Schur, LinearCombination

    def f(lam):
        if fail and len(lam) > 1:
            raise ValueError('refused')
        r = LinearCombination('S[1]*q') if lam[:1] == [1] else Schur(list(lam) + [1])
        lam.append(3)
        return r
    return as_lc(x).apply(f)


def rim_hooks(r, rows, cols, l):
    from schubertpy import Partition
    return Partition(l).remove_rim_hooks(r, (rows, cols))


def utility(name, *a):
    from schubertpy.utils.kstrict import all_kstrict
    from schubertpy.qcalc import part_gen, part_conj
    from schubertpy.partition import part_clip
    return {'all_kstrict': all_kstrict, 'part_gen': part_gen, 'part_conj': part_conj, 'part_clip': part_clip}[name](*a)


def schur_polynomial(n, l):
    from schubertpy.utils.mix import SchurPol
    return str(SchurPol(n, l).as_expr())


# operations that need no Grassmannian
VALUE_OPS = {
    'expansion': lambda x: as_lc(x).schur_expansion(),
    'expansion_q': lambda x: as_lc(x).schur_expansion(include_q=False),
    'text': lambda x: str(as_lc(x)),
    'oprands': lambda x: as_lc(x).list_schur_oprands(),
    'apply': apply_first,
    'apply_refused': lambda x: apply_first(x, True),
    'times': lambda x: as_lc(x) * 2 + as_lc('S[2,1]'),
    'rim_hooks': rim_hooks,
    'utility': utility,
    'schur_polynomial': schur_polynomial,
    'polynomial_text': lambda n, x: as_schur(x).to_polinomial_str(n),
    'latex': lambda x: as_schur(x).latex(),
    'hash': lambda x: hash(as_schur(x)) == hash(as_schur(str(as_schur(x)))),
    'symbol': lambda x: as_schur(x).symbol(),
}


def answer(g, op, args):
    """(text, value or None)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            v = run_op(g, op, args)
        return content(v), v
    except (Interrupted, TooLong):
        raise
    except Exception as e:
        return 'raises ' + type(e).__name__, None


class Pristine:
    """A child process that has computed nothing; each question is answered by a
    grandchild of its own."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            self.serve(os.fdopen(a, 'rb'), os.fdopen(d, 'wb'))
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')
        self.known = {}

    def serve(self, r, w):
        try:
            while True:
                head = r.read(4)
                if len(head) < 4:
                    return
                q = pickle.loads(r.read(struct.unpack('>I', head)[0]))
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(rd)
                        signal.signal(signal.SIGALRM, signal.SIG_DFL)
                        signal.alarm(60)
                        v, op, args = q
                        text = answer(make(v), op, [decode(a) for a in args])[0]
                        with os.fdopen(wr, 'wb') as f:
                            f.write(text.encode())
                    finally:
                        os._exit(0)
                os.close(wr)
                with os.fdopen(rd, 'rb') as f:
                    data = f.read()
                os.waitpid(pid, 0)
                w.write(struct.pack('>I', len(data)) + data)
                w.flush()
        except BaseException:
            os._exit(1)

    def ask(self, q):
        key = json.dumps(q)
        if key not in self.known:
            data = pickle.dumps(q)
            self.w.write(struct.pack('>I', len(data)) + data)
            self.w.flush()
            n = struct.unpack('>I', self.r.read(4))[0]
            self.known[key] = self.r.read(n).decode() if n else None
        return self.known[key]

    def close(self):
        self.w.close()
        os.waitpid(self.pid, 0)


# ---- groups of varieties that share parameters -------------------------------------

GROUPS = [
    # the same (k, n) in every family
    [('Gr', 2, 4), ('IG', 2, 8), ('OG', 2, 9), ('OG', 3, 10)],
    [('Gr', 2, 3), ('IG', 2, 6), ('OG', 2, 7), ('OG', 3, 8)],
    [('Gr', 1, 3), ('IG', 1, 6), ('OG', 1, 7), ('OG', 2, 8)],
    [('Gr', 3, 3), ('IG', 3, 6), ('OG', 3, 7), ('OG', 4, 8)],
    [('Gr', 2, 2), ('IG', 2, 4), ('OG', 2, 5), ('OG', 3, 6)],
    # the same constructor arguments
    [('Gr', 2, 6), ('IG', 2, 6), ('OG', 2, 6), ('Gr', 4, 6)],
    [('Gr', 2, 8), ('IG', 2, 8), ('OG', 2, 8)],
    [('Gr', 3, 7), ('OG', 3, 7), ('OG', 3, 8), ('IG', 3, 8)],
    [('Gr', 3, 8), ('IG', 3, 8), ('OG', 3, 8)],
    [('OG', 4, 10), ('OG', 3, 10), ('OG', 5, 10), ('OG', 4, 9)],
    # the same n, other k; neighbouring n (quantum Pieri looks there)
    [('Gr', 2, 5), ('Gr', 3, 5), ('Gr', 2, 6), ('Gr', 1, 5)],
    [('Gr', 2, 4), ('Gr', 2, 5), ('Gr', 3, 5), ('Gr', 3, 6)],
    [('IG', 1, 6), ('IG', 2, 6), ('IG', 3, 6), ('IG', 2, 8), ('IG', 3, 8)],
    [('OG', 1, 7), ('OG', 2, 7), ('OG', 3, 7), ('OG', 2, 9), ('OG', 3, 9)],
    [('OG', 1, 8), ('OG', 2, 8), ('OG', 3, 8), ('OG', 4, 8), ('OG', 3, 10)],
    [('OG', 2, 6), ('OG', 3, 8), ('OG', 2, 8), ('OG', 3, 10)],
    [('OG', 3, 6), ('OG', 2, 6), ('OG', 2, 8)],
    [('OG', 2, 5), ('OG', 3, 7), ('OG', 2, 7)],
    [('IG', 2, 4), ('IG', 3, 6), ('IG', 2, 6)],
]


def fits(v, l):
    return l in va.classes(*v)


def random_question(rng, vs):
    """(op, args, unary) that makes sense on every variety of vs."""
    common = [l for l in va.classes(*vs[0]) if all(fits(v, l) for v in vs) and len(l) <= 4]
    big = [l for l in common if l] or common
    types = {va.params(*v)[0] for v in vs}
    small = all(va.count(*v) <= 30 for v in vs)

    def enc(l, lists=True):
        r = rng.random()
        if r < 0.3:
            return ['lc', al.Spelling(rng).text(al.S(l))]
        if r < 0.5:
            return ['schur', list(l)]
        if r < 0.75 and lists:
            return ['list', list(l)]
        return ['text', al.Spelling(rng).text(al.S(l))]

    def comb(lists=True):
        if rng.random() < 0.55:
            return enc(rng.choice(big), lists)
        e = linear(rng, common, rng.choice([2, 2, 3]))
        t = al.Spelling(rng).text(e)
        return [rng.choice(['text', 'lc']), t]
    if rng.random() < 0.15:
        return value_question(rng, comb, [l for l in big if all(x > 0 for x in l)] or [[1]])
    r = rng.random()
    if types == {'D'} and rng.random() < 0.12:
        typed = [l for l in big if len(l) > 1 and l[-1] == 0] or big
        return 'schub_type', [[rng.choice(['list', 'schur']), list(rng.choice(rng.choice([typed, big])))]], False
    if r < 0.16:
        return rng.choice(['schub_classes', 'generators', 'point_class', 'degree_q', 'get_type_data', 'describe']), [], False
    if r < 0.42:
        p = rng.choice([1, 1, 2, 2, 3])
        ps = [p for p in (1, 2, 3) if all(p in va.specials(*v) for v in vs)]
        if not ps:
            return 'toS', [comb()], True
        return rng.choice(['pieri', 'qpieri', 'qpieri']), [['int', rng.choice(ps)], comb()], True
    if r < 0.62:
        return rng.choice(['giambelli', 'qgiambelli', 'toS', 'qtoS']), [comb()], True
    if r < 0.80:
        ops = ['mult', 'qmult'] + (['qmult_rh', 'qmult_rh'] if types == {'A'} else [])
        return rng.choice(ops), [comb(), comb()], True
    if r < 0.84:
        sp = [p for p in (1, 2) if all(p in va.specials(*v) for v in vs)]
        if sp:
            return rng.choice(['act', 'qact']), [['text', 'S[%d]' % rng.choice(sp)], comb()], True
    if r < 0.95:
        ops = ['dualize', 'part2index', 'index_back', 'miami_swap']
        if 'A' not in types:
            ops += ['part2pair', 'pair_back']
        if types == {'D'}:
            return 'schub_type', [[rng.choice(['list', 'schur']), list(rng.choice(big))]], False
        op = rng.choice(ops)
        return op, [comb(lists=op not in ('dualize', 'index_back'))], True
    if small and all(va.count(*v) <= 8 for v in vs):
        return 'table', [['int', rng.randint(0, 1)]], False
    return 'dualize', [enc(rng.choice(big), False)], True


def value_question(rng, comb, parts):
    op = rng.choice(sorted(VALUE_OPS))
    l = list(rng.choice(parts))
    if op == 'rim_hooks':
        l = [a + rng.choice([0, 1, 3]) for a in l]
        l = sorted(l, reverse=True)
        return op, [['int', rng.randint(1, 7)], ['int', rng.randint(1, 3)], ['int', rng.randint(0, 3)], ['list', l]], True
    if op == 'utility':
        name = rng.choice(['part_gen', 'part_conj', 'part_clip', 'all_kstrict'])
        if name == 'all_kstrict':
            return op, [['text', name], ['int', rng.randint(0, 3)], ['int', rng.randint(0, 3)], ['int', rng.randint(3, 4)]], False
        return op, [['text', name], ['list', [3] * rng.randint(1, 3) if name == 'part_gen' else l]], name != 'part_gen'
    if op == 'schur_polynomial':
        return op, [['int', rng.randint(1, 3)], ['list', l]], True
    if op == 'polynomial_text':
        return op, [['int', rng.randint(1, 3)], ['schur', l]], True
    if op in ('latex', 'hash', 'symbol'):
        return op, [rng.choice([['schur', l], ['list', l], ['text', al.label_text(l)]])], True
    e = comb()
    if rng.random() < 0.5:
        e = ['lc', al.Spelling(rng).text(linear(rng, parts, rng.choice([1, 2, 3]), qn=(1,)))]
    return op, [e], True


def refuse(rng, live, o, vs, op):
    """A call that is refused, or whose argument is no class of the Grassmannian."""
    if rng.random() < 0.4:
        lab = rng.choice(['S[9]', 'S[1,1,1,1,1]', 'S[2,2,0]', 'S[1]+S[9,9,9]', 'S[1,2]', '2*S[1]+S[8]'])
        f = op if op in ('qmult', 'mult', 'qmult_rh', 'toS', 'qtoS', 'dualize', 'part2index') and rng.random() < 0.7 else \
            rng.choice(['qmult', 'qmult', 'toS', 'qtoS', 'dualize', 'part2index', 'mult', 'qmult_rh'])
        if f == 'qmult_rh' and live.objs[o][1][0] != 'Gr':
            f = 'qmult'
        args = [['text', lab]]
        if f in ('mult', 'qmult', 'qmult_rh'):
            args.insert(rng.randint(0, 1), ['text', 'S[1]'])
        live.call(o, f, args, mode='fail', outside=True)
        return
    live.call(o, *failing_question(rng, vs), mode='fail')


def failing_question(rng, vs):
    """A call that is refused, often after the computation has started."""
    t = rng.choice(['S[1]+', 'S[1,2]', 'S[1]*S[1', '(('])
    long = 'S[1] + S[' + ','.join(['1'] * 9) + ']'
    op = rng.choice(['qmult', 'mult', 'qpieri', 'giambelli', 'dualize', 'qmult_rh', 'qact', 'schub_type', 'part2pair', 'bogus',
                     'type_swap', 'pair2part', 'index2part', 'miami_swap'])
    if op == 'type_swap':
        return op, [['text', t], ['int', rng.randint(0, 3)]]
    if op == 'bogus':
        return 'act', [['text', 'S[2,1]'], ['text', 'S[1]']]
    if op in ('qmult', 'mult', 'qmult_rh'):
        return op, rng.choice([[['text', 'S[1]'], ['text', t]], [['text', t], ['text', 'S[1]']], [['list', [1, 2]], ['text', 'S[1]']],
                               [['text', 'S[1]'], ['list', [1, 2]]], [['text', 'S[1]'], ['text', 'nonsense+S[x]']]])
    if op in ('qpieri', 'pieri'):
        return op, [['int', 1], ['text', t]]
    if op == 'qact':
        return op, [['text', 'S[1,1]*S[1]'], ['text', 'S[1]']]
    if op in ('schub_type', 'part2pair'):
        return op, [['text', t]]
    return op, [['text', t]]


# ---- driving ------------------------------------------------------------------------

class Live:
    """A session with the library."""

    def __init__(self, rng, varieties, pristine):
        self.rng, self.pr = rng, pristine
        self.events, self.refs, self.refkeys = [], [], set()
        self.objs, self.cells = [], []          # (object, variety), values
        self.calls = 0
        self.made = []                          # per completed call: the cells it brought
        for v in varieties:
            g = make(v)
            self.objs.append((g, v))
            self.events.append({"op": "new", "v": vname(v)})

    def give(self, value):
        """The caller now holds value (as an argument of its own)."""
        self.cells.append(value)
        self.events.append({"op": "cell", "val": content(value)})
        return len(self.cells)

    def clone(self, o):
        g, v = self.objs[o]
        c = g.clone()
        d = c.get_type_data()
        w = (d[3], d[4], d[5])
        self.objs.append((c, v))
        self.events.append({"op": "clone", "of": o + 1, "v": vname(w)})

    def poke(self, c):
        from schubertpy import LinearCombination, Schur
        import sympy as sp
        rng, x = self.rng, self.cells[c]
        inside = mutables(x)
        if not inside:
            return False
        y = inside[0] if rng.random() < 0.4 else rng.choice(inside)
        if type(y).__name__ == 'Partition':
            y = y.partition
        if isinstance(y, LinearCombination):
            y.expr = rng.choice([sp.Integer(0), y.expr * 2 + 1, sp.Symbol('S1'), y.expr + sp.Symbol('q')])
        elif isinstance(y, Schur):
            poke_list(rng, y.p)
        elif isinstance(y, list):
            poke_list(rng, y, generic=True)
        else:
            return False
        self.resnap(c)
        return True

    def resnap(self, c):
        """A poke may show in several values only if the caller put one inside
        the other, which it never does: only cell c is told to the model."""
        self.events.append({"op": "poke", "c": c + 1, "val": content(self.cells[c])})

    def argument(self, enc):
        """(value, cell number or 0)"""
        x = decode(enc)
        if isinstance(x, (int, str)):
            return x, 0
        return x, self.give(x)

    def cell_argument(self, c):
        """An encoding that a fresh process can rebuild, or None."""
        from schubertpy import LinearCombination, Schur
        x = self.cells[c]
        if isinstance(x, LinearCombination):
            e = ['lc', str(x)]
        elif isinstance(x, Schur):
            e = ['schur', list(x.p)]
        elif isinstance(x, list) and all(type(y) is int for y in x):
            e = ['list', list(x)]
        else:
            return None
        try:
            return e if content(decode(e)) == content(x) else None
        except Exception:
            return None

    def call(self, o, op, encs, cellarg=None, mode='ok', outside=False):
        g, v = self.objs[o]
        args, argcells, mine = [], [], []
        for j, e in enumerate(encs):
            if cellarg is not None and j == len(encs) - 1:
                args.append(self.cells[cellarg])
                argcells.append({"c": cellarg + 1, "val": content(self.cells[cellarg])})
            else:
                x, c = self.argument(e)
                args.append(x)
                if c:
                    mine.append(c - 1)
                    argcells.append({"c": c, "val": content(x)})
        q = (list(v), op, encs)
        self.calls += 1
        how, text, val = 'done', '', None
        signal.setitimer(signal.ITIMER_REAL, 3 if outside else 20)
        try:
            if mode == 'interrupt':
                with interrupting(self.rng.choice([1, 3, 7, 15, 30, 60, 120, 250, 500, 1000])):
                    text, val = answer(g, op, args)
            else:
                text, val = answer(g, op, args)
        except Interrupted:
            how = 'interrupted'
        except TooLong:
            how = 'too-long'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        ident = 0
        if outside and how == 'done':
            how = 'outside-the-domain'      # any answer will do
        if how == 'done':
            want = self.pr.ask(q)
            if want is None:            # the reference took too long
                how = 'too-long'
            else:
                self.reference(q, want)
        mutable = bool(mutables(val))
        if mutable:
            for c, x in enumerate(self.cells):
                if x is val:
                    ident = c + 1
        self.events.append({"op": "call", "o": o + 1, "f": op, "args": json.dumps(encs), "argcells": argcells, "how": how,
                            "ans": text, "id": ident, "keep": bool(mutable and not ident),
                            "seen": [content(x) for x in self.cells], "mode": mode})
        if mutable and not ident:
            self.cells.append(val)
            mine.append(len(self.cells) - 1)
        if mode == 'ok':
            self.made.append(mine)
        return how

    def reference(self, q, want):
        key = json.dumps(q)
        if key not in self.refkeys:
            self.refkeys.add(key)
            self.refs.append({"v": vname(q[0]), "f": q[1], "args": json.dumps(q[2]), "ans": want})

    def record(self, rec):
        rec.calls += self.calls
        rec.emit('begin', refs=self.refs)
        for e in self.events:
            e = dict(e)
            rec.emit(e.pop('op'), **e)


def poke_list(rng, l, generic=False):
    r = rng.random()
    if r < 0.35 or not l:
        l.append(rng.choice([0, 1, 7]))
    elif r < 0.55:
        l.pop()
    elif r < 0.7:
        l.clear()
    elif r < 0.85:
        l[0] = 9
    else:
        l.insert(0, 5)


def vname(v):
    return '%s(%d,%d)' % tuple(v)


@contextlib.contextmanager
def interrupting(after):
    """Raises Interrupted when the library is about to run its after-th line."""
    left = [after]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                raise Interrupted()
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        return local if '/schubertpy/' in f and '/site-packages/' not in f else None
    sys.settrace(glob)
    try:
        yield
    finally:
        sys.settrace(None)


def replay(rec, rng, pristine, hist, nobj, nvar, nf, op=None, group=None):
    group = group or rng.choice(GROUPS)
    vs = rng.sample(group, min(nvar, len(group)))
    while len(vs) < nvar:
        vs.append(vs[0])
    live = Live(rng, [vs[o % nvar] for o in range(nobj)], pristine)
    fs = [random_question(rng, vs) for _ in range(nf)]
    for j in range(2000 if op else 0):
        if fs[0][0] == op:
            break
        fs[0] = random_question(rng, vs)
    for st in hist:
        if st['a'] == 'clone':
            live.clone(st['o'] - 1)
        elif st['a'] == 'poke':
            c = cellmap(live, st['c'])
            if c is not None:
                live.poke(c)
        else:
            op, encs, unary = fs[st['f'] - 1]
            o = st['o'] - 1
            if st['w'] == 'fail':
                refuse(rng, live, o, vs, op)
                continue
            cellarg = None
            if st['c'] and unary and live.cells:
                c = cellmap(live, st['c'])
                e = live.cell_argument(c) if c is not None else None
                if e is not None and suits(live.objs[o][1], op, e):
                    cellarg, encs = c, list(encs[:-1]) + [e]
            if op in ('qmult_rh',) and live.objs[o][1][0] != 'Gr':
                op = 'qmult'
            live.call(o, op, encs, cellarg, mode='interrupt' if st['w'] == 'interrupt' else 'ok')
        rec.timeouts = 0
    live.record(rec)
    rec.traces += 1


def broken_off(rec, rng, pristine, op, group):
    """Sessions of the shape: interrupted or refused calls, then ordinary ones."""
    v = rng.choice(group)
    live = Live(rng, [v], pristine)
    if rng.random() < 0.5:
        live.clone(0)
    q = random_question(rng, [v])
    for j in range(2000):
        if q[0] == op:
            break
        q = random_question(rng, [v])
    others = [random_question(rng, [v]) for _ in range(2)]
    for _ in range(rng.choice([2, 3, 4])):
        # other arguments, so that the call is not answered from a memory
        w = q
        for j in range(200):
            w = random_question(rng, [v])
            if w[0] == op:
                break
        if rng.random() < 0.3:
            refuse(rng, live, 0, [v], op)
        else:
            live.call(0, w[0], w[1], mode='interrupt')
        x = rng.choice(others)
        live.call(rng.randrange(len(live.objs)), x[0], x[1])
    live.call(0, q[0], q[1])
    live.call(0, 'get_type_data', [])
    live.call(0, 'schub_classes', [])
    rec.timeouts = 0
    live.record(rec)
    rec.traces += 1


SWEEP = [('Gr', 4, 8), ('Gr', 3, 7), ('IG', 4, 8), ('IG', 4, 10), ('IG', 3, 8), ('OG', 4, 9), ('OG', 3, 9), ('OG', 4, 11), ('OG', 4, 8),
         ('OG', 4, 10), ('OG', 3, 10), ('OG', 5, 10)]


def sweep(rec, rng, pristine, v):
    """Many operations with the same few arguments, in any order, on objects of
    one larger Grassmannian, of another of its family, and on a clone."""
    t, k, n, rows, cols = va.params(*v)
    near = [w for w in va.catalogue([v[0]], 10, 400, maxN=14) if w[0] == v[0] and va.typ(w[0], w[2]) == t and w != v
            and va.params(*w)[3] >= min(rows, 4) - 1]
    vs = [v, rng.choice(near) if near else v]
    live = Live(rng, vs, pristine)
    live.clone(0)
    both = [l for l in va.classes(*vs[0]) if fits(vs[1], l) and sum(l) <= 13] if len(set(vs)) > 1 else \
        [l for l in va.classes(*v) if sum(l) <= 13]
    tall = [l for l in both if len(l) >= min(rows, 4)] or both
    labs = [rng.choice(rng.choice([tall, tall, both])) for _ in range(2)]
    plan = []
    for l in labs:
        form = rng.choice(['list', 'list', 'schur', 'text', 'lc'])
        a = [form, list(l) if form in ('list', 'schur') else al.label_text(l)]
        plan += [(op, [a]) for op in ('giambelli', 'qgiambelli', 'toS', 'qtoS', 'dualize', 'part2index', 'miami_swap')]
        ps = [p for p in (1, 2, 3, k, cols) if all(p in va.specials(*w) for w in vs)]
        for p in rng.sample(sorted(set(ps)), min(2, len(set(ps)))):
            plan += [(op, [['int', p], a]) for op in ('pieri', 'qpieri')]
        if t != 'A':
            plan.append(('part2pair', [a]))
        if t == 'D':
            plan.append(('schub_type', [['list', list(l)]]))
        if sum(l) <= 8:
            plan += [(op, [a, ['text', 'S[1]']]) for op in ('mult', 'qmult')]
            plan += [(op, [['text', 'S[1]'], a]) for op in ('mult', 'qmult', 'act', 'qact')]
    rng.shuffle(plan)
    plan += rng.sample(plan, min(len(plan), 8))
    for op, encs in plan:
        if rec.over():
            break
        live.call(rng.choice([0, 0, 1, 2]), op, [[e[0], list(e[1])] if isinstance(e[1], list) else list(e) for e in encs])
        if rng.random() < 0.15 and live.cells:
            live.poke(rng.randrange(len(live.cells)))
    rec.timeouts = 0
    live.record(rec)
    rec.traces += 1


def cellmap(live, c):
    """The model's c-th cell is the answer to the c-th completed call; the caller
    also holds that call's arguments."""
    mine = live.made[c - 1] if c <= len(live.made) else []
    if mine and live.rng.random() < 0.9:
        return mine[-1] if live.rng.random() < 0.7 else live.rng.choice(mine)
    return live.rng.randrange(len(live.cells)) if live.cells else None


def pattern(h):
    """What a short session is about, up to names."""
    first = {}
    out = []
    for s in h:
        out.append((s['a'], s['w'], s['c'], first.setdefault(('o', s['o']), len(first)), first.setdefault(('f', s['f']), len(first))))
    return tuple(out)


def suits(v, op, e):
    """Keep to arguments the operation is meant for."""
    try:
        from schubertpy import LinearCombination
        if op in VALUE_OPS:
            isp = e[0] in ('list', 'schur') and all(x > 0 for x in e[1]) and all(a >= b for a, b in zip(e[1], e[1][1:])) \
                and sum(e[1]) <= 12
            if op in ('rim_hooks', 'utility', 'schur_polynomial'):
                return isp and e[0] == 'list'
            return isp or e[0] == 'lc' and op not in ('latex', 'hash', 'symbol', 'polynomial_text')
        if e[0] in ('list', 'schur'):
            return list(e[1]) in va.classes(*v)
        p = al.walk(LinearCombination(e[1]).expr)
        for (q, mono), c in p.items():
            if sum(x for _, x in mono) > (1 if op not in ('giambelli', 'qgiambelli', 'toS', 'qtoS', 'mult', 'qmult') else 2):
                return False
            if any(list(l) not in va.classes(*v) for l, _ in mono) or sum(abs(z) for z in q) > 3:
                return False
            if not mono and op in ('part2index', 'part2pair', 'dualize', 'miami_swap', 'pieri', 'qpieri', 'index_back', 'pair_back'):
                return False
        return len(p) <= 8
    except Exception:
        return False


OPS = ['schub_classes', 'generators', 'point_class', 'get_type_data', 'pieri', 'qpieri', 'giambelli', 'qgiambelli', 'toS',
       'qtoS', 'mult', 'qmult', 'qmult_rh', 'act', 'qact', 'dualize', 'part2index', 'index_back', 'part2pair', 'pair_back',
       'miami_swap', 'schub_type', 'table']
VOPS = sorted(['expansion', 'expansion_q', 'oprands', 'apply', 'rim_hooks', 'utility', 'times', 'polynomial_text'])


def families():
    return [[('Gr', 2, 4), ('Gr', 2, 5), ('Gr', 1, 4), ('Gr', 3, 4)], [('IG', 2, 4), ('IG', 2, 6), ('IG', 1, 6), ('IG', 3, 6)],
            [('OG', 2, 5), ('OG', 1, 5), ('OG', 2, 7), ('OG', 3, 7)], [('OG', 2, 6), ('OG', 3, 8), ('OG', 2, 8), ('OG', 3, 6)]]


def threads(rec, rng, pristine, nthreads, ncalls):
    """The same questions from several threads at once, on shared objects."""
    group = rng.choice(GROUPS)
    vs = rng.sample(group, min(2, len(group)))
    objs = [make(v) for v in vs] + [make(vs[0])]
    vv = list(vs) + [vs[0]]
    qs = []
    for _ in range(ncalls):
        op, encs, _ = random_question(rng, vs)
        qs.append((op, encs))
    for q in qs:
        for v in vs:
            pristine.ask((list(v), q[0], q[1]))
    plans = []
    for t in range(nthreads):
        plan = [(rng.randrange(len(objs)),) + q for q in qs]
        rng.shuffle(plan)
        plans.append(plan)
    results = [[] for _ in range(nthreads)]
    barrier = threading.Barrier(nthreads)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def work(t):
        barrier.wait()
        for o, op, encs in plans[t]:
            try:
                v = run_op(objs[o], op, [decode(a) for a in encs])
                text = content(v)
            except Exception as e:
                text = 'raises ' + type(e).__name__
            results[t].append((o, op, encs, text))
    ts = [threading.Thread(target=work, args=(t,)) for t in range(nthreads)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    refs = []
    for q in qs:
        for v in vs:
            want = pristine.ask((list(v), q[0], q[1]))
            if want is not None:
                refs.append({"v": vname(v), "f": q[0], "args": json.dumps(q[1]), "ans": want})
    rec.emit('begin', refs=refs)
    for v in vv:
        rec.emit('new', v=vname(v))
    for t in range(nthreads):
        for o, op, encs, text in results[t]:
            rec.calls += 1
            rec.emit('call', o=o + 1, f=op, args=json.dumps(encs), argcells=[], how='done', ans=text, id=0, keep=False,
                     mode='thread %d' % t)
    rec.traces += 1


def gen_session(rec, rng, pid, tier, i, n):
    pristine = Pristine()
    quick = tier == 'quick'

    def alarm(signum, frame):
        raise TooLong()
    signal.signal(signal.SIGALRM, alarm)
    import random as _r
    shared = _r.Random('sessions-%s' % rng.run_seed)
    # all short sessions (sampled for replay), random long ones
    short = {"NObj": 2, "NF": 2, "NVar": 2, "Depth": 3, "Mode": "keyed", "Emit": True, "Weighted": False}
    beh = run_model(rec, 'MCSession', short, ['Functional', 'Untouched', 'Emitted'])
    beh = [h for h in beh if sum(1 for s in h if s['a'] == 'call') >= 2 and h[-1]['a'] == 'call' and h[-1]['w'] == 'ok']
    # sessions of different shapes in turn; those with a poke, a failure, a
    # repeated question first
    shapes = {}
    for h in beh:
        shapes.setdefault(pattern(h), []).append(h)
    shared.shuffle(beh)

    def rank(h):
        mid = h[1]
        again = h[0]['f'] == h[2]['f'] and h[0]['a'] == 'call'
        return (not (again and mid['a'] == 'poke' or again and mid['w'] != 'ok'), not again, shared.random())
    order = sorted(shapes, key=lambda p: rank(shapes[p][0]))
    best = [p for p in order if not rank(shapes[p][0])[0]]
    rest = [p for p in order if rank(shapes[p][0])[0]]
    picked = []
    for rnd in range(12 if quick else 200):
        picked += [shared.choice(shapes[p]) for p in best]
        picked += [shared.choice(shapes[p]) for p in (shared.sample(rest, min(len(rest), 2 * len(best))) if quick else rest)]
    picked = [h for j, h in enumerate(picked) if j % n == i][:30 if quick else 3000]
    for h in picked:
        if rec.over():
            break
        replay(rec, rng, pristine, h, 2, 2, 2)
    # each operation of each family, asked, its answer or argument changed by the
    # caller (or a call refused or interrupted), and asked again
    again = [p for p in best if p[0][4] == p[2][4] and p[0][2] == 0 and p[2][2] == 0]
    poked = [p for p in again if p[1][0] == 'poke']
    other = [p for p in again if p[1][0] != 'poke']
    batch = [(op, g) for g in families() for op in OPS] + [(op, families()[0]) for op in VOPS] * 2
    shared.shuffle(batch)
    for rnd in range(1 if quick else 12):
        for j, (op, g) in enumerate(batch):
            if j % n != i or rec.over():
                continue
            for shape in [rng.choice(poked), rng.choice(poked), rng.choice(other)]:
                replay(rec, rng, pristine, rng.choice(shapes[shape]), 2, 2, 2, op=op, group=g)
    # each operation broken off at several places or refused, and the object used again
    for rnd in range(2 if quick else 20):
        for j, (op, g) in enumerate(batch):
            if (j + rnd) % n != i or rec.over() or op in VALUE_OPS:
                continue
            broken_off(rec, rng, pristine, op, g)
    longer = {"NObj": 3, "NF": 3, "NVar": 2, "Depth": 14, "Mode": "keyed", "Emit": True, "Weighted": True}
    num = 10 if quick else 250
    sims = run_model(rec, 'MCSession', longer, ['Functional', 'Untouched', 'Emitted'], complete=False,
                     extra=('-simulate', 'num=%d' % num, '-depth', '20', '-seed', str(rng.randrange(1, 2 ** 40))))
    for h in sims[:num]:
        if rec.over():
            break
        replay(rec, rng, pristine, h, 3, 2, 3)
    for v in shared.sample(SWEEP * (2 if quick else 20), 24 if quick else 240)[i::n]:
        if rec.over():
            break
        sweep(rec, rng, pristine, v)
    for _ in range(4 if quick else 80):
        if rec.over():
            break
        threads(rec, rng, pristine, rng.choice([2, 3, 4]), rng.randint(4, 8))
    pristine.close()
