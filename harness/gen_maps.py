"""Events about duality, descriptions and the maps between kinds of labels
(C10-C14)."""
from . import algebra as al
from . import varieties as va
from .inputs import many, make, linear, build, arg
from .gen_products import ALL, qnames, shard
from itertools import combinations


def map_event(rec, rng, op, fn, v, gi, e, d=1, form=None, **kw):
    """A linear map applied to an argument in some form."""
    a, f, probe = build(rng, e, d, form)
    before = probe()
    res, val = rec.poly(fn, a, **kw)
    rec.emit(op, g=gi, v=list(v), a=arg(e, d), form=f, res=res, kept=before == probe())
    return val


def some_big(rng, fams, count, maxn=12):
    out = []
    for _ in range(count):
        fam = rng.choice(fams)
        if fam == 'Gr':
            N = rng.randint(8, 24)
            out.append(('Gr', rng.randint(1, N - 1), N))
            continue
        n = rng.randint(5, maxn)
        m = rng.randint(1, n)
        if fam == 'IG':
            out.append(('IG', m, 2 * n))
        elif fam == 'OGodd':
            out.append(('OG', m, 2 * n + 1))
        else:
            out.append(('OG', m, 2 * n))
    return out


def index_sets(v):
    fam, m, N = v
    for P in combinations(range(1, N + 1), m):
        if (fam == 'Gr' or all(N + 1 - p not in P for p in P)) and component(v, P):
            yield list(P)


def component(v, P):
    """OG(n+1,2n+2): only the symbols of one component."""
    fam, m, N = v
    return fam != 'OG' or N != 2 * m or sum(1 for p in P if p > m) % 2 == 0


def random_index(rng, v):
    fam, m, N = v
    for _ in range(5000):
        P = []
        pool = list(range(1, N + 1))
        rng.shuffle(pool)
        for p in pool:
            if len(P) == m:
                break
            if fam == 'Gr' or (N + 1 - p not in P and N + 1 - p != p):
                P.append(p)
        if len(P) == m and component(v, P):
            return sorted(P)


# ---- C10 ---------------------------------------------------------------------

def gen_duality(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    cat = va.catalogue(ALL, 1, 60 if quick else 300, maxN=14 if quick else 18)
    for v in shard(cat, i, n):
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        for l in rng.sample(C, min(len(C), 60 if quick else 300)):
            if rec.over():
                return
            map_event(rec, rng, 'dualize', obj.dualize, v, gi, al.S(l))
        for _ in range(3 if quick else 12):
            map_event(rec, rng, 'dualize', obj.dualize, v, gi, linear(rng, C, nterms=many(rng), qn=qnames(v)), rng.choice([1, 1, 2, 3]))
        if len(C) <= 30:
            for l in rng.sample(C, min(len(C), 5 if quick else 30)):
                if rec.over():
                    return
                pairing(rec, rng, obj, v, gi, C, l)
    pool = va.catalogue(ALL, 31, 200 if quick else 500, maxN=16)
    for v in rng.sample(pool, 3 if quick else 30):
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        D = va.dim(*v)
        small = [l for l in C if sum(l) <= max(2, D // 4) or D - sum(l) <= max(2, D // 4)]
        for l in rng.sample(small, min(len(small), 2 if quick else 8)):
            if rec.over():
                return
            pairing(rec, rng, obj, v, gi, C, l)
    for v in some_big(rng, ALL, 10 if quick else 100):
        obj = make(v)
        gi = rec.gr(*v)
        for _ in range(8 if quick else 20):
            if rec.over():
                return
            labs = [va.random_label(rng, *v) for _ in range(3)]
            map_event(rec, rng, 'dualize', obj.dualize, v, gi,
                      linear(rng, labs, qn=qnames(v)) if rng.random() < 0.4 else al.S(labs[0]))


def pairing(rec, rng, obj, v, gi, C, l):
    a, f, probe = build(rng, al.S(l))
    before = probe()
    dual, d = rec.poly(obj.dualize, a)
    dual2, _ = rec.poly(obj.dualize, d) if d is not None else ({"kind": "odd"}, None)
    prods = []
    for x in C:
        if sum(x) == va.dim(*v) - sum(l):
            b, _, _ = build(rng, al.S(x))
            r, _ = rec.poly(obj.mult, *((a, b) if sum(x) > sum(l) or rng.random() < 0.1 else (b, a)))
            prods.append({"l": x, "r": r})
    rec.emit('duality', g=gi, v=list(v), l=l, form=f, dual=dual, dual2=dual2, prods=prods, kept=before == probe())


# ---- C11 ---------------------------------------------------------------------

def labels_of(v):
    from schubertpy import Schur
    if not isinstance(v, (list, tuple)) or not all(isinstance(x, Schur) for x in v):
        return {"kind": "odd", "text": repr(v)[:300]}
    if not all(al.is_flat(x.p) for x in v):
        return {"kind": "odd", "text": repr(v)[:300]}
    return {"kind": "labels", "v": [list(x.p) for x in v]}


def type_data(v):
    try:
        t, k, n, f, a, b, d = v
        if isinstance(t, str) and isinstance(f, str) and all(isinstance(x, int) for x in (k, n, a, b, d)):
            return {"kind": "data", "s": [t, f], "n": [k, n, a, b, d]}
    except Exception:
        pass
    return {"kind": "odd", "text": repr(v)[:300]}


def info(rec, v, gi, what, res):
    rec.emit('info', g=gi, v=list(v), what=what, res=res)


def describe_all(rec, obj, v, gi, classes=True):
    def get(fn, conv):
        x, bad = rec.call(fn)
        return bad or conv(x)
    as_int = lambda x: {"kind": "int", "v": x} if isinstance(x, int) and not isinstance(x, bool) else {"kind": "odd"}
    if classes:
        info(rec, v, gi, 'classes', get(obj.schub_classes, labels_of))
    info(rec, v, gi, 'generators', get(obj.generators, labels_of))
    info(rec, v, gi, 'point', get(lambda: [obj.point_class()], labels_of))
    info(rec, v, gi, 'degq', get(obj.degree_q, as_int))
    info(rec, v, gi, 'describe', get(lambda: str(obj), lambda x: {"kind": "str", "v": x}))
    info(rec, v, gi, 'typedata', get(obj.get_type_data, type_data))


def classes_of(rec, obj):
    x, bad = rec.call(obj.schub_classes)
    return bad or labels_of(x)


def gen_info(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    cat = va.catalogue(ALL, 1, 330 if quick else 1300, maxN=20 if quick else 26, minm=0)
    for v in shard(cat, i, n):
        if rec.over():
            return
        obj = make(v)
        gi = rec.gr(*v)
        describe_all(rec, obj, v, gi, classes=quick or va.count(*v) <= 700 or rng.random() < 0.2)
        if rng.random() < 0.3:      # again, after use
            l = va.random_label(rng, *v)
            sp = va.specials(*v)
            if sp:
                rec.call(obj.qpieri, rng.choice(sp), list(l))
            describe_all(rec, obj, v, gi, classes=va.count(*v) <= 100)
    wide = [v for v in va.catalogue(ALL, 331, 2200, maxN=34)]
    byfam = {}
    for v in wide:
        byfam.setdefault(va.typ(v[0], v[2]), []).append(v)
    for t in rng.sample('ABCD', 2 if quick else 4):
        for v in rng.sample(byfam[t], 1 if quick else 3):
            info(rec, v, rec.gr(*v), 'classes', classes_of(rec, make(v)))
    for v in some_big(rng, ALL, 12 if quick else 80):
        if rec.over():
            return
        describe_all(rec, make(v), v, rec.gr(*v), classes=False)


# ---- C12 ---------------------------------------------------------------------

def gen_index(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    cat = va.catalogue(ALL, 1, 150 if quick else 700, maxN=16 if quick else 20)
    for v in shard(cat, i, n):
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        I = list(index_sets(v))
        for l in rng.sample(C, min(len(C), 50 if quick else 400)):
            if rec.over():
                return
            map_event(rec, rng, 'part2index', obj.part2index, v, gi, al.S(l))
        for P in rng.sample(I, min(len(I), 50 if quick else 400)):
            if rec.over():
                return
            map_event(rec, rng, 'index2part', obj.index2part, v, gi, al.S(P))
        for _ in range(3 if quick else 15):
            map_event(rec, rng, 'part2index', obj.part2index, v, gi, linear(rng, C, nterms=many(rng), qn=qnames(v)), rng.choice([1, 2]))
            map_event(rec, rng, 'index2part', obj.index2part, v, gi, linear(rng, I, nterms=many(rng), qn=qnames(v)), rng.choice([1, 2]))
    for v in some_big(rng, ALL, 25 if quick else 250):
        obj = make(v)
        gi = rec.gr(*v)
        for _ in range(10):
            if rec.over():
                return
            l = va.random_label(rng, *v)
            val = map_event(rec, rng, 'part2index', obj.part2index, v, gi, al.S(l))
            P = random_index(rng, v)
            map_event(rec, rng, 'index2part', obj.index2part, v, gi, al.S(P))
            if val is not None:
                res, _ = rec.poly(obj.index2part, val)
                a = {"k": "S", "l": l}
                rec.emit('arith', a=arg(a), res=res, v=list(v), what='index2part(part2index(.))')


# ---- C13 ---------------------------------------------------------------------

def pair_label(l, k):
    p = [x for x in l if x > 0]
    top = [sum(1 for x in p if x >= c) for c in range(1, k + 1)]
    bot = [x - k for x in p if x > k]
    return [top, bot + ([0] if len(p) < len(l) else [])]


def pair2part_event(rec, rng, obj, v, gi, e, d=1):
    """the argument: pairs as symbols; also as a plain list of two lists"""
    map_event(rec, rng, 'pair2part', obj.pair2part, v, gi, e, d)


def gen_pairs(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    fams = ['IG', 'OGodd', 'OGeven']
    cat = va.catalogue(fams, 1, 120 if quick else 700, maxN=16 if quick else 20)
    for v in shard(cat, i, n):
        k = va.params(*v)[1]
        C = va.classes(*v)
        pairs_on(rec, rng, v, k, C, 60 if quick else 400, 4 if quick else 15)
    for v in some_big(rng, fams, 14 if quick else 150):
        k = va.params(*v)[1]
        C = [va.random_label(rng, *v) for _ in range(10)]
        pairs_on(rec, rng, v, k, C, 10, 2)


def pairs_on(rec, rng, v, k, C, cap, lins):
    obj = make(v)
    gi = rec.gr(*v)
    for l in rng.sample(C, min(len(C), cap)):
        if rec.over():
            return
        map_event(rec, rng, 'part2pair', obj.part2pair, v, gi, al.S(l))
        map_event(rec, rng, 'pair2part', obj.pair2part, v, gi, al.S(pair_label(l, k)))
        if rng.random() < 0.5:
            val, bad = rec.call(obj.part2pair, list(l))
            res = bad
            if bad is None:
                res, _ = rec.poly(obj.pair2part, val)
            rec.emit('arith', a=arg(al.S(l)), res=res, v=list(v), what='pair2part(part2pair(.))')
    P = [pair_label(l, k) for l in C]
    for _ in range(lins):
        map_event(rec, rng, 'part2pair', obj.part2pair, v, gi, linear(rng, C, nterms=many(rng), qn=qnames(v)), rng.choice([1, 2, 3]))
        map_event(rec, rng, 'pair2part', obj.pair2part, v, gi, linear(rng, P, nterms=many(rng), qn=qnames(v)), rng.choice([1, 2]))


# ---- C14 ---------------------------------------------------------------------

def gen_types(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    cat = va.catalogue(['OGeven'], 1, 200 if quick else 900, maxN=16 if quick else 20)
    others = va.catalogue(['Gr', 'IG', 'OGodd'], 1, 60, maxN=12)
    work = [(v, va.classes(*v)) for v in shard(cat, i, n)]
    for v in some_big(rng, ['OGeven'], 10 if quick else 100):
        work.append((v, [va.random_label(rng, *v) for _ in range(14)]))
    for v, C in work:
        types_on(rec, rng, v, C, 90 if quick else 600)
    for v in rng.sample(others, 6 if quick else 40):
        types_on(rec, rng, v, va.classes(*v), 5)


def types_on(rec, rng, v, C, cap):
    from schubertpy import Schur
    obj = make(v)
    gi = rec.gr(*v)
    k = va.params(*v)[1]
    for l in rng.sample(C, min(len(C), cap)):
        if rec.over():
            return
        a = list(l) if rng.random() < 0.6 else Schur(list(l))
        x, bad = rec.call(obj.schub_type, a)
        res = bad or ({"kind": "int", "v": x} if isinstance(x, int) and not isinstance(x, bool) else {"kind": "odd"})
        rec.emit('schub_type', g=gi, v=list(v), l=l, form=type(a).__name__, res=res,
                 kept=(list(a.p) if isinstance(a, Schur) else a) == l)
        val = map_event(rec, rng, 'type_swap', lambda z: obj.type_swap(z, k), v, gi, al.S(l))
        val2 = map_event(rec, rng, 'miami_swap', obj.miami_swap, v, gi, al.S(l))
        if rng.random() < 0.3:
            for y, fn in ((val, lambda z: obj.type_swap(z, k)), (val2, obj.miami_swap)):
                if y is not None:
                    res, _ = rec.poly(fn, y)
                    rec.emit('arith', a=arg(al.S(l)), res=res, v=list(v), what='swapped twice')
    for _ in range(4):
        e = linear(rng, C, nterms=many(rng), qn=qnames(v))
        map_event(rec, rng, 'type_swap', lambda z: obj.type_swap(z, k), v, gi, e, rng.choice([1, 2]))
        map_event(rec, rng, 'miami_swap', obj.miami_swap, v, gi, e, rng.choice([1, 3]))
