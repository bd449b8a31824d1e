"""Events about Pieri, Giambelli and products (C01-C09, C15)."""
from . import algebra as al
from . import varieties as va
from .inputs import make, linear, polynomial, build, arg, qmono


def shard(items, i, n):
    return [x for j, x in enumerate(items) if j % n == i]


def qnames(v):
    t, k, n, _, _ = va.params(*v)
    return (2, 3) if t == 'D' and k == 1 else (1,)


def pieri_event(rec, rng, obj, v, gi, p, e, d, qf, form=None):
    a, form, probe = build(rng, e, d, form)
    before = probe()
    res, _ = rec.poly(obj.qpieri if qf else obj.pieri, p, a)
    rec.emit('pieri', g=gi, v=list(v), qf=qf, p=p, a=arg(e, d), form=form, res=res, kept=before == probe())


def pieri_all(rec, rng, v, frac=1.0):
    """Every class times every special class, classical and quantum."""
    obj = make(v)
    gi = rec.gr(*v)
    cases = [(p, l, qf) for p in va.specials(*v) for l in va.classes(*v) for qf in (False, True)]
    rng.shuffle(cases)
    for p, l, qf in cases[:max(1, int(len(cases) * frac))]:
        if rec.over():
            return
        pieri_event(rec, rng, obj, v, gi, p, al.S(l), 1, qf)


def pieri_random(rec, rng, v, count, maxsize=None, nterms=None):
    obj = make(v)
    gi = rec.gr(*v)
    sp = va.specials(*v)
    if not sp:
        return
    for _ in range(count):
        if rec.over():
            return
        labs = [va.random_label(rng, *v, maxsize=maxsize) for _ in range(rng.randint(1, 5))]
        if v[1] > 5 and rng.random() < 0.4:
            labs = [va.dense_label(rng, *v)]
        e = linear(rng, labs, nterms, qn=qnames(v))
        p = rng.choice(sp)
        if rng.random() < 0.6:      # at the corners of the definition
            t, k, nn, rows, cols = va.params(*v)
            p = rng.choice([x for x in sp if abs(x) in (1, k, k + 1, nn, nn + 1, cols)] or sp)
        pieri_event(rec, rng, obj, v, gi, p, e, rng.choice([1, 1, 1, 2, 3]), rng.random() < 0.6)


# ---- C01-C04 ------------------------------------------------------------------

FAMS = {'C01': ['Gr'], 'C02': ['IG'], 'C03': ['OGodd'], 'C04': ['OGeven']}


def gen_pieri(rec, rng, pid, tier, i, n):
    fams = FAMS[pid]
    hi = 130 if tier == 'quick' else 300
    cat = va.catalogue(fams, 1, hi, maxN=16 if tier == 'quick' else 20)
    work = sorted(cat, key=lambda v: va.count(*v) * len(va.specials(*v)))
    for j, v in enumerate(work):
        if (j % (2 * n)) in (i, 2 * n - 1 - i):
            size = va.count(*v) * len(va.specials(*v)) * 2
            cap = 2200 if tier == 'quick' else 12000
            pieri_all(rec, rng, v, min(1.0, cap / max(1, size)))
    # linear combinations, on varieties of every size
    for v in rng.sample(cat, min(len(cat), 16 if tier == 'quick' else 60)):
        pieri_random(rec, rng, v, 8)
    if pid == 'C04':        # two parameters q1, q2
        for v in [('OG', m, 2 * m + 2) for m in (rng.choice([7, 8]), 8, 9)]:
            pieri_random(rec, rng, v, 8 if tier == 'quick' else 60, nterms=1)
    for v in large(pid, rng, tier):
        # (strips in many rows are slow to enumerate)
        tall = v[0] != 'Gr' and v[1] > 6
        pieri_random(rec, rng, v, (6 if tall else 16) if tier == "quick" else 30, nterms=rng.choice([1, 1, 2]))


def large(pid, rng, tier):
    """Varieties too large to enumerate; parts of 10 and more occur."""
    out = []
    for _ in range(30 if tier == "quick" else 120):
        fam = {'C01': 'Gr', 'C02': 'IG', 'C03': 'OGodd', 'C04': 'OGeven'}[pid]
        if fam == 'Gr':
            m, k = rng.choice([(2, 13), (3, 10), (4, 6), (5, 5), (6, 4), (7, 3), (9, 2), (12, 2), (3, 8), (4, 7), (1, 17)])
            out.append(('Gr', m, m + k))
        else:
            n = rng.choice([5, 6, 6, 7, 7, 8])
            m = rng.randint(1, min(n, 4 if n > 6 else n))
            if rng.random() < 0.35:
                n, m = rng.choice([(11, 2), (12, 1), (9, 2), (9, 3), (10, 2), (10, 3), (12, 2), (13, 1)])
            if rng.random() < 0.15:     # many rows
                n = rng.choice([7, 8, 8, 9, 9] if fam != 'OGeven' else [7, 8, 9, 9])
                m = n - rng.choice([0, 0, 1, 1, 1, 2])
            if fam == 'IG':
                out.append(('IG', m, 2 * n))
            elif fam == 'OGodd':
                out.append(('OG', m, 2 * n + 1))
            else:
                out.append(('OG', m, 2 * n))
    return out


# ---- products with tables ------------------------------------------------------

ALL = ['Gr', 'IG', 'OGodd', 'OGeven']


def pick_tables(rng, tier, i, n, total=None):
    """The varieties whose multiplication table this shard works with.  The small
    ones are all covered by every run, the larger ones are sampled."""
    small = va.catalogue(ALL, 1, 16, maxN=12)
    mid = va.catalogue(ALL, 17, 40 if tier == 'quick' else 84, maxN=14)
    if tier == 'quick':
        mine = shard(small, i, n)
        pool = list(mid)
        # the same sample order on every shard: distinct varieties per shard
        import random
        random.Random("mid-%s" % rng_seed(rng)).shuffle(pool)
        return mine + shard(pool, i, n)
    return shard(small, i, n) + shard(mid, i, n)


def rng_seed(rng):
    """A value common to all shards of a run (set by the registry)."""
    return getattr(rng, 'run_seed', 0)


def combos(rng, v, k):
    C = va.classes(*v)
    return [rng.choice(C) for _ in range(k)]


def scalar_factor(rng, qn):
    """A plain number or monomial in the quantum parameters, as a factor."""
    c = al.num(rng.choice([0, 1, -1, 2, -2, -3, -7, 5, 12, -64, 1001, -4096, 70001]))
    q = qmono(rng, qn, 0.4)
    return al.mul(c, *q) if q else c


def spec_poly(rng, v, maxdeg=None):
    labs = [va.special_label(p) for p in va.specials(*v)]
    return polynomial(rng, labs, maxterms=3, maxfactors=3, qn=qnames(v), maxdeg=maxdeg) if labs else al.num(3)


def product_event(rec, rng, obj, v, gi, op, e1, d1, e2, d2, qf, forms=(None, None), fn=None):
    a, f1, pa = build(rng, e1, d1, forms[0])
    b, f2, pb = build(rng, e2, d2, forms[1])
    before = pa(), pb()
    fn = fn or getattr(obj, ('q' if qf else '') + op)
    res, _ = rec.poly(fn, a, b)
    rec.emit('act' if op == 'act' else 'mult', g=gi, v=list(v), qf=qf, a=arg(e1, d1), b=arg(e2, d2),
             forms=[f1, f2], res=res, kept=before == (pa(), pb()), call=op)


def tos_event(rec, rng, obj, v, gi, e, d, qf):
    a, f, pa = build(rng, e, d)
    before = pa()
    res, _ = rec.poly(obj.qtoS if qf else obj.toS, a)
    rec.emit('toS', g=gi, v=list(v), qf=qf, a=arg(e, d), form=f, res=res, kept=before == pa())


def pair_sample(rng, v, qf, count):
    """Pairs of classes: all of them, or a sample that favours those with
    interesting products."""
    C = va.classes(*v)
    D = va.dim(*v)
    if len(C) ** 2 <= count:
        pairs = [(x, y) for x in C for y in C]
        rng.shuffle(pairs)
        return pairs
    out = []
    high = [l for l in C if 3 * sum(l) >= 2 * D]
    for _ in range(count):
        r = rng.random()
        x, y = rng.choice(C), rng.choice(C)
        if qf and r < 0.45:
            x, y = rng.choice(high), rng.choice(high if r < 0.3 else C)
        elif not qf and r < 0.7:
            for _ in range(20):
                if D - 4 <= sum(x) + sum(y) <= D:
                    break
                x, y = rng.choice(C), rng.choice(C)
        out.append((x, y) if rng.random() < 0.5 else (y, x))
    return out


def gen_mult(rec, rng, pid, tier, i, n):
    qf = pid == 'C07'
    todo = pick_tables(rng, tier, i, n)
    per = 420 if tier == 'quick' else 4000
    for v in todo:
        obj = make(v)
        gi = rec.gr(*v, c=not qf, q=qf)
        C = va.classes(*v)
        for x, y in pair_sample(rng, v, qf, per):
            if rec.over():
                return
            product_event(rec, rng, obj, v, gi, 'mult', al.S(x), 1, al.S(y), 1, qf)
        qn = qnames(v)
        for _ in range(2 if tier == 'quick' else 12):
            product_event(rec, rng, obj, v, gi, rng.choice(['mult', 'act']), scalar_factor(rng, qn), rng.choice([1, 1, 2, 3]),
                          linear(rng, C, qn=qn), rng.choice([1, 1, 2]), qf)
        if rng.random() < 0.3:
            tos_event(rec, rng, obj, v, gi, scalar_factor(rng, qn), rng.choice([1, 2]), qf)
        for _ in range(14 if tier == 'quick' else 120):
            if rec.over():
                return
            r = rng.random()
            if r < 0.35:
                product_event(rec, rng, obj, v, gi, 'mult', linear(rng, C, qn=qn), rng.choice([1, 1, 2, 3]),
                              linear(rng, C, qn=qn), rng.choice([1, 1, 2]), qf)
            elif r < 0.5:
                product_event(rec, rng, obj, v, gi, 'mult',
                              polynomial(rng, C, maxterms=2, maxfactors=3, qn=qn, maxdeg=2 * va.dim(*v)), 1,
                              linear(rng, C, qn=qn, nterms=rng.choice([1, 2])), 1, qf)
            elif r < 0.75:
                product_event(rec, rng, obj, v, gi, 'act', spec_poly(rng, v), rng.choice([1, 1, 2, 5]),
                              linear(rng, C, qn=qn, nterms=rng.choice([1, 2, 3])), rng.choice([1, 1, 3]), qf)
            else:
                tos_event(rec, rng, obj, v, gi,
                          polynomial(rng, C, maxterms=3, maxfactors=3, qn=qn, maxdeg=2 * va.dim(*v)),
                          rng.choice([1, 1, 2]), qf)
    # act without tables, columns of the table: varieties of every size
    for v in pick_large(rng, tier):
        if rec.over():
            return
        act_large(rec, rng, v, qf, 4 if tier == 'quick' else 12)
        for _ in range(1 if tier == 'quick' else 3):
            column_large(rec, rng, v, qf, tier)
    for v in rng.choices(lr_pool(tier), k=16 if tier == 'quick' else 150):
        if rec.over():
            return
        lr_event(rec, rng, v, qf, 10, 1500 if tier == 'quick' else 6000, ['qmult' if qf else 'mult'])


def pick_large(rng, tier, hi=None):
    pool = va.catalogue(ALL, 41, hi or (260 if tier == 'quick' else 700), maxN=16)
    byfam = {}
    for v in pool:
        byfam.setdefault(va.typ(v[0], v[2]), []).append(v)
    out = []
    for t in 'ABCD':
        out += rng.sample(byfam[t], 2 if tier == 'quick' else 6)
    return out


def act_large(rec, rng, v, qf, count):
    obj = make(v)
    gi = rec.gr(*v)
    for _ in range(count):
        if rec.over():
            return
        labs = [va.random_label(rng, *v) for _ in range(2)]
        product_event(rec, rng, obj, v, gi, 'act', spec_poly(rng, v, maxdeg=va.dim(*v)), 1,
                      linear(rng, labs, nterms=rng.choice([1, 2]), qn=qnames(v)), 1, qf)


def column_large(rec, rng, v, qf, tier):
    obj = make(v)
    gi = rec.gr(*v)
    y = va.random_label(rng, *v)
    top = 6 if tier == 'quick' else 12
    small = [l for l in va.classes(*v) if sum(l) <= top]
    rows = []
    for x in rng.sample(small, min(len(small), 8 if tier == 'quick' else 30)):
        a, f1, _ = build(rng, al.S(x))
        b, f2, _ = build(rng, al.S(y))
        if rng.random() < 0.5:
            a, b = b, a
        res, _ = rec.poly(obj.qmult if qf else obj.mult, a, b)
        rows.append({"l": x, "res": res})
    rec.emit('column', g=gi, v=list(v), qf=qf, y=y, rows=rows)


def lr_terms(l, m, rows):
    """A bound for the fillings the Littlewood-Richardson rule enumerates."""
    def strips(shape, left, j=0):
        if j == rows:
            return [()] if left == 0 else []
        room = left if j == 0 else min(left, shape[j - 1] - shape[j])
        return [(shape[j] + x,) + t for x in range(room + 1) for t in strips(shape, left - x, j + 1)]
    n = {tuple(l) + (0,) * (rows - len(l)): 1}
    for s in m:
        new = {}
        for shape, c in n.items():
            for mu in strips(shape, s):
                new[mu] = new.get(mu, 0) + c
        n = new
        if sum(n.values()) > 10 ** 5:
            break
    return sum(n.values())


def lr_pool(tier):
    return va.catalogue(['Gr'], 36, 2002 if tier == 'quick' else 12870, maxN=14 if tier == 'quick' else 16, minm=2)


def lr_event(rec, rng, v, qf, maxl, bound, ops):
    """A product on an ordinary Grassmannian judged by the Littlewood-Richardson rule."""
    obj = make(v)
    gi = rec.gr(*v)
    small = [l for l in va.classes(*v) if sum(l) <= maxl]
    for _ in range(30):
        x, y = rng.choice(small), va.random_label(rng, *v)
        if lr_terms(y, x, v[1]) <= bound:
            break
    else:
        return
    a, f1, _ = build(rng, al.S(x))
    b, f2, _ = build(rng, al.S(y))
    if rng.random() < 0.4 and (sum(y) <= 10 or 'qmult_rh' not in ops):      # slow the other way round
        a, b = b, a
    for op in ops:
        res, _ = rec.poly(getattr(obj, op), a, b)
        rec.emit('lr', g=gi, v=list(v), qf=qf, what=op, l=y, m=x, forms=[f1, f2], res=res)


# ---- C05 -------------------------------------------------------------------------

def giambelli_event(rec, rng, obj, v, gi, e, d, qf):
    a, f, pa = build(rng, e, d)
    before = pa()
    res, _ = rec.poly(obj.qgiambelli if qf else obj.giambelli, a)
    rec.emit('giambelli', g=gi, v=list(v), qf=qf, a=arg(e, d), form=f, res=res, kept=before == pa())


def gen_giambelli(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    for v in pick_tables(rng, tier, i, n):
        obj = make(v)
        gi = rec.gr(*v, c=True, q=True)
        C = va.classes(*v)
        qn = qnames(v)
        todo = [(l, qf) for l in C for qf in (False, True)]
        rng.shuffle(todo)
        for l, qf in todo[:80 if quick else 400]:
            if rec.over():
                return
            giambelli_event(rec, rng, obj, v, gi, al.S(l), 1, qf)
        for _ in range(20 if quick else 80):
            if rec.over():
                return
            qf = rng.random() < 0.5
            r = rng.random()
            if r < 0.4:
                e = polynomial(rng, C, maxterms=2, maxfactors=2, qn=qn, maxdeg=va.dim(*v))
                giambelli_event(rec, rng, obj, v, gi, e, rng.choice([1, 1, 2, 3]), qf)
            elif r < 0.6:
                giambelli_event(rec, rng, obj, v, gi, linear(rng, C, qn=qn), rng.choice([1, 2, 3]), qf)
            elif r < 0.7:
                giambelli_event(rec, rng, obj, v, gi, spec_poly(rng, v), 1, qf)
            else:
                tos_event(rec, rng, obj, v, gi, linear(rng, C, qn=qn), rng.choice([1, 1, 2, 3]), qf)
    for v in pick_large(rng, tier, hi=160 if quick else 400):
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        cap = min(va.dim(*v), 12 if quick else 18)
        small = [l for l in C if sum(l) <= cap]
        for _ in range(3 if quick else 14):
            if rec.over():
                return
            qf = rng.random() < 0.5
            giambelli_event(rec, rng, obj, v, gi, al.S(rng.choice(small)), 1, qf)
            tos_event(rec, rng, obj, v, gi, linear(rng, C, qn=qnames(v), nterms=rng.choice([1, 2, 3])), 1, qf)
    # classes with many parts
    byfam = {}
    for v in va.catalogue(ALL, 20, 250 if quick else 700, maxN=16):
        if va.params(*v)[3] >= 4:
            byfam.setdefault(va.typ(v[0], v[2]), []).append(v)
    for t in 'ABCDD':
        for v in rng.sample(byfam[t], 1 if quick else 4):
            obj = make(v)
            gi = rec.gr(*v)
            k = va.params(*v)[1]
            tall = [l for l in va.classes(*v) if len([x for x in l if x]) >= 4 and sum(l) <= (13 if quick else 16)]
            withk = [l for l in tall if k in l[1:]]
            for _ in range(7 if quick else 25):
                if rec.over() or not tall:
                    break
                l = rng.choice(rng.choice([tall, withk or tall]))
                giambelli_event(rec, rng, obj, v, gi, al.S(l), 1, rng.random() < 0.5)
    # a few boxes in many rows, on varieties of any size
    for v in rng.sample(TALL, 3 if quick else 8):
        obj = make(v)
        gi = rec.gr(*v)
        for _ in range(4 if quick else 12):
            if rec.over():
                break
            giambelli_event(rec, rng, obj, v, gi, al.S(column_like(rng, v)), 1, rng.random() < 0.5)


TALL = [('OG', 6, 16), ('OG', 5, 14), ('OG', 7, 18), ('OG', 6, 18), ('OG', 7, 20), ('OG', 5, 16), ('IG', 6, 16), ('IG', 7, 16),
        ('OG', 6, 15), ('OG', 7, 19), ('IG', 5, 14), ('Gr', 6, 10), ('Gr', 7, 12), ('OG', 8, 20), ('OG', 6, 17), ('OG', 7, 18)]


def column_like(rng, v):
    """The label of a class of small codimension with many parts."""
    t, k, n, rows, cols = va.params(*v)
    l = [1] * rng.randint(3, min(rows, 7))
    for _ in range(rng.randint(0, 4)):
        j = rng.randrange(len(l)) if rng.random() < 0.4 else 0
        if (j == 0 or l[j] < l[j - 1]) and l[j] < cols and l[j] < k + 3:
            l[j] += 1
    if t != 'A' and any(l[j] == l[j + 1] > k for j in range(len(l) - 1)):
        l = [1] * min(rows, 5) if k else [3, 2, 1]
    if t == 'D' and k > 0 and k in l and rng.random() < 0.6:
        l.append(0)
    return l


# ---- C08 -------------------------------------------------------------------------

def gen_laws(rec, rng, pid, tier, i, n):
    """Chains of products: the results of calls are fed into the next ones."""
    quick = tier == 'quick'
    pool = va.catalogue(ALL, 2, 130 if quick else 300, maxN=14)
    for v in rng.sample(pool, 24 if quick else 90):
        if rec.over():
            return
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        for qf in (False, True):
            m = obj.qmult if qf else obj.mult
            for _ in range(2 if quick else 5):
                if rec.over():
                    return
                laws(rec, rng, v, gi, C, qf, m, obj)
    # longer chains compared with the table
    for v in pick_tables(rng, tier, i, n)[-2:]:
        chain(rec, rng, v, tier)


def laws(rec, rng, v, gi, C, qf, m, obj):
    qn = qnames(v)
    cap = va.dim(*v)
    labs = [rng.choice(C) for _ in range(6)]
    if rng.random() < 0.5:
        small = [l for l in C if sum(l) <= max(1, cap // 3)]
        labs = [rng.choice(small) for _ in range(6)]
    es = [linear(rng, labs, nterms=rng.choice([1, 1, 2]), qn=qn) if rng.random() < 0.6 else al.S(rng.choice(labs))
          for _ in range(3)]
    A, B, Cc = (build(rng, e)[0] for e in es)

    def chainp(*steps):
        cur, rec_ = None, None
        for s in steps:
            rec_, cur = rec.poly(s, cur)
            if cur is None:
                return rec_, None
        return rec_, cur

    ab = chainp(lambda _: m(A, B))
    ba = chainp(lambda _: m(B, A))
    rec.emit('equal', g=gi, v=list(v), qf=qf, law='commutativity', args=es, res=[ab[0], ba[0]])
    if ab[1] is None or ba[1] is None:
        return
    r1 = chainp(lambda _: m(ab[1], Cc))
    r2 = chainp(lambda _: m(B, Cc), lambda bc: m(A, bc))
    r3 = chainp(lambda _: m(A, Cc), lambda ac: m(ac, B))
    rec.emit('equal', g=gi, v=list(v), qf=qf, law='associativity', args=es, res=[r1[0], r2[0], r3[0]])
    one = build(rng, al.S([]))[0]
    u1, u2 = chainp(lambda _: m(one, A)), chainp(lambda _: m(A, one))
    idv = chainp(lambda _: build(rng, es[0], 1, 'lc')[0])
    rec.emit('equal', g=gi, v=list(v), qf=qf, law='unit', args=es, res=[u1[0], u2[0], idv[0]])
    # the operators of a special class: pieri, act and mult agree
    sp = [l for l in C if sum(1 for x in l if x) == 1 and (len(l) == 1 or v[0] == 'OG' and v[2] % 2 == 0)]
    if sp:
        l = rng.choice(sp)
        es2 = linear(rng, labs, nterms=rng.choice([1, 1, 2, 3]), qn=qn, qp=0.6)
        no = -l[0] if len(l) == 2 else l[0]
        fs = rng.sample(['text', 'sympy', 'lc', 'lctext'], 3)
        x, y, z = (build(rng, es2, 1, f)[0] for f in fs)
        op, ac = (obj.qpieri, obj.qact) if qf else (obj.pieri, obj.act)
        c = build(rng, al.S(l))[0]
        w1, w2, w3 = chainp(lambda _: op(no, x)), chainp(lambda _: m(c, y)), chainp(lambda _: ac(al.label_text(l), z))
        rec.emit('equal', g=gi, v=list(v), qf=qf, law='operators-of-a-special-class', args=[al.S(l), es2],
                 forms=fs, res=[w1[0], w2[0], w3[0]])
    # distributivity with scalars and q
    c1, c2 = rng.choice([1, 2, -3, 5, -1001, 20000]), rng.choice([1, -1, 4, 3001])
    q1 = [0, 0, 0]
    scal = []
    if rng.random() < 0.5:
        q1[rng.choice(qn) - 1] = rng.randint(1, 2)
        scal = [al.power(al.qv(j + 1), x) for j, x in enumerate(q1) if x]
    e = al.add(al.mul(al.num(c1), *scal, es[1]), al.mul(al.num(c2), es[2]))
    E = build(rng, e, 1, rng.choice(['text', 'sympy', 'lc']))[0]
    left = rng.random() < 0.5
    whole = chainp(lambda _: m(E, A) if left else m(A, E))
    p1 = ab if not left else ba
    p2 = chainp(lambda _: m(Cc, A) if left else m(A, Cc))
    rec.emit('combine', g=gi, v=list(v), qf=qf, law='distributivity', args=es, whole=whole[0],
             parts=[{"c": c1, "q": q1, "r": p1[0]}, {"c": c2, "q": [0, 0, 0], "r": p2[0]}])


def chain(rec, rng, v, tier):
    """A sequence of random operations on earlier results; each step against the table."""
    obj = make(v)
    gi = rec.gr(*v, c=True, q=True)
    C = va.classes(*v)
    from schubertpy import LinearCombination
    cur = None
    for step in range(12 if tier == 'quick' else 60):
        if rec.over():
            return
        qf = rng.random() < 0.6
        if cur is None or rng.random() < 0.2:
            cur_e = linear(rng, C, nterms=rng.choice([1, 2]), qn=qnames(v))
            cur = build(rng, cur_e, 1, rng.choice(['lc', 'text', 'sympy']))[0]
            cur_d = 1
        other = linear(rng, C, nterms=rng.choice([1, 2]), qn=())
        b, fb, _ = build(rng, other)
        swap = rng.random() < 0.5
        m = obj.qmult if qf else obj.mult
        res, val = rec.poly(m, b, cur) if swap else rec.poly(m, cur, b)
        a1, a2 = (other, cur_e) if swap else (cur_e, other)
        rec.emit('mult', g=gi, v=list(v), qf=qf, a=arg(a1, 1 if swap else cur_d), b=arg(a2, cur_d if swap else 1),
                 forms=['chained', fb], res=res)
        if val is None or res.get("kind") != "poly" or res["den"] != 1 or not res["t"] or \
                max(abs(t["c"]) for t in res["t"]) > 10 ** 5 or max(sum(t["q"]) for t in res["t"]) > 4:
            cur = None
        else:
            cur = val
            cur_e = rec_ast(res)
            cur_d = 1


def rec_ast(res):
    """The recorded polynomial as a syntax tree."""
    terms = []
    for t in res["t"]:
        f = [al.num(t["c"])]
        for j, x in enumerate(t["q"]):
            if x:
                f.append(al.power(al.qv(j + 1), x))
        for l, x in t["m"]:
            f.append(al.S(l) if x == 1 else al.power(al.S(l), x))
        terms.append(al.mul(*f))
    return al.add(*terms)


# ---- C09 -------------------------------------------------------------------------

def gen_graded(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    small = va.catalogue(ALL, 1, 16, maxN=12)
    pool = va.catalogue(ALL, 17, 240 if quick else 600, maxN=14 if quick else 16)
    work = [(v, 120 if quick else 300) for v in shard(small, i, n)]
    work += [(v, 14 if quick else 40) for v in rng.sample(pool, 14 if quick else 60)]
    for v, cnt in work:
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        for x, y in pair_sample(rng, v, True, cnt):
            if rec.over():
                return
            a, b = build(rng, al.S(x))[0], build(rng, al.S(y))[0]
            cl, _ = rec.poly(obj.mult, a, b)
            qu, _ = rec.poly(obj.qmult, a, b)
            rec.emit('graded', g=gi, v=list(v), l1=x, l2=y, cl=cl, qu=qu)
    # a class of small codimension times any class, on varieties of any size
    for pid1 in ('C01', 'C02', 'C03', 'C04'):
        some = [v for v in TALL if v[0] == 'OG' and va.typ(*v[::2]) == ('B' if pid1 == 'C03' else 'D')
                ] if pid1 in ('C03', 'C04') else [v for v in TALL if v[0] == ('Gr' if pid1 == 'C01' else 'IG')]
        for v in large(pid1, rng, 'quick')[:4] + rng.sample(some, 2) if quick else large(pid1, rng, tier)[:40] + some:
            obj = make(v)
            gi = rec.gr(*v)
            for _ in range(3 if quick else 8):
                if rec.over():
                    return
                sps = va.specials(*v)
                x = va.special_label(rng.choice(sps)) if sps and rng.random() < 0.7 else va.random_label(rng, *v, maxsize=4)
                y = va.random_label(rng, *v) if rng.random() < 0.5 else va.dense_label(rng, *v)
                a, b = build(rng, al.S(x))[0], build(rng, al.S(y))[0]
                cl, _ = rec.poly(obj.mult, a, b)
                qu, _ = rec.poly(obj.qmult, a, b)
                rec.emit('graded', g=gi, v=list(v), l1=x, l2=y, cl=cl, qu=qu)


# ---- C15 -------------------------------------------------------------------------

def gen_rh(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    cat = va.catalogue(['Gr'], 1, 36 if quick else 71, maxN=8 if quick else 9)
    cat = sorted(cat, key=lambda v: -va.count(*v))
    for v in shard(cat, i, n):
        obj = make(v)
        gi = rec.gr(*v, q=True)
        C = va.classes(*v)
        for x, y in pair_sample(rng, v, True, 70 if quick else 400):
            if rec.over():
                return
            product_event(rec, rng, obj, v, gi, 'qmult_rh', al.S(x), 1, al.S(y), 1, True, fn=obj.qmult_rh)
        for _ in range(4 if quick else 25):
            if rec.over():
                return
            # (long columns in the first factor are slow)
            short = [l for l in C if v[1] < 6 or sum(l) <= 7]
            product_event(rec, rng, obj, v, gi, 'qmult_rh', linear(rng, short), rng.choice([1, 1, 2]),
                          linear(rng, C, nterms=rng.choice([1, 2])), 1, True, fn=obj.qmult_rh)
    # larger: agreement with qmult
    for v in rng.sample([v for v in va.catalogue(['Gr'], 36, 90, maxN=9) if v[1] < 6], 2 if quick else 5):
        obj = make(v)
        gi = rec.gr(*v)
        C = va.classes(*v)
        for _ in range(2 if quick else 10):
            if rec.over():
                return
            (x, y), = pair_sample(rng, v, True, 1)
            r1, _ = rec.poly(obj.qmult_rh, list(x), list(y))
            r2, _ = rec.poly(obj.qmult, list(x), list(y))
            rec.emit('equal', g=gi, v=list(v), qf=True, law='agrees-with-qmult', args=[x, y], res=[r2, r1])
    for v in rng.choices(lr_pool(tier), k=14 if quick else 150):
        if rec.over():
            return
        lr_event(rec, rng, v, True, 8, 1000 if quick else 5000, ['qmult_rh'])
