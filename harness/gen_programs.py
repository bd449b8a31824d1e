"""Programs: computations drawn by the specification (MCProgram), replayed in the library (C29)."""
import os

from . import algebra as al
from . import varieties as va
from .gen_cache import run_model
from .gen_products import ALL
from .gen_maps import labels_of  # noqa: F401  (same observers)
from .inputs import make
from .recorder import observe


class Refused(Exception):
    pass


def as_lc(v):
    from schubertpy import LinearCombination
    return v if isinstance(v, LinearCombination) else LinearCombination(v)


def present(rng, v, lab):
    """The value of an earlier result in some form an operation accepts."""
    from schubertpy import LinearCombination, Schur
    if lab is not None and rng.random() < 0.5:
        return rng.choice([lambda: list(lab), lambda: Schur(list(lab)), lambda: al.label_text(lab)])()
    r = rng.random()
    if r < 0.5:
        return v
    return rng.choice([lambda: v.expr, lambda: str(v), lambda: LinearCombination(v),
                       lambda: LinearCombination(str(v))])()


def entries(x):
    return [x] if isinstance(x, tuple) else list(x)


def rebuild(x):
    from schubertpy import LinearCombination, Schur
    out = LinearCombination(0)
    for c, p in entries(x):
        out = out + as_lc(c) * Schur(list(p)).symbol()
    return LinearCombination(out.expr.expand())


def labelled(lab):
    return lab


def step(rng, st, ins):
    """Carries out one instruction; returns its value."""
    from schubertpy import LinearCombination, Schur
    import sympy as sp
    o, obj = ins["o"], st["obj"]
    v = lambda i: st["val"][i - 1]
    a = lambda i: present(rng, st["val"][i - 1], st["lab"][i - 1])
    i, j, c = ins["i"], ins["j"], ins["c"]
    if o == 'class':
        l = ins["l"]
        return as_lc(rng.choice([Schur(list(l)), Schur(list(l)).symbol(), al.label_text(l)]))
    if o == 'sum':
        return v(i) + (v(j) if rng.random() < 0.7 else v(j).expr)
    if o == 'diff':
        return v(i) - (v(j) if rng.random() < 0.7 else v(j).expr)
    if o == 'scale':
        return v(i) * c if rng.random() < 0.5 else c * v(i)
    if o == 'qscale':
        q = sp.Symbol(al.QN[c - 1])
        return LinearCombination((v(i) * q).expr.expand() if rng.random() < 0.7 else q * v(i).expr)
    if o in ('mult', 'qmult', 'qmult_rh'):
        return getattr(obj, o)(a(i), a(j))
    if o == 'giambelli-act':
        return obj.act(obj.giambelli(a(i)), a(j))
    if o == 'qgiambelli-qact':
        return obj.qact(obj.qgiambelli(a(i)), a(j))
    if o in ('toS-of-product', 'qtoS-of-product'):
        p = v(i) * v(j)
        return (obj.toS if o[0] == 't' else obj.qtoS)(rng.choice([p, str(p), p.expr]))
    if o in ('toS-of-square', 'qtoS-of-square'):
        p = v(i) ** 2
        return (obj.toS if o[0] == 't' else obj.qtoS)(rng.choice([p, str(p), p.expr]))
    if o in ('pieri', 'qpieri'):
        return getattr(obj, o)(c, a(i))
    if o == 'dual':
        return obj.dualize(a(i))
    if o == 'swap':
        return obj.type_swap(a(i), st["k"])
    if o == 'miami':
        return obj.miami_swap(a(i))
    if o == 'index':
        return obj.index2part(obj.part2index(a(i)))
    if o == 'pairs':
        return obj.pair2part(obj.part2pair(a(i)))
    if o in ('toS', 'qtoS'):
        return getattr(obj, o)(a(i))
    if o == 'expansion':
        return rebuild(LinearCombination(v(i).expr.expand()).schur_expansion())
    if o == 'classical':
        return rebuild(LinearCombination(v(i).expr.expand()).schur_expansion(include_q=False))
    if o == 'text':
        return LinearCombination(str(v(i)))
    if o == 'clone':
        st["obj"] = obj.clone()
        return v(i)
    raise ValueError(o)


def single(res):
    if res.get("kind") == "poly" and res["den"] == 1 and len(res["t"]) == 1:
        t = res["t"][0]
        if t["c"] == 1 and not any(t["q"]) and len(t["m"]) == 1 and t["m"][0][1] == 1:
            return t["m"][0][0]
    return None


def replay(rec, rng, v, prog, qs=None):
    st = {"obj": make(v), "k": va.params(*v)[1], "val": [], "lab": []}
    gi = rec.gr(*v, c=True, q=True)
    out = []
    for ins in prog:
        val, bad = rec.call(step, rng, st, ins)
        res = bad or observe(val)
        out.append(res)
        if bad or res.get("kind") != "poly":
            break
        st["val"].append(as_lc(val))
        st["lab"].append(single(res))
    # earlier results are still what they were
    kept = all(observe(x) == r for x, r in zip(st["val"], out))
    rec.emit('program', g=gi, v=list(v), prog=prog[:len(out)], outs=out, kept=kept)
    rec.traces += 1


def gen_program(rec, rng, pid, tier, i, n):
    quick = tier == 'quick'
    small = va.catalogue(ALL, 2, 14, maxN=10)
    mid = va.catalogue(ALL, 15, 36 if quick else 60, maxN=12)
    import random
    shared = random.Random('programs-%s' % rng.run_seed)
    shared.shuffle(small)
    shared.shuffle(mid)
    mine = [v for j, v in enumerate(small) if j % n == i][:4 if quick else 30] + \
           [v for j, v in enumerate(mid) if j % n == i][:3 if quick else 30]
    for v in mine:
        if rec.over():
            return
        t, k, nn, rows, cols = va.params(*v)
        depth = 14
        num = 16 if quick else 60
        beh = run_model(rec, 'MCProgram', {"Type": t, "K": k, "N": nn, "Depth": depth, "Drawn": True, "Emit": True},
                        ['Inside', 'Rerun', 'Emitted'], complete=False,
                        extra=('-simulate', 'num=%d' % num, '-depth', str(depth + 2), '-seed', str(rng.randrange(1, 2 ** 40))))
        for prog in beh[:num]:
            if rec.over():
                return
            replay(rec, rng, v, prog)
