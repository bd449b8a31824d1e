"""Turning syntax trees into actual library arguments, in every supported form."""
from . import algebra as al


def cls_of(fam):
    import schubertpy as s
    return {'Gr': s.Grassmannian, 'IG': s.IsotropicGrassmannian, 'OG': s.OrthogonalGrassmannian}[fam]


def make(v):
    return cls_of(v[0])(v[1], v[2])


def coef(rng, big=False):
    r = rng.random()
    if r < 0.35:
        return 1
    if r < 0.5:
        return -1
    if r < 0.9:
        return rng.choice([2, 3, 5, -2, -3, 7, -7, 10, 12])
    return rng.choice([101, -64, 1000, 17])


def qmono(rng, names, p=0.3, maxe=2):
    out = []
    if names and rng.random() < p:
        for i in names:
            if rng.random() < 0.7:
                e = rng.randint(1, maxe)
                out.append(al.qv(i) if e == 1 else al.power(al.qv(i), e))
    return out


def many(rng):
    """Rarely a large number of terms; otherwise no particular one."""
    return rng.randint(8, 20) if rng.random() < 0.06 else None


def linear(rng, labels, nterms=None, qn=(1,), qp=0.3, coefs=True):
    """A random linear combination of the given labels."""
    nterms = nterms or rng.choice([1, 1, 2, 2, 3, 4, 6])
    terms = []
    for _ in range(nterms):
        l = rng.choice(labels)
        c = coef(rng) if coefs else 1
        f = qmono(rng, qn, qp) + [al.S(l)]
        if c != 1 or rng.random() < 0.1:
            f = [al.num(c)] + f
        terms.append(f[0] if len(f) == 1 else al.mul(*f))
    if len(terms) == 1:
        return terms[0]
    r = rng.random()
    if r < 0.75:
        return al.add(*terms)
    if r < 0.85:
        return al.sub(terms[0], al.add(*terms[1:]))
    h = len(terms) // 2
    c = rng.choice([2, 3, -1, -2])
    return al.add(al.mul(al.num(c), al.add(*terms[:h])), *terms[h:])


def polynomial(rng, labels, maxterms=3, maxfactors=3, qn=(1,), scalars=True, maxdeg=None):
    """A random polynomial expression in the given labels."""
    terms = []
    for _ in range(rng.randint(1, maxterms)):
        n = rng.randint(0 if scalars and rng.random() < 0.2 else 1, maxfactors)
        f = []
        deg = 0
        for _ in range(n):
            l = rng.choice(labels)
            if maxdeg is not None and deg + sum(l) > maxdeg and f:
                continue
            deg += sum(l)
            if rng.random() < 0.2 and n > 1 and (maxdeg is None or deg + sum(l) <= maxdeg):
                deg += sum(l)
                f.append(al.power(al.S(l), 2))
            else:
                f.append(al.S(l))
        f = qmono(rng, qn, 0.25) + f
        c = coef(rng)
        if c != 1 or not f:
            f = [al.num(c)] + f
        terms.append(f[0] if len(f) == 1 else al.mul(*f))
    return terms[0] if len(terms) == 1 else al.add(*terms)


FORMS = ['text', 'text', 'text', 'sympy', 'lc', 'lctext', 'lcexpr']
SINGLE = FORMS + ['schur', 'schur', 'list']


def single_label(e):
    return e["l"] if e["k"] == "S" else None


def build(rng, e, d=1, form=None, single=True, listok=True):
    """(argument, form, probe): probe() is the state of the argument for
    comparing before and after a call."""
    from schubertpy import LinearCombination, Schur
    import sympy as sp
    l = single_label(e) if d == 1 else None
    if form is None:
        form = rng.choice(SINGLE if (l is not None and single) else FORMS)
    if form == 'list' and not listok:
        form = 'schur'
    if form == 'list':
        a = list(l)
        return a, form, lambda: list(a)
    if form == 'schur':
        a = Schur(list(l))
        return a, form, lambda: (list(a.p), str(a))
    if form == 'text':
        a = al.with_den(al.Spelling(rng).text(e, 3 if d != 1 else 0), d)
        return a, form, lambda: a
    if form == 'sympy':
        a = al.to_sympy(e)
        if d != 1:
            a = a / sp.Integer(d)
        return a, form, lambda: a
    if form == 'lc':
        a = LinearCombination(al.to_sympy(e) / sp.Integer(d))
    elif form == 'lcexpr':
        a = LinearCombination(LinearCombination(al.to_sympy(e) / sp.Integer(d)))
    else:
        a = LinearCombination(al.with_den(al.Spelling(rng).text(e, 3 if d != 1 else 0), d))
    return a, form, lambda: (a.expr, str(a))


def arg(e, d=1):
    return {"x": e, "d": d}
