"""Which Grassmannians and which arguments to exercise.  This only generates
inputs; whether the library answers correctly is decided by the specification."""
from functools import lru_cache
from math import comb


def typ(fam, N):
    return {'Gr': 'A', 'IG': 'C'}.get(fam) or ('B' if N % 2 else 'D')


def params(fam, m, N):
    """t, k, n, rows, cols"""
    t = typ(fam, N)
    if t == 'A':
        return t, N - m, N, m, N - m
    if t == 'C':
        n = N // 2
        return t, n - m, n, m, 2 * n - m
    if t == 'B':
        n = N // 2
        return t, n - m, n, m, 2 * n - m
    n = N // 2 - 1
    k = n + 1 - m
    return t, k, n, m, n + k


def degq(fam, m, N):
    t, k, n, rows, cols = params(fam, m, N)
    return {'A': n, 'C': n + 1 + k}.get(t) or (2 * n if k == 0 else n + k)


def dim(fam, m, N):
    t, k, n, rows, cols = params(fam, m, N)
    if t == 'A':
        return m * (N - m)
    if t == 'C':
        return 2 * m * (n - m) + m * (m + 1) // 2
    if t == 'B':
        return m * (2 * (n - m) + 1) + m * (m - 1) // 2
    return m * (2 * n + 2 - 2 * m) + m * (m - 1) // 2


def kstrict(k, rows, cols):
    if rows <= 0 or cols <= 0:
        yield []
        return
    yield []
    for a in range(1, cols + 1):
        for t in kstrict(k, rows - 1, a - 1 if a > k else a):
            yield [a] + t


@lru_cache(maxsize=None)
def kcount(k, rows, cols):
    """How many k-strict partitions there are in a rectangle."""
    if rows <= 0 or cols <= 0:
        return 1
    return 1 + sum(kcount(k, rows - 1, a - 1 if a > k else a) for a in range(1, cols + 1))


@lru_cache(maxsize=None)
def _classes(fam, m, N):
    t, k, n, rows, cols = params(fam, m, N)
    out = []
    for l in kstrict(cols if t == 'A' else k, rows, cols):
        out.append(tuple(l))
        if t == 'D' and k > 0 and k in l:
            out.append(tuple(l) + (0,))
    return out


def classes(fam, m, N):
    return [list(l) for l in _classes(fam, m, N)]


def count(fam, m, N):
    t, k, n, rows, cols = params(fam, m, N)
    if t == 'A':
        return comb(N, m)
    if t in 'BC':
        return 2 ** m * comb(n, m)
    return 2 ** n if k == 0 else 2 ** m * comb(n + 1, m)


def specials(fam, m, N):
    t, k, n, rows, cols = params(fam, m, N)
    if rows == 0:
        return []
    if t == 'D' and k > 0:
        return [p for p in range(1, cols + 1)] + [-k]
    return list(range(1, cols + 1))


def special_label(p):
    return [p] if p > 0 else [-p, 0]


def valid(fam, m, N):
    if fam == 'Gr':
        return 0 <= m <= N
    if fam == 'IG':
        return N % 2 == 0 and 0 <= m <= N // 2
    return 0 <= 2 * m <= N


def catalogue(fams, lo=1, hi=10 ** 9, maxN=30, minm=1):
    """All Grassmannians of these families with lo <= number of classes <= hi."""
    out = []
    for fam in fams:
        f = 'OG' if fam.startswith('OG') else fam
        for N in range(1, maxN + 1):
            if fam == 'OGodd' and N % 2 == 0 or fam == 'OGeven' and N % 2 == 1:
                continue
            for m in range(minm, N + 1):
                if f != 'OG' and not valid(f, m, N):
                    continue
                if f == 'OG' and (not valid(f, m, N) or params(f, m, N)[1] > params(f, m, N)[2]):
                    continue
                if f == 'Gr' and m == N and m > 3:
                    continue
                c = count(f, m, N)
                if lo <= c <= hi:
                    out.append((f, m, N))
    return out


def dense_label(rng, fam, m, N):
    """Most rows used, few gaps (without a type)."""
    t, k, n, rows, cols = params(fam, m, N)
    if t == 'A':
        l = sorted((rng.randint(max(1, cols - 3), cols) for _ in range(rows)), reverse=True)
        return l if cols else []
    big = min(cols - k, rows, max(0, cols - k - rng.randint(0, 3)))
    if rng.random() < 0.5:
        big = rng.randint(0, big)
    l = sorted(rng.sample(range(k + 1, cols + 1), big), reverse=True)
    if l and rng.random() < 0.4:
        l[0] = cols
    if k:
        l += sorted((rng.randint(1, k) for _ in range(rows - len(l))), reverse=True)
    if rng.random() < 0.3:
        l = l[:rng.randint(0, rows)]
    return l


def random_label(rng, fam, m, N, maxsize=None):
    """A random class of a possibly large variety, without enumerating."""
    t, k, n, rows, cols = params(fam, m, N)
    for _ in range(1000):
        style = rng.random()
        l = []
        cap = cols
        for i in range(rows):
            if cap <= 0:
                break
            if style < 0.25:
                a = rng.randint(max(0, cap - 2), cap)
            elif style < 0.5:
                a = rng.randint(0, min(cap, max(1, k)))
            else:
                a = rng.randint(0, cap)
            if a == 0:
                break
            l.append(a)
            cap = a - 1 if (t != 'A' and a > k) else a
        if style > 0.9 and t != 'A' and rows and cols:
            l = dense_label(rng, fam, m, N)
        elif style > 0.75 and rows and cols:      # parts at the corners of the definitions
            edge = [x for x in {0, 1, k - 1, k, k + 1, n - 1, n, n + 1, cols - 1, cols} if 0 <= x <= cols]
            l, few = [], rng.sample(edge, min(len(edge), 3))
            for x in sorted((rng.choice(few) for _ in range(rng.randint(1, rows))), reverse=True):
                if x and not (t != 'A' and x > k and x in l):
                    l.append(x)
        elif style > 0.7 and t != 'A' and k > 0 and k not in l and len(l) < rows:
            l = sorted([x for x in l if x >= k] + [k] + [x for x in l if x < k], reverse=True)
        if maxsize is not None and sum(l) > maxsize:
            continue
        if t == 'D' and k > 0 and k in l and rng.random() < 0.5:
            l.append(0)
        return l
    return []
