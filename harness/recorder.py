"""Runs requests against the library in /repo and records what it did."""
import contextlib
import io
import json
import os
import resource
import signal
import sys
import time

from . import algebra as al


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class Recorder:
    def __init__(self, path, call_timeout=60, deadline=None):
        self.f = open(path + '.events', 'w')
        self.path = path
        self.grs = []          # [fam, m, N, c, q]
        self.n = 0
        self.calls = 0
        self.skipped = 0
        self.kinds = {}
        self.sample = []
        self.call_timeout = call_timeout
        self.t0 = time.time()
        self.deadline = deadline
        self.timeouts = 0
        self.models = []       # model-checking runs made while generating
        self.traces = 1
        self.slowest = 0.0
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGVTALRM, _alarm)

    # -- budget
    def over(self):
        if self.deadline and time.time() - self.t0 > self.deadline:
            self.skipped += 1
            return True
        return False

    # -- varieties
    def gr(self, fam, m, N, c=False, q=False):
        for i, g in enumerate(self.grs):
            if g[:3] == [fam, m, N]:
                g[3] = g[3] or c
                g[4] = g[4] or q
                return i + 1
        self.grs.append([fam, m, N, c, q])
        return len(self.grs)

    # -- calls
    def call(self, fn, *args, **kw):
        """(value, None) or (None, record of the failure)"""
        self.calls += 1
        if self.timeouts >= 5:
            return None, {"kind": "timeout"}
        # processor time, so that a busy machine makes no difference; a call
        # that hangs without using any is ended by the clock
        signal.setitimer(signal.ITIMER_VIRTUAL, self.call_timeout)
        signal.setitimer(signal.ITIMER_REAL, 5 * self.call_timeout)
        t0 = time.process_time()
        try:
            with contextlib.redirect_stdout(io.StringIO()) as out:
                v = fn(*args, **kw)
            self.stdout = out.getvalue()
            return v, None
        except CallTimeout:
            self.timeouts += 1
            return None, {"kind": "timeout"}
        except Exception as e:
            return None, {"kind": "exc", "t": base_name(e), "text": str(e)[:200]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            self.slowest = max(self.slowest, time.process_time() - t0)

    def poly(self, fn, *args, **kw):
        """Call and observe a ring element / polynomial."""
        v, bad = self.call(fn, *args, **kw)
        return (bad or observe(v)), v

    def emit(self, op, **kw):
        kw["op"] = op
        self.kinds[op] = self.kinds.get(op, 0) + 1
        line = json.dumps(kw, separators=(',', ':'))
        self.f.write(line + '\n')
        self.n += 1
        if len(self.sample) < 2 or (self.n & (self.n - 1)) == 0 and len(self.sample) < 12:
            if len(line) < 3000:
                self.sample.append(json.loads(line))

    def close(self):
        self.f.close()
        with open(self.path, 'w') as out:
            out.write(json.dumps({"op": "header", "grs": [
                {"fam": g[0], "m": g[1], "N": g[2], "c": g[3], "q": g[4]} for g in self.grs]}) + '\n')
            with open(self.path + '.events') as src:
                for line in src:
                    out.write(line)
        os.unlink(self.path + '.events')
        with open(self.path + '.stats', 'w') as out:
            json.dump({"events": self.n, "calls": self.calls, "kinds": self.kinds, "skipped": self.skipped,
                       "wall": time.time() - self.t0, "slowest_call": self.slowest, "sample": self.sample,
                       "models": self.models, "traces": self.traces,
                       "grs": [g[:3] for g in self.grs]}, out)


def base_name(e):
    """The built-in exception class a caller would catch."""
    for c in type(e).__mro__:
        if c.__module__ == 'builtins':
            return c.__name__
    return type(e).__name__


def observe(v):
    """Record of a value that should denote a polynomial in Schubert symbols.
    A LinearCombination is read twice: its expression and its printed form must
    denote the same polynomial."""
    from schubertpy import LinearCombination, Schur
    import sympy as sp
    try:
        if isinstance(v, Schur):
            return al.record(al.p_sym(v.p))
        if isinstance(v, LinearCombination):
            p = al.walk(v.expr)
            t = al.read_text(str(v))
            if p != t:
                return {"kind": "bad", "text": "expression %s prints as %s" % (p, v)}
            return al.record(p)
        if isinstance(v, (sp.Expr, int)) and not isinstance(v, bool):
            return al.record(al.walk(v))
    except al.NotPolynomial as e:
        return {"kind": "odd", "text": str(e)[:300]}
    except CallTimeout:
        raise
    except Exception as e:
        return {"kind": "odd", "text": "%s: %s" % (type(e).__name__, str(e)[:300])}
    return {"kind": "odd", "text": "%s %r" % (type(v).__name__, str(v)[:200])}


def setup_process(hash_seed=None, mem_gb=4):
    sys.path.insert(0, os.environ.get('SCHUBERT_REPO', '/repo'))
    sys.dont_write_bytecode = True
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    import schubertpy
    return schubertpy
