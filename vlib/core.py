"""Property registration, assertion helpers and counters shared by every check."""
import hashlib
import json
import traceback

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Subtest:
    def __init__(self, name, strategy, fn, quick, thorough, shards):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.shards = quick, thorough, shards


class Check:
    """One property: a rule text plus a list of generated subtests."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.subtests = []

    def sub(self, strategy, quick=50, thorough=None, shards=1):
        def deco(fn):
            self.subtests.append(Subtest(fn.__name__, strategy, fn, quick,
                                         thorough or quick * 10, shards))
            return fn
        return deco


class Ctx:
    """Per-worker counters; a case is a JSON value called `spec`."""

    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.known = {}
        self._spec = None
        self.recording = True

    def start(self, spec):
        self._spec = spec
        self.evals += 1

    def nontriv(self, cond=True):
        """Mark the present case non-trivial (by the check's stated rule)."""
        if cond:
            s = json.dumps(self._spec, sort_keys=True, default=str)
            h = hashlib.md5(s.encode()).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    self.samples.append(s[:1500])

    def count(self, name, cond=True):
        if cond:
            self.classes[name] = self.classes.get(name, 0) + 1


def sut(fn, *a, **k):
    """Call the code under test: on a valid input any exception breaks the property."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        loc = next(("%s:%d" % (f.filename, f.lineno) for f in reversed(tb)
                    if "/emc2/" in f.filename), "?")
        raise Violation("valid input made %s raise %s: %s (at %s)" % (
            getattr(fn, "__name__", fn), type(e).__name__, str(e)[:300], loc)) from e


class timeout:
    """Bound a call that might never end; ending it is the violation (bound far above its cost)."""

    def __init__(self, seconds, what):
        self.s, self.what = seconds, what

    def _fire(self, *a):
        raise Violation("%s did not finish within %d s" % (self.what, self.s))

    def __enter__(self):
        import signal
        self.old = signal.signal(signal.SIGALRM, self._fire)
        self.outer = signal.alarm(self.s)

    def __exit__(self, *a):
        import signal
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if self.outer:      # re-arm an enclosing timeout
            signal.alarm(self.outer)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(got, exp, what, rtol=1e-6, atol=0., nan_ok=True):
    """Elementwise agreement, NaN positions included."""
    got = np.asarray(got, dtype=float)
    exp = np.asarray(exp, dtype=float)
    if got.shape != exp.shape:
        try:
            exp = np.broadcast_to(exp, got.shape)
        except ValueError:
            raise Violation("%s: shape %s, expected %s" % (what, got.shape, exp.shape))
    with np.errstate(all="ignore"):
        ok = np.isclose(got, exp, rtol=rtol, atol=atol, equal_nan=nan_ok)
    if not np.all(ok):
        idx = tuple(int(i) for i in np.argwhere(~ok)[0]) if got.ndim else ()
        raise Violation("%s: at %s got %r, expected %r (%d of %d cells differ)" % (
            what, idx, float(got[idx]), float(exp[idx]), int(np.sum(~ok)), got.size))


def equal(got, exp, what):
    got, exp = np.asarray(got), np.asarray(exp)
    require(got.shape == exp.shape, "%s: shape %s, expected %s", what, got.shape, exp.shape)
    bad = got != exp
    if got.dtype.kind == "f" and exp.dtype.kind == "f":
        bad &= ~(np.isnan(got) & np.isnan(exp))
    if np.any(bad):
        idx = tuple(int(i) for i in np.argwhere(bad)[0])
        raise Violation("%s: at %s got %r, expected %r (%d of %d cells differ)" % (
            what, idx, got[idx], exp[idx], int(np.sum(bad)), got.size))


def same_dataset(got, exp, what, rtol=1e-9, atol=0., ignore=()):
    """Same variables with the same dims and values."""
    g, e = set(got.variables) - set(ignore), set(exp.variables) - set(ignore)
    require(g == e, "%s: variables differ: only-got %s only-expected %s", what,
            sorted(map(str, g - e)), sorted(map(str, e - g)))
    for v in sorted(map(str, g)):
        require(got[v].dims == exp[v].dims, "%s: %s dims %s vs %s", what, v, got[v].dims, exp[v].dims)
        a, b = got[v].values, exp[v].values
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            close(a, b, "%s: %s" % (what, v), rtol=rtol, atol=atol)
        else:
            equal(a, b, "%s: %s" % (what, v))


SI = {"p_diam": "m", "p_diam_eq_A": "m", "p_diam_eq_V": "m", "p_diam_eq_VdivA": "m", "V": "m3", "A": "m2", "beta_p": "m2", "scat_p": "m2",
      "alpha_p": "m2", "beta_p_cross": "m2"}
NAMED = {"alpha_p": ("extinction", "back"), "beta_p": ("back", "extinction"), "scat_p": ("scattering", "extinction"), "ext_eff": ("extinction", "back"),
         "backscat_eff": ("back", "extinction"), "Q_ext": ("extinction", "back"), "Q_back": ("back", "extinction")}


def labelled(ds):
    """Labels of a scattering table: the unit is the one of the values (SI), and extinction and backscatter are not mixed up."""
    for v in ds.variables:
        u = str(ds[v].attrs.get("units", "")).lower()
        if v in SI and u:
            u = u.replace("meters", "m").replace("metres", "m").replace("^", "").replace("**", "").strip("$ ")
            require(u == SI[v], "%s holds values in %s but is labelled %s", v, SI[v], ds[v].attrs["units"])
        n = str(ds[v].attrs.get("long_name", "")).lower()
        if v in NAMED and n:
            require(NAMED[v][0] in n and NAMED[v][1] not in n, "%s is called %s", v, n)
