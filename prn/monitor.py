"""Monitor: counts what was observed, raises on violation."""
import hashlib
import math
from fractions import Fraction


class Violation(Exception):
    pass


class Monitor:
    def __init__(self, known_keys=()):
        self.events = {}        # kind -> number of observed events
        self.checks = 0         # assertions evaluated by the oracle
        self.sigs = set()       # digests of distinct non-trivial cases
        self.samples = []
        self.known_keys = set(known_keys)
        self.known_hits = {}
        self.case_sig = None
        self.trail = []

    # --- observation -------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def log(self, *a):
        """history of the current case, shown with a violation"""
        if len(self.trail) < 400:
            self.trail.append(" ".join(str(x) for x in a))

    def nontrivial(self, *sig):
        """mark the current case as non-trivial, with the signature that makes it distinct"""
        self.sigs.add(hashlib.blake2b(repr(sig).encode("utf-8", "replace"), digest_size=8).hexdigest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(str(obj)[:1500])

    # --- oracle --------------------------------------------------------
    def fail(self, msg):
        raise Violation(str(msg)[:4000])

    def ok(self, cond, *msg):
        self.checks += 1
        if not cond:
            self.fail(" ".join(str(m() if callable(m) else m) for m in msg) or "condition false")

    def eq(self, got, want, what=""):
        self.checks += 1
        if not (got == want):
            self.fail(f"{what() if callable(what) else what}: got {got!r}, expected {want!r}")

    def close(self, got, want, what="", tol=1e-9):
        """got float vs exact Fraction/number"""
        self.checks += 1
        if isinstance(got, bool) or not isinstance(got, (int, float, Fraction)):
            self.fail(f"{what}: got non-number {got!r}, expected {float(want)!r}")
        g, w = Fraction(got) if math.isfinite(got) else None, Fraction(want)
        if g is None or abs(g - w) > max(Fraction(tol) * abs(w), Fraction(1, 10**300)) and abs(g - w) > Fraction(1, 10**15):
            self.fail(f"{what}: got {got!r}, expected {float(w)!r} ({w})" if w.denominator < 10**12 else f"{what}: got {got!r}, expected {float(w)!r}")

    def accepted(self, res, what):
        ok, v = res
        self.checks += 1
        if not ok:
            self.fail(f"{what() if callable(what) else what}: must succeed but raised {type(v).__name__}: {str(v)[:600]}")
        return v

    def refused(self, res, what):
        ok, v = res
        self.checks += 1
        if ok:
            self.fail(f"{what() if callable(what) else what}: must be refused but returned {str(v)[:600]}")
        self.event("refused")
        return v

    def known(self, key, detail):
        """a violation identified as the listed known finding `key`"""
        if key in self.known_keys:
            self.known_hits[key] = str(detail)[:500]
            return True
        self.fail(f"[{key}] {detail}")
