"""The tape engine for program-level properties (the Rust one is rs/vpbt.rs).

A case is a pure function of a tape of bounded choices. While generating, the choices come
from a PRNG seeded with (VERIF_SEED, property, index) and are recorded; a failing case is
shrunk by editing the recorded tape; the shrunk tape is the replay file. Zero is always the
simplest choice."""
import hashlib
import time

from . import core

M = (1 << 64) - 1


class Tape:
    def __init__(self, seed=None, data=None):
        self.state = seed
        self.data = [] if data is None else list(data)
        self.pos = 0

    def draw(self, n):
        assert n > 0
        if self.state is not None:
            self.state = (self.state + 0x9E3779B97F4A7C15) & M
            z = self.state
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
            z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
            v = (z ^ (z >> 31)) % n
            self.data.append(v)
        else:
            v = min(self.data[self.pos] if self.pos < len(self.data) else 0, n - 1)
        self.pos += 1
        return v

    def range(self, lo, hi):
        """lo..hi inclusive; the simplest is the value closest to zero (or lo)."""
        if lo <= 0 <= hi:
            k = self.draw(hi - lo + 1)
            return k if k <= hi else hi - k
        return lo + self.draw(hi - lo + 1)

    def pick(self, xs):
        return xs[self.draw(len(xs))]

    def chance(self, num, den):
        """True with probability num/den (false is simpler)."""
        return self.draw(den) >= den - num

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def subset(self, xs, num=1, den=2):
        return [x for x in xs if self.chance(num, den)]


def case_seed(name, i):
    return int(hashlib.sha1(f"{core.SEED}:{name}:{i}".encode()).hexdigest()[:16], 16)


def shrink(data, fails, budget, until=float("inf")):
    """Deletes, zeroes and halves choices as long as `fails` (which takes a list of
    candidate tapes and says for each whether it still fails) says so."""
    best = list(data)
    while best and best[-1] == 0:
        best.pop()
    left = [budget]

    def attempt(cands):
        nonlocal best
        if time.time() > until:
            left[0] = 0
        cands = [c for c in cands if c != best][: max(0, left[0])]
        if not cands:
            return False
        left[0] -= len(cands)
        for c, f in zip(cands, fails(cands)):
            if f:
                best = c
                return True
        return False

    improved = True
    while improved and left[0] > 0:
        improved = False
        block = max(1, len(best) // 2)
        while block >= 1 and left[0] > 0:
            i = 0
            while i < len(best) and left[0] > 0:
                cands = [best[:k] + best[k + block:] for k in range(i, min(len(best), i + 8 * block), block)]
                cands += [best[:k] + [0] * len(best[k:k + block]) + best[k + block:] for k in range(i, min(len(best), i + 8 * block), block) if any(best[k:k + block])]
                cands.sort(key=lambda c: (len(c), sum(c)))
                if attempt(cands):
                    improved = True
                else:
                    i += 8 * block
            block //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 1 and left[0] > 0:
                if attempt([best[:i] + [v] + best[i + 1:] for v in sorted({1, best[i] // 4, best[i] // 2, best[i] - 1})]):
                    improved = True
    while best and best[-1] == 0:
        best.pop()
    return best


def run(rep, name, n, gen, evaluate, budget=80, limit=3, rule_nontrivial=None):
    """Generates n cases (gen: Tape -> case), evaluates them together (evaluate: cases ->
    for each None or (signature, message)), and shrinks and reports failures.
    A case has .desc, .nontrivial and .cls."""
    # (where something does not finish, what there is is reported in time)
    hurry = rep.t0 + core.scale(240, 6000)
    known = dict(rep.known())
    if time.time() > hurry + 120 and any(f["signature"] not in known for f in rep.failures):
        return
    tapes = [Tape(case_seed(name, i)) for i in range(n)]
    cases = [gen(t) for t in tapes]
    for i, c in enumerate(cases):
        rep.case(c.desc, c.nontrivial, c.cls, sample=i % max(1, n // 12) == 0)
    results = evaluate(cases)
    reported = {}
    for t, c, r in zip(tapes, cases, results):
        if r is None:
            continue
        sig, msg = r
        key = sig.split("|")[0]
        reported.setdefault(key, [])
        if len(reported[key]) >= 1 or len(reported) > limit:
            continue
        reported[key].append(c)

        def fails(cands):
            return [x is not None and x[0].split("|")[0] == key for x in evaluate([gen(Tape(data=d)) for d in cands])]

        best = shrink(t.data[: t.pos], fails, budget, hurry)
        small = gen(Tape(data=best))
        r2 = evaluate([small])[0] if time.time() < hurry else None
        if r2 is None:
            small, r2, best = c, r, t.data
        rep.fail(r2[0], r2[1], small.desc, kind="tape", part=name, tape=",".join(map(str, best)))


class Case:
    nontrivial = True
    cls = None
    desc = ""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def replay(f, gen, evaluate):
    data = [int(x) for x in f["tape"].split(",") if x]
    c = gen(Tape(data=data))
    r = evaluate([c])[0]
    print(c.desc)
    print("fail: %s\n%s" % r if r else "pass")
    return 1 if r else 0
