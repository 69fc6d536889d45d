"""Constant propagation through value terms.

A difference that the algebra of terms leaves open (a truncating conversion, a product, a mask of a sum) is settled
by binding the quantities it depends on to constants, one after the other, and folding: when the condition folds to
true and the two terms to different constants, the difference is there.  Nothing is concluded when no such binding
is found.  The bytes that overlapping quantities share are kept consistent.
"""
import time
import terms as t
from terms import I, TRUE, FALSE, land, ite

BLOCK = {"unk", "call", "phi", "slice", "text", "popcount", "str", "vref", "ref", "closure", "iter", "quo", "mod", "shr",
         "bitxor", "size", "seqsize", "len"}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}
SIZES = (0, 1, 2, 3, 255, 256, 257, 0x7fff, 0x8000, 0xffff)
LIMIT = 8
WIDTHS = (4, 40)        # few constants for each quantity first


class Found(Exception):
    pass


class Blocked(Exception):
    """Not with these constants."""


class Exhausted(Exception):
    pass


def quantity(x):
    """Is x something that a constant can be bound to?"""
    if x.op == "rd":
        return x.a[0] in WIDTH
    if x.op in ("prm", "fld", "idx"):
        return x.a[-1] in t.INTR and x.a[-1] != "f64"
    if x.op == "len":
        return x.a[0].op in ("prm", "fld")
    return x.op in ("pos", "ix")


def ready(x):
    """Is everything settled that x depends on?"""
    return not any(quantity(z) and z is not x for z in t.subterms(x))


def expand(x):
    """Searches and sums over a few elements spelled out."""
    m = {}
    for z in t.subterms(x):
        if z.op in ("first", "sum", "flat", "most") and z.a[0].op == "int" and not t.has_bv(z):
            n = z.a[0].a[0]
            if n > LIMIT:
                raise Blocked()
            b = t.bv(z.h)
            es = [t.subst(z.a[1], {b: I(i)}) for i in range(n)]
            if z.op == "first":
                r = I(n)
                for i in range(n - 1, -1, -1):
                    r = ite(es[i], I(i), r)
            else:
                r = I(0)
                for e in es:
                    r = t.add(r, e)
            if z.op in ("flat", "most"):
                b = t.fresh_ix()
                r = getattr(t, z.op)(z.a[0], b, t.subst(z.a[1], {t.bv(z.h): b}))
            m[z] = r
    return t.subst(x, m) if m else x


class Search:
    def __init__(self, budget, seconds, width):
        self.left, self.until, self.width = budget, time.time() + seconds, width

    def candidates(self, x, ts):
        lo, hi = t.rng(x)
        vs = []

        def put(v):
            v = int(v)
            if lo <= v <= hi and v not in vs:
                vs.append(v)
        if x.op == "pos":
            return [1000]
        if x.op == "prm" and x.a[-1] == "u64":
            return [500, 0]
        own, other, far = [], [], []
        for p in ts:
            zs = t.subterms(p)
            compared = {y for z in zs if z.op in ("gt0", "eq") for y in z.a}
            for z in zs:
                if z.op == "lin" and x in z.a:
                    c = z.a[0]
                    k = z.a[z.a.index(x) - 1]
                    (own if z in compared else far).extend([-c // k, -c // k + 1, -c // k - 1])
                    if len(z.a) > 3:
                        other += [-(c + 65535) // k]
                elif z.op == "eq" and z.a[0] is x and z.a[1].op == "int":
                    own.append(z.a[1].a[0])
                elif z.op in ("and", "and_shr") and z.a[0] is x and z.a[1].op == "int":
                    own += [z.a[1].a[0], z.a[1].a[0] & -z.a[1].a[0]]
                    own += [1 << k for k in range(16) if z.a[1].a[0] >> k & 1][:8]
                elif z.op == "cast" and z.a[0] in t.INTR and x in t.subterms(z.a[1]):
                    n = t.INTR[z.a[0]][1] + 1
                    other += [n, n + 1, n - 1, n + 2, n + 6]
        if x.op == "ix":
            for v in range(3):
                put(v)
        if any(z.op in t.BINDERS and z.a[0] is x for p in ts for z in t.subterms(p)):
            for v in (2, 1, 3):
                put(v)
        for v in own[:16]:
            put(v)
        for v in sorted(own)[:6]:
            for w in (256, 0x8000, 1 << 16):
                put(v + w)
        for v in other[:24]:
            put(v)
        for v in SIZES:
            put(v)
        for v in far[:12]:
            put(v)
        if hi != t.INF:
            put(hi)
        if lo != -t.INF:
            put(lo)
        return vs[:self.width]

    def go(self, p, x, y, mem, bound):
        self.left -= 1
        if self.left < 0 or time.time() > self.until:
            raise Exhausted()
        p = expand(p)
        if p is FALSE:
            return
        x, y = expand(x), expand(y)
        q = self.choose(p)
        if q is None:
            if p is not TRUE:
                return
            if x is y:
                return
            if x.op == y.op == "agg" and x.a[0] == y.a[0] and x.a[1] != y.a[1]:
                raise Found(bound)
            for z in (x, y):
                q = q or self.choose(z)
            if q is None:
                if x.op == y.op == "int" or x.op == y.op == "bool" or x.op == y.op == "agg" and x.a[:2] != y.a[:2]:
                    raise Found(bound)
                if x.op == y.op == "rd" and x.a[0] == y.a[0] and x.a[1].op == y.a[1].op == "int":
                    raise Found(bound)
                if {x.op, y.op} <= {"agg", "rd", "int", "bool", "cat", "seq"} and x.op != y.op and "agg" in (x.op, y.op) \
                        and "rd" not in (x.op, y.op):
                    raise Found(bound)
                return
        if q.op == "ok":
            for v in (True, False):
                self.go(t.restrict(p, q, v), t.restrict(x, q, v), t.restrict(y, q, v), mem, bound)
            return
        vs = self.candidates(q, (p, x, y))
        w = None
        if q.op == "rd":
            w = WIDTH[q.a[0]]
            if q.a[1].op != "int":
                return
            at = q.a[1].a[0]
            known = [mem.get(at + i) for i in range(w)]
            signed = q.a[0][0] == "i"
            if all(b is not None for b in known):
                vs = [int.from_bytes(bytes(known), "big", signed=signed)]
            elif any(b is not None for b in known):
                keep = [v for v in vs if all(b is None or b == c for b, c in zip(known, v.to_bytes(w, "big", signed=signed)))]
                vs = keep or [int.from_bytes(bytes(b or 0 for b in known), "big", signed=signed)]
        for v in vs:
            m = mem
            if w is not None:
                m = dict(mem)
                for i, b in enumerate(v.to_bytes(w, "big", signed=q.a[0][0] == "i")):
                    m[q.a[1].a[0] + i] = b
            s = {q: I(v)}
            p2 = t.subst(p, s)
            if p2 is FALSE:
                continue
            try:
                self.go(p2, t.subst(x, s), t.subst(y, s), m, bound + ((q, v),))
            except Blocked:
                pass

    def choose(self, p):
        """The next quantity: one that the first condition depends on."""
        c = p
        while c.op == "ite":
            c = c.a[0]
            break
        for root in (c, p):
            best = None
            for z in t.subterms(root):
                if z.op in BLOCK and z.op not in ("seqsize", "size", "len"):
                    raise Blocked()
                if z.op in ("size", "seqsize") or z.op == "len" and not quantity(z):
                    raise Blocked()
                if t.has_bv(z):
                    continue
                if (z.op == "ok" or quantity(z)) and ready(z) and (best is None or (z.op != "pos", z.id) < (best.op != "pos", best.id)):
                    best = z
            if best is not None:
                return best
        return None


def bytewise(v):
    """v with comparisons of tags as comparisons of their bytes."""
    m = {}
    for c in t.subterms(v):
        if c.op == "eq" and t.type_of(c.a[0]) == "Tag" and t.type_of(c.a[1]) == "Tag":
            r = TRUE
            for i in range(4):
                r = land(r, t.eq(t.index(c.a[0], I(i)), t.index(c.a[1], I(i))))
            m[c] = r
    return t.subst(v, m) if m else v


def find(p, x, y, budget=400, seconds=15):
    """Constants under which p holds and x and y differ: {quantity: value}, or None."""
    if p.unk or x.unk or y.unk:
        return None
    if sizes is not None:
        p, x, y = sizes(p), sizes(x), sizes(y)
    p, x, y = bytewise(p), bytewise(x), bytewise(y)
    key = (p, x, y)
    if key in _memo:
        return _memo[key]
    m = {}
    for r in (p, x, y):
        for z in t.subterms(r):
            if z.op == "any" and z not in m:
                m[z] = t.fresh_ix()
    q, u, v = p, x, y
    if m:
        for z, ix in m.items():
            q = land(q, t.lt(ix, z.a[0]))
        q, u, v = t.subst(q, m), t.subst(u, m), t.subst(v, m)
    r = None
    for width in WIDTHS:
        try:
            Search(budget, seconds, width).go(q, u, v, {}, ())
        except Found as e:
            r = e.args[0]
            break
        except (Blocked, Exhausted, RecursionError, OverflowError, ZeroDivisionError):
            pass
    _memo[key] = r
    return r


_memo = {}
sizes = None        # spells out the sizes of nested encodings


def text(r):
    return ", ".join("%s = %d" % (t.show(q), v) for q, v in r[:8])
