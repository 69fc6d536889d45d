"""Hash-consed value terms with canonical constructors.

A term denotes what is known statically about a value: a constant, a value decoded from the tape at a given
abstract address, a sequence of those, an aggregate, a gated choice.  Boolean terms are reduced ordered decision
diagrams over atomic predicates.  Constructors normalise, so that two computations of the same quantity (an
array read at once or element by element, `x > 0` or `x != 0`, a field taken from a header or read from its
place) give the same object.
"""
import math
import sys
sys.setrecursionlimit(1000000)

_table = {}
_next = [0]


class T:
    __slots__ = ("op", "a", "id", "fv", "h", "atoms_", "unk")

    def __repr__(self):
        return show(self)

    def __hash__(self):         # and not the address: sets are to be in the same order in every run
        return self.id


def mk(op, *a):
    key = (op,) + tuple(x.id + 0.5 if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        t.atoms_ = None
        # free symbols (loop indices and loop-carried values), binder height, presence of unknowns
        fv = None
        h = 0
        unk = op == "unk"
        if op in ("ix", "phi"):
            fv = frozenset([t])
        for x in a:
            if isinstance(x, T):
                if x.fv:
                    fv = x.fv if fv is None else fv | x.fv
                if x.h > h:
                    h = x.h
                unk = unk or x.unk
        if op in BINDERS:
            h += 1
        t.fv = fv or frozenset()
        t.h = h
        t.unk = unk
        _table[key] = t
    return t


BINDERS = ("map", "forall", "sum", "first", "flat", "most")

TRUE = None
FALSE = None
DC = None       # unreachable: any value will do
NONE = None


def init():
    global TRUE, FALSE, DC, NONE, UNIT
    TRUE = mk("bool", True)
    FALSE = mk("bool", False)
    DC = mk("dc")
    NONE = mk("none")
    UNIT = mk("agg", "tuple", 0)


init()


class Env:
    """What the constructors need to know about types (filled in by the analysis of one dump)."""
    fixed = {}          # type name -> encoded size
    expand_field = None     # (rd term, variant, field index) -> term or None
    expand_discr = None     # (rd term) -> term or None
    ranges = None
    size_of = None


env = Env()


def I(n):
    return mk("int", int(n))


def B(b):
    return TRUE if b else FALSE


def S(s):
    return mk("str", s)


_unk = [0]
unknowns = []


def unk(why):
    _unk[0] += 1
    unknowns.append(why)
    return mk("unk", _unk[0], why)


def agg(name, variant, *fs):
    for f in fs:
        if f is DC:
            return DC
    return mk("agg", name, variant, *fs)


def tup(*fs):
    return agg("tuple", 0, *fs)


def some(x):
    return agg("Option", 1, x)


def none():
    return agg("Option", 0)


def ok(x):
    return agg("Result", 0, x)


def err(x):
    return agg("Result", 1, x)


# ---------------------------------------------------------------- decision diagrams

def is_bool_leaf(t):
    return t.op == "bool"


def top(t):
    return t.a[0] if t.op == "ite" else None




def clear_memo():
    _restrict_memo.clear()
    _ite_memo.clear()
    _subst_memo.clear()


_restrict_memo = {}
_ite_memo = {}


def restrict(t, atom, val):
    """t under the assumption that the atom has the value val."""
    if cur[0] is not None:
        return restrict_(t, atom, val)
    k = (t, atom, val)
    r = _restrict_memo.get(k)
    if r is None:
        r = _restrict_memo[k] = restrict_(t, atom, val)
    return r


def restrict_(t, atom, val):
    if t.op in ("int", "bool", "str", "dc", "none", "pos", "ix", "bv", "prm", "unk", "phi") and t is not atom:
        if t.op == "unk" or not (val and atom.op == "eq" and t is atom.a[0]):
            return t
    m = {}
    eqx = eqv = None
    if atom.op == "eq" and val and atom.a[1].op in ("int",) and atom.a[0].op not in ("lin", "unk"):
        eqx, eqv = atom.a
    return _restrict(t, atom, B(val), eqx, eqv, m)


_syms = {}
NOSYM = ("ite", "agg", "lin", "mul", "cat", "one", "int", "bool", "none", "dc", "str", "map", "seq", "vref", "ref")


def syms(t):
    """The subterms that an equation can replace."""
    r = _syms.get(t)
    if r is None:
        s = set()
        for x in t.a:
            if isinstance(x, T):
                s |= syms(x)
        if t.op not in NOSYM:
            s.add(t)
        r = _syms[t] = frozenset(s)
    return r


def _restrict(t, atom, val, eqx, eqv, m):
    if t is atom:
        return val
    if t is eqx:
        return eqv
    if atom not in (atoms(t) if not has_bv(atom) else conds(t)) and (eqx is None or eqx not in syms(t)):
        return t
    r = m.get(t)
    if r is not None:
        return r
    if eqx is not None and t.op == "ite":
        # conditions keep their form unless they are settled: both alternatives go on to share them
        c = _restrict(t.a[0], atom, val, eqx, eqv, m)
        if c is TRUE or c is FALSE:
            r = _restrict(t.a[1] if c is TRUE else t.a[2], atom, val, eqx, eqv, m)
        else:
            c = _restrict(t.a[0], atom, val, None, None, {})
            a = _restrict(t.a[1], atom, val, eqx, eqv, m)
            b = _restrict(t.a[2], atom, val, eqx, eqv, m)
            r = t if c is t.a[0] and a is t.a[1] and b is t.a[2] else ite(c, a, b)
        m[t] = r
        return r
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, T):
            y = _restrict(x, atom, val, eqx, eqv, m)
            if y is not x:
                ch = True
            na.append(y)
        else:
            na.append(x)
    r = rebuild(t, na) if ch else t
    m[t] = r
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is DC:
        return b
    if b is DC:
        return a
    if cur[0] is not None:
        return ite_(c, a, b)
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is None:
        r = _ite_memo[k] = ite_(c, a, b)
    return r


def ite_(c, a, b):
    if c is DC:
        return DC
    if c.op == "unk":
        return unk("choice on unknown: %s" % (c.a[1],)) if a is not b else a
    if c.op == "ite":
        v = c.a[0]
        return ite(v, ite(c.a[1], restrict(a, v, True), restrict(b, v, True)),
                   ite(c.a[2], restrict(a, v, False), restrict(b, v, False)))
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a.op in BOOLOPS:
        a = W(a)
    if b.op in BOOLOPS:
        b = W(b)
    if a is b:
        return a
    if a is DC:
        return b
    if b is DC:
        return a
    va, vb = top(a), top(b)
    v = None
    if va is not None and va.id < c.id:
        v = va
    if vb is not None and vb.id < c.id and (v is None or vb.id < v.id):
        v = vb
    if v is not None:
        return ite(v, ite(c, restrict(a, v, True), restrict(b, v, True)),
                   ite(c, restrict(a, v, False), restrict(b, v, False)))
    if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a) and len(a.a) > 2:
        return mk("agg", a.a[0], a.a[1], *[ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op in ("cat", "seq", "map") and b.op in ("cat", "seq", "map"):
        pa, pb = parts(a), parts(b)
        k = 0
        while k < len(pa) and k < len(pb) and pa[k] is pb[k]:
            k += 1
        if len(pa) == len(pb) and k == len(pa) - 1 and pa[k].op == "one" and pb[k].op == "one":
            return cat(*(list(pa[:k]) + [mk("one", ite(c, pa[k].a[0], pb[k].a[0]))]))
    if c.op == "eq" and restrict(b, c, True) is a:
        return b
    return mk("ite", c, a, b)


BOOLOPS = ("eq", "gt0", "forall", "ok")


def W(c):
    """An atomic predicate as a decision diagram."""
    return mk("ite", c, TRUE, FALSE)


def lnot(c):
    return ite(c, FALSE, TRUE)


def land(a, b):
    return ite(a, b, FALSE)


def lor(a, b):
    return ite(a, TRUE, b)


def lift(f, *args):
    """Apply f to the leaves of the arguments (moves choices outwards)."""
    v = None
    for x in args:
        if isinstance(x, T):
            if x is DC:
                return DC
            if x.op == "ite" and (v is None or x.a[0].id < v.id):
                v = x.a[0]
    if v is None:
        return f(*args)
    t = lift(f, *[restrict(x, v, True) if isinstance(x, T) else x for x in args])
    e = lift(f, *[restrict(x, v, False) if isinstance(x, T) else x for x in args])
    return ite(v, t, e)


def leaves(t, out=None):
    out = [] if out is None else out
    if t.op == "ite":
        leaves(t.a[1], out)
        leaves(t.a[2], out)
    else:
        out.append(t)
    return out


# ---------------------------------------------------------------- ranges

INTR = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1),
        "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1)}
POSMAX = 2**61
INF = float("inf")
_rng = {}


def rng(t):
    if cur[0] is not None:
        return cur[0].rng(t)
    r = _rng.get(t)
    if r is None:
        r = _rng[t] = _range(t)
    return r


class Facts:
    """Intervals implied by a condition, for linear forms over atomic terms."""

    def __init__(self, pc):
        self.cache = {}
        f = _facts(pc, {})
        self.dead = f is None
        self.f = {}
        self.multi = []
        for k, (lo, hi, ex) in (f or {}).items():
            if len(k) == 1:
                l, h = _raw_rng(k[0][1])
                lo, hi = max(lo, l), min(hi, h)
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                self.dead = True
            if lo == -INF and hi == INF:
                continue
            self.f[k] = (lo, hi)
            if len(k) > 1:
                self.multi.append(k)

    def rng(self, t):
        r = self.cache.get(t)
        if r is None:
            self.cache[t] = _raw_rng(t)     # (not reentrant: terms are acyclic)
            s = cur[0]
            cur[0] = self
            try:
                r = self._go(t)
            finally:
                cur[0] = s
            self.cache[t] = r
        return r

    def _go(self, t):
        lo, hi = _range(t)
        if t.op == "lin":
            c, d = t.a[0], {t.a[i + 1]: t.a[i] for i in range(1, len(t.a), 2)}
            for k in self.multi:
                c0, t0 = k[0]
                if t0 not in d or d[t0] % c0:
                    continue
                m = d[t0] // c0
                if any(d.get(x) != m * q for q, x in k):
                    continue
                l, h = self.f[k]
                if m < 0:
                    l, h = h, l
                l, h = c + m * l, c + m * h
                for x, q in d.items():
                    if not any(x is y for _, y in k):
                        a, b = self.rng(x)
                        if q < 0:
                            a, b = b, a
                        l += q * a
                        h += q * b
                if l == l:
                    lo = max(lo, l)
                if h == h:
                    hi = min(hi, h)
            if any(x.op == "div" for x in d):
                # k * (x / k) lies between x - (k - 1) and x
                L = 1
                for x in d:
                    if x.op == "div":
                        L = L * x.a[1].a[0]
                for up in (False, True):
                    v = I(L * c)
                    for x, q in d.items():
                        if x.op == "div":
                            k = x.a[1].a[0]
                            y = x.a[0] if (q > 0) == up else sub(x.a[0], I(k - 1))
                            v = add(v, scale(y, L * q // k))
                        else:
                            v = add(v, scale(x, L * q))
                    l, h = (v.a[0], v.a[0]) if v.op == "int" else self.rng(v) if v.op == "lin" else (-INF, INF)
                    if up and h != INF:
                        hi = min(hi, h // L)
                    if not up and l != -INF:
                        lo = max(lo, _ceil(l, L))
            return lo, hi
        k = ((1, t),)
        if k in self.f:
            l, h = self.f[k]
            return max(lo, l), min(hi, h)
        return lo, hi


cur = [None]
_facts_memo = {}


def _raw_rng(t):
    s = cur[0]
    cur[0] = None
    try:
        return rng(t)
    finally:
        cur[0] = s


def facts_of(pc):
    r = _facts_memo.get(pc)
    if r is None:
        s = cur[0]
        cur[0] = None
        try:
            r = _facts_memo[pc] = Facts(pc)
        finally:
            cur[0] = s
    return r


def under(pc, f):
    """Run f with the ranges that pc implies."""
    if pc is TRUE or cur[0] is not None:
        return f()
    fs = facts_of(pc)
    if not fs.f:
        return f()
    cur[0] = fs
    try:
        return f()
    finally:
        cur[0] = None


def _key(c, d):
    """(key, sign and scale, constant): value = scale * key + constant"""
    from math import gcd
    ts = sorted(d.items(), key=lambda x: x[0].id)
    g = 0
    for _, q in ts:
        g = gcd(g, q)
    if ts[0][1] < 0:
        g = -g
    return tuple((q // g, x) for x, q in ts), g, c


def _atom_fact(atom, val):
    """{key: (lo, hi, excluded)} of one literal."""
    if atom.op == "gt0":
        x = atom.a[0]
        c, d = _lin(x)
        if not d:
            return {}
        k, g, c = _key(c, d)
        # g * K + c >= 1  or  <= 0
        if val:
            lo, hi = (_ceil(1 - c, g), INF) if g > 0 else (-INF, (c - 1) // -g)
        else:
            lo, hi = (-INF, (-c) // g) if g > 0 else (_ceil(c, -g), INF)
        return {k: (lo, hi, frozenset())}
    if atom.op == "eq":
        a, b = atom.a
        if b.op == "int" and (a.op == "lin" or rng(a) != (-INF, INF)):
            c, d = _lin(a)
            if not d:
                return {}
            k, g, c = _key(c - b.a[0], d)
            if c % g:
                return {}
            n = -c // g
            return {k: (n, n, frozenset())} if val else {k: (-INF, INF, frozenset([n]))}
    return {}


def _ceil(a, b):
    return -((-a) // b)


def _meet(f, g):
    r = dict(f)
    for k, (lo, hi, ex) in g.items():
        if k in r:
            l, h, e = r[k]
            lo, hi, ex = max(lo, l), min(hi, h), ex | e
        r[k] = (lo, hi, ex)
    return r


def _facts(pc, memo):
    if pc is FALSE:
        return None
    if pc.op != "ite":
        return {}
    r = memo.get(pc, memo)
    if r is not memo:
        return r
    c, a, b = pc.a
    fa, fb = _facts(a, memo), _facts(b, memo)
    if fa is not None:
        fa = _meet(fa, _atom_fact(c, True))
    if fb is not None:
        fb = _meet(fb, _atom_fact(c, False))
    if fa is None:
        r = fb
    elif fb is None:
        r = fa
    else:
        r = {}
        for k in fa:
            if k in fb:
                l, h, e = fa[k]
                l2, h2, e2 = fb[k]
                x = frozenset(v for v in e if v in e2 or not l2 <= v <= h2) | frozenset(v for v in e2 if not l <= v <= h)
                r[k] = (min(l, l2), max(h, h2), x)
    memo[pc] = r
    return r


def _range(t):
    op = t.op
    if op == "int":
        return (t.a[0], t.a[0])
    if op == "rd" or op == "prm" or op == "fld" or op == "idx" or op == "call":
        ty = t.a[-1] if op in ("prm", "fld", "idx", "call") else t.a[0]
        if op == "prm" and ty == "u64":
            return (0, POSMAX)      # the parameters of this type are positions
        return INTR.get(ty, (-INF, INF))
    if op == "len":
        return (0, 2**60)
    if op in ("size", "seqsize"):
        return (0, 2**56)
    if op == "pos":
        return (0, POSMAX)
    if op == "lin":
        lo = hi = t.a[0]
        for i in range(1, len(t.a), 2):
            c, x = t.a[i], t.a[i + 1]
            l, h = rng(x)
            if c < 0:
                l, h = h, l
            lo += c * l if l not in (INF, -INF) else (-INF)
            hi += c * h if h not in (INF, -INF) else INF
        return (lo, hi)
    if op == "mul":
        a, b = rng(t.a[0]), rng(t.a[1])
        if INF in a + b or -INF in a + b:
            return (0, INF) if a[0] >= 0 and b[0] >= 0 else (-INF, INF)
        ps = [x * y for x in a for y in b]
        return (min(ps), max(ps))
    if op == "div":
        a, k = rng(t.a[0]), t.a[1].a[0]
        if a[0] < 0:
            return (-INF, INF)
        return (a[0] // k, a[1] // k if a[1] != INF else INF)
    if op == "rem":
        a, k = rng(t.a[0]), t.a[1].a[0]
        if a[0] < 0:
            return (-k, k)
        return (0, min(k - 1, a[1]))
    if op == "and":
        return (0, t.a[1].a[0]) if t.a[1].op == "int" and t.a[1].a[0] >= 0 else (-INF, INF)
    if op == "pow2":
        a = rng(t.a[0])
        return (1 << a[0] if 0 <= a[0] < 200 else 1, 1 << a[1] if 0 <= a[1] < 200 else INF)
    if op in ("ix",):
        return (0, t.a[1])
    if op == "bv":
        return (0, 2**60)
    if op == "first":
        return (0, max(0, rng(t.a[0])[1] - 1))
    if op == "ite":
        a, b = rng(t.a[1]), rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "cast":
        return INTR.get(t.a[0], (-INF, INF))
    if op == "popcount":
        return (0, 64)
    if op == "case":
        return (0, 255)
    if op == "most":
        return rng(t.a[1])
    if op == "sum":
        n, b = rng(t.a[0]), rng(t.a[1])
        if b[0] >= 0 and n[1] != INF and b[1] != INF:
            return (0, n[1] * b[1])
    return (-INF, INF)


# ---------------------------------------------------------------- arithmetic

def _lin(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], {t.a[i + 1]: t.a[i] for i in range(1, len(t.a), 2)}
    return 0, {t: 1}


def _mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if len(d) > 1:
        d = joined(d)
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    a = [c]
    for k in sorted(d, key=lambda k: k.id):
        a += [d[k], k]
    return mk("lin", *a)


def joined(d):
    """The quotient and the remainder of a division by a power of two make up the dividend."""
    for x in d:
        if x.op == "and" and x.a[1].op == "int" and x.a[1].a[0] & (x.a[1].a[0] + 1) == 0:
            m = x.a[1].a[0] + 1
            q = next((y for y in d if y.op == "div" and y.a[0] is x.a[0] and y.a[1].op == "int" and y.a[1].a[0] == m), None)
            if q is not None and d[q] == m * d[x]:
                e = {y: v for y, v in d.items() if y is not x and y is not q}
                e[x.a[0]] = e.get(x.a[0], 0) + d[x]
                return {y: v for y, v in e.items() if v}
    return d


def _isnum(t):
    return t.op not in ("agg", "bool", "str", "ref", "vref", "cat", "seq", "map", "flat", "dc", "none", "iter")


def add(a, b):
    return lift(_add, a, b)


def _add(a, b):
    if a.op == "unk" or b.op == "unk":
        return a if a.op == "unk" else b
    ca, da = _lin(a)
    cb, db = _lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + v
    return _mklin(ca + cb, d)


def neg(a):
    return scale(a, -1)


def scale(a, k):
    def f(a):
        if a.op == "unk":
            return a
        c, d = _lin(a)
        return _mklin(c * k, {x: v * k for x, v in d.items()})
    return lift(f, a)


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    if a.op == "unk":
        return a
    if b.op == "unk":
        return b
    if a.op == "int":
        return scale(b, a.a[0])
    if b.op == "int":
        return scale(a, b.a[0])
    ca, da = _lin(a)
    cb, db = _lin(b)
    c = ca * cb
    d = {}
    for k, v in da.items():
        d[k] = d.get(k, 0) + v * cb
    for k, v in db.items():
        d[k] = d.get(k, 0) + v * ca
    for k, v in da.items():
        for l, w in db.items():
            p = _prod(k, l)
            d[p] = d.get(p, 0) + v * w
    return _mklin(c, d)


def _factors(t):
    return _factors(t.a[0]) + _factors(t.a[1]) if t.op == "mul" else [t]


def _prod(a, b):
    fs = sorted(_factors(a) + _factors(b), key=lambda x: x.id)
    r = fs[0]
    for f in fs[1:]:
        r = mk("mul", r, f)
    return r


def div(a, b):
    def f(a, b):
        if a.op == "unk" or b.op == "unk":
            return a if a.op == "unk" else b
        if b.op == "int" and b.a[0] > 0:
            k = b.a[0]
            if k == 1:
                return a
            if a.op == "int" and a.a[0] >= 0:
                return I(a.a[0] // k)
            lo, hi = rng(a)
            if lo >= 0 and hi != INF and lo // k == hi // k:
                return I(lo // k)
            if lo >= 0:
                c, d = _lin(a)
                # exact part: (k*q + r) / k = q + r / k when everything is non-negative
                q = {x: v // k for x, v in d.items()}
                r = {x: v % k for x, v in d.items()}
                qq = _mklin(c // k, q)
                rr = _mklin(c % k, r)
                if rng(rr)[0] >= 0 and (any(q.values()) or c // k):
                    if rr.op == "int":
                        return qq
                    return _add(qq, f(rr, b))
                # words side by side: (65536*m + r) / (65536*n) = m / n
                if k % 65536 == 0:
                    r = _mklin(c % 65536, {x: v for x, v in d.items() if v % 65536})
                    if r.op != "int" and 0 <= rng(r)[0] and rng(r)[1] < 65536:
                        return f(_mklin(c // 65536, {x: v // 65536 for x, v in d.items() if v % 65536 == 0}), I(k // 65536))
                # (g*m + c) / (g*n) = (m + c / g) / n for whole numbers
                g = math.gcd(k, *d.values())
                if g > 1:
                    return f(_mklin(c // g, {x: v // g for x, v in d.items()}), I(k // g))
            else:
                return mk("quo", a, b)
            if a.op == "div" and a.a[1].op == "int":
                return f(a.a[0], I(a.a[1].a[0] * k))
            return mk("div", a, b)
        return mk("quo", a, b)
    return lift(f, a, b)


def rem(a, b):
    def f(a, b):
        if a.op == "unk" or b.op == "unk":
            return a if a.op == "unk" else b
        if b.op == "int" and b.a[0] > 0 and rng(a)[0] >= 0:
            # a % k = a - k * (a / k)
            return sub(a, mul(b, div(a, b)))
        return mk("mod", a, b)
    return lift(f, a, b)


def pow2(b):
    def f(b):
        if b.op == "unk":
            return b
        if b.op == "int" and 0 <= b.a[0] < 256:
            return I(1 << b.a[0])
        c, d = _lin(b)
        if c > 0 and d:
            return scale(pow2(_mklin(0, d)), 1 << c)
        return mk("pow2", b)
    return lift(f, b)


def shl(a, b, ty=None):
    return mul(a, pow2(b))


def shr(a, b):
    def f(a, b):
        if b.op == "int" and a.op == "and" and a.a[1].op == "int":
            return mk("and_shr", a.a[0], a.a[1], b) if b.a[0] else a
        if b.op == "int":
            return div(a, I(1 << b.a[0]))
        return mk("shr", a, b)
    return lift(f, a, b)


def bits_of(t):
    lo, hi = rng(t)
    if lo < 0 or hi == INF:
        return None
    return (1 << int(hi).bit_length()) - 1


def band(a, b):
    def f(a, b):
        if a.op == "unk" or b.op == "unk":
            return a if a.op == "unk" else b
        if a.op == "int" and b.op == "int":
            return I(a.a[0] & b.a[0])
        if a.op == "int":
            a, b = b, a
        if b.op == "int":
            m = b.a[0]
            full = bits_of(a)
            if a.op == "lin":
                # words side by side
                c, d = _lin(a)
                lo = _mklin(c % 65536, {x: v for x, v in d.items() if v % 65536})
                hi = _mklin(c // 65536, {x: v // 65536 for x, v in d.items() if v % 65536 == 0})
                if hi is not I(0) and 0 <= rng(lo)[0] and rng(lo)[1] < 65536 and rng(hi)[0] >= 0:
                    return add(scale(f(hi, I(m >> 16)), 65536), f(lo, I(m & 0xffff)))
            if a.op == "and":
                return f(a.a[0], I(a.a[1].a[0] & m)) if a.a[1].op == "int" else mk("and", a, b)
            if a.op == "div" and a.a[1].op == "int" and (a.a[1].a[0] & (a.a[1].a[0] - 1)) == 0:
                # (x >> k) & m
                k = a.a[1].a[0].bit_length() - 1
                return f2(a.a[0], m, k)
            if a.op == "mul" or (a.op == "lin" and len(a.a) == 3 and a.a[0] == 0):
                pass
            if full is not None:
                m &= full
                if m == full and (full & (full + 1)) == 0 and rng(a)[1] <= full:
                    return a
            if m == 0:
                return I(0)
            return mk("and", a, I(m))
        x, y = sorted((a, b), key=lambda x: x.id)
        return mk("bitand", x, y)

    def f2(x, m, k):
        r = f(x, I(m << k))
        if r.op == "int":
            return I(r.a[0] >> k)
        return mk("and_shr", x, I(m << k if r is x else r.a[1].a[0]), I(k))
    return lift(f, a, b)


def bor(a, b):
    def f(a, b):
        if a.op == "unk" or b.op == "unk":
            return a if a.op == "unk" else b
        if a.op == "int" and b.op == "int":
            return I(a.a[0] | b.a[0])
        if a.op == "int" and a.a[0] == 0:
            return b
        if b.op == "int" and b.a[0] == 0:
            return a
        # disjoint bits: an addition (e.g. (hi << 8) | lo)
        for x, y in ((a, b), (b, a)):
            by = bits_of(y)
            if by is None:
                continue
            c, d = _lin(x)
            step = by + 1
            if all(v % step == 0 for v in d.values()) and c % step == 0:
                return _add(a, b)
        x, y = sorted((a, b), key=lambda x: x.id)
        return mk("bitor", x, y)
    return lift(f, a, b)


def bxor(a, b):
    def f(a, b):
        if a.op == "unk" or b.op == "unk":
            return a if a.op == "unk" else b
        if a.op == "int" and b.op == "int":
            return I(a.a[0] ^ b.a[0])
        x, y = sorted((a, b), key=lambda x: x.id)
        return mk("bitxor", x, y)
    return lift(f, a, b)


def cast(t, ty):
    """Integer conversion: identity when the value fits."""
    def f(t):
        if t.op in ("unk", "dc"):
            return t
        if t.op == "bool":
            return I(1 if t is TRUE else 0)
        lo, hi = rng(t)
        l, h = INTR[ty]
        if l <= lo and hi <= h:
            return t
        if t.op == "int":
            n = h - l + 1
            return I((t.a[0] - l) % n + l)
        if t.op == "lin" and l == 0 and lo >= 0:
            # what is a multiple of the modulus is lost
            c, d = _lin(t)
            r = _mklin(c % (h + 1), {x: v % (h + 1) for x, v in d.items() if v % (h + 1)})
            if r is not t and 0 <= rng(r)[0] and rng(r)[1] <= h:
                return r
        if t.op == "cast" and INTR.get(t.a[0]):
            l2, h2 = INTR[t.a[0]]
            if h2 - l2 >= h - l:
                return f(t.a[1])
        return mk("cast", ty, t)
    return lift(f, t)


# ---------------------------------------------------------------- predicates

def gt0(t):
    """t > 0"""
    def f(t):
        if t.op == "unk":
            return unk("comparison with unknown: %s" % (t.a[1],))
        if t.op in ("dc",):
            return DC
        m = [x for x in ((t,) if t.op == "most" else t.a[2::2] if t.op == "lin" else ()) if x.op == "most"]
        if len(m) == 1:
            # the greatest satisfies it: all do, or one does
            m = m[0]
            i = fresh_ix()
            c = gt0(subst(t, {m: subst(m.a[1], {bv(m.h): i})}))
            return forall(m.a[0], i, c) if _lin(t)[1][m] < 0 else lnot(forall(m.a[0], i, lnot(c)))
        lo, hi = rng(t)
        if lo > 0:
            return TRUE
        if hi <= 0:
            return FALSE
        if lo == 0:
            return lnot(eq0(t))
        if hi == 1 and lo >= 0:
            return eq0(sub(t, I(1)))
        c, d = _lin(t)
        q = [x for x in d if x.op == "div" and abs(d[x]) == 1]
        if len(q) == 1 and not any(x.op == "div" for x in d if x is not q[0]):
            # floor(a / m) >= n where a >= m * n
            q, = q
            a, m = q.a
            r = {x: v for x, v in d.items() if x is not q}
            if d[q] > 0:
                return gt0(add(sub(a, scale(_mklin(1 - c, {x: -v for x, v in r.items()}), m.a[0])), I(1)))
            return gt0(sub(scale(_mklin(c, r), m.a[0]), a))
        k = min(d, key=lambda k: k.id)
        if d[k] < 0:
            # not (1 - t > 0)
            u = sub(I(1), t)
            l2, h2 = rng(u)
            if l2 == 0:
                return eq0(u)
            return lnot(mk("gt0", u))
        if hi == 0:
            return FALSE
        u = sub(I(1), t)
        if rng(u)[0] == 0:
            return eq0(u)
        return W(mk("gt0", t))
    return lift(f, t)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return gt0(add(sub(b, a), I(1)))


def _case(k, to):
    c = chr(k)
    return ord(c.lower() if to == "lower" else c.upper()) if k < 128 and c.isalpha() else k


def case(x, to):
    """A byte in lower or upper case."""
    def f(x):
        if x.op == "unk":
            return x
        return I(_case(x.a[0], to)) if x.op == "int" else mk("case", x, to)
    return lift(f, x)


def eq0(t):
    def f(t):
        if t.op == "unk":
            return unk("comparison with unknown: %s" % (t.a[1],))
        if t.op == "int":
            return B(t.a[0] == 0)
        lo, hi = rng(t)
        if lo > 0 or hi < 0:
            return FALSE
        c, d = _lin(t)
        k = min(d, key=lambda k: k.id)
        if d[k] < 0:
            c = -c
            d = {x: -v for x, v in d.items()}
        if len(d) > 1 and all(0 <= rng(x)[0] and rng(x)[1] <= 65535 for x in d):
            r = digits(c, d)
            if r is not None:
                return r
        if len(d) == 1:
            (x, v), = d.items()
            if c % v:
                return FALSE
            n = -c // v
            if x.op == "rd" and x.a[0] == "u32" and 0 < n < 2**32:
                # a compound number: by halves
                return land(eq(rd("u16", x.a[1]), I(n >> 16)), eq(rd("u16", add(x.a[1], I(2))), I(n & 0xffff)))
            if x.a and isinstance(x.a[0], T) and x.a[0].op == "rd" and x.a[0].a[0] == "u32" and 0 <= n < 2**16:
                # a half of a compound number
                at = {("div", 65536): 0, ("and", 65535): 2}.get((x.op, x.a[1].a[0]) if len(x.a) == 2 and x.a[1].op == "int" else None)
                if x.op == "and_shr" and x.a[1].a[0] == 0xffff0000 and x.a[2].a[0] == 16:
                    at = 0
                if at is not None:
                    return eq(rd("u16", add(x.a[0].a[1], I(at))), I(n))
            if x.op == "div" and (n == 0 or v == 1 and rng(x.a[0])[1] < 2**20):
                a, m = x.a
                return land(gt0(add(sub(a, scale(I(n), m.a[0])), I(1))), gt0(sub(scale(I(n + 1), m.a[0]), a)))
            if x.op == "and" and x.a[1].op == "int":
                m = x.a[1].a[0]
                if n & ~m:
                    return FALSE
                if m & (m - 1) == 0 and n == m:
                    return lnot(mk("eq", x, I(0)))
                if n == 0 and m & (m - 1):
                    # no bit of the mask set: one condition per bit
                    r = TRUE
                    for i in range(m.bit_length()):
                        if m >> i & 1:
                            r = land(mk("eq", mk("and", x.a[0], I(1 << i)), I(0)), r) if False else land(r, mk("eq", mk("and", x.a[0], I(1 << i)), I(0)))
                    return r
            if x.op == "and_shr":
                s = x.a[2].a[0]
                if (n << s) & ~x.a[1].a[0]:
                    return FALSE
                return eq0(sub(mk("and", x.a[0], x.a[1]), I(n << s)))
            if x.op == "sum" and n == 0 and rng(x)[0] == 0:
                i = fresh_ix()
                return forall(x.a[0], i, eq0(subst(x.a[1], {bv(x.h): i})))
            if x.op == "case":
                ks = [k for k in (n, n ^ 32) if 0 <= k < 256 and _case(k, x.a[1]) == n]
                r = FALSE
                for k in ks:
                    r = lor(r, eq(x.a[0], I(k)))
                return r
            if x.op == "pow2":
                return eq0(sub(x.a[0], I(n.bit_length() - 1))) if n > 0 and n & (n - 1) == 0 else FALSE
            return W(mk("eq", x, I(n)))
        return W(mk("eq", _mklin(c, d), I(0)))
    return lift(f, t)


SCALARS = set(INTR)


def digits(c, d):
    """c + the bytes (words) of d at places of their own = 0: byte by byte, or None."""
    by = {}
    for x, v in d.items():
        by.setdefault(abs(v), {})[x] = 1 if v > 0 else -1
    if len(by) < 2:
        return None
    ks = sorted(by)
    low = 0
    for k in ks:
        if low >= k or len(by[k]) > 2 or len(by[k]) == 2 and sum(by[k].values()):
            return None
        low += max(rng(x)[1] for x in by[k]) * k
    r = TRUE
    if c == 0:
        for k in reversed(ks):
            r = land(r, eq0(_mklin(0, by[k])))
        return r
    if c > 0 or any(len(by[k]) > 1 or -1 in by[k].values() for k in ks):
        return None
    n = -c
    for k in reversed(ks):
        (x, _), = by[k].items()
        m = min(n // k, rng(x)[1] + 1)
        r = land(r, eq(x, I(m)))
        n -= m * k
    return r if n == 0 else FALSE


def eq(a, b):
    """Structural or numeric equality."""
    return lift(_eq, a, b)


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == "unk" or b.op == "unk":
        return unk("comparison with unknown")
    if a.op == "bool":
        return b if a is TRUE else lnot(b)
    if b.op == "bool":
        return a if b is TRUE else lnot(a)
    if a.op == "str" and b.op == "str":
        return B(a.a[0] == b.a[0])
    if a.op == "vref":
        return eq(a.a[0], b.a[0] if b.op == "vref" else b)
    if b.op == "vref":
        return eq(a, b.a[0])
    if a.op == "agg" and b.op == "agg":
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if len(a.a) == len(b.a):
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = land(r, eq(x, y))
            return r
    if a.op == "agg" and a.a[0] == "array" or b.op == "agg" and b.a[0] == "array":
        n = len(a.a) - 2 if a.op == "agg" else len(b.a) - 2
        r = TRUE
        for i in range(n):
            r = land(r, eq(index(a, I(i)), index(b, I(i))))
        return r
    if a.op == "slice" or b.op == "slice":
        n, m = length(a), length(b)
        if n.op == "int" and m.op == "int" and n.a[0] <= 8:
            r = B(n is m)
            for i in range(n.a[0] if n is m else 0):
                r = land(r, eq(index(a, I(i)), index(b, I(i))))
            return r
    if a.op == "agg" and len(a.a) == 3:
        return eq(a.a[2], field(b, None, 0, None))
    if b.op == "agg" and len(b.a) == 3:
        return eq(field(a, None, 0, None), b.a[2])
    if a.op in NUMERIC or b.op in NUMERIC or (rng(a) != (-INF, INF) and rng(b) != (-INF, INF)):
        return eq0(sub(a, b))
    x, y = sorted((a, b), key=lambda x: x.id)
    return W(mk("eq", x, y))


NUMERIC = {"int", "lin", "mul", "div", "rem", "and", "and_shr", "pow2", "cast", "len", "size", "seqsize", "pos",
           "ix", "first", "popcount", "quo", "mod", "sum", "most", "case"}


def forall(n, ixv, body):
    """body (a boolean over the index ixv) for every index below n."""
    def f(n):
        if n.op == "int":
            if n.a[0] == 0:
                return TRUE
            if n.a[0] <= 16:
                r = TRUE
                for i in range(n.a[0]):
                    r = land(r, subst(body, {ixv: I(i)}))
                return r
        return _forall(n, ixv, body)
    return lift(f, n)


def _forall(n, ixv, body):
    if body is TRUE:
        return TRUE
    if body.op == "ite":
        c, t, e = body.a
        if e is FALSE:
            return land(_forall(n, ixv, c), _forall(n, ixv, t))
        if t is FALSE and e is not TRUE:
            return land(_forall(n, ixv, lnot(c)), _forall(n, ixv, e))
    if ixv not in body.fv:
        return lor(eq0(n), body)
    if n in subterms(body):
        # counted from the end
        alt = subst(body, {ixv: sub(sub(n, I(1)), ixv)})
        if len(subterms(alt)) < len(subterms(body)):
            body = alt
    h = bv(body.h + 1)
    return W(mk("forall", n, subst(body, {ixv: h})))


def bv(h):
    return mk("bv", h)


def first(n, ixv, body):
    h = bv(body.h + 1)
    return mk("first", n, subst(body, {ixv: h}))


def summ(n, ixv, body):
    if ixv not in body.fv:
        return mul(n, body)
    h = bv(body.h + 1)
    return mk("sum", n, subst(body, {ixv: h}))


# ---------------------------------------------------------------- tape values and sequences

def fixed(ty):
    return env.fixed.get(ty)


HALVES = set()      # addresses where the specification has two words: a number there is a compound one


def halves(addrs):
    if HALVES != set(addrs):
        HALVES.clear()
        HALVES.update(addrs)
        clear_memo()


def rd(ty, addr, param=None):
    if HALVES and ty == "u32" and addr in HALVES:
        return add(scale(rd("u16", addr), 65536), rd("u16", add(addr, I(2))))
    if PINS:
        def f(a, p):
            r = mk("rd", ty, a, p)
            return PINS.get(r, r)
        return lift(f, addr, param or NONE)
    return lift(lambda a, p: mk("rd", ty, a, p), addr, param or NONE)


PINS = {}       # quantities on the tape assumed to be constants


def pin(m):
    PINS.clear()
    PINS.update(m)
    clear_memo()


def size(ty, addr, param=None):
    s = fixed(ty)
    if s is not None:
        return I(s)
    if env.size_of is not None:
        r = env.size_of(ty, addr, param or NONE)
        if r is not None:
            return r
    return lift(lambda a, p: mk("size", ty, a, p), addr, param or NONE)


def seqsize(ty, addr, n, param=None):
    s = fixed(ty)
    if s is not None:
        return scale(n, s)
    if env.size_of is not None:
        r = env.size_of(ty, addr, param or NONE)
        if r is not None and addr not in subterms(r):
            return mul(n, r)

    def f(a, n, p):
        if n.op == "int" and n.a[0] == 0:
            return I(0)
        return mk("seqsize", ty, a, n, p)
    return lift(f, addr, n, param or NONE)


def subterms(t, out=None):
    out = set() if out is None else out
    if t in out:
        return out
    out.add(t)
    for x in t.a:
        if isinstance(x, T):
            subterms(x, out)
    return out


def seq(ty, addr, n, param=None):
    def f(a, n, p):
        if n.op == "int":
            if n.a[0] == 0:
                return cat()
            if 0 < n.a[0] <= 4:
                out = []
                cur = a
                for _ in range(n.a[0]):
                    out.append(mk("one", rd(ty, cur, p)))
                    cur = add(cur, size(ty, cur, p))
                return cat(*out)
        if fixed(ty) is None and env.size_of is not None:
            r = env.size_of(ty, a, p)
            if r is not None and r.op == "ite" and a not in subterms(r):
                # elements of a size that depends on the parameter: element by element
                ix = fresh_ix()
                return vmap(n, ix, rd(ty, add(a, mul(ix, r)), p))
        return mk("seq", ty, a, n, p)
    return lift(f, addr, n, param or NONE)


def vmap(n, ixv, body):
    """The sequence body(0), ..., body(n - 1)."""
    if body is DC:
        return DC

    def f(n):
        if n.op == "int":
            if n.a[0] == 0:
                return cat()
            if 0 < n.a[0] <= 16:
                return cat(*[mk("one", subst(body, {ixv: I(i)})) for i in range(n.a[0])])
        if body.op == "rd":
            ty, addr, p = body.a
            if ixv not in p.fv:
                s = fixed(ty)
                if s is None and env.size_of is not None:
                    r = env.size_of(ty, addr, p)
                    if r is not None and ixv not in r.fv:
                        s = r
                else:
                    s = I(s) if s is not None else None
                base = subst(addr, {ixv: I(0)})
                if s is not None:
                    if addr is add(base, mul(ixv, s)):
                        return mk("seq", ty, base, n, p)
                elif addr is add(base, mk("seqsize", ty, base, ixv, p)):
                    return mk("seq", ty, base, n, p)
        if body.op == "idx" and body.a[1] is ixv and ixv not in body.a[0].fv and length(body.a[0]) is n:
            return body.a[0]
        inside = gt0(sub(n, ixv))
        if inside.op == "gt0" and inside in atoms(body):
            return f2(n, restrict(body, inside, True))
        return f2(n, body)

    def f2(n, body):
        h = bv(body.h + 1)
        return mk("map", n, subst(body, {ixv: h}))
    return lift(f, n)


def flat(n, ixv, body):
    """The sequences body(0), ..., body(n - 1) one after the other."""
    if body is DC:
        return DC
    if body.op == "cat" and len(body.a) == 1 and body.a[0].op == "one":
        return vmap(n, ixv, body.a[0].a[0])
    if body is cat():
        return body
    if body.op == "seq" and not any(ixv in x.fv for x in body.a[2:]):
        ty, addr, k, p = body.a
        base = subst(addr, {ixv: I(0)})
        if addr is add(base, mul(ixv, seqsize(ty, base, k, p))):
            return lift(lambda n: seq(ty, base, mul(n, k), p), n)

    def f(n):
        if n.op == "int" and n.a[0] <= 6:
            r = cat()
            for i in range(n.a[0]):
                r = lift(lambda x, y: cat(x, y), r, subst(body, {ixv: I(i)}))
            return r
        h = bv(body.h + 1)
        return mk("flat", n, subst(body, {ixv: h}))
    return lift(f, n)


def most(n, ixv, body):
    """The greatest of the numbers body(0), ..., body(n - 1), for n > 0."""
    if ixv not in body.fv:
        return body

    def f(n):
        if n.op == "int" and 0 < n.a[0] <= 6:
            r = subst(body, {ixv: I(0)})
            for i in range(1, n.a[0]):
                x = subst(body, {ixv: I(i)})
                r = ite(lt(r, x), x, r)
            return r
        h = bv(body.h + 1)
        return mk("most", n, subst(body, {ixv: h}))
    return lift(f, n)


def parts(v):
    if v.op == "cat":
        return v.a
    return (v,)


def cat(*ps):
    out = []
    if any(p.op == "ite" for p in ps):
        return lift(lambda *xs: cat(*xs), *ps)
    for p in ps:
        if p is DC:
            return DC
        if p.op == "cat":
            out.extend(p.a)
        else:
            out.append(p)
    # an array extended by what would be its next element
    if len(out) > 1:
        new = []
        for p in out:
            if p.op == "one" and new and new[-1].op in ("seq", "map"):
                q = new[-1]
                if index(q, length(q)) is p.a[0]:
                    n = add(length(q), I(1))
                    new[-1] = mk("seq", q.a[0], q.a[1], n, q.a[3]) if q.op == "seq" else mk("map", n, q.a[1])
                    continue
            if p.op == "seq" and new and new[-1].op == "seq":
                q = new[-1]
                if q.a[0] == p.a[0] and q.a[3] is p.a[3] and add(q.a[1], seqsize(q.a[0], q.a[1], q.a[2], q.a[3])) is p.a[1]:
                    new[-1] = mk("seq", q.a[0], q.a[1], add(q.a[2], p.a[2]), q.a[3])
                    continue
            new.append(p)
        out = new
    if len(out) == 1 and out[0].op in ("seq", "map", "flat"):
        return out[0]
    return mk("cat", *out)


def one(x):
    if x is DC:
        return DC
    return mk("one", x)


def slice_of(v, lo, hi):
    if v.op == "vref":
        v = v.a[0]
    if v.op == "slice":
        return mk("slice", v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    return mk("slice", v, lo, hi)


def length(v):
    def f(v):
        if v.op == "unk":
            return v
        if v.op == "vref":
            return f(v.a[0])
        if v.op in ("seq",):
            return v.a[2]
        if v.op == "map":
            return v.a[0]
        if v.op == "flat":
            i = fresh_ix()
            return summ(v.a[0], i, length(subst(v.a[1], {bv(v.h): i})))
        if v.op == "cat":
            r = I(0)
            for p in v.a:
                r = add(r, I(1) if p.op == "one" else f(p))
            return r
        if v.op == "agg" and v.a[0] == "array":
            return I(len(v.a) - 2)
        if v.op == "slice":
            return sub(v.a[2], v.a[1])
        if v.op in ("upd", "perm"):
            return f(v.a[0])
        if type_of(v) == "Tag":
            return I(4)
        if v.op == "str":
            return I(len(v.a[0].encode()))
        r = mk("len", v)
        return PINS.get(r, r) if PINS else r
    return lift(f, v)


ELEM = {}


def index(v, i):
    def f(v, i):
        if v.op == "unk":
            return v
        if i.op == "unk":
            return i
        if v.op == "rd" and v.a[0][:3] == "[u8" and v.a[1] in HALVES:
            return unk("bytes of words")
        if v.op == "seq":
            ty, addr, n, p = v.a
            s = fixed(ty)
            if s is not None:
                return rd(ty, add(addr, scale(i, s)), p)
            return rd(ty, add(addr, seqsize(ty, addr, i, p)), p)
        if v.op == "map":
            return subst(v.a[1], {bv(v.h): i})
        if v.op == "agg" and v.a[0] == "array":
            if i.op == "int":
                return v.a[2 + i.a[0]] if 0 <= i.a[0] < len(v.a) - 2 else DC
            return mk("idx", v, i, elem_ty(v))
        if v.op == "cat":
            k = i
            for p in v.a:
                if k.op != "int":
                    break
                if p.op == "one":
                    if k.a[0] == 0:
                        return p.a[0]
                    k = sub(k, I(1))
                else:
                    break
            if len(v.a) == 1 and v.a[0].op in ("seq", "map"):
                return f(v.a[0], i)
            if len(v.a) <= 3 and all(p.op in ("one", "seq", "map", "slice") for p in v.a):
                k, r = i, []
                for p in v.a:
                    n = I(1) if p.op == "one" else length(p)
                    r.append((lt(k, n), p.a[0] if p.op == "one" else index(p, k)))
                    k = sub(k, n)
                x = DC
                for c, y in reversed(r):
                    x = ite(c, y, x)
                return x
            return mk("idx", v, i, "?")
        if v.op == "slice":
            return index(v.a[0], add(v.a[1], i))
        if v.op == "vref":
            return index(v.a[0], i)
        if v.op == "upd":
            return ite(eq(v.a[1], i), v.a[2], index(v.a[0], i))
        if v.op == "rd" and fixed(v.a[0]) is not None and i.op == "int" and v.a[0] == "Tag":
            return mk("idx", v, i, "u8")
        return mk("idx", v, i, elem_ty(v))
    return lift(f, v, i)


def upd(v, i, x):
    """The sequence with another element at an index inside it."""
    def f(v):
        if v.op == "unk":
            return v
        if i.op == "int" and v.op in ("cat", "agg"):
            fs = list(v.a)
            k = i.a[0] + (2 if v.op == "agg" else 0)
            if v.op == "agg" and 2 <= k < len(fs):
                fs[k] = x
                return mk("agg", *fs)
            if v.op == "cat" and k < len(fs) and all(q.op == "one" for q in fs[:k + 1]):
                fs[k] = one(x)
                return cat(*fs)
        if v.op == "agg" and v.a[0] == "array":
            return mk("agg", *v.a[:2], *[ite(eq(i, I(k)), x, y) for k, y in enumerate(v.a[2:])])
        if v.op == "cat" and all(q.op == "one" for q in v.a):
            return cat(*[one(ite(eq(i, I(k)), x, q.a[0])) for k, q in enumerate(v.a)])
        return mk("upd", v, i, x)
    return lift(f, v)


def elem_ty(v):
    if v.op in ("prm", "fld", "idx", "call"):
        t = v.a[-1]
        if isinstance(t, str):
            if t.startswith("Vec<"):
                return t[4:-1]
            if t.startswith("["):
                return t[1:-1].split(";")[0].strip()
            if t == "Tag":
                return "u8"
    if v.op == "rd" and v.a[0] == "Tag":
        return "u8"
    if v.op == "call":
        return "u8"
    return "?"


def field(v, variant, i, ty):
    def f(v):
        if v.op == "unk":
            return v
        if v.op == "agg":
            if variant is not None and v.a[1] != variant:
                return DC
            if 2 + i < len(v.a):
                return v.a[2 + i]
            return unk("field %s of %s" % (i, v.a[0]))
        if v.op == "rd" and env.expand_field is not None:
            r = env.expand_field(v, variant, i)
            if r is not None:
                return r
        if v.op in ("rd", "prm", "fld", "idx", "call") and type_of(v) == "Tag" and i == 0:
            return v
        return mk("fld", v, variant, i, ty or "?")
    return lift(f, v)


def type_of(v):
    if v.op == "rd":
        return v.a[0]
    if v.op in ("prm", "fld", "idx", "call"):
        return v.a[-1]
    return None


def discr(v):
    """Index of the variant."""
    def f(v):
        if v.op == "unk":
            return v
        if v.op == "agg":
            return I(v.a[1])
        if v.op == "rd" and env.expand_discr is not None:
            r = env.expand_discr(v)
            if r is not None:
                return r
        return mk("discr", v)
    return lift(f, v)


# ---------------------------------------------------------------- substitution and rebuilding

_subst_memo = {}


def subst(t, m):
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, T):
            y = _subst(x, m, memo)
            ch = ch or y is not x
            na.append(y)
        else:
            na.append(x)
    r = rebuild(t, na) if ch else t
    memo[t] = r
    return r


_ixn = [0]


def fresh_ix(maxv=2**60):
    _ixn[0] += 1
    return mk("ix", _ixn[0], maxv)


def rebuild(t, a):
    op = t.op
    if op == "ite":
        return ite(*a)
    if op == "agg":
        return agg(*a)
    if op == "lin":
        r = I(a[0])
        for i in range(1, len(a), 2):
            r = add(r, scale(a[i + 1], a[i]))
        return r
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "quo":
        return div(*a)
    if op == "mod":
        return rem(*a)
    if op == "shr":
        return shr(*a)
    if op == "pow2":
        return pow2(*a)
    if op == "and":
        return band(*a)
    if op == "and_shr":
        r = shr(band(a[0], a[1]), a[2])
        return r
    if op == "bitor":
        return bor(*a)
    if op == "cast":
        return cast(a[1], a[0])
    if op == "case":
        return case(*a)
    if op == "gt0":
        return gt0(a[0])
    if op == "eq":
        return eq(*a)
    if op == "rd":
        return rd(*a)
    if op == "size":
        return size(*a)
    if op == "seqsize":
        return seqsize(*a)
    if op == "seq":
        return seq(*a)
    if op == "cat":
        return cat(*a)
    if op == "one":
        return one(*a)
    if op == "len":
        return length(*a)
    if op == "idx":
        return index(a[0], a[1])
    if op == "fld":
        return field(*a)
    if op == "discr":
        return discr(*a)
    if op == "slice":
        return slice_of(*a)
    if op == "upd":
        return upd(*a)
    if op in BINDERS:
        n, body = a
        if n is DC:
            return DC
        b = bv(t.h)
        ixv = fresh_ix()
        body2 = _subst(body, {b: ixv}, {})
        if op == "map":
            return vmap(n, ixv, body2)
        if op == "forall":
            return forall(n, ixv, body2)
        if op == "sum":
            return summ(n, ixv, body2)
        if op == "flat":
            return flat(n, ixv, body2)
        if op == "most":
            return most(n, ixv, body2)
        return lift(lambda n: first(n, ixv, body2), n)
    if any(isinstance(x, T) and x.op == "ite" for x in a) and op not in ("vref", "iter", "closure"):
        return lift(lambda *b: mk(op, *b), *a)
    return mk(op, *a)


def atoms(t):
    """Atomic predicates without bound variables occurring anywhere in t."""
    if t.atoms_ is None:
        s = set()
        if t.op == "ite":
            c = t.a[0]
            if not has_bv(c):
                s.add(c)
        for x in t.a:
            if isinstance(x, T):
                s |= atoms(x)
        t.atoms_ = frozenset(s)
    return t.atoms_


_conds = {}


def conds(t):
    """The conditions in t, also those on bound variables."""
    r = _conds.get(t)
    if r is None:
        s = set()
        if t.op == "ite":
            s.add(t.a[0])
        for x in t.a:
            if isinstance(x, T):
                s |= conds(x)
        r = _conds[t] = frozenset(s)
    return r


_bvs = {}


def free_bvs(t):
    r = _bvs.get(t)
    if r is None:
        s = frozenset([t.a[0]]) if t.op == "bv" else frozenset()
        for x in t.a:
            if isinstance(x, T):
                s |= free_bvs(x)
        if t.op in BINDERS:
            s -= {t.h}
        r = _bvs[t] = s
    return r


def has_bv(t):
    return bool(free_bvs(t))


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == "int":
        return str(a[0])
    if op == "bool":
        return "true" if a[0] else "false"
    if op == "str":
        return repr(a[0])
    if op == "none":
        return "-"
    if op == "dc":
        return "<unreachable>"
    if op == "pos":
        return "start" if a[0] == 0 else "start%s" % a[0]
    if op == "prm":
        return "%s" % (a[0],)
    if op == "bv":
        return "i%d" % a[0]
    if op == "ix":
        return "i'%d" % a[0]
    if op == "lin":
        r = []
        for i in range(1, len(a), 2):
            c = a[i]
            x = s(a[i + 1])
            r.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + x)
        if a[0]:
            r.append(str(a[0]))
        return "(" + " + ".join(r) + ")"
    if op == "mul":
        return s(a[0]) + "*" + s(a[1])
    if op == "rd":
        return "%s@%s%s" % (a[0], s(a[1]), "" if a[2] is NONE else "{%s}" % s(a[2]))
    if op == "seq":
        return "[%s;%s]@%s%s" % (a[0], s(a[2]), s(a[1]), "" if a[3] is NONE else "{%s}" % s(a[3]))
    if op == "map":
        return "[%s for i%d<%s]" % (s(a[1]), t.h, s(a[0]))
    if op == "forall":
        return "all(i%d<%s: %s)" % (t.h, s(a[0]), s(a[1]))
    if op == "first":
        return "first(i%d<%s: %s)" % (t.h, s(a[0]), s(a[1]))
    if op == "cat":
        return "[" + ", ".join(s(x.a[0]) if x.op == "one" else "*" + s(x) for x in a) + "]"
    if op == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "agg":
        n = {("Option", 0): "None", ("Option", 1): "Some", ("Result", 0): "Ok", ("Result", 1): "Err"}.get((a[0], a[1]))
        n = n or ("%s#%s" % (a[0], a[1]) if a[0] not in ("tuple", "array") else "")
        return "%s(%s)" % (n, ", ".join(s(x) for x in a[2:]))
    if op == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "gt0":
        return "%s>0" % s(a[0])
    if op == "fld":
        return "%s.%s%s" % (s(a[0]), "" if a[1] is None else "%s." % a[1], a[2])
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "and":
        return "(%s & %s)" % (s(a[0]), hex(a[1].a[0]))
    if op == "unk":
        return "<?%s>" % a[1]
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
