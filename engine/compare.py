"""Readers against the specification.

Every reader that has an entry in the specification is interpreted once; the value, the condition of success and
the place where the tape is left are compared with what the entry states.  A difference counts only when it is
settled: the two sides are known, in terms the analysis decides, and the case in which they differ is not excluded
by the ranges of the quantities involved.  Everything else is reported as undecided.
"""
import time
import terms as t
from terms import T, mk, I, TRUE, FALSE, DC, NONE, ite, land, lor, lnot
import interp
import spec as spec_
import witness
from interp import Interp, State, given, constrain

OPAQUE = set(interp.HARD) - {"bitand"} | {"bitand", "first", "sum", "flat", "most", "slice", "unk", "any", "call", "popcount", "phi", "text"}
SPLITS = 4000


class Mismatch:
    """A difference between what a reader does and what the specification says."""

    def __init__(self, kind, ty, what, text, where, tags=()):
        self.kind, self.ty, self.what, self.text, self.where, self.tags = kind, ty, what, text, where, set(tags)

    def key(self):
        return "%s|%s|%s" % (self.kind, self.ty, self.what)

    def __repr__(self):
        return "%s: %s%s: %s" % (self.where, self.ty, "." + self.what if self.what else "", self.text)


def has_opaque(v):
    return any(x.op in OPAQUE for x in t.subterms(v))


def obscure(p):
    """Does p depend on something that the algebra does not decide?"""
    return p.unk or any(c.op == "forall" or has_opaque(c) for c in t.atoms(p))


def curved(p):
    """Does p compare what is not linear in the quantities?"""
    return any(c.op in ("gt0", "eq") and any(z.op in CURVES for z in t.subterms(c)) for c in t.atoms(p))


CURVES = {"mul", "div", "rem", "quo"}


def known(p):
    """p is understood and satisfiable as far as can be told."""
    return not obscure(p) and not curved(p) or witness.find(p, TRUE, FALSE) is not None


def dead(pc):
    """No input satisfies pc, as far as the ranges of single quantities and sums of its linear conditions tell."""
    if pc is FALSE:
        return True
    if pc.op != "ite":
        return False
    r = _dead.get(pc)
    if r is None:
        r = _dead[pc] = t.facts_of(pc).dead or refuted(pc)
    return r


_dead = {}


def refuted(pc):
    """Every way of satisfying pc takes linear conditions that contradict each other."""
    ways = []
    # what holds everywhere holds at the first place
    for a in sorted((a for a in t.atoms(pc) if a.op == "forall"), key=lambda a: a.id)[:4]:
        if t.restrict(pc, a, False) is FALSE:
            pc = land(pc, t.lor(t.eq(a.a[0], t.I(0)), t.subst(a.a[1], {t.bv(a.h): t.I(0)})))

    def go(x, lits):
        if len(ways) > 24:
            return
        if x.op == "ite":
            go(x.a[1], lits + ((x.a[0], True),))
            go(x.a[2], lits + ((x.a[0], False),))
        elif x is not FALSE:
            ways.append(lits)
    go(pc, ())
    return len(ways) <= 24 and all(contradictory(w) for w in ways)


def contradictory(lits):
    """Do linear conditions c + sum k*x >= 0 exclude each other: pairs that cancel a quantity are added up."""
    rows = set()

    def put(c, d):
        rows.add((c, tuple(sorted(d.items(), key=lambda x: x[0].id))))
    for a, val in lits:
        if a.unk:
            continue
        if a.op == "gt0":
            c, d = t._lin(a.a[0])
            if val:
                put(c - 1, d)
            else:
                put(-c, {x: -k for x, k in d.items()})
        elif a.op == "eq" and val and (a.a[0].op in t.NUMERIC or a.a[1].op in t.NUMERIC):
            c, d = t._lin(t.sub(a.a[0], a.a[1]))
            put(c, d)
            put(-c, {x: -k for x, k in d.items()})
    if len(rows) < 2 or len(rows) > 40:
        return False

    def impossible(c, d):
        hi = c
        for x, k in d:
            l, h = t.rng(x)
            v = k * h if k > 0 else k * l
            if v in (t.INF, -t.INF):
                return False
            hi += v
        return hi < 0
    old = list(rows)
    new = list(rows)
    for _ in range(3):
        made = []
        for c1, d1 in new:
            m1 = dict(d1)
            for c2, d2 in old:
                if not any(m1.get(x, 0) * k < 0 for x, k in d2):
                    continue
                d = dict(d1)
                for x, k in d2:
                    d[x] = d.get(x, 0) + k
                    if not d[x]:
                        del d[x]
                if len(d) >= len(d1) + len(d2):
                    continue
                r = (c1 + c2, tuple(sorted(d.items(), key=lambda x: x[0].id)))
                if r in rows:
                    continue
                if impossible(*r):
                    return True
                rows.add(r)
                made.append(r)
        if len(rows) > 400 or not made:
            break
        old = list(rows)
        new = made
    return False


def conj(pc):
    """The literals of pc when it is a conjunction."""
    out = []
    while pc.op == "ite":
        c, a, b = pc.a
        if b is FALSE:
            out.append((c, True))
            pc = a
        elif a is FALSE:
            out.append((c, False))
            pc = b
        else:
            return None
    return out if pc is TRUE else None


def short(v, n=160):
    s = t.show(v)
    return s if len(s) <= n else s[:n] + " ..."


class Comparison:
    def __init__(self, spec):
        self.sp = spec
        witness.sizes = self.sizes
        self.n = 0
        self.compared = 0
        self.undecided = []

    def note(self, why):
        self.undecided.append(why)
        return []

    # -------------------------------------------------------------- differences

    def differences(self, x, y, pc, limit=6):
        """[(condition, x there, y there)] for the cases in which x and y are not the same."""
        out = []
        self.n = 0
        self._diff(x, y, pc, out, limit)
        return out

    def _diff(self, x, y, pc, out, limit):
        if len(out) >= limit or pc is FALSE:
            return
        x, y = given(x, pc), given(y, pc)
        if x is y or x is DC or y is DC:
            return
        if constrain(x, pc) is constrain(y, pc):
            return
        if dead(pc):
            return
        if pc.op == "ite":
            x2 = t.under(pc, lambda: resolve(x))
            y2 = t.under(pc, lambda: resolve(y))
            if x2 is not x or y2 is not y:
                x, y = x2, y2
                if x is y:
                    return
        v = None
        for z in (x, y):
            if z.op == "ite" and (v is None or z.a[0].id < v.id):
                v = z.a[0]
        if v is None and pc.op == "ite" and conj(pc) is None:
            # the condition itself is still a choice: one case at a time
            v = pick(pc)
        if v is None:
            out.append((pc, x, y))
            return
        self.n += 1
        if self.n > SPLITS:
            self.note("too many cases")
            return
        for val in (True, False):
            lit = t.W(v) if val else lnot(t.W(v))
            p2 = land(pc, lit)
            if dead(p2):
                continue
            self._diff(t.restrict(x, v, val), t.restrict(y, v, val), p2, out, limit)

    # -------------------------------------------------------------- values

    def equal(self, x, y, pc, path="", depth=0):
        """[(path, condition, x, y)]: the settled differences between two values; Undecided when not known."""
        self.compared += 1
        r = []
        for p, a, b in self.differences(x, y, pc):
            d = self.leaf(a, b, p, path, depth)
            if d:
                if obscure(p) and witness.find(p, d[0][2], d[0][3]) is None:
                    self.note("under a condition that is not understood: %s" % short(p))
                    continue
                r += d
                break
        return r

    def leaf(self, x, y, pc, path, depth):
        if x is y or x is DC or y is DC or depth > 12:
            return []
        if x.op == "any value" or y.op == "any value":
            return []
        for z in (x, y):
            if z.op == "unk":
                return self.note("unknown value (%s)" % (z.a[1],))
        if x.op == "agg" and y.op == "agg":
            if x.a[0] != y.a[0] and not (x.a[0] == "tuple" or y.a[0] == "tuple"):
                return [(path, pc, x, y)]
            if x.a[1] != y.a[1]:
                return [(path, pc, x, y)]
            if len(x.a) != len(y.a):
                return [(path, pc, x, y)]
            r = []
            for i, (a, b) in enumerate(zip(x.a[2:], y.a[2:])):
                if a is not b:
                    r += self.equal(a, b, pc, path + "." + self.fieldname(x, i), depth + 1)
            return r
        if x.op == "rd" and y.op == "rd" and x.a[0] == y.a[0]:
            if x.a[1] is not y.a[1]:
                r = self.equal(x.a[1], y.a[1], pc, path, depth + 1)
                if r:
                    return [(path, p, x, y) for _, p, a, b in r]
            if x.a[2] is not y.a[2]:
                r = self.equal(x.a[2], y.a[2], pc, path, depth + 1)
                if r:
                    return [(path, p, x, y) for _, p, a, b in r]
            return []
        seqs = ("seq", "map", "cat", "flat")
        if x.op in seqs and y.op in seqs:
            return self.sequences(x, y, pc, path, depth)
        if x.op in ("perm", "thin") and y.op in seqs:
            return self.rearranged(x, y, pc, path, depth)
        # nested encodings, looked into
        ex, ey = self.look(x), self.look(y)
        if (ex is not None or ey is not None) and (x.op in ("rd",) or y.op in ("rd",)):
            if ex is not None and (y.op != "rd" or y.a[0] not in t.env.fixed or ey is None or True):
                return self.equal(ex, ey if ey is not None else y, pc, path, depth + 1)
            return self.equal(x, ey, pc, path, depth + 1)
        if has_opaque(x) or has_opaque(y):
            if witness.find(pc, x, y) is not None:
                return [(path, pc, x, y)]
            return self.note("%s / %s" % (short(x, 80), short(y, 80)))
        if isnumber(x) and isnumber(y):
            fx, fy = self.flat(x), self.flat(y)
            if fx is not x or fy is not y:
                return self.equal(fx, fy, pc, path, depth + 1)
            d = t.sub(x, y)
            if d.op == "int" and d.a[0] == 0:
                return []
            if pc.op == "ite":
                lo, hi = t.facts_of(pc).rng(d) if d.op != "int" else (d.a[0], d.a[0])
                if lo == hi == 0:
                    return []
        return [(path, pc, x, y)]

    def sequences(self, x, y, pc, path, depth):
        n, m = t.length(x), t.length(y)
        if n is not m:
            r = self.equal(n, m, pc, path, depth + 1)
            if r:
                some = any(z.op == "agg" and z.a[0] == "Option" for z in t.leaves(t.index(y, t.fresh_ix())))
                return [(path + ("[count of optional]" if some else "[count]"), p, a, b) for _, p, a, b in r]
        if x.op == "cat" and y.op == "cat" and all(p.op == "one" for p in x.a + y.a) and len(x.a) == len(y.a):
            r = []
            for i, (a, b) in enumerate(zip(x.a, y.a)):
                r += self.equal(a.a[0], b.a[0], pc, "%s[%d]" % (path, i), depth + 1)
            return r
        ix = t.fresh_ix()
        p2 = land(pc, t.lt(ix, m))
        if dead(p2):
            return []
        return self.equal(t.index(x, ix), t.index(y, ix), p2, path + "[i]", depth + 1)

    def rearranged(self, x, y, pc, path, depth):
        """The items of a sequence in another order, or without some of them."""
        z = x.a[0]
        if z.op in ("perm", "thin"):
            return self.rearranged(z, y, pc, path, depth)
        if z is not y:
            u = len(self.undecided)
            if z.op not in ("seq", "map", "cat", "flat") or self.sequences(z, y, pc, path, depth) or len(self.undecided) > u:
                return self.note("%s / %s" % (short(x, 80), short(y, 80)))
        # the items are what the tape holds: they come in any order
        p = land(pc, t.lt(I(1), t.length(y)))
        if y.op not in ("seq", "map") or y.op == "map" and not y.a[1].op == "rd" or not known(p) or dead(p):
            return self.note("%s / %s" % (short(x, 80), short(y, 80)))
        return [(path, p, x, y)]

    def look(self, x):
        """A nested encoding replaced by what it holds, when it has a specification."""
        if x.op == "rd" and x.a[0] in spec_.TABLE:
            return self.sp.expand(x)
        if x.op == "seq" and x.a[0] in spec_.TABLE:
            return None
        return None

    def flat(self, x):
        """A number with the sizes of nested encodings spelled out."""
        m = {}
        for z in t.subterms(x):
            if z.op == "size" and z.a[0] in spec_.TABLE and z.a[1] is not NONE:
                try:
                    e = self.sp.at(z.a[0], z.a[1], z.a[2])
                except spec_.Missing:
                    continue
                m[z] = t.sub(e.end, z.a[1])
        return t.subst(x, m) if m else x

    def sizes(self, x):
        for _ in range(4):
            y = self.flat(x)
            if y is x:
                break
            x = y
        return x

    def fieldname(self, x, i):
        j = self.sp.byname.get(x.a[0])
        if j is not None:
            vs = self.sp.d.types[j]["vs"]
            v = vs[x.a[1]] if x.a[1] < len(vs) else vs[0]
            if i < len(v["f"]):
                n = v["f"][i][0]
                return n if len(vs) == 1 else v["n"]
        if x.a[0] == "Option":
            return "?"
        return str(i)


def resolve(x):
    """x with the choices settled that the ranges in force settle."""
    n = 0
    while x.op == "ite" and n < 200:
        n += 1
        c = x.a[0]
        d = None
        if c.op == "gt0":
            lo, hi = t.rng(c.a[0])
            d = True if lo > 0 else False if hi <= 0 else None
        elif c.op == "eq" and c.a[1].op == "int":
            lo, hi = t.rng(c.a[0])
            v = c.a[1].a[0]
            d = True if lo == hi == v else False if v < lo or v > hi else None
        if d is None:
            break
        x = x.a[1] if d else x.a[2]
    return x


def pick(pc):
    while pc.op == "ite":
        c, a, b = pc.a
        if a is not FALSE and b is not FALSE:
            return c
        pc = b if a is FALSE else a
    return None


def isnumber(x):
    return x.op in t.NUMERIC or t.rng(x) != (-t.INF, t.INF)


# ------------------------------------------------------------------ one reader

class Run:
    __slots__ = ("value", "end", "events", "obligs", "loops", "calls", "recursion", "fn", "args", "error", "visited",
                 "effects", "steps", "wild")


class Reader:
    def __init__(self, name, key, entry):
        self.name, self.key, self.entry = name, key, entry


def words(sp, name, pos, prm):
    """Does the encoding begin with two words?"""
    if name == "glyph_definition::Header":
        return True
    try:
        rs = sp.at(name, pos, prm).reads
    except spec_.Missing:
        return False
    return [(x.ty, x.addr, x.n, x.cond) for x in rs[:2]] == [("u16", pos, None, TRUE), ("u16", t.add(pos, t.I(2)), None, TRUE)]


def run_reader(dump, sp, name, pos, prm, fail=None, partly=False):
    tr = "typeface::walue::Read" if prm is not None else "typeface::value::Read"
    ks = dump.impls.get((name, tr, "read"))
    f = dump.func(ks[0])
    t.halves([pos] if words(sp, name, pos, prm) else [])
    ip = Interp(dump, sp.has)
    ip.fail, ip.partly = fail, partly
    st = State({}, TRUE)
    a = ip.alloc(st, pos)
    ip.tapes.add(a)
    r = Run()
    r.fn, r.error = f, None
    try:
        v, s = ip.run_function(f, [ip.ref(a)] + ([prm] if prm is not None else []), st)
    except interp.Budget:
        v, s = t.unk("budget"), None
        r.error = "budget"
    except RecursionError:
        v, s = t.unk("depth"), None
        r.error = "depth"
    r.value = v if v is not None else DC
    r.end = s.mem[a] if s is not None else DC
    r.events, r.obligs, r.loops = ip.events, ip.obligs, ip.loops_seen
    r.calls, r.recursion, r.visited, r.effects, r.steps = ip.unknown_calls, ip.recursion, ip.visited, ip.effects, ip.steps
    r.wild = ip.wild
    return r


def accepted(v):
    return t.lift(lambda v: t.B(v.a[1] == 0) if v.op == "agg" and v.a[0] == "Result" else FALSE if v is DC else v, v)


def payload(v):
    return t.lift(lambda v: v.a[2] if v.op == "agg" and v.a[0] == "Result" and v.a[1] == 0 else DC if v.op == "agg" else v, v)


class Result:
    """What was found about one reader."""

    def __init__(self, name):
        self.name = name
        self.mismatches = []
        self.undecided = []
        self.counts = {}
        self.run = None
        self.enc = None
        self.where = "?"


def unloop(v, pc):
    """(terms with `some iteration` as an index, the condition with its bound)"""
    out = []
    m = {}
    for x in v:
        for z in t.subterms(x) if x is not None else ():
            if z.op == "any" and z not in m:
                ix = t.fresh_ix()
                m[z] = ix
                pc = land(pc, t.lt(ix, t.subst(z.a[0], m)))
    return [t.subst(x, m) if x is not None else None for x in v], t.subst(pc, m)


class Analysis:
    """All readers of one build against the specification."""

    def __init__(self, dump, features=()):
        self.d = dump
        self.sp = spec_.Spec(dump, features)
        self.features = tuple(features)
        self.results = {}

    def names(self):
        return list(spec_.TABLE)

    def signature(self, name):
        """The type of the parameter of the reader in the build, None without one; False when there is no reader."""
        for tr, k in (("typeface::value::Read", 1), ("typeface::walue::Read", 2)):
            ks = self.d.impls.get((name, tr, "read"))
            if ks:
                f = self.d.func(ks[0])
                return (None if k == 1 else self.d.types.name(f.locals[2])), f
        return False, None

    def expected(self, name):
        pt = spec_.TABLE[name][1]
        return pt if pt is None or isinstance(pt, str) else "(%s)" % ",".join(pt)

    def analyse(self, name):
        """Value, acceptance and end of one reader."""
        res = Result(name)
        res.area = spec_.TABLE[name][0]
        sig, f = self.signature(name)
        if f is None:
            res.missing = True
            return res
        res.missing = False
        res.where = f.span
        if sig != self.expected(name):
            res.undecided.append("reader with another parameter (%s)" % sig)
            return res
        t0 = time.time()
        pos = mk("pos", 0)
        prm = self.sp.parameter(name)
        try:
            enc = self.sp.at(name, pos, prm)
        except spec_.Missing as e:
            res.mismatches.append(Mismatch("shape", name, str(e), "the specified item is not there any more", f.span, [res.area]))
            return res
        run = run_reader(self.d, self.sp, name, pos, prm)
        res.run, res.enc = run, enc
        if run.effects or run.error:
            res.undecided.append("%s" % (run.error or run.effects[0],))
            return res
        cmp = Comparison(self.sp)
        acc, val = accepted(run.value), payload(run.value)
        self.acceptance(res, cmp, enc, run, acc)
        pc = land(enc.pre, land(enc.valid, acc)) if not acc.unk else land(enc.pre, enc.valid)
        for path, p, x, y in cmp.equal(val, enc.value, pc):
            self.value_mismatch(res, enc, path, p, x, y)
        if name in self.sp.sequential():
            for path, p, x, y in cmp.equal(run.end, enc.end, pc):
                res.mismatches.append(Mismatch("end", name, "", "leaves the tape at %s and not at %s" % (short(x), short(y)),
                                               f.span, ["C19", res.area]))
        if cmp.undecided:
            res.undecided += cmp.undecided
            if not res.mismatches and not t.PINS:
                self.pinned(res)
        res.counts = {"comparisons": cmp.compared, "events": len(run.events), "steps": run.steps,
                      "functions": len(run.visited), "wall": time.time() - t0}
        return res

    def pinned(self, res):
        """Loops that have no count in general may have one for given lengths of the arrays: the comparison for some of them."""
        counts = {x for r in res.enc.reads if r.n is not None for x in t.subterms(r.n)
                  if x.op == "rd" and x.a[0] in ("u8", "u16", "u32") and x.a[1].op in ("pos", "lin") and x.a[2] is NONE}
        counts = [x for x in counts if not self.mixed(res.run, x)]
        if not counts:
            return
        memo = dict(self.sp.memo)
        try:
            for k in (2, 3, 1, 0):
                self.sp.memo.clear()
                t.pin({x: t.I(k) for x in counts})
                r = self.analyse(res.name)
                if r.mismatches:
                    for m in r.mismatches:
                        m.text += " (with %s)" % ", ".join("%s = %d" % (t.show(x), k) for x in sorted(counts, key=t.show))
                    res.mismatches += r.mismatches
                    return
        finally:
            t.pin({})
            self.sp.memo.clear()
            self.sp.memo.update(memo)

    def mixed(self, run, x):
        """Is the quantity x read in another way, too?"""
        for e in run.events:
            d = t.sub(e.addr, x.a[1])
            if d.op != "int":
                continue
            d = d.a[0]
            w, n = t.fixed(e.ty) or 1, t.fixed(x.a[0])
            if e.n is None and (d >= n or d + w <= 0) or e.n is None and d == 0 and e.ty == x.a[0]:
                continue
            if e.n is not None and d >= n:
                continue
            if e.ty in spec_.TABLE:
                continue
            return True
        return False

    def actual(self, name):
        """What the reader yields, and when: (value, condition)."""
        e = self.sp.at(name, mk("pos", 0), self.sp.parameter(name))
        r = self.cached(name)
        if r.run is None or r.run.error:
            return e.value, land(e.pre, e.valid)
        acc, val = accepted(r.run.value), payload(r.run.value)
        if acc.unk or val is DC or any(x.op == "unk" for x in t.leaves(val)):
            return e.value, land(e.pre, e.valid)
        inner, _ = self.nested([(x.ty, x.addr, x.prm, x.n, x.pc) for x in r.run.events if x.kind == "read"])
        pc = land(e.pre, land(acc, inner))
        return interp.given(val, pc), pc

    def cached(self, name):
        if name not in self.results:
            self.results[name] = self.analyse(name)
        return self.results[name]

    # acceptance

    def nested(self, reads):
        """The condition under which encodings that are read are well formed themselves; (condition, understood)"""
        c, known = TRUE, True
        for ty, addr, prm, n, cond in reads:
            if ty not in spec_.TABLE:
                continue
            if n is not None or any(z.op == "any" for z in t.subterms(addr)) or addr.unk:
                known = False
                continue
            try:
                e = self.sp.at(ty, addr, prm if prm is not None else NONE)
            except spec_.Missing:
                known = False
                continue
            v = land(e.valid, self.nested([(r.ty, r.addr, r.prm, r.n, r.cond) for r in e.reads if r.inline is None])[0])
            c = land(c, lor(lnot(cond), v))
        return c, known

    def acceptance(self, res, cmp, enc, run, acc):
        name = res.name
        ds = cmp.differences(acc, enc.valid, enc.pre)
        if not ds:
            return
        acts = {(self.elem(e.ty), e.addr) for e in run.events}
        specs = {(r.ty, r.addr) for r in enc.reads}
        ra, whole = [], set()
        for e in run.events:
            if e.kind == "read" and (self.elem(e.ty), e.addr) not in specs:
                same = [r for r in enc.reads if self.element(e, r, e.pc)]
                whole.update(same)
                if not same:
                    ra.append((e.ty, e.addr, e.prm, e.n, e.pc))
        rs = [(r.ty, r.addr, r.prm, r.n, r.cond) for r in enc.reads if (r.ty, r.addr) not in acts and r not in whole]
        na, ka = self.nested(ra)
        ns, ks = self.nested(rs)
        a, v = acc, enc.valid
        if na is not TRUE or ns is not TRUE:
            a, v = land(acc, na), land(enc.valid, ns)
            ds = cmp.differences(a, v, enc.pre)
        seen = set()
        for p, x, y in ds:
            if x.op != "bool" or y.op != "bool":
                cmp.note("acceptance: %s / %s" % (short(x), short(y)))
                continue
            if obscure(p) and witness.find(p, x, y) is None:
                cmp.note("acceptance under a condition that is not understood: %s" % short(p))
                continue
            if not (ka if x is TRUE else ks or apart(p)):
                cmp.note("acceptance with nested reads that are not understood")
                continue
            kind = "accepts" if x is TRUE else "rejects"
            if kind in seen:
                continue
            seen.add(kind)
            tags = {"C14"} if kind == "accepts" else {"C15"}
            if enc.dispatch:
                tags.add("C13")
            res.mismatches.append(Mismatch(kind, name, "", "%s what the format %s: %s" % (
                kind, "forbids" if kind == "accepts" else "allows", short(p, 240)), self.failing(run, res), tags))

    def failing(self, run, res):
        return res.where

    def elem(self, ty):
        return ty[4:-1] if ty.startswith("Vec<") else ty

    # values

    def value_mismatch(self, res, enc, path, p, x, y):
        tags = {res.area}
        what = path.strip(".")
        nullable = {r.ty for r in enc.reads if r.null}
        located = {r.ty for r in enc.reads if r.inline is False}
        top = what == ""
        if "[count" in path:
            tags.add("C12")
            if "[count of optional]" in path:
                # the i-th result belongs to the i-th offset
                tags.add("C11")
        kinds = {z.a[0] for z in (x, y) if z.op == "rd"}
        inner = set()
        for z in (x, y):
            if z.op == "agg" and z.a[0] == "Option" and len(z.a) > 2:
                for q in t.leaves(z.a[2]):
                    if q.op == "rd":
                        inner.add(q.a[0])
        if x.op == "rd" and y.op == "rd":
            if x.a[0] == y.a[0] and x.a[1] is y.a[1]:
                tags |= self.parameter_tags(x, y)
            elif kinds & located:
                tags.add("C10")
                if "[i]" in path:
                    tags |= {"C12"} | ({"C11"} if kinds & nullable else set())
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] == "Option":
            if inner & nullable:
                tags.add("C11")
        elif (x.op == "rd") != (y.op == "rd") and kinds & nullable:
            tags.add("C11")
        elif (x.op == "rd") != (y.op == "rd") and kinds & located:
            tags.add("C10")
        if top and enc.dispatch or x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] == res.name:
            tags.add("C13")
        if enc.dispatch:
            tags.add("C13")
        res.mismatches.append(Mismatch("value", res.name, what, "is %s and not %s (when %s)" % (
            short(x), short(y), short(p)), res.where, tags))

    def parameter_tags(self, x, y):
        pt = spec_.TABLE.get(x.a[0], (None, None))[1]
        if x.a[0] == "#":
            return {"C13"}
        if pt is None:
            return set()
        if isinstance(pt, str):
            return {"C10"} if pt == "u64" else {"C12"}
        tags = set()
        for i, k in enumerate(pt):
            if t.field(x.a[2], None, i, k) is not t.field(y.a[2], None, i, k):
                tags |= {"C10"} if k == "u64" else {"C12"} if k == "u16" else set()
        return tags

    # -------------------------------------------------------------- bytes that are read

    def extent(self, ty, addr, prm, n):
        """The number of bytes of an encoding, or None."""
        if ty.startswith("Vec<"):
            ty = ty[4:-1]
        elif ty.startswith("[") and ";" in ty:
            ty, k = ty[1:-1].split(";")
            ty, n = ty.strip(), I(int(k))
        elif ty.startswith("(") and ty.endswith(")"):
            r = I(0)
            for x in ty[1:-1].split(","):
                if x.strip():
                    y = self.extent(x.strip(), t.add(addr, r), None, None)
                    if y is None:
                        return None
                    r = t.add(r, y)
            return r
        if n is not None:
            return t.seqsize(ty, addr, n, prm)
        s = t.fixed(ty)
        if s is not None:
            return I(s)
        if ty in spec_.TABLE:
            try:
                e = self.sp.at(ty, addr, prm if prm is not None else NONE)
            except spec_.Missing:
                return None
            return t.sub(e.end, addr)
        return None

    def within(self, addr, size, start, end, pc):
        """Do the bytes lie in the range: True, False, or None when it is not known."""
        cmp = Comparison(self.sp)
        sure = True
        for d in (t.sub(addr, start), t.sub(end, t.add(addr, size))):
            d = cmp.sizes(d)
            for p, x, _ in cmp.differences(t.lt(d, I(0)), FALSE, pc):
                if x is not TRUE or p.unk or any(has_size(c) for c in t.atoms(p)) or not known(p):
                    sure = False
                else:
                    return False
        return True if sure and not cmp.undecided else None

    def element(self, e, r, pc):
        """An element read where the specification has an array of such elements."""
        if r.n is None or self.elem(e.ty) != r.ty:
            return False
        m = {}
        for z in t.subterms(e.addr):
            if z.op == "any":
                m[z] = t.fresh_ix()
        if not m:
            return False
        if e.n is not None:
            # some of the elements in each turn
            if len(m) > 1:
                return False
            z, ix = list(m.items())[0]
            try:
                return t.flat(z.a[0], ix, t.seq(r.ty, t.subst(e.addr, m), e.n, r.prm)) is t.seq(r.ty, r.addr, r.n, r.prm)
            except RecursionError:
                return False
        if r.ty == "u8" or e.prm is not (r.prm if r.prm is not NONE else None):
            return False
        addr = t.subst(e.addr, m)
        try:
            seq = t.seq(r.ty, r.addr, r.n, r.prm)
        except RecursionError:
            return False
        for z, ix in m.items():
            if z.a[0] is not r.n:
                continue
            el = t.index(seq, ix)
            if all(x is DC or x.op == "rd" for x in t.leaves(el)) and t.lift(lambda x: x.a[1], el) is addr:
                return True
        return False

    def bytes_read(self, res):
        """Everything that is read lies within the encoding, or within one that it refers to."""
        run, enc = res.run, res.enc
        out, und, n = [], [], 0
        if run is None:
            return out, und, n
        specs = [(r.ty, r.addr, r.n, r) for r in enc.reads]
        for e in run.events:
            if e.kind != "read":
                continue
            n += 1
            hit = [r for ty, addr, k, r in specs if ty == self.elem(e.ty) and addr is e.addr and (k is e.n)]
            pc = land(enc.pre, land(enc.valid, e.pc))
            if pc is FALSE or dead(pc):
                continue
            if hit:
                c = FALSE
                for r in hit:
                    c = lor(c, r.cond)
                if land(pc, lnot(c)) is FALSE:
                    continue
                bad = [(p, x) for p, x, y in Comparison(self.sp).differences(c, TRUE, pc) if x is FALSE]
                bad = [p for p, x in bad if known(p)]
                if not bad:
                    continue
                tags = {"C15", res.area} | ({"C11"} if any(r.null for r in hit) else set())
                out.append(Mismatch("reads", res.name, e.ty, "reads %s at %s although it is not there (when %s)" % (
                    e.ty, short(e.addr), short(bad[0])), e.span, tags))
                continue
            if e.addr.unk or (e.n is not None and e.n.unk):
                und.append("reads at an unknown place: %s" % e.span)
                continue
            size = self.extent(e.ty, e.addr, e.prm, e.n)
            if size is None:
                und.append("reads an amount that is not known: %s" % e.span)
                continue
            if size.op == "int" and size.a[0] == 0 or any(self.element(e, r, pc) for r in enc.reads):
                continue
            (addr, size), pc = unloop([e.addr, size], pc)
            # what is read of a table that is malformed anyway does not matter
            alt, _ = self.nested([(r.ty, r.addr, r.prm, r.n, r.cond) for r in enc.reads if r.inline is not False])
            pc = land(pc, land(alt, enc.valid) if not enc.valid.unk else alt)
            v = self.within(addr, size, mk("pos", 0), enc.end, pc)
            if v is True:
                continue
            vs = [v]
            for r in enc.reads:
                if r.inline is not False:
                    continue
                sz = self.extent(r.ty, r.addr, r.prm, r.n)
                if sz is None:
                    vs.append(None)
                    continue
                (a2, s2), _ = unloop([r.addr, sz], TRUE)
                if any(z.op == "any" for z in t.subterms(r.addr)):
                    # one of several: the same way of locating it
                    vs.append(None)
                    continue
                w = self.within(addr, size, a2, t.add(a2, s2), pc)
                vs.append(w)
                if w is True:
                    break
            if True in vs:
                continue
            if None in vs:
                und.append("reads that are not related to an encoding: %s at %s (%s)" % (e.ty, short(e.addr, 80), e.span))
            else:
                out.append(Mismatch("bytes", res.name, e.ty, "reads %s at %s, which is not part of the encoding (when %s)" % (
                    e.ty, short(e.addr), short(e.pc)), e.span, {"C15", res.area}))
        return out, und, n

    # -------------------------------------------------------------- failures

    def failures(self, res):
        """Each operation on the tape, failing: the read has to fail with it."""
        run, enc = res.run, res.enc
        out, und, n = [], [], 0
        if run is None:
            return out, und, n
        sites = {}
        for e in run.events:
            sites.setdefault(e.site, []).append(e)
        for site, es in sites.items():
            n += 1
            cond = FALSE
            for e in es:
                cond = lor(cond, e.pc)
            cond = land(enc.pre, cond)
            if cond is FALSE:
                continue
            r = run_reader(self.d, self.sp, res.name, mk("pos", 0), self.sp.parameter(res.name), site)
            acc = accepted(r.value)
            cmp = Comparison(self.sp)
            ds = list(cmp.differences(acc, FALSE, cond))
            if any(x is TRUE for p, x, y in ds) and any(e.reach is not e.pc for e in es):
                # not after the end of a loop that is left early
                reach = FALSE
                for e in es:
                    reach = lor(reach, e.reach)
                cmp = Comparison(self.sp)
                ds = list(cmp.differences(acc, FALSE, land(cond, reach)))
            for p, x, y in ds:
                if x is TRUE and (not obscure(p) or witness.find(p, x, y) is not None):
                    e = es[0]
                    out.append(Mismatch("swallowed", res.name, e.kind + " " + e.ty, "succeeds although %s fails (when %s)" % (
                        describe(e), short(p)), e.span, {"C16"}))
                    break
                else:
                    und.append("after the failure of %s: %s" % (describe(es[0]), short(x)))
                    break
            und += cmp.undecided
            if ds or not any(e.turns for e in es):
                continue
            # not each time: only at some of the places
            r = run_reader(self.d, self.sp, res.name, mk("pos", 0), self.sp.parameter(res.name), site, True)
            acc = accepted(r.value)
            bad = FALSE
            for e in r.events:
                if e.site == site:
                    bad = lor(bad, e.bad)
            n += 1
            cmp = Comparison(self.sp)
            for p, x, y in cmp.differences(acc, FALSE, land(enc.pre, bad)):
                if x is TRUE and (not obscure(p) or witness.find(p, x, y) is not None):
                    out.append(Mismatch("swallowed", res.name, es[0].kind + " " + es[0].ty, "succeeds although %s fails at one of several places (when %s)" % (
                        describe(es[0]), short(p)), es[0].span, {"C16"}))
                else:
                    und.append("after the failure of %s at one of several places: %s" % (describe(es[0]), short(x)))
                break
            und += cmp.undecided
        return out, und, n

    # -------------------------------------------------------------- panics

    def panics(self, name, run, where, pre=TRUE):
        out, und, n, proved = [], [], 0, 0
        for o in run.obligs:
            n += 1
            if o.status == "proved":
                proved += 1
                continue
            pc = land(pre, o.pc)
            # what a search finds lies among what is searched
            for f in t.subterms(o.cond):
                if f.op == "first":
                    i = t.fresh_ix()
                    if land(pc, t.forall(f.a[0], i, lnot(t.subst(f.a[1], {t.bv(f.h): i})))) is FALSE:
                        pc = land(pc, t.lt(f, f.a[0]))
            if pc is FALSE or dead(pc) or dead(land(pc, lnot(o.cond))):
                proved += 1
                continue
            cmp = Comparison(self.sp)
            ds = cmp.differences(o.cond, TRUE, pc)
            if not ds and not cmp.undecided:
                proved += 1
                continue
            bad = [p for p, x, y in ds if x is FALSE and (not obscure(p) or witness.find(p, x, y) is not None)]
            if not bad:
                bad = [p for p, x, y in ds if x is FALSE and foremost(p)]
            if not bad:
                p = foremost(land(pc, lnot(o.cond)))
                bad = [p] if p else []
            if bad:
                out.append(Mismatch("panic", name, o.kind.split("(")[0].strip()[:60], "%s can fail (when %s)" % (
                    o.kind, short(bad[0])), o.span, {"C17"}))
            else:
                und.append("%s at %s: %s" % (o.kind, o.span, short(o.cond, 80)))
        return out, und, n, proved


def apart(p):
    """p says nothing about the elements of an array: what they hold is free to be well formed."""
    return not p.unk and not any(z.op in ("ix", "any", "forall", "first", "sum", "flat", "most", "idx", "bv") for z in t.subterms(p))


def foremost(p):
    """p in the case in which every search succeeds at the very first element and what is searched for is arbitrary."""
    q = p
    for _ in range(4):
        f = next((z for z in t.subterms(q) if z.op == "first" and not t.has_bv(z)), None)
        if f is None:
            break
        hit = t.subst(f.a[1], {t.bv(f.h): I(0)})
        q = land(t.subst(q, {f: I(0)}), land(t.lt(I(0), f.a[0]), hit))
    else:
        return None
    for g in t.atoms(q):
        if g.op == "forall" and land(q, land(t.lt(I(0), g.a[0]), t.subst(g.a[1], {t.bv(g.h): I(0)}))) is FALSE:
            q = t.restrict(q, g, False)
    free = {z: mk("prm", "what is searched for", z.a[-1]) for z in t.subterms(q)
            if z.op == "call" and z.a[0] == "into" and len(z.a) == 3 and z.a[1].op == "prm"}
    q = t.subst(q, free) if free else q
    if q is p or q is FALSE or dead(q):
        return None
    return q if known(q) else None


def has_size(v):
    return any(x.op in ("size", "seqsize") for x in t.subterms(v))


def describe(e):
    if e.kind == "read":
        return "reading %s at %s" % (e.ty, short(e.addr, 60))
    return "the %s of the tape" % e.kind
