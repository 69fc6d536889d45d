"""Abstract interpretation of the compiler's intermediate representation.

Every function is evaluated once, over symbolic tape contents: branches are joined at their post-dominators into
gated values (terms.ite), loops are summarised (loop-carried values are solved as functions of the iteration
index), calls to local functions, closures and selected library functions are analysed in the calling context.
Nothing is executed and no path is enumerated; anything outside the modelled part becomes an unknown value.
"""
import terms as t
from terms import T, mk, I, TRUE, FALSE, DC, NONE, ite, lnot, land, lor, lift, unk

ERR = mk("error")
FMT = mk("text")


class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)


class Frame:
    __slots__ = ("fn", "loc", "id")

    def __init__(self, fn, loc):
        self.fn = fn
        self.loc = loc


class Event:
    """A fallible operation on the tape."""
    __slots__ = ("site", "kind", "ty", "addr", "prm", "n", "pc", "reach", "bad", "turns", "span", "fn", "ok")

    def __repr__(self):
        return "%s %s@%s at %s" % (self.kind, self.ty, self.addr, self.span)


class Oblig:
    __slots__ = ("kind", "cond", "pc", "span", "fn", "status", "why")


class Budget(Exception):
    pass


def given(x, pc):
    """x under the literals that pc implies."""
    n = 0
    while pc.op == "ite" and n < 400:
        n += 1
        c, a, b = pc.a
        if b is FALSE:
            x = t.restrict(x, c, True)
            pc = a
        elif a is FALSE:
            x = t.restrict(x, c, False)
            pc = b
        else:
            break
    if pc.op == "ite":
        done = set()
        while True:
            for c in sorted(t.atoms(x) & t.atoms(pc), key=lambda c: c.id):
                if c in done:
                    continue
                done.add(c)
                if t.restrict(pc, c, False) is FALSE:
                    x, pc = t.restrict(x, c, True), t.restrict(pc, c, True)
                    break
                if t.restrict(pc, c, True) is FALSE:
                    x, pc = t.restrict(x, c, False), t.restrict(pc, c, False)
                    break
            else:
                break
    return x


def constrain(x, pc):
    """x where pc holds: two terms that agree under pc give the same result."""
    if pc.op != "ite" or x.op in ("int", "bool", "str", "dc"):
        return x
    c, a, b = pc.a
    if b is FALSE:
        return constrain(t.restrict(x, c, True), a)
    if a is FALSE:
        return constrain(t.restrict(x, c, False), b)
    return ite(c, constrain(t.restrict(x, c, True), a), constrain(t.restrict(x, c, False), b))


def branch(v, pc):
    """The condition v as far as pc leaves it open."""
    v = given(v, pc)
    if v.op == "bool" or v.op in ("unk", "dc"):
        return v
    if land(pc, v) is FALSE:
        return FALSE
    if land(pc, lnot(v)) is FALSE:
        return TRUE
    w = t.under(pc, lambda: refresh(v))
    return w if w.op == "bool" else v


def settled(v, pc):
    """v with the choices made, inside, too, that pc settles."""
    for _ in range(4):
        m = {}
        for z in t.subterms(v):
            if z.op == "ite" and not z.unk and z.a[0].op in ("gt0", "eq"):
                c = branch(t.W(z.a[0]), pc)
                if c.op == "bool":
                    m[z] = z.a[1] if c is TRUE else z.a[2]
        if not m:
            break
        v = t.subst(v, m)
    return given(v, pc)


def refresh(v):
    """The condition v with its atoms evaluated again (under the ranges in force)."""
    if v.op != "ite":
        return v
    c = v.a[0]
    if c.op == "gt0":
        lo, hi = t.rng(c.a[0])
        d = True if lo > 0 else False if hi <= 0 else None
    elif c.op == "eq" and c.a[1].op == "int" and t.rng(c.a[0]) != (-t.INF, t.INF):
        lo, hi = t.rng(c.a[0])
        n = c.a[1].a[0]
        d = True if lo == hi == n else False if n < lo or n > hi else None
    else:
        d = None
    if d is not None:
        return refresh(v.a[1] if d else v.a[2])
    a, b = refresh(v.a[1]), refresh(v.a[2])
    return v if a is v.a[1] and b is v.a[2] else ite(c, a, b)


HARD = ("cast", "quo", "mod", "shr", "pow2", "bitor", "bitand", "bitxor")


def hard(v):
    return any(x.op in HARD or x.op == "lin" and any(isinstance(y, T) and y.op in HARD for y in x.a)
               for x in t.leaves(v))


def arith(pc, f):
    """f(), with the ranges that pc implies when it does not come out as plain arithmetic."""
    v = f()
    if pc is not TRUE and hard(v):
        v = t.under(pc, f)
    return v


def powers(pc, b):
    """pow2(b), as a choice when pc leaves few values of b."""
    v = t.pow2(b)
    if v.op == "int" or b.op in ("unk", "ite", "dc"):
        return v
    lo, hi = t.facts_of(pc).rng(b)
    if 0 <= lo and hi - lo <= 8:
        r = I(1 << hi)
        for k in range(hi - 1, lo - 1, -1):
            r = ite(t.eq(b, I(k)), I(1 << k), r)
        return given(r, pc)
    return v


def stays(x, p):
    """Is x the value p it had at the beginning of the turn?"""
    if x is p:
        return TRUE
    d = t.sub(x, p)
    if d.unk:
        return d
    if d.op in ("int", "lin") or t._isnum(d):
        if p not in d.fv:
            return t.eq0(d)
        _, terms = t._lin(d)
        if any(z.op == "rd" and p in z.fv for z in terms) and all(p not in z.fv for z in terms if z.op != "rd" and z is not p):
            # what the tape holds there is arbitrary
            return t.eq0(d)
    return FALSE


class Interp:
    def __init__(self, dump, reader=None, opts=None):
        self.d = dump
        self.ty = dump.types
        self.reader = reader        # reader(type name) -> True when the type has a specification
        self.nalloc = 0
        self.heap = set()
        self.events = []
        self.obligs = []
        self.stack = []
        self.entries = []           # positions of the tapes when the functions on the stack were called
        self.visited = set()
        self.unknown_calls = {}
        self.recursion = []
        self.wild = []
        self.loops_seen = {}
        self.filled = {}            # sequences that a loop fills in: first place, index of the loop
        self.tapes = set()
        self.steps = 0
        self.quiet = 0
        self.closures = {}
        self.effects = []
        self.limit = 400000
        self.splits = 0
        self.path = []
        self.fail = None            # the one operation that fails, if any
        self.steps_of = {}          # solutions of recurrences: the recurrence
        self.partly = False         # whether it fails at some places only
        self.span = "?"

    # ------------------------------------------------------------------ memory

    def alloc(self, st, v=DC):
        self.nalloc += 1
        st.mem[self.nalloc] = v
        return self.nalloc

    def ref(self, a, *projs):
        return mk("ref", a, *projs)

    def load(self, st, r):
        def f(r):
            if r.op == "ref":
                v = st.mem.get(r.a[0])
                if v is None:
                    return unk("dangling")
                for p in r.a[1:]:
                    v = self.proj(v, p)
                return v
            if r.op == "vref":
                return r.a[0]
            if r.op in ("dc", "unk"):
                return r
            return r            # opaque references are identified with what they refer to
        return lift(f, r)

    def proj(self, v, p):
        if p.op == "pf":
            return t.field(v, p.a[0], p.a[1], p.a[2])
        if p.op == "pi":
            return t.index(v, p.a[0])
        return v

    def store(self, st, r, x):
        if r.op == "ref":
            v = st.mem.get(r.a[0], DC)
            st.mem[r.a[0]] = self.update(v, r.a[1:], x)
        elif r.op == "ite":
            # one of several places
            for c, leaf in self.cases(r):
                if leaf.op == "ref":
                    old = st.mem.get(leaf.a[0], DC)
                    new = self.update(old, leaf.a[1:], x)
                    st.mem[leaf.a[0]] = ite(c, new, old)
                else:
                    self.effects.append(("store", self.span))
        elif r.op == "dc":
            pass
        else:
            self.effects.append(("store through an unknown reference", self.span))

    def cases(self, r, c=TRUE):
        if r.op == "ite":
            return self.cases(r.a[1], land(c, r.a[0])) + self.cases(r.a[2], land(c, lnot(r.a[0])))
        return [(c, r)]

    def update(self, v, ps, x):
        if not ps:
            return x
        p, rest = ps[0], ps[1:]
        if p.op == "pf":
            variant, i, tyn = p.a[0], p.a[1], p.a[2]
            n, name = p.a[3], p.a[4]

            def f(v):
                if v.op == "agg" and (variant is None or v.a[1] == variant):
                    fs = list(v.a[2:])
                    while len(fs) <= i:
                        fs.append(DC)
                    fs[i] = self.update(fs[i], rest, x)
                    return mk("agg", v.a[0], v.a[1], *fs)
                if v.op == "unk":
                    return v
                if v.op == "dc":
                    fs = [DC] * n
                    fs[i] = self.update(DC, rest, x)
                    return mk("agg", name, variant or 0, *fs)
                fs = [t.field(v, variant, j, tn) for j, tn in enumerate(p.a[5])]
                fs[i] = self.update(fs[i], rest, x)
                return mk("agg", name, variant or 0, *fs)
            if v.op == "ite":
                return ite(v.a[0], f(v.a[1]) if v.a[1].op != "ite" else self.update(v.a[1], ps, x),
                           f(v.a[2]) if v.a[2].op != "ite" else self.update(v.a[2], ps, x))
            return f(v)
        if p.op == "pi":
            i = p.a[0]
            if v.op == "agg" and v.a[0] == "array" and i.op == "int" and i.a[0] < len(v.a) - 2:
                fs = list(v.a[2:])
                fs[i.a[0]] = self.update(fs[i.a[0]], rest, x)
                return mk("agg", "array", 0, *fs)
            if v.op == "cat" and i.op == "int" and i.a[0] < len(v.a) and all(q.op == "one" for q in v.a[:i.a[0] + 1]):
                fs = list(v.a)
                fs[i.a[0]] = mk("one", self.update(fs[i.a[0]].a[0], rest, x))
                return t.cat(*fs)
            if v.op in ("dc", "unk"):
                return v if v.op == "unk" else unk("store at an index")
            return t.upd(v, i, self.update(t.index(v, i), rest, x) if rest else x)
        return unk("store")

    # ------------------------------------------------------------------ places

    def pf(self, tyi, variant, i):
        fs = self.ty.fields(tyi, variant) if tyi is not None else None
        if fs is None:
            return mk("pf", variant, i, "?", i + 1, "?", ())
        return mk("pf", variant, i, self.ty.name(fs[i][1]) if i < len(fs) and fs[i][1] is not None else "?",
                  len(fs), self.ty.aggname(tyi), tuple(self.ty.name(f[1]) if f[1] is not None else "?" for f in fs))

    def identity(self, tyi):
        tt = self.ty[tyi] if tyi is not None else None
        return tt is not None and tt["k"] == "adt" and tt["v"].split("::")[-1] in (
            "MaybeUninit", "ManuallyDrop", "MaybeDangling", "Box", "BoxRaw", "Unique", "NonNull", "UnsafeCell") \
            and not tt["local"]

    def walk(self, fr, st, place):
        """(base reference or None, value or None, type): the place as a reference where possible."""
        local, projs = place
        tyi = fr.fn.locals[local]
        cur = self.ref(fr.loc[local])
        variant = None
        for p in projs:
            k = p[0]
            if k == "d":
                cur = self.load(st, cur)
                e = self.ty[tyi] if tyi is not None else None
                if e is not None and e["k"] in ("ref", "ptr"):
                    tyi = e["e"]
                elif e is not None and e["k"] == "adt" and e["a"]:
                    tyi = e["a"][0]
                else:
                    tyi = None
                if cur.op not in ("ref", "vref", "ite", "dc", "unk"):
                    cur = mk("vref", cur)
                variant = None
            elif k == "v":
                variant = p[1]
            elif k == "f":
                if self.identity(tyi):
                    tyi = p[2]
                    # Box: reading the pointer inside leaves the reference as it is
                    variant = None
                    continue
                q = self.pf(tyi, variant, p[1])
                cur = self.extend(cur, q)
                tyi = p[2]
                variant = None
            elif k == "i":
                i = self.load(st, self.ref(fr.loc[p[1]]))
                cur = self.extend(cur, mk("pi", i))
                tyi = self.elem(tyi)
            elif k == "ci":
                if p[2]:
                    n = t.length(self.load(st, cur))
                    i = t.sub(n, I(p[1]))
                else:
                    i = I(p[1])
                cur = self.extend(cur, mk("pi", i))
                tyi = self.elem(tyi)
            elif k == "ss":
                v = self.load(st, cur)
                n = t.length(v)
                hi = t.sub(n, I(p[2])) if p[3] else I(p[2])
                cur = mk("vref", self.slice(v, I(p[1]), hi))
            else:
                pass
        return cur, tyi

    def slice(self, v, lo, hi):
        if lo.op == "int" and lo.a[0] == 0 and hi is t.length(v):
            return v
        if v.op == "agg" and v.a[0] == "array" and lo.op == "int" and hi.op == "int":
            return mk("agg", "array", 0, *v.a[2 + lo.a[0]:2 + hi.a[0]])
        return lift(lambda v, l, h: t.slice_of(v, l, h), v, lo, hi)

    def elem(self, tyi):
        if tyi is None:
            return None
        e = self.ty[tyi]
        return e.get("e") if e["k"] in ("slice", "array") else None

    def extend(self, r, p):
        def f(r):
            if r.op == "ref":
                return mk("ref", *(r.a + (p,)))
            if r.op == "vref":
                return mk("vref", self.proj(r.a[0], p))
            return r
        return lift(f, r)

    def read_place(self, fr, st, place):
        r, _ = self.walk(fr, st, place)
        return self.load(st, r)

    def write_place(self, fr, st, place, v):
        if not place[1]:
            st.mem[fr.loc[place[0]]] = v
            return
        r, _ = self.walk(fr, st, place)
        self.store(st, r, v)

    # ------------------------------------------------------------------ operands and constants

    def operand(self, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read_place(fr, st, o[1])
        if k == "c":
            return self.const(fr, st, o[1])
        return unk("operand %s" % k)

    def const(self, fr, st, c):
        k = c[0]
        if k == "int":
            return I(int(c[1]))
        if k == "bool":
            return t.B(c[1])
        if k == "str":
            return mk("vref", t.S(c[1]))
        if k == "array":
            return mk("agg", "array", 0, *[self.const(fr, st, x) for x in c[1]])
        if k == "tuple":
            return t.tup(*[self.const(fr, st, x) for x in c[1]])
        if k == "adt":
            return mk("agg", self.ty.aggname(c[1]), c[2] or 0, *[self.const(fr, st, x) for x in c[3]])
        if k == "ref":
            return mk("vref", self.const(fr, st, c[1]))
        if k == "zst":
            return self.zst(c[1])
        if k == "closure":
            return mk("agg", ("closure", c[1]), 0)
        if k == "fn":
            return self.fnitem(c[1])
        if k == "promoted":
            f = self.d.func(c[1])
            if f is None:
                return unk("promoted constant")
            v, _ = self.run_function(f, [], State({}, TRUE))
            return v if v is not None else unk("promoted constant")
        if k == "static":
            return unk("static %s" % c[1])
        if k == "named":
            return unk("constant %s" % c[1])
        return unk("constant %s" % (c[1:],))

    def zst(self, tyi):
        tt = self.ty[tyi] if isinstance(tyi, int) else None
        if tt and tt["k"] == "adt":
            return mk("agg", self.ty.aggname(tyi), 0)
        if tt and tt["k"] == "array":
            return mk("agg", "array", 0)
        return t.UNIT

    def fnitem(self, info):
        k = len(self.closures)
        key = info.get("i") or info.get("s")
        for j, x in self.closures.items():
            if x is info or x == info:
                return mk("fnitem", j)
        self.closures[k] = info
        return mk("fnitem", k)

    # ------------------------------------------------------------------ rvalues

    def rvalue(self, fr, st, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            r, tyi = self.walk(fr, st, rv[2])
            if rv[1]:
                return r if r.op != "vref" else r
            # shared: a snapshot, unless it is a tape or another place that is changed through shared references
            v = self.load(st, r)
            if v.op == "dc" and r.op == "ref":
                return r
            return mk("vref", v) if v.op != "ite" or True else v
        if k == "rawptr":
            r, _ = self.walk(fr, st, rv[-1])
            return r
        if k == "cast":
            v = self.operand(fr, st, rv[2])
            kind = rv[1]
            if kind == "int":
                to = self.ty.name(rv[4])
                if to in t.INTR:
                    src = self.ty[rv[3]]
                    if src["k"] == "adt":
                        v = self.discr_value(v, rv[3])
                    return arith(st.pc, lambda: t.cast(v, to))
                return unk("cast to %s" % to)
            if kind in ("transmute", "PtrToPtr", "BoxDerefTransmute") or kind.startswith("ptr") or kind.startswith("Ptr") or "nsize" in kind or "Reify" in kind or "ClosureFn" in kind:
                if kind == "transmute" and self.ty[rv[4]]["k"] == "int" and v.op in ("ref", "vref"):
                    return mk("prm", "address", "usize")
                return v
            return unk("cast %s" % kind)
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3]), self.ty.name(rv[4]), st.pc)
        if k == "un":
            v = self.operand(fr, st, rv[2])
            tn = self.ty.name(rv[3]) if len(rv) > 3 and rv[3] is not None else "?"
            if rv[1] == "Not":
                if tn == "bool" or v.op in ("bool",) or (v.op == "ite" and all(x.op == "bool" for x in t.leaves(v))):
                    return lnot(v)
                if tn in t.INTR:
                    lo, hi = t.INTR[tn]
                    return t.sub(I(hi if lo == 0 else -1), v)
                if v.op == "unk":
                    return v
                return unk("not")
            if rv[1] == "Neg":
                return t.neg(v)
            if rv[1] == "PtrMetadata":
                return t.length(self.load(st, v))
            return unk("unary %s" % rv[1])
        if k == "discr":
            v = self.read_place(fr, st, rv[1])
            _, tyi = self.walk(fr, st, rv[1])
            return self.discr_value(v, tyi)
        if k == "len":
            return t.length(self.read_place(fr, st, rv[1]))
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            try:
                n = int(rv[2])
            except (TypeError, ValueError):
                return unk("repeat")
            if n <= 64:
                return mk("agg", "array", 0, *([v] * n))
            return unk("repeat")
        if k == "agg":
            return self.aggregate(fr, st, rv)
        return unk("rvalue %s" % k)

    def aggregate(self, fr, st, rv):
        kind = rv[1]
        if kind == "tuple":
            return t.tup(*[self.operand(fr, st, o) for o in rv[3]])
        if kind == "array":
            return mk("agg", "array", 0, *[self.operand(fr, st, o) for o in rv[3]])
        if kind == "adt":
            ops = [self.operand(fr, st, o) for o in rv[3]]
            name = self.ty.aggname(rv[2])
            if len(rv) > 5 and rv[5] is not None:
                # union or single active field
                return ops[0]
            if name == "Error":
                return ERR
            if self.identity(rv[2]) and len(ops) == 1:
                return ops[0]
            return self.agg(name, rv[4] or 0, *ops)
        if kind == "closure":
            ops = [self.operand(fr, st, o) for o in rv[3]]
            return mk("agg", ("closure", rv[4]), 0, *ops)
        return unk("aggregate %s" % kind)

    def agg(self, name, variant, *fs):
        if name == "Result" and variant == 1:
            fs = tuple(ERR if f.op in ("error", "unk", "text") else f for f in fs)
        # not t.agg: a field that is never looked at may be unreachable
        if fs and all(f is DC for f in fs) and name in ("Option", "Result", "ControlFlow"):
            return DC
        return mk("agg", name, variant, *fs)

    def discr_value(self, v, tyi):
        d = t.discr(v)
        tt = self.ty[tyi] if tyi is not None else None
        if tt is not None and tt["k"] == "adt" and tt["kind"] == "enum":
            ds = [int(x["d"]) for x in tt["vs"]]
            if ds != list(range(len(ds))):
                def f(x):
                    if x.op == "int" and 0 <= x.a[0] < len(ds):
                        return I(ds[x.a[0]])
                    r = I(ds[-1])
                    for i in range(len(ds) - 1):
                        r = ite(t.eq(x, I(i)), I(ds[i]), r)
                    return r if len(ds) <= 64 else unk("discriminant")
                return lift(f, d)
        if tt is not None and tt["k"] == "int":
            return v
        if tt is not None and tt["k"] == "bool":
            return v
        return d

    def binop(self, op, a, b, tn, pc=TRUE):
        if a.op == "dc" or b.op == "dc":
            return DC
        if op in ("Eq", "Ne"):
            r = t.eq(a, b)
            return r if op == "Eq" else lnot(r)
        if tn in ("f32", "f64"):
            return unk("floating point")
        if op == "Lt":
            return t.lt(a, b) if tn != "bool" else land(lnot(a), b)
        if op == "Le":
            return t.le(a, b) if tn != "bool" else lor(lnot(a), b)
        if op == "Gt":
            return t.lt(b, a) if tn != "bool" else land(a, lnot(b))
        if op == "Ge":
            return t.le(b, a) if tn != "bool" else lor(a, lnot(b))
        if tn == "bool":
            if op == "BitAnd":
                return land(a, b)
            if op == "BitOr":
                return lor(a, b)
            if op == "BitXor":
                return ite(a, lnot(b), b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            v = {"A": t.add, "S": t.sub, "M": t.mul}[op[0]](a, b)
            if v.op == "unk":
                return mk("agg", "tuple", 0, v, v)
            return mk("agg", "tuple", 0, v, self.out_of(v, tn, pc))
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked"):
            v = {"A": t.add, "S": t.sub, "M": t.mul}[op[0]](a, b)
            return arith(pc, lambda: t.cast(v, tn)) if tn in t.INTR else v
        f = {"Div": t.div, "Rem": t.rem, "BitAnd": t.band, "BitOr": t.bor, "BitXor": t.bxor, "Shr": t.shr,
             "ShrUnchecked": t.shr}.get(op)
        if f is not None:
            return arith(pc, lambda: f(a, b))
        if op in ("Shl", "ShlUnchecked"):
            v = t.mul(a, powers(pc, b))
            return arith(pc, lambda: t.cast(v, tn)) if tn in t.INTR else v
        if op == "Cmp":
            return ite(t.lt(a, b), mk("agg", "Ordering", 0), ite(t.eq(a, b), mk("agg", "Ordering", 1), mk("agg", "Ordering", 2)))
        return unk("operator %s" % op)

    def out_of(self, v, tn, pc=TRUE):
        r = self.out_of_(v, tn)
        return r if r.op == "bool" else branch(r, pc) if pc is not TRUE else r

    def out_of_(self, v, tn):
        if tn not in t.INTR:
            return unk("overflow of %s" % tn)
        lo, hi = t.INTR[tn]

        def f(v):
            r = FALSE
            a, b = t.rng(v)
            if a < lo:
                r = lor(r, t.lt(v, I(lo)))
            if b > hi:
                r = lor(r, t.lt(I(hi), v))
            return r
        return lift(f, v)

    # ------------------------------------------------------------------ control flow

    def run_function(self, fn, args, st):
        """Result value and state (or None, None when the call never returns)."""
        if fn.key in self.stack:
            entry = self.entries[self.stack.index(fn.key)]
            now = {a: st.mem.get(a) for a in self.tapes}
            self.recursion.append((fn.key, list(self.stack), self.span, st.pc, now, entry))
            return unk("recursion into %s" % fn.key), st
        if len(self.stack) > 60 or fn.irreducible:
            return unk("call depth"), st
        self.stack.append(fn.key)
        del self.entries[len(self.stack) - 1:]
        self.entries.append({a: st.mem.get(a) for a in self.tapes})
        self.visited.add(fn.key)
        first = self.nalloc
        loc = {}
        for i in range(len(fn.locals)):
            loc[i] = self.alloc(st)
        last = self.nalloc
        fr = Frame(fn, loc)
        for i, a in enumerate(args):
            st.mem[loc[i + 1]] = a
        if len(args) != fn.argc:
            self.stack.pop()
            return unk("arity of %s" % fn.key), st
        out = self.run(fr, 0, st, frozenset([-1]))
        self.stack.pop()
        st = out.get(-1)
        if st is None:
            return None, None
        v = st.mem[loc[0]]
        for i in range(first + 1, last + 1):
            st.mem.pop(i, None)
        return v, st

    def merge(self, c, a, b):
        """State a under c, else state b."""
        if a is None:
            return b
        if b is None:
            return a
        mem = {}
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None:
                mem[k] = v
            elif w is v:
                mem[k] = v
            else:
                mem[k] = self.join(c, v, w)
        for k, w in b.mem.items():
            if k not in mem:
                mem[k] = w
        return State(mem, lor(a.pc, b.pc))

    def join(self, c, v, w):
        if v is DC:
            return w
        if w is DC:
            return v
        if v.op == "agg" and w.op == "agg" and v.a[:2] == w.a[:2] and len(v.a) == len(w.a):
            return mk("agg", v.a[0], v.a[1], *[x if x is y else self.join(c, x, y) for x, y in zip(v.a[2:], w.a[2:])])
        return ite(c, v, w)

    def put_state(self, acc, b, st):
        old = acc.get(b)
        if old is None:
            acc[b] = st
        else:
            acc[b] = self.merge(constrain(st.pc, lor(st.pc, old.pc)), st, old)

    def run(self, fr, b, st, stops, header=None):
        """The states reaching the blocks in stops from block b: blocks in topological order, states joined
        where they meet, loops taken as a whole at their headers."""
        fn = fr.fn
        acc, pend = {}, {b: st}
        first = header == b
        while pend:
            b = min(pend, key=lambda x: fn.order[x])
            st = pend.pop(b)
            self.steps += 1
            if self.steps > self.limit:
                raise Budget()
            if b in fn.loops and not first:
                outs = list(self.loop(fr, b, st).items())
            else:
                outs = self.block(fr, b, st, stops)
            first = False
            for k, s in outs:
                self.put_state(acc if k in stops else pend, k, s)
        return acc

    def block(self, fr, b, st, stops):
        """[(block, state)] after one block."""
        fn = fr.fn
        blk = fn.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                if len(s) > 3:
                    self.span = s[3]
                v = self.rvalue(fr, st, s[2], s[1])
                self.write_place(fr, st, s[1], v)
            elif s[0] == "setd":
                v = self.read_place(fr, st, s[1])
                if v.op == "agg":
                    self.write_place(fr, st, s[1], mk("agg", self.ty.aggname(s[3]), s[2], *v.a[2:]))
                else:
                    self.write_place(fr, st, s[1], mk("agg", self.ty.aggname(s[3]), s[2]))
        tm = blk["t"]
        k = tm[0]
        if k == "goto":
            return [(tm[1], st)]
        if k == "drop":
            return [(tm[2], st)] if tm[2] is not None else []
        if k == "return":
            return [(-1, st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "assert":
            self.span = tm[5]
            if tm[3].startswith(("Misaligned", "NullPointer", "InvalidEnum")):
                return [(tm[4], st)]
            c = self.operand(fr, st, tm[1])
            if not tm[2]:
                c = lnot(c)
            c = self.require(st, c, tm[3], tm[5])
            return [] if c is FALSE else [(tm[4], st)]
        if k == "call":
            self.span = tm[5]
            self.path.append((fn.key, b))
            try:
                r = self.call(fr, st, tm)
            finally:
                self.path.pop()
            if r is None or tm[4] is None:
                return []
            return [(tm[4], r)]
        if k != "switch":
            return []
        v = self.operand(fr, st, tm[1])
        isb = self.ty.name(tm[4]) == "bool"
        if v.op == "dc":
            return []
        if isb:
            v = self.definite(v)
        if len(tm[2]) >= 12 and not isb and v.op not in ("int", "ite", "unk") and not v.unk:
            return self.wide(fr, b, st, stops, v, tm)
        byt = {}
        rest = TRUE
        for val, tgt in tm[2]:
            if isb:
                c = lnot(v) if int(val) == 0 else v
            else:
                # parts of an unknown value share its name: what one switch learns says nothing to another
                c = t.lift(lambda x: t.W(mk("eq", mk("unk", (x.a[0], fr.fn.key, b), x.a[1]), I(int(val))))
                           if x.op == "unk" else t.eq(x, I(int(val))), v)
            c = land(rest, c)
            rest = land(rest, lnot(c))
            byt[tgt] = lor(byt[tgt], c) if tgt in byt else c
        if tm[3] is not None:
            byt[tm[3]] = lor(byt[tm[3]], rest) if tm[3] in byt else rest
        lst = []
        for tgt, c in byt.items():
            c = branch(c, st.pc)
            if c is FALSE:
                continue
            if c is TRUE:
                return [(tgt, st)]
            lst.append((tgt, State(dict(st.mem), land(st.pc, c))))
        return lst

    def wide(self, fr, b, st, stops, v, tm):
        """A switch with many targets: one arm at a time up to where they meet, joined from the last to the first."""
        fn = fr.fn
        to = stops | {fn.ipdom.get(b, -1)}
        todo = [(t.eq(v, I(int(val))), tgt) for val, tgt in tm[2]]
        rest = TRUE
        for c, _ in reversed(todo):
            rest = ite(c, FALSE, rest)
        if tm[3] is not None:
            todo.append((rest, tm[3]))
        acc, pcs, whole = {}, {}, True
        for c, tgt in reversed(todo):
            pc = land(st.pc, c)
            if pc is FALSE or fn.blocks[tgt]["t"][0] == "unreachable":
                continue
            outs = self.run(fr, tgt, State(dict(st.mem), pc), to)
            whole = whole and len(outs) == 1 and all(s.pc is pc for s in outs.values())
            for k, s in outs.items():
                pcs.setdefault(k, []).append(s.pc)
                s.pc = FALSE
                acc[k] = self.merge(c, s, acc.get(k))
        for k, s in acc.items():
            if whole and len(acc) == 1:
                s.pc = st.pc
            else:
                for p in pcs[k]:
                    s.pc = lor(p, s.pc)
        return list(acc.items())

    def definite(self, v):
        """A condition with its unknown cases as conditions of their own."""
        if v.op == "unk":
            return t.W(mk("eq", v, TRUE))
        if v.op == "ite" and v.unk and any(x.op == "unk" for x in t.leaves(v)):
            return ite(v.a[0], self.definite(v.a[1]), self.definite(v.a[2]))
        return v

    def require(self, st, c, kind, span):
        """An obligation: c must hold here.  Continues under c."""
        c2 = branch(c, st.pc)
        if not self.quiet:
            o = Oblig()
            o.kind, o.cond, o.pc, o.span, o.fn = kind, c2, st.pc, span, self.stack[-1] if self.stack else "?"
            o.status = "proved" if c2 is TRUE else "unknown" if c2.unk else "open"
            o.why = None
            self.obligs.append(o)
        if c2 is FALSE:
            return FALSE
        if c2 is not TRUE and not c2.op == "unk" and c2 is not DC:
            st.pc = land(st.pc, c2)
        return TRUE

    # ------------------------------------------------------------------ loops

    def loop(self, fr, h, st):
        fn = fr.fn
        body = fn.loops[h]
        exits = set()
        for b in body:
            for x in fn.s[b]:
                if x not in body:
                    exits.add(x)
        stops = frozenset(exits | {h})

        def go(s):
            outs = self.run(fr, h, s, stops, header=h)
            back = outs.pop(h, None)
            return back, outs
        return self.summarise(st, go, "%s:%s" % (fn.key, h))

    def summarise(self, st, go, name, allow_unroll=True):
        base = st
        P = st.pc
        ev, ob = len(self.events), len(self.obligs)
        self.quiet += 1
        try:
            phis = {}       # (alloc, path) -> phi
            for rnd in range(8):
                s = State(dict(base.mem), P)
                for (a, path), ph in phis.items():
                    s.mem[a] = self.put(s.mem[a], path, ph)
                cur = dict(s.mem)
                back, outs = go(s)
                del self.events[ev:]
                if back is None:
                    break
                new = False
                for a in list(base.mem):
                    v, w = cur.get(a), back.mem.get(a)
                    if w is not None and v is not w:
                        for path in self.diff(v, w, ()):
                            if (a, path) not in phis and not any(a == a2 and path[:len(q)] == q for (a2, q) in phis):
                                phis = {k: p for k, p in phis.items() if not (k[0] == a and k[1][:len(path)] == path)}
                                self.nphi = getattr(self, "nphi", 0) + 1
                                phis[(a, path)] = mk("phi", self.nphi)
                                new = True
                if not new:
                    break
            turn = back
            if back is not None:
                n, ix, solved, unsolved = self.solve(base, phis, back, P)
        finally:
            self.quiet -= 1
        if back is None:
            s = st.copy()
            b2, outs = go(s)
            return outs
        # definite pass: loop-carried values as functions of the index
        result = None
        for attempt in range(2):
            del self.events[ev:]
            del self.obligs[ob:]
            s = State(dict(base.mem), P)
            for (a, path), ph in phis.items():
                s.mem[a] = self.put(s.mem[a], path, solved[(a, path)])
            cur = dict(s.mem)
            if attempt == 0:
                self.quiet += 1
            try:
                back, outs = go(s)
            finally:
                if attempt == 0:
                    self.quiet -= 1
            if back is None:
                if attempt == 0 and not unsolved:
                    # not a single turn
                    del self.events[ev:]
                    del self.obligs[ob:]
                    b2, outs = go(State(dict(base.mem), P))
                    if b2 is None:
                        return outs
                break
            n, A, apol = self.trip(back, outs, ix, P)
            if n is None:
                break
            if attempt == 0:
                if n.op == "int" and n.a[0] <= 64 and allow_unroll:
                    return self.unroll(base, go, n.a[0], ev, ob)
                hi = t.rng(n)[1]
                if hi != t.INF and hi - 1 < ix.a[1]:
                    ix2 = t.fresh_ix(max(0, int(hi) - 1))
                    for v in solved.values():
                        if v in self.steps_of:
                            self.steps_of[t.subst(v, {ix: ix2})] = self.steps_of[v]
                        if v in self.filled:
                            self.filled[t.subst(v, {ix: ix2})] = (self.filled[v][0], ix2)
                    solved = {k: t.subst(v, {ix: ix2}) for k, v in solved.items()}
                    ix = ix2
        bad = False
        if back is not None:
            for (a, path), ph in phis.items():
                want = t.subst(solved[(a, path)], {ix: t.add(ix, I(1))})
                got = self.get(back.mem.get(a, DC), path)
                if want.unk:
                    continue
                if self.conditional_equal(want, got, back.pc):
                    continue
                was = solved[(a, path)]
                if was in self.steps_of:
                    q, step, jx = self.steps_of[was]
                    if self.conditional_equal(t.subst(step, {q: was, jx: ix}), got, back.pc):
                        continue
                if was in self.filled and self.filled[was][1] is ix:
                    at = t.add(self.filled[was][0], ix)
                    if all(x is was or x.op == "upd" and x.a[0] is was and x.a[1] is at for x in t.leaves(got)) \
                            and self.conditional_equal(t.index(want, at), lift(lambda x: t.index(was, at) if x is was else x.a[2], got), back.pc):
                        continue
                r = {}
                for x in t.subterms(want):
                    if x.op == "sum" and x.a[0] is t.add(ix, I(1)):
                        r[x] = t.add(mk("sum", ix, x.a[1]), t.subst(x.a[1], {t.bv(x.h): ix}))
                    if x.op == "flat" and x.a[0] is t.add(ix, I(1)):
                        r[x] = t.lift(lambda y: t.cat(mk("flat", ix, x.a[1]), y), t.subst(x.a[1], {t.bv(x.h): ix}))
                if r and self.conditional_equal(t.subst(want, r), got, back.pc):
                    continue
                unsolved = True
                solved[(a, path)] = unk("loop-carried value")
                bad = True
        if turn is not None and (back is None or n is None or bad) and self.splits < 3:
            # a choice made before the loop
            for A in t.atoms(given(turn.pc, P)):
                if A.unk or A.op not in ("gt0", "eq") or any(p in A.fv for p in phis.values()):
                    continue
                yes, no = land(P, A), land(P, lnot(A))
                if yes is FALSE or no is FALSE or t.facts_of(yes).dead or t.facts_of(no).dead:
                    continue
                del self.events[ev:]
                del self.obligs[ob:]
                self.splits += 1
                try:
                    a = self.summarise(State({k: settled(v, yes) for k, v in base.mem.items()}, yes), go, name, allow_unroll)
                    b = self.summarise(State({k: settled(v, no) for k, v in base.mem.items()}, no), go, name, allow_unroll)
                finally:
                    self.splits -= 1
                for k, o in b.items():
                    a[k] = self.merge(o.pc, o, a.get(k))
                return a
        if t.PINS and (back is None or n is None or bad):
            # with some lengths given, there may be an end
            r = self.unroll(base, go, 12, ev, ob, True)
            if r is not None:
                self.loops_seen[name] = "unrolled"
                return r
        if back is None or n is None or bad:
            # not understood: values changed by the loop are unknown afterwards
            del self.events[ev:]
            del self.obligs[ob:]
            self.loops_seen[name] = "unknown"
            if turn is not None:
                self.turning(name, phis, turn, base)
            s = State(dict(base.mem), P)
            for (a, path), ph in phis.items():
                s.mem[a] = self.put(s.mem[a], path, unk("loop-carried value"))
            back, outs = go(s)
            if bad and n is not None and back is not None:
                n2, A2, apol2 = self.trip(back, outs, ix, P)
                if n2 is not None and n2 is n and not n2.unk:
                    self.loops_seen[name] = "counted"
                    return self.finish(base, outs, back, ix, n2, A2, apol2, P, ev)
            res = {}
            left = P
            for i, (k, o) in enumerate(outs.items()):
                c = TRUE if i == len(outs) - 1 else t.W(mk("eq", unk("way out of a loop"), I(1)))
                o.pc = land(left, c)
                left = land(left, lnot(c))
                res[k] = o
            return res
        self.loops_seen[name] = "counted"
        return self.finish(base, outs, back, ix, n, A, apol, P, ev)

    def turning(self, name, phis, back, base):
        """A loop without a count: can a turn leave everything as it was, or go back to anywhere on the tape?"""
        if self.quiet:
            return
        now = {p: self.get(back.mem.get(a, DC), path) for (a, path), p in phis.items()}
        cont = back.pc
        # counters of a known width
        m = {}
        for (a, path), p in phis.items():
            b, v = now[p], self.get(base.mem.get(a, DC), path)
            ty = b.a[0] if b.op in ("cast", "rd") else None
            if ty in t.INTR and t.INTR[ty][0] == 0 and all(z.op == "int" or z.op == "rd" and z.a[0] == ty for z in t.leaves(given(v, base.pc))):
                m[p] = t.fresh_ix(t.INTR[ty][1])
        if m:
            phis = {k: m.get(p, p) for k, p in phis.items()}
            now = {m.get(p, p): t.subst(b, m) for p, b in now.items()}
            cont = t.subst(cont, m)
        # what going on depends on
        deps = {p for p in now if p in cont.fv}
        deps |= {p for (a, path), p in phis.items() if a in self.tapes and any(p in b.fv for b in now.values())}
        for _ in range(len(now)):
            deps |= {q for p in list(deps) for q in now if q in now[p].fv}
        # a step towards a bound which stays where it is
        ends = cont.unk
        for p in deps:
            b = now[p]
            if b.unk or not all(t.sub(x, p).op == "int" and t.sub(x, p).a[0] >= 1 for x in t.leaves(given(b, cont))):
                continue
            for A in t.atoms(cont):
                if A.op == "gt0" and p in A.fv:
                    for pol in (True, False):
                        if land(cont, lnot(A) if pol else A) is FALSE:
                            n = self.bound(A, pol, p)
                            ends = ends or n is not None and not any(q in n.fv for q in now)
        same = cont
        for (a, path), p in phis.items():
            b = now[p]
            if p in deps:
                same = land(same, lift(lambda x: stays(x, p), b))
            if a in self.tapes and not b.unk and not ends:
                for x in t.leaves(given(b, cont)):
                    d = t.sub(x, p)
                    if d.op == "int" and d.a[0] >= 0 or p not in d.fv and t.rng(d)[0] >= 0:
                        continue
                    c, terms = t._lin(x)
                    if terms.get(p) != 1 and any(z.op == "rd" for z in t.subterms(x)):
                        self.wild.append((name, self.span, "follows positions found on the tape without a bound"))
                        break
        if same is not FALSE and not same.unk and not t.facts_of(same).dead:
            self.wild.append((name, self.span, "repeats without any progress (when %s)" % t.show(same)[:160]))
        for p in deps:
            # a counter that starts over before the bound
            b = now[p]
            if b.op == "cast" and b.a[0] in t.INTR and t.sub(b.a[1], p).op == "int":
                hi = t.INTR[b.a[0]][1]
                for A in t.atoms(cont):
                    if A.op != "gt0" or p not in A.fv:
                        continue
                    for pol in (True, False):
                        if land(cont, lnot(A) if pol else A) is not FALSE:
                            continue
                        n = self.bound(A, pol, p)
                        if n is None or n.unk:
                            continue
                        far = land(cont, t.lt(I(hi), n))
                        if far is not FALSE and not far.unk and not t.facts_of(far).dead:
                            self.wild.append((name, self.span, "counts to %s with a counter that starts over after %d" % (t.show(n)[:80], hi)))

    def conditional_equal(self, want, got, pc):
        if want is got:
            return True
        return given(want, pc) is given(got, pc) or constrain(want, pc) is constrain(got, pc)

    def finish(self, base, outs, back, ix, n, A, apol, P, ev):
        cont = given(t.restrict(given(back.pc, P), A, apol), P)
        cont_ok = cont
        E = lnot(cont)
        noE = t.forall(n, ix, cont) if ix in cont.fv or cont.op != "bool" else (TRUE if cont is TRUE else t.eq(n, I(0)))
        j = None
        if E is not FALSE:
            j = t.lift(lambda m: t.first(m, ix, E), n) if not E.unk else unk("first")
        res = {}
        for k, o in outs.items():
            pc = given(o.pc, P)
            # part that leaves because the count is reached
            pn = t.restrict(pc, A, not apol)
            pe = t.restrict(pc, A, apol)
            sn = se = None
            if pn is not FALSE:
                mem = {a: t.subst(t.restrict(v, A, not apol), {ix: n}) if ix in v.fv else v for a, v in o.mem.items()}
                pn2 = t.subst(pn, {ix: n})
                sn = State(mem, land(P, land(noE, pn2)))
            if pe is not FALSE and E is not FALSE:
                if ix in pe.fv and j is not None:
                    pe2 = t.subst(pe, {ix: j})
                    if self.partly:
                        pe2 = constrain(pe2, t.subst(E, {ix: j}))
                else:
                    pe2 = pe
                mem = {}
                for a, v in o.mem.items():
                    if ix in v.fv or A in t.atoms(v):
                        v = t.restrict(v, A, apol)
                        if ix in v.fv:
                            v = t.subst(v, {ix: j})
                            v = constrain(v, t.subst(E, {ix: j})) if self.partly else v
                    mem[a] = v
                se = State(mem, land(P, land(lnot(noE), pe2)))
            if sn is not None and se is not None:
                res[k] = self.merge(noE, sn, se)
            elif sn is not None:
                res[k] = sn
            elif se is not None and se.pc is not FALSE:
                res[k] = se
        # operations inside the loop, for some iteration
        for e in self.events[ev:]:
            pcr = given(e.pc, P)
            if ix in pcr.fv or ix in e.addr.fv or True:
                body = lnot(t.restrict(pcr, A, apol))
                last = ite(noE, n, lift(lambda x: t.add(x, I(1)), j)) if j is not None else n
                def some(pc, m):
                    b = lnot(t.restrict(given(pc, P), A, apol))
                    return land(P, lnot(t.lift(lambda m: t.forall(m, ix, b), m) if b.op != "bool" else (TRUE if b is TRUE else t.eq(m, I(0)))))
                e.bad = some(e.bad, n)
                e.reach = some(e.reach, last)
                e.turns = True
                e.pc = land(P, lnot(t.forall(n, ix, body) if body.op != "bool" else (TRUE if body is TRUE else t.eq(n, I(0)))))
                if ix in e.addr.fv or ix in (e.prm.fv if e.prm is not None else ()) or (e.n is not None and ix in e.n.fv):
                    e.addr = t.subst(e.addr, {ix: mk("any", n)})
                    e.prm = t.subst(e.prm, {ix: mk("any", n)}) if e.prm is not None else None
                    e.n = t.subst(e.n, {ix: mk("any", n)}) if e.n is not None else None
        return res

    def unroll(self, base, go, n, ev, ob, whole=False):
        del self.events[ev:]
        del self.obligs[ob:]
        res = {}
        s = State(dict(base.mem), base.pc)
        for k in range(n + 2):
            back, outs = go(s)
            for key, o in outs.items():
                res[key] = self.merge(o.pc, o, res.get(key))
            if back is None or t.facts_of(back.pc).dead:
                return res
            s = back
        return None if whole else res

    def put(self, v, path, x):
        if not path:
            return x
        i = path[0]
        fs = list(v.a[2:])
        fs[i] = self.put(fs[i], path[1:], x)
        return mk("agg", v.a[0], v.a[1], *fs)

    def get(self, v, path):
        for i in path:
            if v.op != "agg" or len(v.a) <= 2 + i:
                return unk("shape")
            v = v.a[2 + i]
        return v

    def diff(self, v, w, path):
        if v is w:
            return []
        if v is not None and v.op == "agg" and w.op == "agg" and v.a[:2] == w.a[:2] and len(v.a) == len(w.a) and v.a[0] not in ("Option", "Result", "ControlFlow"):
            r = []
            for i in range(len(v.a) - 2):
                r += self.diff(v.a[2 + i], w.a[2 + i], path + (i,))
            return r
        return [path]

    def solve(self, base, phis, back, P):
        ix = t.fresh_ix()
        solved = {}
        by = {p: k for k, p in phis.items()}
        pend = {}
        for k, p in phis.items():
            init = self.get(base.mem[k[0]], k[1])
            b = self.get(back.mem.get(k[0], DC), k[1])
            b = given(b, back.pc)
            pend[k] = (p, init, b)
        progress = True
        sub = {}
        while pend and progress:
            progress = False
            for k in list(pend):
                p, init, b = pend[k]
                b = t.subst(b, sub) if sub else b
                r = self.recur(p, init, b, ix)
                if r is not None:
                    solved[k] = r
                    sub[p] = r
                    if r.op == "vref":
                        sub[mk("vref", p)] = r
                    del pend[k]
                    progress = True
        for k in pend:
            solved[k] = unk("loop-carried value")
        return None, ix, solved, bool(pend)

    def recur(self, p, init, b, ix):
        """p(0) = init, p(i + 1) = b(p(i), i)"""
        if b is p:
            return init
        phis = [x for x in b.fv if x.op == "phi"]
        if not phis:
            if ix in b.fv:
                b = t.subst(b, {ix: t.sub(ix, I(1))})
            return b if init is DC or init is b else ite(t.eq(ix, I(0)), init, b)
        if phis != [p]:
            return None
        if b.op == "vref" and b.a[0].op == "slice" and b.a[0].a[0] is p and init.op == "vref" and not init.unk:
            # less and less of a slice
            v, (_, lo, hi) = init.a[0], b.a[0].a
            n = mk("len", p)
            hi = t.sub(n, hi)
            if lo.op == "int" and hi.op == "int" and lo.a[0] >= 0 and hi.a[0] >= 0:
                return mk("vref", self.slice(v, t.mul(ix, lo), t.sub(t.length(v), t.mul(ix, hi))))
            return None
        if b.op in ("cat",):
            if b.a[0] is p or (b.a and b.a[0].op == "cat"):
                tail = b.a[1:]
                if len(tail) == 1 and tail[0].op == "one" and p not in tail[0].fv:
                    m = t.vmap(ix, ix, tail[0].a[0])
                    return t.cat(*(list(t.parts(init)) + [m])) if init is not t.cat() else m
                if not any(p in y.fv for y in tail):
                    k = t.fresh_ix()
                    return t.cat(*(list(t.parts(init)) + list(t.parts(t.flat(ix, k, t.subst(t.cat(*tail), {ix: k}))))))
            return None
        if b.op == "ite" and not b.unk:
            # an element replaced in some turns only
            ls = list(t.leaves(b))
            at = {x.a[1] for x in ls if x.op == "upd" and x.a[0] is p}
            if len(at) == 1 and all(x is p or x.op == "upd" and x.a[0] is p for x in ls):
                at = at.pop()
                r = self.recur(p, init, mk("upd", p, at, lift(lambda x: t.index(p, at) if x is p else x.a[2], b)), ix)
                if r is not None:
                    return r
            # the greatest or the least so far
            r = self.utmost(p, init, b, ix)
            if r is not None:
                return r
            # in some turns only
            if any(p in c.fv for c in t.atoms(b)):
                return self.foremost(p, init, b, ix)
            ls = list(t.leaves(b))
            if any(x is p for x in ls) and all(x is p or p not in x.fv for x in ls):
                return self.latest(p, init, b, ix)
            if all(x is p or x.op == "cat" and x.a and x.a[0] is p and not any(p in y.fv for y in x.a[1:]) for x in ls):
                k = t.fresh_ix()
                more = lift(lambda x: t.cat() if x is p else t.cat(*x.a[1:]), b)
                return t.cat(*(list(t.parts(init)) + list(t.parts(t.flat(ix, k, t.subst(more, {ix: k}))))))
            if all(t._isnum(x) for x in ls):
                d = t.sub(b, p)
                if not d.unk and p not in d.fv:
                    k = t.fresh_ix()
                    return t.add(init, t.summ(ix, k, t.subst(d, {ix: k})))
            return None
        if b.op == "upd" and b.a[0] is p and not b.a[1].unk and not b.a[2].unk:
            # filled in from some place on
            lo = t.sub(b.a[1], ix)
            if ix in lo.fv or p in lo.fv or init.unk or init is DC:
                return None
            x = b.a[2]
            if p in x.fv:
                # what has not been replaced yet is still as it was
                x = t.subst(x, {z: t.index(init, z.a[1]) for z in t.subterms(x) if z.op == "idx" and z.a[0] is p
                                and not p.fv & z.a[1].fv and (t.rng(t.sub(z.a[1], b.a[1]))[0] >= 0 or t.rng(t.sub(lo, z.a[1]))[0] > 0)})
            if p in x.fv:
                return None
            k = t.fresh_ix()
            r = t.vmap(t.length(init), k, ite(land(t.le(lo, k), t.lt(k, t.add(lo, ix))),
                                              t.subst(x, {ix: t.sub(k, lo)}), t.index(init, k)))
            self.filled[r] = (lo, ix)
            return r
        if b.op in ("lin", "phi") or t._isnum(b):
            d = t.sub(b, p)
            if d.op == "unk":
                return None
            if p not in d.fv:
                if ix not in d.fv:
                    return t.add(init, t.mul(ix, d))
                k = t.fresh_ix()
                return t.add(init, t.summ(ix, k, t.subst(d, {ix: k})))
            if d.op == "size" and d.a[1] is p and p not in d.a[2].fv and ix not in d.a[2].fv:
                return t.add(init, t.seqsize(d.a[0], init, ix, d.a[2]))
        return None

    def latest(self, p, init, b, ix):
        """b replaces p in some turns: what it was replaced with in the last one of them."""
        c = lift(lambda x: FALSE if x is p else TRUE, b)
        if c.op == "bool" or c.unk or ix not in c.fv:
            return None
        x = lift(lambda z: DC if z is p else z, b)
        if p in x.fv or x.unk:
            return None
        k = t.fresh_ix()
        back = t.subst(c, {ix: t.sub(t.sub(ix, I(1)), k)})
        j = t.sub(t.sub(ix, I(1)), t.first(ix, k, back))
        r = ite(t.forall(ix, k, lnot(t.subst(c, {ix: k}))), init, t.subst(x, {ix: j}))
        self.steps_of[r] = (p, b, ix)
        return r

    def foremost(self, p, init, b, ix):
        """b replaces p once, while it is still what it was at first."""
        y = t.subst(b, {p: init})
        if y.unk or p in y.fv or init is DC or init.unk:
            return None
        c = lift(lambda x: FALSE if x is init else TRUE, y)
        if c.op == "bool" or c.unk or ix not in c.fv:
            return None
        x = lift(lambda z: DC if z is init else z, y)
        # nothing replaces what it was replaced with
        if x.unk or given(t.subst(b, {p: x, ix: t.fresh_ix()}), c) is not x:
            return None
        k = t.fresh_ix()
        j = t.first(ix, k, t.subst(c, {ix: k}))
        r = ite(t.forall(ix, k, lnot(t.subst(c, {ix: k}))), init, t.subst(x, {ix: j}))
        self.steps_of[r] = (p, b, ix)
        return r

    def utmost(self, p, init, b, ix):
        """b is whichever is greater, or less, of p and something else."""
        c, x, y = b.a
        if c.op != "gt0" or (x is p) == (y is p) or init.op != "int":
            return None
        x, y = (y, x) if x is p else (x, y)
        swap = x is b.a[2]
        if x.unk or x.op == "ite" or p in x.fv or not t._isnum(x) or ix not in x.fv:
            return None
        d = t.sub(x, p)
        # x is taken when c holds (or does not, when swapped)
        k = t.fresh_ix()
        e = t.subst(x, {ix: k})
        if c.a[0] in ((t.neg(d), t.add(t.neg(d), I(1))) if swap else (d, t.add(d, I(1)))):
            if t.rng(x)[0] < init.a[0]:
                return None
            m = t.most(ix, k, e)
        elif c.a[0] in ((d, t.add(d, I(1))) if swap else (t.neg(d), t.add(t.neg(d), I(1)))):
            if t.rng(x)[1] > init.a[0]:
                return None
            m = t.neg(t.most(ix, k, t.neg(e)))
        else:
            return None
        r = ite(t.gt0(ix), m, init)
        self.steps_of[r] = (p, b, ix)
        return r

    def trip(self, back, outs, ix, P):
        """The number of iterations from a necessary condition of going on that compares the index with a bound."""
        cont = given(back.pc, P)
        cands = []
        for A in t.atoms(cont):
            if A.op == "gt0" or A.op == "eq":
                if ix not in A.fv:
                    continue
                for pol in (True, False):
                    if land(cont, A if not pol else lnot(A)) is not FALSE:
                        continue
                    n = self.bound(A, pol, ix)
                    if n is not None:
                        cands.append((n, A, pol))
        if not cands:
            return None, None, None

        def least(n):
            # no fewer than none
            if n.unk or t.rng(n)[0] >= 0:
                return n
            c = branch(t.gt0(n), P)
            return n if c is TRUE or c.unk else ite(c, n, I(0))
        cands = [(least(n), A, pol) for n, A, pol in cands]
        # several bounds: the first that is not an early exit by itself
        cands.sort(key=lambda x: x[1].id)
        if len(cands) == 1:
            return cands[0]
        # several bounds: the one that never lies beyond another
        for n, A, pol in cands:
            if all(m is n or t.rng(n)[1] <= t.rng(m)[0] for m, _, _ in cands):
                return n, A, pol
        return None, None, None

    def bound(self, A, pol, ix):
        x = A.a[0]
        if A.op == "eq":
            if pol:
                return None
            x = t.sub(A.a[0], A.a[1])
        c, d = t._lin(x)
        k = d.pop(ix, 0)
        if any(ix in y.fv for y in d):
            return None
        r = t._mklin(c, d)
        if A.op == "eq":
            # i != n with unit steps
            if k == -1:
                return r
            if k == 1:
                return t.neg(r)
            return None
        if pol and k < 0:
            # r - |k| i > 0
            m = -k
            return r if m == 1 else t.div(t.add(r, I(m - 1)), I(m))
        if not pol and k > 0:
            # r + k i <= 0
            u = t.neg(r)
            v = u if k == 1 else t.div(u, I(k))
            return t.add(v, I(1))
        return None

    # ------------------------------------------------------------------ calls

    def call(self, fr, st, tm):
        """Perform the call; returns the state afterwards or None."""
        f, args, dest, target, span, dty = tm[1], tm[2], tm[3], tm[4], tm[5], tm[6]
        vals = [self.operand(fr, st, a) for a in args]
        if f[0] != "c" or f[1][0] != "fn":
            fv = self.operand(fr, st, f)
            v, st2 = self.apply(st, fv, vals, dty)
        else:
            info = f[1][1]
            v, st2 = self.invoke(st, info, vals, dty)
        if st2 is None:
            return None
        if v is None:
            return None
        self.write_place(fr, st2, dest, v)
        return st2

    def invoke(self, st, info, vals, dty):
        import models
        if info.get("ctor"):
            c = info["ctor"]
            return self.agg(self.ty.aggname(c[0]), c[1] or 0, *vals), st
        r = models.call(self, st, info, vals, dty)
        if r is not None:
            return r
        key = info.get("i")
        fn = self.d.func(key) if key else None
        if fn is not None:
            return self.run_function(fn, vals, st)
        name = info.get("r") or info["p"]
        self.unknown_calls.setdefault(info["s"], self.span)
        self.havoc(st, vals)
        return unk("call of %s" % info["s"]), st

    def havoc(self, st, vals):
        for v in vals:
            for r in self.refs(v):
                st.mem[r.a[0]] = self.update_unknown(st.mem.get(r.a[0], DC), r.a[1:])

    def update_unknown(self, v, ps):
        return unk("changed by an unknown call")

    def refs(self, v, out=None, seen=None):
        out = [] if out is None else out
        if v.op == "ref":
            out.append(v)
        elif v.op == "agg" or v.op == "ite" or v.op == "vref":
            for x in v.a:
                if isinstance(x, T):
                    self.refs(x, out)
        return out

    def apply(self, st, f, vals, dty=None):
        """Call a closure or function value."""
        byref = None
        g = f
        while g.op in ("ref", "vref"):
            if g.op == "ref":
                byref = g
            g = self.load(st, g)
        if g.op == "ite":
            c = g.a[0]
            s1, s2 = State(dict(st.mem), land(st.pc, c)), State(dict(st.mem), land(st.pc, lnot(c)))
            v1, s1 = self.apply(s1, g.a[1], vals, dty)
            v2, s2 = self.apply(s2, g.a[2], vals, dty)
            if s1 is None:
                return v2, s2
            if s2 is None:
                return v1, s1
            return ite(c, v1, v2), self.merge(c, s1, s2)
        if g.op == "agg" and g.a[0] == "native.read":
            import models
            return models.tape_read(self, st, g.a[2].a[0], g.a[3].a[0], None, False)
        if g.op == "fnitem":
            return self.invoke(st, self.closures[g.a[0]], vals, dty)
        if g.op == "agg" and isinstance(g.a[0], tuple) and g.a[0][0] == "closure":
            fn = self.d.func(g.a[0][1])
            if fn is None:
                self.havoc(st, vals + [g])
                return unk("closure"), st
            k = self.ty[fn.locals[1]]["k"]
            if k in ("ref", "ptr"):
                if byref is None:
                    a = self.alloc(st, g)
                    byref = self.ref(a)
                self_ = byref
            else:
                self_ = g
            args = [self_] + list(vals)
            if fn.argc != len(args):
                return unk("closure arity"), st
            return self.run_function(fn, args, st)
        self.havoc(st, vals + [g])
        return unk("call of an unknown function value"), st

    # ------------------------------------------------------------------ the tape

    def tape_of(self, st, r):
        """Allocation of the tape behind a reference."""
        n = 0
        while r.op in ("ref", "vref") and n < 8:
            n += 1
            if r.op == "ref" and len(r.a) == 1 and r.a[0] in self.tapes:
                return r.a[0]
            r = self.load(st, r)
        return None

    def new_site(self, kind, ty, addr, prm, n, st):
        e = Event()
        e.site = (tuple(self.path), kind, ty)
        e.kind, e.ty, e.addr, e.prm, e.n, e.pc, e.span = kind, ty, addr, prm, n, st.pc, self.span
        e.reach = st.pc
        e.fn = self.stack[-1] if self.stack else "?"
        if not self.quiet:
            self.events.append(e)
        e.ok = TRUE if self.fail is None or e.site != self.fail else FALSE
        e.bad, e.turns = e.reach, False
        if self.partly and e.ok is FALSE:
            # at some places on the tape only
            e.ok = t.W(mk("ok", kind, addr))
            e.bad = land(e.reach, lnot(e.ok))
        return e.ok

    def fallible(self, a, v):
        return ite(a, t.ok(v) if v is not DC else DC, t.err(ERR))

    def tape_read(self, st, tape, tyi, prm=None, peek=False):
        """take, take_given or peek of a type; the value of type Result."""
        import models
        return models.tape_read(self, st, tape, tyi, prm, peek)

