"""Meaning of the library functions that are not analysed from their own intermediate representation."""
import terms as t
from terms import T, mk, I, TRUE, FALSE, DC, NONE, ite, lnot, land, lor, lift, unk
from interp import ERR, FMT, State, given, branch, hard, powers


def iagg(name, *a):
    return mk("agg", name, 0, *a)


SEQ_REF, SEQ_VAL = 1, 0


def it_seq(v, lo=None, hi=None, byref=True):
    return mk("agg", "it.seq", SEQ_REF if byref else SEQ_VAL, v, lo or I(0), hi if hi is not None else t.length(v))


# ---------------------------------------------------------------- iteration

def next_(I_, st, it):
    """(condition that there is a next element, function of the state yielding (guard, item, rest, state))"""
    if it.op == "ite":
        return None
    if it.op != "agg":
        return None
    k = it.a[0]
    if k == "Range":
        a, b = it.a[2], it.a[3]
        return t.lt(a, b), lambda s: (TRUE, a, iagg("Range", t.add(a, I(1)), b), s)
    if k == "it.repeat":
        return TRUE, lambda s: (TRUE, it.a[2], it, s)
    if k == "it.seq":
        v, a, b = it.a[2], it.a[3], it.a[4]

        def th(s):
            x = t.index(v, a)
            return TRUE, mk("vref", x) if it.a[1] == SEQ_REF else x, mk("agg", k, it.a[1], v, t.add(a, I(1)), b), s
        return t.lt(a, b), th
    if k == "it.refs":
        r, a, b = it.a[2:]
        return t.lt(a, b), lambda s: (TRUE, I_.extend(r, mk("pi", a)), iagg(k, r, t.add(a, I(1)), b), s)
    if k == "it.rev":
        inner = it.a[2]
        r = back(I_, st, inner)
        if r is None:
            return None
        has, th0 = r

        def th(s):
            q = th0(s)
            if q is None:
                return None
            g, x, n, s = q
            return g, x, iagg("it.rev", n), s
        return has, th
    if k == "it.map":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        has, th0 = r

        def th(s):
            q = th0(s)
            if q is None:
                return None
            g, x, n, s = q
            f = it.a[3]
            if g is TRUE:
                a = I_.alloc(s, f)
                v, s2 = I_.apply(s, I_.ref(a), [x])
                if s2 is None:
                    return None
                return g, v, iagg("it.map", n, s2.mem.pop(a)), s2
            a = I_.alloc(s, f)
            s1 = State(dict(s.mem), land(s.pc, g))
            v, s2 = I_.apply(s1, I_.ref(a), [x])
            if s2 is None:
                return None
            s3 = I_.merge(g, s2, s)
            return g, v, iagg("it.map", n, s3.mem.pop(a)), s3
        return has, th
    if k in ("it.filter", "it.filter_map"):
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        has, th0 = r

        def th(s):
            q = th0(s)
            if q is None:
                return None
            g, x, n, s = q
            if g is not TRUE:
                return None
            a = I_.alloc(s, it.a[3])
            v, s2 = I_.apply(s, I_.ref(a), [mk("vref", x) if k == "it.filter" else x])
            if s2 is None:
                return None
            f = s2.mem.pop(a)
            if k == "it.filter":
                return v, x, iagg(k, n, f), s2
            return t.eq(t.discr(v), I(1)), t.field(v, 1, 0, None), iagg(k, n, f), s2
        return has, th
    if k in ("it.take_while", "it.map_while"):
        # whether there is a next one depends on the item itself
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        has, th0 = r
        if has is FALSE:
            return FALSE, th0
        s1 = State(dict(st.mem), land(st.pc, has))
        q = th0(s1)
        if q is None or q[0] is not TRUE:
            return None
        _, x, n, s1 = q
        a = I_.alloc(s1, it.a[3])
        v, s2 = I_.apply(s1, I_.ref(a), [mk("vref", x) if k == "it.take_while" else x])
        if s2 is None:
            return None
        f = s2.mem.pop(a)
        if any(s2.mem.get(z) is not y for z, y in st.mem.items()):
            return None
        good = v if k == "it.take_while" else t.eq(t.discr(v), I(1))
        y = x if k == "it.take_while" else t.field(v, 1, 0, None)

        def th(s):
            m = dict(s2.mem)
            m.update(s.mem)
            return TRUE, given(y, s.pc), iagg(k, n, f), State(m, s.pc)
        return land(has, good), th
    if k == "it.scan":
        # the state is handed to the closure by reference
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        has, th0 = r
        if has is FALSE:
            return FALSE, th0

        def turn(s):
            q = th0(s)
            if q is None or q[0] is not TRUE:
                return None
            _, x, n, s = q
            c, a = I_.alloc(s, it.a[3]), I_.alloc(s, it.a[4])
            v, s2 = I_.apply(s, I_.ref(a), [I_.ref(c), x])
            if s2 is None:
                return None
            rest = iagg(k, n, s2.mem.pop(c), s2.mem.pop(a))
            return t.eq(t.discr(v), I(1)), t.field(v, 1, 0, None), rest, s2
        I_.quiet += 1
        try:
            q = turn(State(dict(st.mem), land(st.pc, has)))
        finally:
            I_.quiet -= 1
        if q is None:
            return None
        if q[0] is TRUE:
            return has, turn
        good, y, rest, s2 = q
        if any(s2.mem.get(z) is not w for z, w in st.mem.items()):
            return None

        def th(s):
            m = dict(s2.mem)
            m.update(s.mem)
            return TRUE, given(y, s.pc), rest, State(m, s.pc)
        return land(has, good), th
    if k == "it.inspect":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        has, th0 = r

        def th(s):
            q = th0(s)
            if q is None or q[0] is not TRUE:
                return None
            g, x, n, s = q
            a = I_.alloc(s, it.a[3])
            _, s2 = I_.apply(s, I_.ref(a), [mk("vref", x)])
            if s2 is None:
                return None
            return g, x, iagg(k, n, s2.mem.pop(a)), s2
        return has, th
    if k == "it.step":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None

        def th(s):
            q = r[1](s)
            rest = skip_any(it.a[2], it.a[3])
            if q is None or q[0] is not TRUE or rest is None:
                return None
            return TRUE, q[1], iagg(k, rest, it.a[3]), q[3]
        return r[0], th
    if k == "it.enum":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        has, th0 = r
        c = it.a[3]

        def th(s):
            q = th0(s)
            if q is None:
                return None
            g, x, n, s = q
            return g, t.tup(c, x), iagg(k, n, ite(g, t.add(c, I(1)), c)), s
        return has, th
    if k == "it.zip":
        r1, r2 = next_(I_, st, it.a[2]), next_(I_, st, it.a[3])
        if r1 is None or r2 is None:
            return None

        def th(s):
            q = r1[1](s)
            if q is None:
                return None
            g1, x1, n1, s = q
            q = r2[1](s)
            if q is None:
                return None
            g2, x2, n2, s = q
            if g1 is not TRUE or g2 is not TRUE:
                return None
            return TRUE, t.tup(x1, x2), iagg(k, n1, n2), s
        return land(r1[0], r2[0]), th
    if k == "it.cloned":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None

        def th(s):
            q = r[1](s)
            if q is None:
                return None
            g, x, n, s = q
            return g, I_.load(s, x), iagg(k, n), s
        return r[0], th
    if k == "it.take":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None
        c = it.a[3]

        def th(s):
            q = r[1](s)
            if q is None:
                return None
            g, x, n, s = q
            if g is not TRUE:
                return None
            return g, x, iagg(k, n, t.sub(c, I(1))), s
        return land(t.gt0(c), r[0]), th
    return None


def back(I_, st, it):
    k = it.a[0] if it.op == "agg" else None
    if k == "Range":
        a, b = it.a[2], it.a[3]
        return t.lt(a, b), lambda s: (TRUE, t.sub(b, I(1)), iagg("Range", a, t.sub(b, I(1))), s)
    if k == "it.seq":
        v, a, b = it.a[2], it.a[3], it.a[4]

        def th(s):
            e = t.sub(b, I(1))
            x = t.index(v, e)
            return TRUE, mk("vref", x) if it.a[1] == SEQ_REF else x, mk("agg", k, it.a[1], v, a, e), s
        return t.lt(a, b), th
    if k == "it.refs":
        r, a, b = it.a[2:]
        e = t.sub(b, I(1))
        return t.lt(a, b), lambda s: (TRUE, I_.extend(r, mk("pi", e)), iagg(k, r, a, e), s)
    if k == "it.map":
        r = back(I_, st, it.a[2])
        if r is None:
            return None

        def th(s):
            g, x, n, s = r[1](s)
            a = I_.alloc(s, it.a[3])
            v, s2 = I_.apply(s, I_.ref(a), [x])
            if s2 is None:
                return None
            return g, v, iagg(k, n, s2.mem.pop(a)), s2
        return r[0], th
    if k == "it.enum":
        r = back(I_, st, it.a[2])
        if r is None:
            return None
        c = it.a[3]
        inner = it.a[2]
        n = count_of(inner)
        if n is None:
            return None

        def th(s):
            g, x, rest, s = r[1](s)
            return g, t.tup(t.add(c, t.sub(n, I(1))), x), iagg(k, rest, c), s
        return r[0], th
    if k == "it.cloned":
        r = back(I_, st, it.a[2])
        if r is None:
            return None

        def th(s):
            g, x, n, s = r[1](s)
            return g, I_.load(s, x), iagg(k, n), s
        return r[0], th
    if k == "it.rev":
        r = next_(I_, st, it.a[2])
        if r is None:
            return None

        def th(s):
            g, x, n, s = r[1](s)
            return g, x, iagg(k, n), s
        return r[0], th
    return None


def count_of(it):
    k = it.a[0] if it.op == "agg" else None
    if k == "Range":
        d = t.sub(it.a[3], it.a[2])
        return d if t.rng(d)[0] >= 0 else ite(t.gt0(d), d, I(0))
    if k in ("it.seq", "it.refs"):
        d = t.sub(it.a[4], it.a[3])
        return d if t.rng(d)[0] >= 0 or it.a[3].op == "int" and it.a[3].a[0] == 0 else ite(t.gt0(d), d, I(0))
    if k in ("it.map", "it.enum", "it.cloned", "it.rev"):
        return count_of(it.a[2])
    return None


def as_seq(it):
    """What the iterator yields, as a sequence: (by reference or by value, the sequence)"""
    if it.op != "agg":
        return None
    k = it.a[0]
    if k == "it.seq":
        v, lo, hi = it.a[2:]
        if v.unk or lo.unk or hi.unk:
            return None
        v = lift(lambda v: t.cat(*[t.one(x) for x in v.a[2:]]) if v.op == "agg" and v.a[0] == "array" else v, v)
        if lo.op == "int" and lo.a[0] == 0 and hi is t.length(v):
            return it.a[1], v
        hi = ite(t.le(lo, hi), hi, lo)
        return it.a[1], lift(lambda v, l, h: mk("slice", v, l, h), v, lo, hi)
    if k == "Range":
        n = count_of(it)
        if n is None or n.unk:
            return None
        i = t.fresh_ix()
        return SEQ_VAL, lift(lambda n: t.vmap(n, i, t.add(it.a[2], i)), n)
    if k == "it.cloned":
        r = as_seq(it.a[2])
        return (SEQ_VAL, r[1]) if r is not None and r[0] == SEQ_REF else None
    return None


def into_iter(I_, st, v):
    if v.op == "ite":
        return v
    if v.op == "vref":
        x = v.a[0]
        if x.op == "agg" and (str(x.a[0]).startswith("it.") or x.a[0] in ("Range",)):
            return x
        if x.op == "agg" and x.a[0] == "Option":
            return None
        return it_seq(x)
    if v.op == "agg":
        if v.a[0] == "RangeInclusive":
            return iagg("Range", v.a[2], t.add(v.a[3], I(1)))
        if v.a[0] == "Range" or str(v.a[0]).startswith("it."):
            return v
        if v.a[0] == "RangeFrom":
            return iagg("Range", v.a[2], I(1 << 64))
        if v.a[0] == "array":
            return it_seq(v, byref=False)
        if v.a[0] == "Option":
            return it_seq(t.cat(t.one(v.a[2])) if v.a[1] == 1 else t.cat(), byref=False)
        return None
    if v.op == "ref":
        return None
    if v.op in ("seq", "map", "cat", "flat") or (t.type_of(v) or "").startswith("Vec<"):
        return it_seq(v, byref=False)
    return None


COMPOUND = ("it.chain", "it.flat_map", "it.flatten", "it.skip_while")


def compound(it):
    """An iterator over several ones, through adapters that can be put behind it."""
    while it.op == "agg" and it.a[0] in ("it.map", "it.enum", "it.cloned", "it.filter", "it.filter_map", "it.inspect"):
        it = it.a[2]
    return it.op == "agg" and it.a[0] in COMPOUND


def fused(I_, st, it, step, name):
    """Consume it by way of what it is made of."""
    k = it.a[0]

    def applied(s, f, args):
        v, s = I_.apply(s, I_.ref(f), args)
        if s is None:
            raise Unsupported()
        return v, s

    def joined(outs, more):
        for key, o in more.items():
            outs[key] = I_.merge(o.pc, o, outs.get(key))
        return outs
    if k == "it.chain":
        outs = drive(I_, st, it.a[2], step, name + "<")
        if outs is None:
            return None
        s = outs.pop("done", None)
        if s is None:
            return outs
        more = drive(I_, s, it.a[3], step, name + ">")
        return joined(outs, more) if more is not None else None
    if k in ("it.flat_map", "it.flatten"):
        f = I_.alloc(st, it.a[3]) if k == "it.flat_map" else None

        def outer(s, x):
            if f is not None:
                x, s = applied(s, f, [x])
            bk, ex = None, {}
            rest = s
            for leaf, c in cases(x):
                c = branch(c, rest.pc) if c is not TRUE else TRUE
                if c is FALSE:
                    continue
                s1, rest1 = (rest, None) if c is TRUE else split(I_, rest, c)
                if s1 is None:
                    continue
                if leaf.op == "agg" and leaf.a[0] == "Option":
                    inner = it_seq(t.cat(t.one(leaf.a[2])) if leaf.a[1] == 1 else t.cat(), byref=False)
                elif leaf.op == "agg" and leaf.a[0] == "Result":
                    inner = it_seq(t.cat(t.one(leaf.a[2])) if leaf.a[1] == 0 else t.cat(), byref=False)
                else:
                    inner = into_iter(I_, s1, leaf)
                if inner is None:
                    raise Unsupported()
                o = drive(I_, s1, inner, step, name + "*")
                if o is None:
                    raise Unsupported()
                d = o.pop("done", None)
                if d is not None:
                    bk = I_.merge(d.pc, d, bk)
                joined(ex, o)
                rest = rest1
                if rest is None:
                    break
            return bk, ex
        outs = drive(I_, st, it.a[2], outer, name)
        return outs
    f = None
    if k != "it.cloned":
        f = I_.alloc(st, it.a[3])

    def inner(s, x):
        if k == "it.map":
            x, s = applied(s, f, [x])
            return step(s, x)
        if k == "it.enum":
            c = s.mem[f]
            s.mem[f] = t.add(c, I(1))
            return step(s, t.tup(c, x))
        if k == "it.cloned":
            return step(s, I_.load(s, x))
        if k == "it.inspect":
            _, s = applied(s, f, [mk("vref", x)])
            return step(s, x)
        if k == "it.skip_while":
            raise Unsupported()
        v, s = applied(s, f, [mk("vref", x) if k == "it.filter" else x])
        good = v if k == "it.filter" else t.eq(t.discr(v), I(1))
        a, b = split(I_, s, good)
        if a is None:
            return b, {}
        bk, ex = step(a, x if k == "it.filter" else t.field(given(v, a.pc), 1, 0, None))
        if b is not None:
            bk = I_.merge(b.pc, b, bk)
        return bk, ex
    return drive(I_, st, it.a[2], inner, name)


def cases(x):
    """The leaves of x with the condition of each, given that those before do not apply."""
    if x.op != "ite":
        return [(x, TRUE)]
    c = x.a[0]
    return [(l, land(c, p)) for l, p in cases(x.a[1])] + [(l, p) for l, p in cases(x.a[2])]


def drive(I_, st, it, step, name):
    """Consume an iterator.  step(state, item) -> (state to go on with or None, {exit: state})."""
    if it.op == "agg" and compound(it):
        return fused(I_, st, it, step, name)
    a = I_.alloc(st, it)

    def body(s):
        r = next_(I_, s, s.mem[a])
        if r is None:
            raise Unsupported()
        has, th = r
        has = branch(has, s.pc)
        outs = {}
        if has is not TRUE:
            outs["done"] = State(dict(s.mem), land(s.pc, lnot(has)))
        if has is FALSE:
            return None, outs
        s1 = State(dict(s.mem), land(s.pc, has)) if has is not TRUE else s.copy()
        q = th(s1)
        if q is None:
            raise Unsupported()
        g, x, n, s1 = q
        s1.mem[a] = n
        if g is FALSE:
            return s1, outs
        if g is TRUE:
            bk, ex = step(s1, x)
        else:
            s2 = State(dict(s1.mem), land(s1.pc, g))
            s3 = State(dict(s1.mem), land(s1.pc, lnot(g)))
            bk, ex = step(s2, x)
            bk = I_.merge(g, bk, s3)
        for k, v in ex.items():
            outs[k] = I_.merge(v.pc, v, outs.get(k))
        return bk, outs
    try:
        return I_.summarise(st, body, name)
    except Unsupported:
        return None


class Unsupported(Exception):
    pass


def split(I_, s, c):
    """States under c and under its negation (None when infeasible)."""
    c = branch(c, s.pc)
    if c is TRUE:
        return s, None
    if c is FALSE:
        return None, s
    return State(dict(s.mem), land(s.pc, c)), State(dict(s.mem), land(s.pc, lnot(c)))


def finish(I_, st, outs, P, values):
    """Join the exits of a consumer; values: {exit: function of the state -> value}."""
    res = None
    val = None
    for k in ("done", "exit"):
        s = outs.get(k)
        if s is None or s.pc is FALSE:
            continue
        v = values[k](s)
        if res is None:
            res, val = s, v
        else:
            c = given(s.pc, P)
            val = ite(c, v, val)
            res = I_.merge(c, s, res)
    if res is None:
        return None, None
    return val, res


def collect_vec(I_, st, it, name="collect", wrap=None):
    """wrap: None, 'Result' or 'Option' for fallible items."""
    P = st.pc
    acc = I_.alloc(st, t.cat())
    err = I_.alloc(st, DC)

    def step(s, x):
        if wrap is None:
            s.mem[acc] = t.cat(s.mem[acc], t.one(x))
            return s, {}
        good = t.eq(t.discr(x), I(0 if wrap == "Result" else 1))
        a, b = split(I_, s, good)
        if a is not None:
            v = t.field(given(x, a.pc), 0 if wrap == "Result" else 1, 0, None)
            a.mem[acc] = t.cat(a.mem[acc], t.one(v))
        ex = {}
        if b is not None:
            b.mem[err] = t.err(ERR) if wrap == "Result" else t.none()
            ex["exit"] = b
        return a, ex
    outs = drive(I_, st, it, step, name)
    if outs is None:
        return None
    w = {None: lambda v: v, "Result": t.ok, "Option": t.some}[wrap]
    v, s = finish(I_, st, outs, P, {"done": lambda s: w(s.mem[acc]), "exit": lambda s: s.mem[err]})
    if s is None:
        return None, None
    for a in (acc, err):
        s.mem.pop(a, None)
    return v, s


# ---------------------------------------------------------------- the tape

def tape_read(I_, st, tape, tyi, prm, peek):
    n = I_.ty.name(tyi)
    tt = I_.ty[tyi]
    cur = st.mem[tape]
    if n.startswith("Vec<") and prm is not None:
        e = tt["a"][0]
        en = I_.ty.name(e)
        et = I_.ty[e]
        if et["k"] == "adt" and et["local"] and not I_.reader(en) and t.fixed(en) is None:
            # elements of a type without a specification: as the loop that it is
            saved = cur
            i = iagg("it.map", iagg("Range", I(0), prm), iagg("native.read", I(tape), mk("tyi", e)))
            r = collect_vec(I_, st, i, "vector", "Result")
            if r is None:
                return unk("vector of %s" % en), st
            v, s = r
            if s is None:
                return None, None
            if peek:
                s.mem[tape] = saved
            return v, s
        a = I_.new_site("read", n, cur, None, prm, st)
        v = t.seq(en, cur, prm)
        if not peek:
            st.mem[tape] = t.add(cur, t.seqsize(en, cur, prm))
        return I_.fallible(a, v), st
    if tt["k"] == "tuple" and prm is None:
        cur0 = cur
        vs = []
        addr = cur
        a = I_.new_site("read", n, cur, None, None, st)
        for e in tt["es"]:
            en = I_.ty.name(e)
            vs.append(t.rd(en, addr))
            addr = t.add(addr, t.size(en, addr))
        if not peek:
            st.mem[tape] = addr
        return I_.fallible(a, t.tup(*vs)), st
    if tt["k"] == "adt" and tt["local"] and not I_.reader(n, prm is not None):
        tr = "typeface::walue::Read" if prm is not None else "typeface::value::Read"
        ks = I_.d.impls.get((I_.d.selfname(tyi), tr, "read"))
        fn = I_.d.func(ks[0]) if ks else None
        if fn is None:
            return unk("reader of %s" % n), st
        args = [I_.ref(tape)] + ([prm] if prm is not None else [])
        v, s = I_.run_function(fn, args, st)
        if s is None:
            return None, None
        if peek:
            s.mem[tape] = cur
        return v, s
    a = I_.new_site("read", n, cur, prm, None, st)
    v = t.rd(n, cur, prm)
    if not peek:
        st.mem[tape] = t.add(cur, t.size(n, cur, prm))
    return I_.fallible(a, v), st


def tape_call(I_, st, meth, info, vals, dty):
    tape = I_.tape_of(st, vals[0]) if vals else None
    if tape is None:
        I_.havoc(st, vals)
        return unk("tape of %s" % meth), st
    if meth == "take":
        return tape_read(I_, st, tape, info["a"][1], None, False)
    if meth == "peek":
        return tape_read(I_, st, tape, info["a"][1], None, True)
    if meth == "take_given":
        return tape_read(I_, st, tape, info["a"][1], vals[1], False)
    if meth in ("position", "stream_position"):
        a = I_.new_site("position", "", I(0), None, None, st)
        return I_.fallible(a, st.mem[tape]), st
    if meth == "jump":
        a = I_.new_site("jump", "", vals[1], None, None, st)
        st.mem[tape] = vals[1]
        return I_.fallible(a, vals[1]), st
    if meth == "seek":
        w = vals[1]
        if w.op == "agg" and w.a[1] in (0, 2):
            p = w.a[2] if w.a[1] == 0 else t.add(st.mem[tape], w.a[2])
            a = I_.new_site("jump", "", p, None, None, st)
            st.mem[tape] = p
            return I_.fallible(a, p), st
        st.mem[tape] = unk("seek")
        return unk("seek"), st
    if meth == "take_bytes":
        cur = st.mem[tape]
        a = I_.new_site("read", "Vec<u8>", cur, None, vals[1], st)
        v = t.seq("u8", cur, vals[1])
        st.mem[tape] = t.add(cur, vals[1])
        return I_.fallible(a, v), st
    if meth == "read_exact":
        cur = st.mem[tape]
        buf = I_.load(st, vals[1])
        if buf.op == "agg" and buf.a[0] == "array":
            n = len(buf.a) - 2
            a = I_.new_site("read", "[u8; %d]" % n, cur, None, None, st)
            I_.store(st, vals[1], mk("agg", "array", 0, *[t.rd("u8", t.add(cur, I(i))) for i in range(n)]))
            st.mem[tape] = t.add(cur, I(n))
            return I_.fallible(a, t.UNIT), st
        I_.havoc(st, vals)
        st.mem[tape] = unk("read_exact")
        return unk("read_exact"), st
    if meth == "stay":
        a = I_.new_site("stay", "", I(0), None, None, st)
        cur = st.mem[tape]
        s1 = State(dict(st.mem), land(st.pc, a))
        v, s2 = I_.apply(s1, vals[1], [I_.ref(tape)], dty)
        if s2 is None:
            return None, None
        s2.mem[tape] = cur
        s3 = State(dict(st.mem), land(st.pc, lnot(a)))
        return ite(a, v, t.err(ERR)), I_.merge(a, s2, s3)
    st.mem[tape] = unk("tape method %s" % meth)
    I_.havoc(st, vals[1:])
    return unk("tape method %s" % meth), st


# ---------------------------------------------------------------- calls

def path_of(info):
    p = info["p"]
    mod = p.split("::{impl")[0] if "::{impl" in p else p.rsplit("::", 1)[0]
    return mod, p.rsplit("::", 1)[1]


def default(I_, tyi):
    tt = I_.ty[tyi]
    k = tt["k"]
    if k == "int":
        return I(0)
    if k == "bool":
        return FALSE
    if k == "tuple":
        return t.tup(*[default(I_, e) for e in tt["es"]])
    if k == "adt":
        n = I_.ty.adt(tt)
        if n == "Option":
            return t.none()
        if n == "Vec":
            return t.cat()
    return None


CONSUMERS = {"collect", "max", "min", "find", "position", "any", "all", "for_each", "try_for_each", "fold", "try_fold", "count", "sum", "find_map",
             "last", "rposition", "rfind", "unzip", "partition"}
ADAPTERS = {"map", "enumerate", "zip", "rev", "take", "skip", "filter", "filter_map", "cloned", "copied", "chain", "by_ref", "fuse",
            "take_while", "map_while", "inspect", "flat_map", "flatten", "skip_while", "step_by", "scan", "peekable"}


def call(I_, st, info, vals, dty):
    mod, meth = path_of(info)
    p = info["p"]
    s = info["s"]
    ret = lambda v: (v, st)
    L = lambda v: I_.load(st, v)
    if p.startswith("typeface::tape::Read::"):
        return tape_call(I_, st, meth, info, vals, dty)
    if mod in ("std::io::Seek", "std::io::Read", "alloc::io::Seek", "alloc::io::Read") or (".io" in mod):
        return tape_call(I_, st, meth, info, vals, dty)
    if p.startswith("typeface::value::Read::read") or p.startswith("typeface::walue::Read::read"):
        tape = I_.tape_of(st, vals[0])
        if tape is not None:
            return tape_read(I_, st, tape, info["a"][0], vals[1] if len(vals) > 1 else None, False)
        return None
    if p == "core::hint::must_use" or p == "core::convert::identity":
        return ret(vals[0])
    if mod.startswith(("core::fmt", "alloc::fmt", "alloc::string", "std::fmt")) and "fmt" in mod or mod == "alloc::string":
        return ret(FMT)
    if mod.startswith(("alloc::io::error", "std::io::error", "core::io::error")):
        return ret(ERR if meth in ("new", "other", "from", "_new") else FMT)
    if mod.startswith("core::panicking") or meth in ("unwrap_failed", "expect_failed", "panic_fmt", "begin_panic", "assert_failed", "slice_index_fail", "panic_display"):
        I_.require(st, FALSE, "panic: %s" % meth, I_.span)
        return None, None
    if mod == "core::option" and meth in ("unwrap_failed", "expect_failed"):
        I_.require(st, FALSE, "panic: %s" % meth, I_.span)
        return None, None
    # ---- moving values
    if mod == "core::mem":
        if meth == "replace":
            old = L(vals[0])
            I_.store(st, vals[0], vals[1])
            return ret(old)
        if meth in ("forget", "drop"):
            return ret(t.UNIT)
        if meth == "swap":
            a, b = L(vals[0]), L(vals[1])
            I_.store(st, vals[0], b)
            I_.store(st, vals[1], a)
            return ret(t.UNIT)
        if meth == "take":
            d = default(I_, info["a"][0])
            if d is None:
                return None
            old = L(vals[0])
            I_.store(st, vals[0], d)
            return ret(old)
        if meth == "size_of":
            return ret(I(SIZES[I_.ty.name(info["a"][0])])) if I_.ty.name(info["a"][0]) in SIZES else None
    if mod.startswith(("std::collections::hash", "alloc::collections::btree", "std::collections::BTree", "std::collections::Hash")) \
            and meth in ASSOC and (vals or meth in ("new", "with_capacity", "default")):
        return associative(I_, st, "set" in mod.lower(), meth, vals)
    if p == "core::clone::Clone::clone" or meth in ("to_owned", "to_vec") and mod.startswith(("alloc", "core::slice")):
        return ret(L(vals[0]))
    if p == "core::cmp::PartialEq::eq":
        return ret(t.eq(deep(I_, st, vals[0]), deep(I_, st, vals[1])))
    if p == "core::cmp::PartialEq::ne":
        return ret(lnot(t.eq(deep(I_, st, vals[0]), deep(I_, st, vals[1]))))
    if p.startswith("core::cmp::PartialOrd::") or p.startswith("core::cmp::Ord::"):
        a = deep(I_, st, vals[0])
        b = deep(I_, st, vals[1]) if len(vals) > 1 else None
        num = b is not None and all(x.op != "agg" for x in t.leaves(a) + t.leaves(b))
        if num:
            if meth == "lt":
                return ret(t.lt(a, b))
            if meth == "le":
                return ret(t.le(a, b))
            if meth == "gt":
                return ret(t.lt(b, a))
            if meth == "ge":
                return ret(t.le(b, a))
            if meth == "min":
                return ret(ite(t.lt(b, a), b, a))
            if meth == "max":
                return ret(ite(t.lt(b, a), a, b))
            if meth == "cmp":
                o = lambda k: mk("agg", "Ordering", k)
                return ret(ite(t.lt(a, b), o(0), ite(t.eq(a, b), o(1), o(2))))
        if meth == "clamp":
            a, b, c = [deep(I_, st, x) for x in vals]
            return ret(ite(t.lt(a, b), b, ite(t.lt(c, a), c, a)))
        return None
    if p == "core::default::Default::default" and not info.get("i"):
        d = default(I_, dty)
        if d is not None:
            return ret(d)
        return ret(mk("call", "default", I_.ty.name(dty)))
    if p == "core::convert::Into::into" and not info.get("i"):
        return ret(mk("call", "into", L(vals[0]), I_.ty.name(dty)))
    if p.endswith("table::Table::tag") and not info.get("i"):
        return ret(mk("call", "Table::tag", I_.ty.name(info["a"][0]), "Tag"))
    if p == "core::convert::AsRef::as_ref" and not info.get("i"):
        return ret(mk("vref", L(vals[0])))
    if meth == "checksum" and "offsets" in mod:
        tape = I_.tape_of(st, vals[1]) if len(vals) > 1 else None
        rec = L(vals[0])
        a = I_.new_site("checksum", "Record", I(0), rec, None, st)
        if tape is not None:
            # it reads whole words from the offset on, and does not return
            fs = {}
            for x in I_.ty.t:
                if x["k"] == "adt" and x["v"].endswith("offsets::Record"):
                    fs = {f[0]: (i, I_.ty.name(f[1])) for i, f in enumerate(x["vs"][0]["f"])}
            if {"offset", "size"} <= set(fs):
                o, n = t.field(rec, None, *fs["offset"]), t.field(rec, None, *fs["size"])
                st.mem[tape] = t.add(o, t.scale(t.div(t.add(n, I(3)), I(4)), 4))
            else:
                st.mem[tape] = unk("position after a checksum")
        return ret(I_.fallible(a, mk("call", "checksum", rec, "u32")))
    if p == "truetype::accept":
        return ret(mk("call", "truetype::accept", deep(I_, st, vals[0]), "bool"))
    # ---- dereferencing and conversion of containers
    if p in ("core::ops::deref::Deref::deref", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref"):
        if info.get("i") and I_.d.func(info["i"]):
            return None
        v = L(vals[0])
        if t.type_of(v) == "Tag" or (v.op == "agg" and v.a[0] == "Tag"):
            v = t.field(v, None, 0, None)
        return ret(mk("vref", v))
    if p == "core::ops::deref::DerefMut::deref_mut":
        if info.get("i") and I_.d.func(info["i"]):
            return None
        return ret(vals[0])
    if p == "core::ops::index::Index::index":
        if info.get("i") and I_.d.func(info["i"]):
            return None
        v, i = L(vals[0]), vals[1]
        if v.op == "agg" and v.a[0] == "assoc":
            o, st = associative(I_, st, False, "get", vals)
            if o.unk:
                return unk("what is in a map"), st
            there = t.eq(t.discr(o), I(1))
            if I_.require(st, there, "not in a map", I_.span) is FALSE:
                return None, None
            return t.field(given(o, land(st.pc, there)), 1, 0, None), st
        if any(x.op == "agg" and x.a[0] != "array" for x in t.leaves(v)):
            return ret(unk("index into something else"))
        return index(I_, st, v, i)
    if p == "core::ops::index::IndexMut::index_mut":
        i = vals[1]
        if i.op == "agg":
            return None
        v = L(vals[0])
        I_.require(st, t.lt(i, t.length(v)), "index out of bounds", I_.span)
        return ret(I_.extend(vals[0], mk("pi", i)))
    # ---- vectors and slices
    if mod.startswith("alloc::vec") and "vec" in mod:
        r = vec(I_, st, meth, info, vals, dty)
        if r is not None:
            return r
    if mod.startswith("core::array") and meth in ("map", "from_fn"):
        k = I_.ty[dty]
        n = int(I_.ty.name(dty)[1:-1].split(";")[1]) if k["k"] == "array" else None
        if n is not None and n <= 64:
            v = L(vals[0]) if meth == "map" else None
            a = I_.alloc(st, vals[-1])
            xs, s = [], st
            for i in range(n):
                x, s = I_.apply(s, I_.ref(a), [t.index(v, I(i)) if meth == "map" else I(i)])
                if s is None:
                    return None, None
                xs.append(x)
            s.mem.pop(a, None)
            return mk("agg", "array", 0, *xs), s
        return None
    if mod.startswith(("core::slice", "alloc::slice")) or (mod.startswith("core::array") and meth in ("as_slice", "iter", "map", "len")):
        r = slice_(I_, st, meth, info, vals, dty)
        if r is not None:
            return r
    if mod.startswith("alloc::boxed"):
        if meth == "new_uninit":
            a = I_.alloc(st, DC)
            I_.heap.add(a)
            return ret(I_.ref(a))
        if meth in ("box_assume_init_into_vec_unsafe", "into_vec", "box_new_in_place"):
            return ret(as_vec(L(vals[0])))
        if meth == "new":
            a = I_.alloc(st, vals[0])
            I_.heap.add(a)
            return ret(I_.ref(a))
    if mod.startswith("core::str"):
        r = strings(I_, st, meth, info, vals, dty)
        if r is not None:
            return r
    # ---- numbers
    if mod.startswith("core::num"):
        r = number(I_, st, meth, s, vals, dty)
        if r is not None and r[1] is st and hard(r[0]):
            r = t.under(st.pc, lambda: number(I_, st, meth, s, vals, dty))
        if r is not None:
            return r
    if p in ("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into") and not (info.get("i") and I_.d.func(info["i"])):
        tt = I_.ty[dty]
        if tt["k"] == "adt" and tt["a"]:
            to = I_.ty.name(tt["a"][0])
            v = vals[0]
            if to in t.INTR and v.op not in ("agg", "vref"):
                bad = I_.out_of(v, to, st.pc)
                return ret(ite(bad, t.err(ERR), t.ok(v)))
            x = L(v)
            if to.startswith("[") and x.op in ("agg", "slice", "seq", "cat"):
                n = int(to[1:-1].split(";")[1])
                ln = t.length(x)
                arr = mk("agg", "array", 0, *[t.index(x, I(i)) for i in range(n)])
                return ret(ite(t.eq(ln, I(n)), t.ok(arr), t.err(ERR)))
        return None
    if p in ("core::convert::From::from", "core::convert::Into::into") and not (info.get("i") and I_.d.func(info["i"])):
        to = I_.ty.name(dty)
        if to in t.INTR:
            return ret(t.cast(vals[0], to))
        if to == "Error":
            return ret(ERR)
        if to == "Tag" and vals and t.type_of(vals[0]) == "Tag":
            return ret(vals[0])
        if to.startswith("Vec<"):
            return ret(as_vec(L(vals[0])))
    # ---- functions
    if p.startswith("core::ops::function::"):
        if len(vals) == 2 and vals[1].op == "agg":
            return I_.apply(st, vals[0], list(vals[1].a[2:]), dty)
    if p.startswith("core::ops::range::") or mod.startswith("core::ops::range") or mod.startswith("core::range"):
        if meth == "new":
            return ret(iagg("RangeInclusive", vals[0], vals[1], FALSE))
        if meth == "contains":
            r, x = L(vals[0]), deep(I_, st, vals[1])
            if r.op == "agg":
                if r.a[0] == "Range":
                    return ret(land(t.le(r.a[2], x), t.lt(x, r.a[3])))
                if r.a[0] == "RangeInclusive":
                    return ret(land(t.le(r.a[2], x), t.le(x, r.a[3])))
                if r.a[0] == "RangeFrom":
                    return ret(t.le(r.a[2], x))
                if r.a[0] == "RangeTo":
                    return ret(t.lt(x, r.a[2]))
                if r.a[0] == "RangeToInclusive":
                    return ret(t.le(x, r.a[2]))
        if meth == "is_empty":
            r = L(vals[0])
            if r.op == "agg":
                return ret(lnot(t.lt(r.a[2], r.a[3])) if r.a[0] == "Range" else lnot(t.le(r.a[2], r.a[3])))
    if p == "core::iter::traits::collect::IntoIterator::into_iter":
        if info.get("i") and I_.d.func(info["i"]) and I_.d.func(info["i"]).d["local"]:
            return None
        v = vals[0]
        tt = I_.ty[info["a"][0]] if info.get("a") else None
        if v.op == "ref" and tt is not None and tt["k"] == "ref" and tt["mut"]:
            e = I_.ty[tt["e"]]
            if e["k"] in ("slice", "array") or e["k"] == "adt" and I_.ty.adt(e) == "Vec":
                n = t.length(I_.load(st, v))
                return ret(lift(lambda n: iagg("it.refs", v, I(0), n) if n.op != "unk" else n, n))
        r = lift(lambda v: into_iter(I_, st, v) or unk("iteration over %s" % v.op), v)
        return ret(r)
    if mod.startswith("core::iter"):
        r = iterator(I_, st, meth, info, vals, dty)
        if r is not None:
            return r
    if p == "core::iter::traits::collect::Extend::extend" and vals[0].op == "ref":
        r = vec(I_, st, meth, info, vals, dty)
        if r is not None:
            return r
    if p == "core::iter::traits::collect::FromIterator::from_iter":
        return iterator(I_, st, "collect", dict(info, a=[None, dty]), vals, dty)
    return None


ASSOC = {"new", "with_capacity", "insert", "get", "contains_key", "contains", "clear"}


def associative(I_, st, isset, meth, vals):
    """Maps and sets as lists of what has been put into them, the latest last."""
    if meth in ("new", "with_capacity"):
        return mk("agg", "assoc", 0, t.cat()), st
    v = I_.load(st, vals[0])
    if v.op != "agg" or v.a[0] != "assoc":
        I_.havoc(st, vals)
        return unk("map"), st
    if meth == "clear":
        I_.store(st, vals[0], mk("agg", "assoc", 0, t.cat()))
        return t.UNIT, st
    k = deep(I_, st, vals[1])

    def look(m):
        ps = list(t.parts(m))
        if not all(x.op == "one" for x in ps):
            return unk("what is in a map")
        r = t.none()
        for x in ps:
            x = x.a[0]
            c = t.eq(t.field(x, None, 0, None), k)
            r = ite(c, t.some(t.field(x, None, 1, None)), r)
        return r
    old = lift(look, v.a[2])
    if meth == "insert":
        new = t.one(t.tup(k, t.UNIT if isset else vals[2]))
        if isset and not old.unk:
            new = ite(t.eq(t.discr(old), I(1)), t.cat(), new)
        I_.store(st, vals[0], mk("agg", "assoc", 0, t.cat(v.a[2], new)))
        return (t.eq(t.discr(old), I(0)) if isset and not old.unk else old), st
    if meth in ("contains_key", "contains"):
        return (old if old.unk else t.eq(t.discr(old), I(1))), st
    return (old if old.unk else lift(lambda x: t.some(mk("vref", x.a[2])) if x.a[1] == 1 else x, old)), st


SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8}


def deep(I_, st, v):
    """Behind all references."""
    n = 0
    while v.op in ("ref", "vref") and n < 10:
        v = I_.load(st, v)
        n += 1
    if v.op == "ite":
        return lift(lambda x: deep(I_, st, x) if x.op in ("ref", "vref") else x, v)
    return v


def as_vec(v):
    def f(v):
        if v.op == "agg" and v.a[0] == "array":
            return t.cat(*[t.one(x) for x in v.a[2:]])
        return v
    return lift(f, v)


def index(I_, st, v, i):
    n = t.length(v)
    if i.op == "agg":
        k = i.a[0]
        lo, hi = I(0), n
        if k in ("Range",):
            lo, hi = i.a[2], i.a[3]
        elif k == "RangeInclusive":
            lo, hi = i.a[2], t.add(i.a[3], I(1))
        elif k == "RangeFrom":
            lo = i.a[2]
        elif k == "RangeTo":
            hi = i.a[2]
        elif k == "RangeToInclusive":
            hi = t.add(i.a[2], I(1))
        elif k != "RangeFull":
            return unk("index"), st
        I_.require(st, land(t.le(lo, hi), t.le(hi, n)), "slice out of bounds", I_.span)
        return mk("vref", I_.slice(v, lo, hi)), st
    if I_.require(st, t.lt(i, n), "index out of bounds", I_.span) is FALSE:
        return None, None
    return mk("vref", t.index(v, i)), st


def vec(I_, st, meth, info, vals, dty):
    ret = lambda v: (v, st)
    L = lambda v: I_.load(st, v)
    if meth in ("new", "with_capacity"):
        return ret(t.cat())
    if meth == "from_elem":
        n = vals[1]
        if n.op == "int" and n.a[0] <= 64:
            return ret(t.cat(*[t.one(vals[0])] * n.a[0]))
        return ret(lift(lambda n: mk("map", n, vals[0]) if not vals[0].unk else unk("vector"), n))
    if meth == "push":
        v = L(vals[0])
        I_.store(st, vals[0], lift(lambda v: t.cat(v, t.one(vals[1])) if v.op != "unk" else v, v))
        return ret(t.UNIT)
    if meth in ("reserve", "reserve_exact", "shrink_to_fit"):
        return ret(t.UNIT)
    if meth == "len":
        return ret(t.length(L(vals[0])))
    if meth == "is_empty":
        return ret(t.eq(t.length(L(vals[0])), I(0)))
    if meth == "clear":
        I_.store(st, vals[0], t.cat())
        return ret(t.UNIT)
    if meth == "append" and vals[1].op == "ref":
        v, w = L(vals[0]), L(vals[1])
        I_.store(st, vals[0], lift(lambda v, w: t.cat(v, w) if v.op != "unk" else v, v, w))
        I_.store(st, vals[1], t.cat())
        return ret(t.UNIT)
    if meth in ("remove", "insert", "pop", "truncate", "swap_remove", "retain", "dedup", "dedup_by", "dedup_by_key", "split_off") \
            and vals[0].op == "ref":
        v = L(vals[0])
        n = t.length(v)
        cut = lambda v, lo, hi: I_.slice(v, lo, hi)
        put = lambda w: I_.store(st, vals[0], lift(lambda v, w: w if v.op != "unk" else v, v, w))
        if meth == "remove":
            i = vals[1]
            I_.require(st, t.lt(i, n), "index out of bounds", I_.span)
            put(t.cat(cut(v, I(0), i), cut(v, t.add(i, I(1)), n)))
            return ret(t.index(v, i))
        if meth == "insert":
            i = vals[1]
            I_.require(st, t.le(i, n), "index out of bounds", I_.span)
            put(t.cat(cut(v, I(0), i), t.one(vals[2]), cut(v, i, n)))
            return ret(t.UNIT)
        if meth == "pop":
            some = t.gt0(n)
            last = t.sub(n, I(1))
            put(ite(some, cut(v, I(0), last), v))
            return ret(ite(some, t.some(t.index(v, last)), t.none()))
        if meth == "truncate":
            k = vals[1]
            put(cut(v, I(0), ite(t.lt(k, n), k, n)))
            return ret(t.UNIT)
        if meth == "split_off":
            k = vals[1]
            I_.require(st, t.le(k, n), "index out of bounds", I_.span)
            put(cut(v, I(0), k))
            return ret(cut(v, k, n))
        if meth == "retain":
            r = collect_vec(I_, st, iagg("it.filter", it_seq(v, byref=False), vals[1]), "retain@%s" % (I_.span,))
            if r is None or r[1] is None:
                return None
            v, s = r
            I_.store(s, vals[0], v)
            return t.UNIT, s
        if meth.startswith("dedup"):
            I_.havoc(st, vals[1:])
            put(mk("thin", v))
            return ret(t.UNIT)
        return None
    if meth == "resize" and vals[0].op == "ref":
        v = L(vals[0])
        n, m = t.length(v), vals[1]
        more = lift(lambda d: mk("map", d, vals[2]), ite(t.lt(n, m), t.sub(m, n), I(0)))
        keep = I_.slice(v, I(0), ite(t.lt(m, n), m, n))
        I_.store(st, vals[0], lift(lambda v, k, x: t.cat(*(list(t.parts(k)) + list(t.parts(x)))) if v.op != "unk" else v, v, keep, more)
                 if not vals[2].unk else unk("resized"))
        return ret(t.UNIT)
    if meth == "drain" and vals[0].op == "ref":
        v, r = L(vals[0]), vals[1]
        n = t.length(v)
        k = r.a[0] if r.op == "agg" else None
        lo, hi = {"Range": lambda: (r.a[2], r.a[3]), "RangeFrom": lambda: (r.a[2], n), "RangeTo": lambda: (I(0), r.a[2]),
                  "RangeFull": lambda: (I(0), n)}.get(k, lambda: (None, None))()
        if lo is None:
            return None
        I_.require(st, land(t.le(lo, hi), t.le(hi, n)), "slice out of bounds", I_.span)
        I_.store(st, vals[0], lift(lambda v, a, b: t.cat(*(list(t.parts(a)) + list(t.parts(b)))) if v.op != "unk" else v, v,
                                   I_.slice(v, I(0), lo), I_.slice(v, hi, n)))
        return ret(lift(lambda v: it_seq(v, byref=False) if v.op != "unk" else v, I_.slice(v, lo, hi)))
    if meth in ("as_slice", "as_mut_slice", "into_boxed_slice", "leak"):
        return ret(vals[0])
    if meth == "from":
        return ret(as_vec(L(vals[0])))
    if meth in ("extend", "extend_from_slice"):
        src = vals[1]
        whole = src.a[0] if src.op == "vref" else src
        if all(x.op in ("seq", "map", "cat", "flat") for x in t.leaves(whole)):
            old = I_.load(st, vals[0])
            I_.store(st, vals[0], lift(lambda v, w: t.cat(v, w) if v.op != "unk" else v, old, whole))
            return ret(t.UNIT)
        it = into_iter(I_, st, src)
        if it is not None:
            if meth == "extend_from_slice" or (I_.ty.name(info["a"][0]) if False else True) and it.op == "agg" and it.a[0] == "it.seq" and it.a[1] == SEQ_REF:
                it = iagg("it.cloned", it)
            r = collect_vec(I_, st, it, "extend")
            if r is not None and r[1] is not None:
                v, s = r
                I_.store(s, vals[0], t.cat(I_.load(s, vals[0]), *t.parts(v)))
                return t.UNIT, s
        I_.havoc(st, vals)
        return ret(t.UNIT)
    if meth == "eq":
        return ret(t.eq(deep(I_, st, vals[0]), deep(I_, st, vals[1])))
    return None


def v0(v):
    """An array as a sequence."""
    return t.lift(lambda v: t.cat(*[t.one(x) for x in v.a[2:]]) if v.op == "agg" and v.a[0] == "array" else v, v)


def slice_(I_, st, meth, info, vals, dty):
    ret = lambda v: (v, st)
    L = lambda v: I_.load(st, v)
    if meth == "iter":
        v = L(vals[0])
        return ret(lift(lambda v: it_seq(v) if v.op != "unk" else v, v))
    if meth == "iter_mut" and vals[0].op == "ref":
        n = t.length(L(vals[0]))
        return ret(lift(lambda n: iagg("it.refs", vals[0], I(0), n) if n.op != "unk" else n, n))
    if meth in ("fill", "fill_with", "swap", "reverse") and vals[0].op == "ref":
        v = L(vals[0])
        n = t.length(v)
        if meth == "fill":
            k = t.fresh_ix()
            I_.store(st, vals[0], t.vmap(n, k, vals[1]))
            return ret(t.UNIT)
        if meth == "reverse":
            k = t.fresh_ix()
            I_.store(st, vals[0], t.vmap(n, k, t.index(v, t.sub(t.sub(n, I(1)), k))))
            return ret(t.UNIT)
        if meth == "swap":
            i, j = vals[1:]
            I_.require(st, land(t.lt(i, n), t.lt(j, n)), "index out of bounds", I_.span)
            I_.store(st, vals[0], t.upd(t.upd(v, i, t.index(v, j)), j, t.index(v, i)))
            return ret(t.UNIT)
        return None
    if meth.startswith("sort") and vals[0].op == "ref":
        v = L(vals[0])
        I_.havoc(st, vals[1:])
        I_.store(st, vals[0], lift(lambda v: mk("perm", v) if v.op != "unk" else v, v))
        return ret(t.UNIT)
    if meth in ("rotate_left", "rotate_right") and vals[0].op == "ref":
        v = L(vals[0])
        n = t.length(v)
        k = vals[1]
        I_.require(st, t.le(k, n), "rotation by more than the length", I_.span)
        if meth == "rotate_right":
            k = t.sub(n, k)
        I_.store(st, vals[0], t.cat(I_.slice(v, k, n), I_.slice(v, I(0), k)))
        return ret(t.UNIT)
    if meth == "split_at":
        v, k = L(vals[0]), vals[1]
        n = t.length(v)
        I_.require(st, t.le(k, n), "slice out of bounds", I_.span)
        return ret(t.tup(mk("vref", I_.slice(v, I(0), k)), mk("vref", I_.slice(v, k, n))))
    if meth in ("windows", "chunks", "chunks_exact") and vals[1].op == "int" and vals[1].a[0] > 0:
        w = vals[1].a[0]

        def pieces(v):
            if v.op == "unk":
                return v
            n = t.length(v)
            if meth == "windows":
                m = t.add(t.sub(n, I(w)), I(1))
                m = ite(t.gt0(m), m, I(0))
            elif meth == "chunks":
                m = t.div(t.add(n, I(w - 1)), I(w))
            else:
                m = t.div(n, I(w))
            k = t.fresh_ix()
            lo = k if meth == "windows" else t.scale(k, w)
            hi = t.add(lo, I(w))
            if meth == "chunks":
                hi = ite(t.le(hi, n), hi, n)
            x = lift(lambda hi: mk("vref", I_.slice(v, lo, hi)), hi)
            return lift(lambda m: it_seq(t.vmap(m, k, x), byref=False), m)
        return ret(lift(pieces, v0(L(vals[0]))))
    if meth == "is_sorted":
        v = v0(L(vals[0]))
        n = t.length(v)
        k = t.fresh_ix()
        a, b = t.index(v, k), t.index(v, t.add(k, I(1)))
        if v.unk or not t._isnum(a) or not t._isnum(b):
            return None
        return ret(t.forall(t.sub(n, I(1)), k, t.le(a, b)))
    if meth in ("copy_from_slice", "clone_from_slice") and vals[0].op == "ref":
        v, w = L(vals[0]), deep(I_, st, vals[1])
        I_.require(st, t.eq(t.length(v), t.length(w)), "copying between slices of different lengths", I_.span)
        I_.store(st, vals[0], w)
        return ret(t.UNIT)
    if meth in ("split_first", "split_last"):
        v = L(vals[0])
        n = t.length(v)
        m = t.sub(n, I(1))
        x, w = (t.index(v, I(0)), I_.slice(v, I(1), n)) if meth == "split_first" else (t.index(v, m), I_.slice(v, I(0), m))
        return ret(ite(t.gt0(n), t.some(t.tup(mk("vref", x), mk("vref", w))), t.none()))
    if meth in ("to_ascii_lowercase", "to_ascii_uppercase"):
        v = as_vec(L(vals[0]))
        n = t.length(v)
        if n.op == "int" and n.a[0] <= 64:
            return ret(t.cat(*[t.one(ascii(t.index(v, I(i)), meth)) for i in range(n.a[0])]))
        return None
    if meth in ("make_ascii_lowercase", "make_ascii_uppercase") and vals[0].op == "ref":
        v = L(vals[0])
        n = t.length(v)
        if n.op == "int" and n.a[0] <= 64:
            for i in range(n.a[0]):
                v = t.upd(v, I(i), ascii(t.index(v, I(i)), meth))
            I_.store(st, vals[0], v)
            return ret(t.UNIT)
        return None
    if meth == "eq_ignore_ascii_case":
        v, w = as_vec(deep(I_, st, vals[0])), as_vec(deep(I_, st, vals[1]))
        n, m = t.length(v), t.length(w)
        if n.op == m.op == "int" and n.a[0] <= 64:
            r = t.B(n is m)
            for i in range(n.a[0] if n is m else 0):
                r = land(r, t.eq(ascii(t.index(v, I(i)), "lowercase"), ascii(t.index(w, I(i)), "lowercase")))
            return ret(r)
        return None
    if meth == "len":
        return ret(t.length(L(vals[0])))
    if meth == "is_empty":
        return ret(t.eq(t.length(L(vals[0])), I(0)))
    if meth == "get" and vals[1].op != "agg":
        v, i = L(vals[0]), vals[1]
        return ret(ite(t.lt(i, t.length(v)), t.some(mk("vref", t.index(v, i))), t.none()))
    if meth in ("first", "last"):
        v = L(vals[0])
        n = t.length(v)
        return ret(ite(t.gt0(n), t.some(mk("vref", t.index(v, I(0) if meth == "first" else t.sub(n, I(1))))), t.none()))
    if meth in ("into_vec", "to_vec", "box_assume_init_into_vec_unsafe"):
        return ret(as_vec(L(vals[0])))
    if meth == "next":
        return iterator(I_, st, meth, info, vals, dty)
    if meth in CONSUMERS or meth in ADAPTERS:
        return iterator(I_, st, meth, info, vals, dty)
    if meth == "as_slice":
        return ret(vals[0])
    if meth in ("starts_with", "ends_with"):
        v, w = deep(I_, st, vals[0]), deep(I_, st, vals[1])
        n, m = t.length(v), t.length(w)
        if m.op == "int" and m.a[0] <= 64:
            r = t.le(m, n)
            for i in range(m.a[0]):
                r = land(r, t.eq(t.index(v, I(i) if meth == "starts_with" else t.add(t.sub(n, m), I(i))), t.index(w, I(i))))
            return ret(r)
        return None
    if meth == "contains":
        x = deep(I_, st, vals[1])
        v = L(vals[0])
        n = t.length(v)
        if n.op == "int" and n.a[0] <= 64:
            r = FALSE
            for i in range(n.a[0]):
                r = lor(r, t.eq(t.index(v, I(i)), x))
            return ret(r)
        ix = t.fresh_ix()
        return ret(lnot(t.forall(n, ix, lnot(t.eq(t.index(v, ix), x)))))
    if meth in ("binary_search", "binary_search_by", "binary_search_by_key", "partition_point"):
        # defined only for sorted input: a different function of the elements
        k = mk("call", "binary search", L(vals[0]), "usize")
        f = mk("call", "binary search hit", L(vals[0]), "bool")
        I_.havoc(st, vals[1:])
        if meth == "partition_point":
            return ret(k)
        return ret(ite(f, t.ok(k), t.err(k)))
    return None


def ascii(x, meth):
    """A byte in lower or upper case."""
    return t.case(x, "lower" if meth.endswith("lowercase") else "upper")


def strings(I_, st, meth, info, vals, dty):
    if not vals:
        return None
    v = deep(I_, st, vals[0])
    p = deep(I_, st, vals[1]) if len(vals) > 1 else None
    if any(x.op != "str" for x in t.leaves(v)):
        return None
    r = [string(meth, x.a[0], p) for x in t.leaves(v)]
    if any(x is None for x in r):
        return None
    return lift(lambda x: string(meth, x.a[0], p) if x.op == "str" else x, v), st


def string(meth, x, p):
    if meth == "is_empty":
        return t.B(not x)
    if meth == "len":
        return I(len(x.encode()))
    if meth in ("trim", "trim_start", "trim_end"):
        return mk("vref", t.S({"trim": x.strip, "trim_start": x.lstrip, "trim_end": x.rstrip}[meth](" \t\n")))
    if meth in ("as_bytes",):
        return mk("vref", mk("agg", "array", 0, *[I(b) for b in x.encode()]))
    parts = None
    if meth == "split_whitespace" or meth == "split_ascii_whitespace":
        parts = x.split()
    elif meth in ("split", "split_terminator") and p is not None:
        sep = p.a[0] if p.op == "str" else chr(p.a[0]) if p.op == "int" else None
        if sep:
            parts = x.split(sep)
            if meth == "split_terminator" and parts and parts[-1] == "":
                parts = parts[:-1]
    if parts is not None:
        return it_seq(mk("agg", "array", 0, *[mk("vref", t.S(y)) for y in parts]), byref=False)
    return None


def _any(cs):
    r = FALSE
    for c in cs:
        r = lor(r, c)
    return r


def number(I_, st, meth, s, vals, dty):
    ret = lambda v: (v, st)
    ty = None
    if "<impl " in s:
        ty = s.split("<impl ")[1].split(">")[0]
    if ty not in t.INTR:
        return None
    a = vals[0]
    b = vals[1] if len(vals) > 1 else None
    lo, hi = t.INTR[ty]
    if ty == "u8" and "ascii" in meth:
        x = I_.load(st, a) if a.op in ("ref", "vref") else a
        if meth in ("to_ascii_lowercase", "to_ascii_uppercase"):
            return ret(ascii(x, meth))
        if meth in ("make_ascii_lowercase", "make_ascii_uppercase") and a.op == "ref":
            I_.store(st, a, ascii(x, meth))
            return ret(t.UNIT)
        if meth == "eq_ignore_ascii_case":
            return ret(t.eq(ascii(x, "lowercase"), ascii(I_.load(st, b), "lowercase")))
        within = lambda *ps: _any([land(t.le(I(l), x), t.le(x, I(h))) for l, h in ps])
        sets = {"is_ascii": ((0, 127),), "is_ascii_uppercase": ((65, 90),), "is_ascii_lowercase": ((97, 122),),
                "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_digit": ((48, 57),),
                "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)), "is_ascii_graphic": ((33, 126),),
                "is_ascii_control": ((0, 31), (127, 127)), "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
                "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
                "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102))}
        if meth in sets:
            return ret(within(*sets[meth]))
        return None
    for pre in ("checked_", "wrapping_", "saturating_", "overflowing_", "strict_"):
        if meth.startswith(pre):
            op = meth[len(pre):]
            if op in ("add", "sub", "mul", "add_signed"):
                v = {"add": t.add, "sub": t.sub, "mul": t.mul, "add_signed": t.add}[op](a, b)
            elif op == "div" and b.op == "int" and b.a[0] > 0:
                v = t.div(a, b)
            elif op == "neg":
                v = t.neg(a)
            else:
                return None
            bad = I_.out_of(v, ty, st.pc)
            if pre == "checked_":
                return ret(ite(bad, t.none(), t.some(v)))
            if pre == "wrapping_":
                return ret(t.cast(v, ty))
            if pre == "overflowing_":
                return ret(t.tup(t.cast(v, ty), bad))
            if pre == "strict_":
                I_.require(st, lnot(bad), "overflow", I_.span)
                return ret(v)
            return ret(ite(t.lt(v, I(lo)), I(lo), ite(t.lt(I(hi), v), I(hi), v)))
    if meth == "div_ceil" and b.op == "int" and b.a[0] > 0 and lo == 0:
        return ret(t.div(t.add(a, I(b.a[0] - 1)), b))
    if meth == "next_multiple_of" and b.op == "int" and b.a[0] > 0 and lo == 0:
        return ret(t.mul(b, t.div(t.add(a, I(b.a[0] - 1)), b)))
    if meth == "is_multiple_of" and b.op == "int" and b.a[0] > 0 and lo == 0:
        return ret(t.eq(t.rem(a, b), I(0)))
    if meth == "abs_diff" and lo == 0:
        return ret(ite(t.lt(a, b), t.sub(b, a), t.sub(a, b)))
    if meth == "count_ones":
        n = {"u8": 8, "u16": 16, "u32": 32}.get(ty)
        if n:
            r = I(0)
            m = t.bits_of(a)
            for i in range(n):
                if m is None or m >> i & 1:
                    r = t.add(r, ite(t.eq(t.band(a, I(1 << i)), I(0)), I(0), I(1)))
            return ret(r)
    if meth == "pow" and a.op == "int" and a.a[0] == 2:
        return ret(powers(st.pc, b))
    if meth == "pow" and a.op == "int" and b.op == "int":
        return ret(I(a.a[0] ** b.a[0]))
    if meth == "is_power_of_two" and a.op == "int":
        return ret(t.B(a.a[0] > 0 and a.a[0] & (a.a[0] - 1) == 0))
    if meth in ("from_be_bytes", "from_le_bytes") and (a.op == "agg" or t.length(a).op == "int"):
        bs = list(a.a[2:]) if a.op == "agg" else [t.index(a, I(i)) for i in range(t.length(a).a[0])]
        if meth == "from_le_bytes":
            bs = bs[::-1]
        n = len(bs)
        if all(x.op == "rd" and x.a[0] == "u8" for x in bs) and all(t.sub(bs[i].a[1], bs[0].a[1]) is I(i) for i in range(n)):
            return ret(t.rd(ty, bs[0].a[1]))
        if all(x.op == "int" for x in bs):
            return ret(I(int.from_bytes(bytes(x.a[0] for x in bs), "big", signed=lo < 0)))
        if lo == 0:
            r = I(0)
            for x in bs:
                r = t.add(t.scale(r, 256), x)
            return ret(r)
    if meth in ("to_be_bytes",) and a.op == "int":
        return ret(mk("agg", "array", 0, *[I(x) for x in a.a[0].to_bytes(SIZES[ty], "big", signed=lo < 0)]))
    if meth in ("min", "max"):
        return ret(ite(t.lt(b, a), b, a) if meth == "min" else ite(t.lt(b, a), a, b))
    return None


def pure(it):
    """Is looking at the next element the same as taking it from a copy?"""
    return it.op == "agg" and (it.a[0] in ("Range", "it.seq") or it.a[0] in ("it.enum", "it.cloned", "it.rev") and pure(it.a[2]))


def iterator(I_, st, meth, info, vals, dty):
    ret = lambda v: (v, st)
    if not vals:
        if meth == "empty":
            return ret(it_seq(t.cat(), byref=False))
        return None
    v = vals[0]
    if meth == "once":
        return ret(it_seq(t.cat(t.one(v)), byref=False))
    if meth == "repeat":
        return ret(iagg("it.repeat", v))
    if meth == "repeat_n":
        return ret(it_seq(lift(lambda n: mk("map", n, v), vals[1]), byref=False))
    if meth == "peek":
        it = I_.load(st, v)
        q = next_(I_, st, it) if pure(it) else None
        if q is None:
            return ret(unk("peek"))
        has = branch(q[0], st.pc)
        return ret(t.none() if has is FALSE else ite(has, t.some(mk("vref", q[1](st.copy())[1])), t.none()))
    if meth == "next" or meth == "next_back":
        r = v
        it = I_.load(st, r)
        if it.op == "vref":
            r, it = it, it.a[0]
        n = 0
        while it.op == "ref" and n < 5:
            r = it
            it = I_.load(st, it)
            n += 1
        try:
            q = (next_ if meth == "next" else back)(I_, st, it)
        except Unsupported:
            q = None
        if q is None:
            if it.op != "dc":
                I_.havoc(st, [r])
            return ret(unk("next of %s" % (it.a[0] if it.op == "agg" else it.op,)))
        has, th = q
        has = branch(has, st.pc)
        if has is FALSE:
            return ret(t.none())
        s1 = State(dict(st.mem), land(st.pc, has)) if has is not TRUE else st
        q = th(s1)
        if meth == "next" and (q is None or q[0] is not TRUE):
            # items are left out: the first that is not
            s0 = st.copy()
            try:
                f = consume(I_, s0, "first", info, it, vals, dty)
            except Unsupported:
                f = None
            if f is not None:
                v, s0 = f
                if s0 is not None:
                    I_.store(s0, r, unk("iterator after a search"))
                return v, s0
        if q is None or q[0] is not TRUE:
            I_.havoc(st, [r])
            return ret(unk("next"))
        g, x, rest, s1 = q
        I_.store(s1, r, rest)
        if has is TRUE:
            return t.some(x), s1
        s2 = State(dict(st.mem), land(st.pc, lnot(has)))
        return ite(has, t.some(x), t.none()), I_.merge(has, s1, s2)
    # adapters
    it = v
    viaref = None
    if it.op in ("ref",):
        viaref = it
        it = I_.load(st, it)
    if it.op == "vref":
        it = into_iter(I_, st, it) or it
    if it.op == "agg" and it.a[0] in ("RangeInclusive", "RangeFrom"):
        it = into_iter(I_, st, it)
    if meth in ADAPTERS:
        if it.op == "unk":
            return ret(it)
        if meth == "by_ref":
            return ret(v)
        if viaref is not None:
            return ret(unk("adapter of a borrowed iterator"))
        if it.op != "agg":
            return ret(unk("adapter"))
        if meth in ("map", "filter", "filter_map", "take_while", "map_while", "inspect", "skip_while", "flat_map"):
            return ret(iagg("it." + meth, it, vals[1]))
        if meth == "scan":
            return ret(iagg("it.scan", it, vals[1], vals[2]))
        if meth == "flatten":
            return ret(iagg("it.flatten", it))
        if meth == "chain":
            o = vals[1] if vals[1].op == "agg" and str(vals[1].a[0]).startswith("it.") else into_iter(I_, st, vals[1])
            if o is None:
                return ret(unk("chain"))
            a, b = as_seq(it), as_seq(o)
            if a is not None and b is not None and a[0] == b[0]:
                return ret(it_seq(t.cat(a[1], b[1]), byref=a[0] == SEQ_REF))
            return ret(iagg("it.chain", it, o))
        if meth == "step_by":
            if vals[1].op == "int" and vals[1].a[0] > 0 and skip_any(it, I(1)) is not None:
                return ret(iagg("it.step", it, vals[1]))
            return ret(unk("step_by"))
        if meth == "enumerate":
            return ret(iagg("it.enum", it, I(0)))
        if meth == "zip":
            o = into_iter(I_, st, vals[1]) if vals[1].op != "agg" or not str(vals[1].a[0]).startswith("it.") else vals[1]
            return ret(iagg("it.zip", it, o)) if o is not None else ret(unk("zip"))
        if meth == "rev":
            return ret(iagg("it.rev", it))
        if meth == "fuse" or meth == "peekable" and pure(it):
            return ret(it)
        if meth == "peekable":
            return ret(unk("peekable"))
        if meth in ("cloned", "copied"):
            return ret(iagg("it.cloned", it))
        if meth == "take":
            n = count_of(it)
            if it.a[0] == "it.repeat" and not vals[1].unk:
                return ret(lift(lambda n: it_seq(mk("map", n, it.a[2]), byref=False), vals[1]))
            if n is not None:
                # no more than there are
                r = lift(lambda k: limit(it, k, n), ite(t.lt(vals[1], n), vals[1], n))
                if not r.unk:
                    return ret(r)
            return ret(iagg("it.take", it, vals[1]))
        if meth == "skip":
            r = skip(it, vals[1])
            return ret(r if r is not None else unk("skip"))
        return ret(unk("adapter %s" % meth))
    if meth == "nth" and it.op == "agg":
        # the iterator moves on, whether there is one or not
        n = count_of(it)
        at = skip_any(it, vals[1]) if n is not None else None
        if at is not None and viaref is not None:
            has = branch(t.lt(vals[1], n), st.pc)
            if has is FALSE:
                I_.store(st, viaref, skip_any(it, n))
                return ret(t.none())
            q = next_(I_, st, at)
            if q is not None:
                s1 = State(dict(st.mem), land(st.pc, has)) if has is not TRUE else st
                g, x, rest, s1 = q[1](s1) or (FALSE, None, None, None)
                if g is TRUE:
                    I_.store(s1, viaref, rest)
                    if has is TRUE:
                        return t.some(x), s1
                    s2 = State(dict(st.mem), land(st.pc, lnot(has)))
                    I_.store(s2, viaref, skip_any(it, n))
                    return ite(has, t.some(x), t.none()), I_.merge(has, s1, s2)
        I_.havoc(st, vals)
        return ret(unk("nth"))
    c = choice(it) if meth in CONSUMERS else None
    if c is not None:
        a, b = split(I_, st, c)
        ra = iterator(I_, a, meth, info, [chosen(it, c, a.pc, True)] + vals[1:], dty) if a is not None else (None, None)
        rb = iterator(I_, b, meth, info, [chosen(it, c, b.pc, False)] + vals[1:], dty) if b is not None else (None, None)
        if ra is not None and rb is not None:
            for r in (ra, rb):
                if viaref is not None and r[1] is not None:
                    I_.store(r[1], viaref, unk("consumed iterator"))
            if ra[1] is None:
                return rb
            if rb[1] is None:
                return ra
            return ite(c, ra[0], rb[0]), I_.merge(c, ra[1], rb[1])
    if meth in CONSUMERS:
        try:
            r = consume(I_, st, meth, info, it, vals, dty)
        except Unsupported:
            r = None
        if r is None:
            I_.havoc(st, vals)
            return ret(unk("iteration (%s)" % meth))
        v, s = r
        if viaref is not None and s is not None:
            I_.store(s, viaref, unk("consumed iterator"))
        return v, s
    if meth == "len":
        n = count_of(it)
        return ret(n) if n is not None else None
    return None


def skip(it, n):
    k = it.a[0]
    if k == "Range":
        return iagg("Range", t.add(it.a[2], n), it.a[3])
    if k == "it.seq":
        return mk("agg", k, it.a[1], it.a[2], t.add(it.a[3], n), it.a[4])
    if k == "it.refs":
        return iagg(k, it.a[2], t.add(it.a[3], n), it.a[4])
    if k == "it.enum":
        r = skip(it.a[2], n)
        return iagg(k, r, t.add(it.a[3], n)) if r is not None else None
    if k == "it.cloned":
        r = skip(it.a[2], n)
        return iagg(k, r) if r is not None else None
    return None


def choice(it):
    """A condition that the extent of the iterator depends on."""
    if it.op == "ite":
        return it.a[0]
    if it.op != "agg":
        return None
    if it.a[0] == "Range":
        xs = it.a[2:4]
    elif it.a[0] in ("it.seq", "it.refs"):
        xs = it.a[3:5]
    elif it.a[0] == "it.zip":
        return choice(it.a[2]) or choice(it.a[3])
    elif str(it.a[0]).startswith("it."):
        return choice(it.a[2])
    else:
        return None
    for x in xs:
        if x.op == "ite" and not x.unk:
            return x.a[0]
    return None


def chosen(it, c, pc, side):
    r = {x: x.a[1 if side else 2] for x in t.subterms(it) if x.op == "ite" and x.a[0] is c}
    return given(t.subst(it, r), pc)


def limit(it, k, n):
    """The first k of the n items."""
    if k is n:
        return it
    r = limit_(it, k)
    return r if r is not None else unk("take")


def limit_(it, k):
    if it.op != "agg":
        return None
    o = it.a[0]
    if o == "Range":
        return iagg("Range", it.a[2], t.add(it.a[2], k))
    if o == "it.seq":
        return mk("agg", o, it.a[1], it.a[2], it.a[3], t.add(it.a[3], k))
    if o == "it.refs":
        return iagg(o, it.a[2], it.a[3], t.add(it.a[3], k))
    if o in ("it.map", "it.enum", "it.cloned"):
        r = limit_(it.a[2], k)
        return iagg(o, r, *it.a[3:]) if r is not None else None
    return None


def skip_any(it, n):
    """The iterator after n items, through adapters that yield one item for each."""
    if it.op != "agg":
        return None
    k = it.a[0]
    if k == "it.map":
        r = skip_any(it.a[2], n)
        return iagg(k, r, *it.a[3:]) if r is not None else None
    if k == "it.enum":
        r = skip_any(it.a[2], n)
        return iagg(k, r, t.add(it.a[3], n)) if r is not None else None
    if k == "it.zip":
        a, b = skip_any(it.a[2], n), skip_any(it.a[3], n)
        return iagg(k, a, b) if a is not None and b is not None else None
    if k == "it.cloned":
        r = skip_any(it.a[2], n)
        return iagg(k, r) if r is not None else None
    if k in ("Range", "it.seq", "it.refs"):
        return skip(it, n)
    return None


def consume(I_, st, meth, info, it, vals, dty):
    P = st.pc
    name = "%s@%s" % (meth, I_.span)
    if meth == "collect":
        b = info["a"][1] if len(info.get("a", [])) > 1 else dty
        tt = I_.ty[b]
        n = I_.ty.adt(tt) if tt["k"] == "adt" else None
        if n == "Vec":
            return collect_vec(I_, st, it, name)
        if n in ("Result", "Option") and tt["a"]:
            inner = I_.ty[tt["a"][0]]
            if inner["k"] == "adt" and I_.ty.adt(inner) == "Vec":
                return collect_vec(I_, st, it, name, n)
            if inner["k"] == "tuple" and not inner["es"]:
                r = collect_vec(I_, st, it, name, n)
                if r is None or r[1] is None:
                    return r
                return lift(lambda v: t.ok(t.UNIT) if n == "Result" and v.a[1] == 0 else v, r[0]), r[1]
        return None
    if meth == "count":
        n = count_of(it)
        if n is not None:
            return n, st
    if meth in ("unzip", "partition"):
        tt = I_.ty[dty] if dty is not None else None
        if tt is None or tt["k"] != "tuple" or not all(I_.ty.name(e).startswith("Vec<") for e in tt["es"]):
            return None
        a, b = I_.alloc(st, t.cat()), I_.alloc(st, t.cat())
        fa = I_.alloc(st, vals[1]) if meth == "partition" else None

        def put(s, x):
            if fa is None:
                s.mem[a] = t.cat(s.mem[a], t.one(t.field(x, 0, 0, None)))
                s.mem[b] = t.cat(s.mem[b], t.one(t.field(x, 0, 1, None)))
                return s, {}
            c, s = I_.apply(s, I_.ref(fa), [mk("vref", x)])
            if s is None:
                raise Unsupported()
            x = t.one(x)
            s.mem[a], s.mem[b] = ite(c, t.cat(s.mem[a], x), s.mem[a]), ite(c, s.mem[b], t.cat(s.mem[b], x))
            return s, {}
        outs = drive(I_, st, it, put, name)
        if outs is None:
            return None
        v, s = finish(I_, st, outs, P, {"done": lambda s: t.tup(s.mem[a], s.mem[b]), "exit": lambda s: DC})
        return v, s
    if meth in ("rposition", "rfind"):
        it = iagg("it.rev", it)
        if meth == "rposition":
            return None
        meth = "find"
    if meth in ("max", "min"):
        n = count_of(it)
        i = t.fresh_ix()
        at = skip_any(it, i) if n is not None else None
        r = next_(I_, st, at) if at is not None else None
        if r is None:
            return None
        q = r[1](State(dict(st.mem), land(st.pc, t.lt(i, n))))
        if q is None or q[0] is not TRUE or any(q[3].mem.get(z) is not y for z, y in st.mem.items() if y is not it):
            return None
        x = I_.load(q[3], q[1])
        if not t._isnum(x) or x.unk or x.op == "ite":
            return None
        x = t.most(n, i, x) if meth == "max" else t.neg(t.most(n, i, t.neg(x)))
        return ite(t.gt0(n), t.some(mk("vref", x) if q[1].op == "vref" else x), t.none()), st
    res = I_.alloc(st, DC)
    acc = I_.alloc(st, vals[1] if meth in ("fold", "try_fold") else I(0))
    fa = None
    if meth not in ("sum", "last", "count", "first", "min", "max"):
        fa = I_.alloc(st, vals[2] if meth in ("fold", "try_fold") else vals[1])

    wrapped = I_.ty.aggname(dty) if dty is not None else None
    if meth == "try_fold" and wrapped not in ("Result", "Option"):
        return None

    def call(s, args):
        v, s = I_.apply(s, I_.ref(fa), args)
        if s is None:
            raise Unsupported()
        return v, s

    def step(s, x):
        if meth == "find":
            c, s = call(s, [mk("vref", x)])
            a, b = split(I_, s, c)
            if a is not None:
                a.mem[res] = t.some(x)
            return b, {"exit": a} if a is not None else {}
        if meth == "first":
            s.mem[res] = t.some(x)
            return None, {"exit": s}
        if meth == "find_map":
            o, s = call(s, [x])
            a, b = split(I_, s, t.eq(t.discr(o), I(1)))
            if a is not None:
                a.mem[res] = given(o, a.pc)
            return b, {"exit": a} if a is not None else {}
        if meth == "position":
            c, s = call(s, [x])
            a, b = split(I_, s, c)
            if a is not None:
                a.mem[res] = t.some(a.mem[acc])
            if b is not None:
                b.mem[acc] = t.add(b.mem[acc], I(1))
            return b, {"exit": a} if a is not None else {}
        if meth in ("any", "all"):
            c, s = call(s, [x])
            if meth == "all":
                c = lnot(c)
            a, b = split(I_, s, c)
            if a is not None:
                a.mem[res] = t.B(meth == "any")
            return b, {"exit": a} if a is not None else {}
        if meth == "for_each":
            _, s = call(s, [x])
            return s, {}
        if meth == "try_for_each":
            o, s = call(s, [x])
            a, b = split(I_, s, t.eq(t.discr(o), I(0)))
            if o.op == "agg" and o.a[0] not in ("Result", "ControlFlow") or I_.ty.aggname(dty) == "Option":
                raise Unsupported()
            if b is not None:
                b.mem[res] = t.err(ERR)
            return a, {"exit": b} if b is not None else {}
        if meth == "fold":
            v, s = call(s, [s.mem[acc], x])
            s.mem[acc] = v
            return s, {}
        if meth == "try_fold":
            o, s = call(s, [s.mem[acc], x])
            k = 1 if wrapped == "Option" else 0
            a, b = split(I_, s, t.eq(t.discr(o), I(k)))
            if a is not None:
                a.mem[acc] = t.field(given(o, a.pc), k, 0, None)
            if b is not None:
                b.mem[res] = t.err(ERR) if wrapped == "Result" else given(o, b.pc)
            return a, {"exit": b} if b is not None else {}
        if meth == "sum":
            s.mem[acc] = t.add(s.mem[acc], I_.load(s, x))
            return s, {}
        if meth == "count":
            s.mem[acc] = t.add(s.mem[acc], I(1))
            return s, {}
        if meth == "last":
            s.mem[res] = t.some(x)
            return s, {}
        raise Unsupported()
    if meth == "last":
        st.mem[res] = t.none()
    outs = drive(I_, st, it, step, name)
    if outs is None:
        return None
    done = {
        "first": lambda s: t.none(), "find": lambda s: t.none(), "find_map": lambda s: t.none(), "position": lambda s: t.none(),
        "any": lambda s: FALSE, "all": lambda s: TRUE, "for_each": lambda s: t.UNIT,
        "try_for_each": lambda s: t.ok(t.UNIT), "fold": lambda s: s.mem[acc], "sum": lambda s: s.mem[acc],
        "try_fold": lambda s: t.ok(s.mem[acc]) if wrapped == "Result" else t.some(s.mem[acc]),
        "count": lambda s: s.mem[acc],
        "last": lambda s: s.mem[res]}[meth]
    v, s = finish(I_, st, outs, P, {"done": done, "exit": lambda s: s.mem[res]})
    if s is not None:
        for a in (res, acc, fa):
            if a is not None:
                s.mem.pop(a, None)
    return v, s
