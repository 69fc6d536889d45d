"""The declarative format specification: what every reader of the crate must yield.

One entry per type.  For an encoding that begins at an abstract address (with an optional parameter) an entry
states the fields of the value, in terms of what is encoded where, the condition under which the encoding is well
formed, and the address right after the encoding's own bytes.  Entries never describe how to read.
"""
import terms as t
from terms import I, TRUE, FALSE, DC, NONE, ite, land, lor, lnot, mk

NUMBERS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "Tag": 4, "q32": 4, "NameID": 2, "u64": 8, "i64": 8}

# name -> (area property, parameter, function, options)
TABLE = {}
# flag words: (bits that a well-formed word does not set)
WORDS = {"lookup::Flags": ("C01", 0x00E0), "glyph_positioning::Flags": ("C05", 0xFF00),
         "font_variations::AxisFlags": ("C08", 0xFFFE), "font_variations::InstanceFlags": ("C08", 0xFFFF)}


def entry(name, area, prm=None, inline=True, pre=None):
    def f(fn):
        TABLE[name] = (area, prm, fn, {"inline": inline, "pre": pre})
        return fn
    return f


class Reads:
    __slots__ = ("ty", "addr", "prm", "n", "cond", "inline", "null")


class B:
    """One encoding, being described."""

    def __init__(self, sp, pos, prm):
        self.sp = sp
        self.pos = pos
        self.cur = pos
        self.prm = prm
        self.valid = TRUE
        self.cond = TRUE
        self.null = False
        self.dispatch = False
        self.reads = []

    def record(self, ty, addr, prm, n, inline):
        r = Reads()
        r.ty, r.addr, r.prm, r.n, r.cond, r.inline = ty, addr, prm, n, self.cond, inline
        r.null = self.null
        self.reads.append(r)

    def take(self, ty, prm=None):
        self.record(ty, self.cur, prm, None, True)
        v = t.rd(ty, self.cur, prm)
        self.cur = t.add(self.cur, t.size(ty, self.cur, prm))
        return v

    def u16(self):
        return self.take("u16")

    def array(self, ty, n, prm=None):
        self.record(ty, self.cur, prm, n, True)
        v = t.seq(ty, self.cur, n, prm)
        self.cur = t.add(self.cur, t.seqsize(ty, self.cur, n, prm))
        return v

    def option(self, cond, ty, prm=None):
        """An encoding that is there only under a condition."""
        c = self.cond
        self.cond = land(c, cond)
        self.record(ty, self.cur, prm, None, True)
        self.cond = c
        v = ite(cond, t.some(t.rd(ty, self.cur, prm)), t.none())
        self.cur = ite(cond, t.add(self.cur, t.size(ty, self.cur, prm)), self.cur)
        return v

    def at(self, off, ty, prm=None, base=None):
        a = t.add(self.pos if base is None else base, off)
        self.record(ty, a, prm, None, False)
        return t.rd(ty, a, prm)

    def maybe(self, off, ty, prm=None, base=None):
        c = self.cond
        nz = t.gt0(off)
        self.cond, self.null = land(c, nz), True
        v = self.at(off, ty, prm, base)
        self.cond, self.null = c, False
        return ite(nz, t.some(v), t.none())

    def lenient(self, on, off, ty, prm=None, base=None):
        """Out of line; under a leniency feature, a null offset stands for the default value."""
        if on not in self.sp.features:
            return self.at(off, ty, prm, base)
        v = self.maybe(off, ty, prm, base)
        return t.lift(lambda v: v.a[2] if v.a[1] == 1 else self.sp.zero(ty), v)

    def each(self, n, f):
        ix = t.fresh_ix()
        k = len(self.reads)
        c = self.cond
        v = f(ix)
        self.cond = c
        for r in self.reads[k:]:
            m = {ix: mk("any", n)}
            r.addr = t.subst(r.addr, m)
            r.prm = t.subst(r.prm, m) if r.prm is not None else None
            r.n = t.subst(r.n, m) if r.n is not None else None
            r.cond = land(c, lnot(t.forall(n, ix, lnot(r.cond))))
        return t.vmap(n, ix, v)

    def every(self, n, f):
        ix = t.fresh_ix()
        return t.forall(n, ix, f(ix))

    def list_at(self, n, offs, ty, prm=None, base=None):
        return self.each(n, lambda i: self.at(t.index(offs, i), ty, prm, base))

    def list_maybe(self, n, offs, ty, prm=None, base=None):
        return self.each(n, lambda i: self.maybe(t.index(offs, i), ty, prm, base))

    def require(self, c):
        self.valid = land(self.valid, c)

    def const(self, v, n):
        self.require(t.eq(v, I(n)))
        return v

    def make(self, **fs):
        return self.sp.make(self.name, None, fs)

    def pick(self, word, cases):
        """An enumeration selected by a number: {number or range: (variant, type)}."""
        v = DC
        ok = FALSE
        self.dispatch = True
        for nums, variant, ty in cases:
            c = FALSE
            for n in nums:
                c = lor(c, t.eq(word, I(n)))
            x = mk("agg", self.name, self.sp.variant(self.name, variant), t.rd(ty, self.pos, None))
            self.cond = c
            self.record(ty, self.pos, None, None, None)
            self.cond = TRUE
            v = ite(c, x, v)
            ok = lor(ok, c)
        self.require(ok)
        e = self.cur
        for nums, variant, ty in cases:
            c = FALSE
            for n in nums:
                c = lor(c, t.eq(word, I(n)))
            e = ite(c, t.add(self.pos, t.size(ty, self.pos)), e) if e is not self.cur or True else e
        self.cur = e
        return v


# ------------------------------------------------------------------ flag words

def word(name):
    area, bad = WORDS[name]

    @entry(name, area)
    def f(b, p):
        w = b.u16()
        b.require(t.eq(t.band(w, I(bad)), I(0)))
        return mk("agg", name, 0, w)


for _n in WORDS:
    word(_n)


# ------------------------------------------------------------------ class, coverage, correction

@entry("class::Class", "C02")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((1,), "Format1", "class::Class1"), ((2,), "Format2", "class::Class2")])


def fmt(n, at=0):
    return lambda pos: t.eq(t.rd("u16", t.add(pos, I(at))), I(n))


@entry("class::Class1", "C02", pre=fmt(1))
def _(b, p):
    f, s, n = b.u16(), b.u16(), b.u16()
    return b.make(format=f, start_glyph_id=s, glyph_count=n, indices=b.array("u16", n))


@entry("class::Class2", "C02", pre=fmt(2))
def _(b, p):
    f, n = b.u16(), b.u16()
    return b.make(format=f, record_count=n, records=b.array("class::Record", n))


for _n in ("class::Record", "coverage::Record"):
    @entry(_n, "C02")
    def _(b, p):
        return b.make(start_glyph_id=b.u16(), end_glyph_id=b.u16(), index=b.u16())


@entry("coverage::Coverage", "C02")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((1,), "Format1", "coverage::Coverage1"), ((2,), "Format2", "coverage::Coverage2")])


@entry("coverage::Coverage1", "C02", pre=fmt(1))
def _(b, p):
    f, n = b.u16(), b.u16()
    return b.make(format=f, glyph_count=n, glyph_ids=b.array("u16", n))


@entry("coverage::Coverage2", "C02", pre=fmt(2))
def _(b, p):
    f, n = b.u16(), b.u16()
    return b.make(format=f, record_count=n, records=b.array("coverage::Record", n))


@entry("correction::Correction", "C02")
def _(b, p):
    return b.pick(t.rd("u16", t.add(b.pos, I(4))),
                  [((1, 2, 3), "Device", "correction::Device"), ((0x8000,), "Variation", "correction::Variation")])


@entry("correction::Device", "C02")
def _(b, p):
    s, e, f = b.u16(), b.u16(), b.u16()
    b.require(t.le(s, e))
    b.require(lor(t.eq(f, I(1)), lor(t.eq(f, I(2)), t.eq(f, I(3)))))
    n = t.add(t.sub(e, s), I(1))
    # 2, 4 or 8 bits for each size, in whole words
    bits = ite(t.eq(f, I(1)), t.scale(n, 2), ite(t.eq(f, I(2)), t.scale(n, 4), t.scale(n, 8)))

    def words(x):
        # the negative counts are those of encodings that are rejected
        return t.lift(lambda y: t.div(t.add(y, I(15)), I(16)), x)
    c = t.le(s, e)
    k = ite(c, t.under(c, lambda: words(bits)), DC)
    k = t.restrict(k, c, True) if c.op != "ite" else given(k, c)
    return b.make(start_size=s, end_size=e, format=f, deltas=b.array("u16", k))


def given(x, pc):
    while pc.op == "ite":
        c, a, b = pc.a
        if b is FALSE:
            x = t.restrict(x, c, True)
            pc = a
        elif a is FALSE:
            x = t.restrict(x, c, False)
            pc = b
        else:
            break
    return x


@entry("correction::Variation", "C02", pre=fmt(0x8000, 4))
def _(b, p):
    return b.make(outer_index=b.u16(), inner_index=b.u16(), format=b.u16())


# ------------------------------------------------------------------ contexts

@entry("context::Action", "C03")
def _(b, p):
    return b.make(position_index=b.u16(), lookup_index=b.u16())


@entry("context::Context", "C03")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((i,), "Format%d" % i, "context::Context%d" % i) for i in (1, 2, 3)])


@entry("context::ChainedContext", "C03")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((i,), "Format%d" % i, "context::ChainedContext%d" % i) for i in (1, 2, 3)])


def context1(name, sets):
    @entry(name, "C03", pre=fmt(1))
    def _(b, p):
        f, c, n = b.u16(), b.u16(), b.u16()
        offs = b.array("u16", n)
        # a null offset: no rules for the glyph
        zero = b.sp.zero(sets)

        def one(i):
            v = b.maybe(t.index(offs, i), sets)
            return t.lift(lambda v: v.a[2] if v.a[1] == 1 else zero, v)
        return b.make(format=f, coverage_offset=c, record_count=n, record_offsets=offs,
                      coverage=b.at(c, "coverage::Coverage"), records=b.each(n, one))


context1("context::Context1", "context::Records")
context1("context::ChainedContext1", "context::ChainedRecords")


def rules(name, rule):
    @entry(name, "C03")
    def _(b, p):
        n = b.u16()
        offs = b.array("u16", n)
        return b.make(count=n, offsets=offs, records=b.list_at(n, offs, rule))


for _a in ("", "Chained"):
    for _b in ("", "Class"):
        rules("context::%s%sRecords" % (_a, _b), "context::%s%sRecord" % (_a, _b))


def minus1(n):
    """One less, where there is any: the first glyph is given by the coverage."""
    return ite(t.gt0(n), t.sub(n, I(1)), I(0))


def rule(name, what):
    @entry(name, "C03")
    def _(b, p):
        n, k = b.u16(), b.u16()
        b.require(t.gt0(n))
        v = b.array("u16", t.sub(n, I(1)))
        return b.make(**{"glyph_count": n, "action_count": k, what: v, "actions": b.array("context::Action", k)})


rule("context::Record", "glyph_ids")
rule("context::ClassRecord", "indices")


def chained(name, what):
    @entry(name, "C03")
    def _(b, p):
        k = b.u16()
        back = b.array("u16", k)
        n = b.u16()
        b.require(t.gt0(n))
        mid = b.array("u16", t.sub(n, I(1)))
        m = b.u16()
        fwd = b.array("u16", m)
        c = b.u16()
        return b.make(**{"backward_glyph_count": k, "backward_" + what: back, "glyph_count": n, what: mid,
                         "forward_glyph_count": m, "forward_" + what: fwd, "action_count": c,
                         "actions": b.array("context::Action", c)})


chained("context::ChainedRecord", "glyph_ids")
chained("context::ChainedClassRecord", "indices")


@entry("context::Context2", "C03", pre=fmt(2))
def _(b, p):
    f, c, k, n = b.u16(), b.u16(), b.u16(), b.u16()
    offs = b.array("u16", n)
    return b.make(format=f, coverage_offset=c, class_offset=k, record_count=n, record_offsets=offs,
                  coverage=b.at(c, "coverage::Coverage"), **{"class": b.at(k, "class::Class")},
                  records=b.list_maybe(n, offs, "context::ClassRecords"))


@entry("context::Context3", "C03", pre=fmt(3))
def _(b, p):
    f, n, k = b.u16(), b.u16(), b.u16()
    offs = b.array("u16", n)
    acts = b.array("context::Action", k)
    return b.make(format=f, glyph_count=n, action_count=k, coverage_offsets=offs, actions=acts,
                  coverages=b.list_at(n, offs, "coverage::Coverage"))


@entry("context::ChainedContext2", "C03", pre=fmt(2))
def _(b, p):
    f, c, k1, k2, k3, n = [b.u16() for _ in range(6)]
    offs = b.array("u16", n)
    return b.make(format=f, coverage_offset=c, backward_class_offset=k1, class_offset=k2, forward_class_offset=k3,
                  record_count=n, record_offsets=offs, coverage=b.at(c, "coverage::Coverage"),
                  backward_class=b.at(k1, "class::Class"), forward_class=b.at(k3, "class::Class"),
                  records=b.list_maybe(n, offs, "context::ChainedClassRecords"), **{"class": b.at(k2, "class::Class")})


@entry("context::ChainedContext3", "C03", pre=fmt(3))
def _(b, p):
    f = b.u16()
    n1 = b.u16()
    o1 = b.array("u16", n1)
    n2 = b.u16()
    o2 = b.array("u16", n2)
    n3 = b.u16()
    o3 = b.array("u16", n3)
    k = b.u16()
    acts = b.array("context::Action", k)
    cov = "coverage::Coverage"
    return b.make(format=f, backward_glyph_count=n1, backward_coverage_offsets=o1, glyph_count=n2, coverage_offsets=o2,
                  forward_glyph_count=n3, forward_coverage_offsets=o3, action_count=k, actions=acts,
                  backward_coverages=b.list_at(n1, o1, cov), coverages=b.list_at(n2, o2, cov),
                  forward_coverages=b.list_at(n3, o3, cov))


# ------------------------------------------------------------------ layout lists

@entry("directory::Directory", "C01", inline=False)
def _(b, p):
    ma, mi = b.u16(), b.u16()
    b.require(t.eq(ma, I(1)))
    b.require(lor(t.eq(mi, I(0)), t.eq(mi, I(1))))
    s, f, l = b.u16(), b.u16(), b.u16()
    v = b.option(t.eq(mi, I(1)), "u32")
    v = t.lift(lambda v: v.a[2] if v.a[1] == 1 else I(0), v)
    on = "ignore-incomplete-directories"
    return b.make(major_version=ma, minor_version=mi, script_offset=s, feature_offset=f, lookup_offset=l,
                  variation_offset=v, scripts=b.lenient(on, s, "script::Scripts"),
                  features=b.lenient(on, f, "feature::Features"), lookups=b.lenient(on, l, "lookup::Lookups"),
                  variations=b.maybe(v, "feature::Variations"))


def listing(name, header, record):
    @entry(name, "C01")
    def _(b, p):
        n = b.u16()
        hs = b.array(header, n)
        off = b.sp.fieldno(header, "offset")
        return b.make(count=n, headers=hs,
                      records=b.each(n, lambda i: b.at(t.field(t.index(hs, i), None, off, "u16"), record)))


listing("script::Scripts", "script::Header", "script::Record")
listing("feature::Features", "feature::Header", "feature::Record")

for _n in ("script::Header", "feature::Header", "language::Header"):
    @entry(_n, "C01")
    def _(b, p):
        return b.make(tag=b.take("Tag"), offset=b.u16())


@entry("script::Record", "C01")
def _(b, p):
    d, n = b.u16(), b.u16()
    hs = b.array("language::Header", n)
    off = b.sp.fieldno("language::Header", "offset")
    return b.make(default_language_offset=d, language_count=n, language_headers=hs,
                  default_language=b.maybe(d, "language::Record"),
                  language_records=b.each(n, lambda i: b.at(t.field(t.index(hs, i), None, off, "u16"), "language::Record")))


@entry("language::Record", "C01")
def _(b, p):
    o, r, n = b.u16(), b.u16(), b.u16()
    b.const(o, 0)
    return b.make(lookup_order_offset=o, required_feature_index=r, feature_index_count=n, feature_indices=b.array("u16", n))


@entry("feature::Record", "C01")
def _(b, p):
    o, n = b.u16(), b.u16()
    v = b.array("u16", n)
    # parameters are recorded as present, without their contents
    return b.make(parameter_offset=o, lookup_index_count=n, lookup_indices=v,
                  parameters=ite(t.gt0(o), t.some(t.cat()), t.none()))


@entry("feature::Variations", "C01")
def _(b, p):
    return b.make(major_version=b.const(b.u16(), 1), minor_version=b.const(b.u16(), 0), count=b.take("u32"))


@entry("lookup::Lookups", "C01")
def _(b, p):
    n = b.u16()
    offs = b.array("u16", n)
    return b.make(count=n, offsets=offs, records=b.list_at(n, offs, "lookup::Record"))


@entry("lookup::Record", "C01")
def _(b, p):
    ty, fl, n = b.u16(), b.take("lookup::Flags"), b.u16()
    offs = b.array("u16", n)
    bits = t.field(fl, None, 0, "u16")
    m = b.option(lnot(t.eq(t.band(bits, I(0x10)), I(0))), "u16")
    return b.make(type=ty, flags=fl, table_count=n, table_offsets=offs, mark_filtering_set=m,
                  tables=b.list_at(n, offs, "#", ty))


# ------------------------------------------------------------------ substitution

GS = "glyph_substitution::"


def kinds(name, cases, area):
    @entry(name, area, prm="u16", inline=False)
    def _(b, p):
        v = DC
        ok = FALSE
        b.dispatch = True
        for i, (variant, ty) in enumerate(cases):
            c = t.eq(p, I(i + 1))
            v = ite(c, mk("agg", name, b.sp.variant(name, variant), t.rd(ty, b.pos, None)), v)
            b.cond = c
            b.record(ty, b.pos, None, None, None)
            b.cond = TRUE
            ok = lor(ok, c)
        b.require(ok)
        return v


kinds(GS + "Type", [(n, GS + n) for n in ("SingleSubstitution", "MultipleSubstitution", "AlternateSubstitution", "LigatureSubstitution")]
      + [("ContextualSubstitution", "context::Context"), ("ChainedContextualSubstitution", "context::ChainedContext")]
      + [(n, GS + n) for n in ("ExtensionSubstitution", "ReverseChainedContextualSubstibution")], "C04")


@entry(GS + "SingleSubstitution", "C04")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((i,), "Format%d" % i, GS + "SingleSubstitution%d" % i) for i in (1, 2)])


@entry(GS + "SingleSubstitution1", "C04", pre=fmt(1))
def _(b, p):
    f, c = b.u16(), b.u16()
    return b.make(format=f, coverage_offset=c, delta_glyph_id=b.take("i16"), coverage=b.at(c, "coverage::Coverage"))


@entry(GS + "SingleSubstitution2", "C04", pre=fmt(2))
def _(b, p):
    f, c, n = b.u16(), b.u16(), b.u16()
    return b.make(format=f, coverage_offset=c, glyph_count=n, glyph_ids=b.array("u16", n), coverage=b.at(c, "coverage::Coverage"))


def substitution(name, record):
    @entry(GS + name, "C04")
    def _(b, p):
        f, c, n = b.u16(), b.u16(), b.u16()
        b.const(f, 1)
        offs = b.array("u16", n)
        return b.make(format=f, coverage_offset=c, record_count=n, record_offsets=offs, coverage=b.at(c, "coverage::Coverage"),
                      records=b.list_at(n, offs, GS + record))


substitution("MultipleSubstitution", "Sequence")
substitution("AlternateSubstitution", "Alternates")
substitution("LigatureSubstitution", "Ligatures")

for _n in ("Sequence", "Alternates"):
    @entry(GS + _n, "C04")
    def _(b, p):
        n = b.u16()
        return b.make(glyph_count=n, glyph_ids=b.array("u16", n))


@entry(GS + "Ligatures", "C04")
def _(b, p):
    n = b.u16()
    offs = b.array("u16", n)
    return b.make(count=n, offsets=offs, records=b.list_at(n, offs, GS + "Ligature"))


@entry(GS + "Ligature", "C04")
def _(b, p):
    g, n = b.u16(), b.u16()
    b.require(t.gt0(n))
    return b.make(glyph_id=g, glyph_count=n, glyph_ids=b.array("u16", t.sub(n, I(1))))


@entry(GS + "ExtensionSubstitution", "C04")
def _(b, p):
    return b.make(format=b.const(b.u16(), 1), type=b.u16(), offset=b.take("u32"))


@entry(GS + "ReverseChainedContextualSubstibution", "C04")
def _(b, p):
    f, c = b.const(b.u16(), 1), b.u16()
    n1 = b.u16()
    o1 = b.array("u16", n1)
    n2 = b.u16()
    o2 = b.array("u16", n2)
    n = b.u16()
    g = b.array("u16", n)
    cov = "coverage::Coverage"
    return b.make(format=f, coverage_offset=c, backward_glyph_count=n1, backward_coverage_offsets=o1, forward_glyph_count=n2,
                  forward_coverage_offsets=o2, glyph_count=n, glyph_ids=g, coverage=b.at(c, cov),
                  backward_coverages=b.list_at(n1, o1, cov), forward_coverages=b.list_at(n2, o2, cov))


# ------------------------------------------------------------------ positioning

GP = "glyph_positioning::"

kinds(GP + "Type", [(n, GP + n) for n in ("SingleAdjustment", "PairAdjustment", "CursiveAttachment", "MarkToBaseAttachment",
                                          "MarkToLigatureAttachment", "MarkToMarkAttachment")]
      + [("ContextualPositioning", "context::Context"), ("ChainedContextualPositioning", "context::ChainedContext"),
         ("ExtensionPositioning", GP + "ExtensionPositioning")], "C05")

for _n in ("SingleAdjustment", "PairAdjustment"):
    def _f(n):
        @entry(GP + n, "C05")
        def _(b, p):
            return b.pick(t.rd("u16", b.pos), [((i,), "Format%d" % i, GP + "%s%d" % (n, i)) for i in (1, 2)])
    _f(_n)


def part(p, i, ty):
    return t.field(p, None, i, ty)


@entry(GP + "Single", "C05", prm=("u64", GP + "Flags"))
def _(b, p):
    base = part(p, 0, "u64")
    bits = part(part(p, 1, GP + "Flags"), None and 0 or 0, "u16")
    fs = {}
    names = ["x_placement", "y_placement", "x_advance", "y_advance"]
    for k, n in enumerate(names):
        fs[n] = b.option(lnot(t.eq(t.band(bits, I(1 << k)), I(0))), "i16")
    for k, n in enumerate(names):
        o = fs[n + "_correction_offset"] = b.option(lnot(t.eq(t.band(bits, I(16 << k)), I(0))), "u16")
        has = lnot(t.eq(t.band(bits, I(16 << k)), I(0)))
        off = t.lift(lambda v: v.a[2] if v.a[1] == 1 else I(0), o)
        fs[n + "_correction"] = b.maybe(off, "correction::Correction", None, base)
    return b.make(**fs)


def valued(b, flags, base):
    return b.option(t.gt0(t.field(flags, None, 0, "u16")), GP + "Single", t.tup(base, flags))


@entry(GP + "Pair1", "C05", prm=("u64", GP + "Flags", GP + "Flags"))
def _(b, p):
    g = b.u16()
    base, f1, f2 = part(p, 0, "u64"), part(p, 1, GP + "Flags"), part(p, 2, GP + "Flags")
    return b.make(glyph2_id=g, value1=valued(b, f1, base), value2=valued(b, f2, base))


@entry(GP + "Pair2", "C05", prm=("u64", GP + "Flags", GP + "Flags"))
def _(b, p):
    base, f1, f2 = part(p, 0, "u64"), part(p, 1, GP + "Flags"), part(p, 2, GP + "Flags")
    return b.make(value1=valued(b, f1, base), value2=valued(b, f2, base))


@entry(GP + "Pair1s", "C05", prm=(GP + "Flags", GP + "Flags"))
def _(b, p):
    n = b.u16()
    return b.make(count=n, records=b.array(GP + "Pair1", n, t.tup(b.pos, part(p, 0, GP + "Flags"), part(p, 1, GP + "Flags"))))


@entry(GP + "Pair2s", "C05", prm=("u64", "u16", GP + "Flags", GP + "Flags"))
def _(b, p):
    return b.make(records=b.array(GP + "Pair2", part(p, 1, "u16"),
                                  t.tup(part(p, 0, "u64"), part(p, 2, GP + "Flags"), part(p, 3, GP + "Flags"))))


@entry(GP + "SingleAdjustment1", "C05", pre=fmt(1))
def _(b, p):
    f, c, fl = b.u16(), b.u16(), b.take(GP + "Flags")
    return b.make(format=f, coverage_offset=c, value_flags=fl, value=b.take(GP + "Single", t.tup(b.pos, fl)),
                  coverage=b.at(c, "coverage::Coverage"))


@entry(GP + "SingleAdjustment2", "C05", pre=fmt(2))
def _(b, p):
    f, c, fl, n = b.u16(), b.u16(), b.take(GP + "Flags"), b.u16()
    return b.make(format=f, coverage_offset=c, value_flags=fl, value_count=n,
                  values=b.array(GP + "Single", n, t.tup(b.pos, fl)), coverage=b.at(c, "coverage::Coverage"))


@entry(GP + "PairAdjustment1", "C05", pre=fmt(1))
def _(b, p):
    f, c, f1, f2, n = b.u16(), b.u16(), b.take(GP + "Flags"), b.take(GP + "Flags"), b.u16()
    offs = b.array("u16", n)
    return b.make(format=f, coverage_offset=c, value1_flags=f1, value2_flags=f2, record_count=n, record_offsets=offs,
                  coverage=b.at(c, "coverage::Coverage"), records=b.list_at(n, offs, GP + "Pair1s", t.tup(f1, f2)))


@entry(GP + "PairAdjustment2", "C05", pre=fmt(2))
def _(b, p):
    f, c, f1, f2 = b.u16(), b.u16(), b.take(GP + "Flags"), b.take(GP + "Flags")
    o1, o2, n1, n2 = b.u16(), b.u16(), b.u16(), b.u16()
    rs = b.array(GP + "Pair2s", n1, t.tup(b.pos, n2, f1, f2))
    return b.make(format=f, coverage_offset=c, value1_flags=f1, value2_flags=f2, class1_offset=o1, class2_offset=o2,
                  class1_count=n1, class2_count=n2, records=rs, coverage=b.at(c, "coverage::Coverage"),
                  class1=b.at(o1, "class::Class"), class2=b.at(o2, "class::Class"))


@entry(GP + "CursiveAttachment", "C05")
def _(b, p):
    f, c, n = b.const(b.u16(), 1), b.u16(), b.u16()
    return b.make(format=f, coverage_offset=c, connection_count=n, connections=b.array(GP + "Connection", n, b.pos),
                  coverage=b.at(c, "coverage::Coverage"))


@entry(GP + "Connection", "C05", prm="u64")
def _(b, p):
    s, e = b.u16(), b.u16()
    return b.make(start_anchor_offset=s, end_anchor_offset=e, start_anchor=b.maybe(s, GP + "Anchor", None, p),
                  end_anchor=b.maybe(e, GP + "Anchor", None, p))


def attachment(name, first, second, marks, targets, mty, tty):
    @entry(GP + name, "C05")
    def _(b, p):
        f, c1, c2, k, o1, o2 = b.const(b.u16(), 1), b.u16(), b.u16(), b.u16(), b.u16(), b.u16()
        return b.make(**{"format": f, first + "_coverage_offset": c1, second + "_coverage_offset": c2, "mark_class_count": k,
                         marks + "_offset": o1, targets + "_offset": o2, first + "_coverage": b.at(c1, "coverage::Coverage"),
                         second + "_coverage": b.at(c2, "coverage::Coverage"), marks: b.at(o1, mty),
                         targets: b.at(o2, tty, k)})


attachment("MarkToBaseAttachment", "mark", "base", "marks", "bases", GP + "Mark1s", GP + "Bases")
attachment("MarkToLigatureAttachment", "mark", "ligature", "marks", "ligatures", GP + "Mark1s", GP + "Ligatures")
attachment("MarkToMarkAttachment", "mark1", "mark2", "mark1s", "mark2s", GP + "Mark1s", GP + "Mark2s")


@entry(GP + "Mark1s", "C05")
def _(b, p):
    n = b.u16()
    return b.make(count=n, records=b.array(GP + "Mark1", n, b.pos))


@entry(GP + "Mark1", "C05", prm="u64")
def _(b, p):
    c, o = b.u16(), b.u16()
    return b.make(class_id=c, anchor_offset=o, anchor=b.lenient("ignore-incomplete-marks", o, GP + "Anchor", None, p))


for _n in ("Base", "Component", "Mark2"):
    @entry(GP + _n, "C05", prm=("u64", "u16"))
    def _(b, p):
        base, n = part(p, 0, "u64"), part(p, 1, "u16")
        offs = b.array("u16", n)
        return b.make(anchor_offsets=offs, anchors=b.list_maybe(n, offs, GP + "Anchor", None, base))


def group(name, element, what="records"):
    @entry(GP + name, "C05", prm="u16")
    def _(b, p):
        n = b.u16()
        return b.make(**{"count": n, what: b.array(GP + element, n, t.tup(b.pos, p))})


group("Bases", "Base")
group("Mark2s", "Mark2")
group("Ligature", "Component", "components")


@entry(GP + "Ligatures", "C05", prm="u16")
def _(b, p):
    n = b.u16()
    offs = b.array("u16", n)
    return b.make(count=n, offsets=offs, records=b.list_at(n, offs, GP + "Ligature", p))


@entry(GP + "Anchor", "C05")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((i,), "Format%d" % i, GP + "Anchor%d" % i) for i in (1, 2, 3)])


@entry(GP + "Anchor1", "C05", pre=fmt(1))
def _(b, p):
    return b.make(format=b.u16(), x=b.take("i16"), y=b.take("i16"))


@entry(GP + "Anchor2", "C05", pre=fmt(2))
def _(b, p):
    return b.make(format=b.u16(), x=b.take("i16"), y=b.take("i16"), index=b.u16())


@entry(GP + "Anchor3", "C05", pre=fmt(3))
def _(b, p):
    f, x, y, ox, oy = b.u16(), b.take("i16"), b.take("i16"), b.u16(), b.u16()
    return b.make(format=f, x=x, y=y, x_correction_offset=ox, y_correction_offset=oy,
                  x_correction=b.maybe(ox, "correction::Correction"), y_correction=b.maybe(oy, "correction::Correction"))


@entry(GP + "ExtensionPositioning", "C05")
def _(b, p):
    return b.make(format=b.const(b.u16(), 1), type=b.u16(), offset=b.take("u32"))


# ------------------------------------------------------------------ glyph definition

GD = "glyph_definition::"


@entry(GD + "GlyphDefinition", "C06", inline=False)
def _(b, p):
    h = b.take(GD + "Header")

    def off(name):
        v = I(0)
        word = t.rd("u16", t.add(b.pos, I(2)))
        for k, (minor, ty) in enumerate(((0, "Header1"), (2, "Header12"), (3, "Header13"))):
            i = b.sp.fieldno(GD + ty, name)
            x = I(0) if i is None else t.field(t.field(h, k, 0, GD + ty), None, i, "?")
            v = ite(t.eq(t.discr(h), I(k)), x, v)
        return v
    return b.make(header=h, glyph_class=b.maybe(off("glyph_class_offset"), "class::Class"),
                  attachments=b.maybe(off("attachment_offset"), GD + "Attachments"),
                  ligatures=b.maybe(off("ligature_offset"), GD + "Ligatures"),
                  mark_class=b.maybe(off("mark_class_offset"), "class::Class"),
                  marks=b.maybe(off("mark_offset"), GD + "Marks"), variations=b.maybe(off("variation_offset"), "item::Store"))


@entry(GD + "Header", "C06")
def _(b, p):
    ma, mi = t.rd("u16", b.pos), t.rd("u16", t.add(b.pos, I(2)))
    v = b.pick(mi, [((0,), "Version1", GD + "Header1"), ((2,), "Version12", GD + "Header12"), ((3,), "Version13", GD + "Header13")])
    b.require(t.eq(ma, I(1)))
    return v


def gdef(name, minor, extra):
    @entry(GD + name, "C06")
    def _(b, p):
        fs = dict(major_version=b.const(b.u16(), 1), minor_version=b.const(b.u16(), minor))
        for n in ("glyph_class_offset", "attachment_offset", "ligature_offset", "mark_class_offset"):
            fs[n] = b.u16()
        for n, ty in extra:
            fs[n] = b.take(ty)
        return b.make(**fs)


gdef("Header1", 0, [])
gdef("Header12", 2, [("mark_offset", "u16")])
gdef("Header13", 3, [("mark_offset", "u16"), ("variation_offset", "u32")])


@entry(GD + "Attachments", "C06")
def _(b, p):
    c, n = b.u16(), b.u16()
    offs = b.array("u16", n)
    return b.make(coverage_offset=c, count=n, offsets=offs, coverage=b.at(c, "coverage::Coverage"),
                  records=b.list_at(n, offs, GD + "Attachment"))


@entry(GD + "Attachment", "C06")
def _(b, p):
    n = b.u16()
    return b.make(index_count=n, indices=b.array("u16", n))


@entry(GD + "Ligatures", "C06")
def _(b, p):
    c, n = b.u16(), b.u16()
    offs = b.array("u16", n)
    return b.make(coverage_offset=c, count=n, offsets=offs, coverage=b.at(c, "coverage::Coverage"),
                  records=b.list_at(n, offs, GD + "Ligature"))


@entry(GD + "Ligature", "C06")
def _(b, p):
    n = b.u16()
    offs = b.array("u16", n)
    return b.make(caret_count=n, caret_offsets=offs, carets=b.list_at(n, offs, GD + "Caret"))


@entry(GD + "Caret", "C06")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((i,), "Format%d" % i, GD + "Caret%d" % i) for i in (1, 2, 3)])


@entry(GD + "Caret1", "C06", pre=fmt(1))
def _(b, p):
    return b.make(format=b.u16(), coordinate=b.take("i16"))


@entry(GD + "Caret2", "C06", pre=fmt(2))
def _(b, p):
    return b.make(format=b.u16(), index=b.u16())


@entry(GD + "Caret3", "C06", pre=fmt(3))
def _(b, p):
    f, c, o = b.u16(), b.take("i16"), b.u16()
    return b.make(format=f, coordinate=c, correction_offset=o, correction=b.at(o, "correction::Correction"))


@entry(GD + "Marks", "C06")
def _(b, p):
    f, n = b.const(b.u16(), 1), b.u16()
    offs = b.array("u32", n)
    return b.make(format=f, count=n, coverage_offsets=offs, coverages=b.list_at(n, offs, "coverage::Coverage"))


# ------------------------------------------------------------------ palettes

CP = "color_palettes::"


@entry(CP + "Color", "C07")
def _(b, p):
    return b.make(blue=b.take("u8"), green=b.take("u8"), red=b.take("u8"), alpha=b.take("u8"))


@entry(CP + "Header", "C07")
def _(b, p):
    return b.pick(t.rd("u16", b.pos), [((i,), "Version%d" % i, CP + "Header%d" % i) for i in (0, 1)])


for _i in (0, 1):
    def _f(i):
        @entry(CP + "Header%d" % i, "C07")
        def _(b, p):
            v, e, n, c, o = b.const(b.u16(), i), b.u16(), b.u16(), b.u16(), b.take("u32")
            return b.make(version=v, entry_count=e, palette_count=n, color_count=c, color_offset=o,
                          color_indices=b.array("u16", n))
    _f(_i)


@entry(CP + "ColorPalettes", "C07", inline=False)
def _(b, p):
    h = b.take(CP + "Header")

    def get(name):
        v = DC
        for k, ty in enumerate(("Header0", "Header1")):
            i = b.sp.fieldno(CP + ty, name)
            v = ite(t.eq(t.discr(h), I(k)), t.field(t.field(h, k, 0, CP + ty), None, i, "?"), v)
        return v
    e, c, xs = get("entry_count"), get("color_count"), get("color_indices")
    # every palette lies within the colors
    b.require(t.lift(lambda xs, e, c: b.every(t.length(xs), lambda i: t.le(t.add(t.index(xs, i), e), c)), xs, e, c))
    o = get("color_offset")
    a = t.add(b.pos, o)
    b.record(CP + "Color", a, None, c, False)
    return b.make(header=h, colors=t.seq(CP + "Color", a, c))


# ------------------------------------------------------------------ font variations

FV = "font_variations::"


@entry(FV + "Header", "C08")
def _(b, p):
    return b.make(major_version=b.const(b.u16(), 1), minor_version=b.const(b.u16(), 0), axis_offset=b.u16(),
                  reserved=b.const(b.u16(), 2), axis_count=b.u16(), axis_size=b.u16(), instance_count=b.u16(),
                  instance_size=b.u16())


@entry(FV + "AxisRecord", "C08")
def _(b, p):
    return b.make(tag=b.take("Tag"), min_value=b.take("q32"), default_value=b.take("q32"), max_value=b.take("q32"),
                  flags=b.take(FV + "AxisFlags"), name_id=b.take("NameID"))


@entry(FV + "InstanceRecord", "C08", prm=("u16", "u16"))
def _(b, p):
    n, size = part(p, 0, "u16"), part(p, 1, "u16")
    return b.make(subfamily_name_id=b.take("NameID"), flags=b.take(FV + "InstanceFlags"), coordinates=b.array("q32", n),
                  postscript_name_id=b.option(t.le(t.add(t.scale(n, 4), I(6)), size), "NameID"))


@entry(FV + "FontVariations", "C08", inline=False)
def _(b, p):
    h = b.take(FV + "Header")

    def get(n):
        return t.field(h, None, b.sp.fieldno(FV + "Header", n), "u16")
    o, n, s, k, r = get("axis_offset"), get("axis_count"), get("axis_size"), get("instance_count"), get("instance_size")
    axes = b.each(n, lambda i: b.at(t.add(o, t.mul(i, s)), FV + "AxisRecord"))
    rest = t.add(o, t.mul(n, s))
    insts = b.each(k, lambda i: b.at(t.add(rest, t.mul(i, r)), FV + "InstanceRecord", t.tup(n, r)))
    return b.make(header=h, axis_records=axes, instance_records=insts)


# ------------------------------------------------------------------ item variations

@entry("item::Store", "C09")
def _(b, p):
    f, r, n = b.const(b.u16(), 1), b.take("u32"), b.u16()
    offs = b.array("u32", n)
    return b.make(format=f, region_offset=r, count=n, offsets=offs, records=b.list_at(n, offs, "item::Record"))


@entry("item::Record", "C09")
def _(b, p):
    n, s, r = b.u16(), b.u16(), b.u16()
    return b.make(item_count=n, short_delta_count=s, region_count=r, region_indices=b.array("u16", r),
                  deltas=b.array("u8", t.mul(n, t.add(s, r))))


# ------------------------------------------------------------------ the specification applied to one build

class Encoding:
    """The specification of one type at one address."""
    __slots__ = ("name", "value", "valid", "end", "reads", "area", "inline", "pre", "dispatch")


class Missing(Exception):
    pass


class Spec:
    def __init__(self, dump, features=()):
        self.d = dump
        self.features = set(features)
        self.byname = {}
        for i, x in enumerate(dump.types.t):
            if x["k"] == "adt":
                n = dump.types.adt(x)
                if x["local"]:
                    self.byname.setdefault(n, i)
        self.memo = {}
        self._seq = None
        self.deep = False       # look inside nested encodings (set to settle a mismatch)
        self.opaque = {GP + "Single"}
        t.env.fixed = dict(NUMBERS)
        t.env.expand_field = self.expand_field
        t.env.expand_discr = self.expand_discr
        t.env.size_of = None
        self.missing = []
        self.sizes()
        t.env.size_of = self.size_of

    # names

    def fieldno(self, ty, name):
        i = self.byname.get(ty)
        if i is None:
            raise Missing(ty)
        for k, f in enumerate(self.d.types[i]["vs"][0]["f"]):
            if f[0] == name:
                return k
        return None

    def variant(self, ty, name):
        i = self.byname.get(ty)
        if i is None:
            raise Missing(ty)
        for k, v in enumerate(self.d.types[i]["vs"]):
            if v["n"] == name:
                return k
        raise Missing("%s::%s" % (ty, name))

    def make(self, ty, variant, fs):
        i = self.byname.get(ty)
        if i is None:
            raise Missing(ty)
        names = [f[0] for f in self.d.types[i]["vs"][0]["f"]]
        for n in fs:
            if n not in names:
                raise Missing("%s.%s" % (ty, n))
        return mk("agg", ty, 0, *[fs.get(n, mk("any value", n)) for n in names])

    def zero(self, ty):
        """The default value."""
        if ty in t.INTR:
            return I(0)
        if ty.startswith("Vec<"):
            return t.cat()
        if ty.startswith("Option<"):
            return t.none()
        i = self.byname.get(ty)
        if i is None:
            raise Missing(ty)
        v = self.d.types[i]["vs"][0]
        return mk("agg", ty, 0, *[self.zero(self.d.types.name(f[1])) for f in v["f"]])

    # encodings

    def has(self, name, given=False):
        e = TABLE.get(name)
        return e is not None and name in self.byname and (e[1] is not None) == given

    def at(self, name, pos, prm=None):
        prm = prm if prm is not None else NONE
        k = (name, pos, prm)
        e = self.memo.get(k)
        if e is None:
            area, pt, fn, opts = TABLE[name]
            b = B(self, pos, prm)
            b.name = name
            v = fn(b, prm)
            e = Encoding()
            e.name, e.value, e.valid, e.end, e.reads = name, v, b.valid, b.cur, b.reads
            e.dispatch = b.dispatch
            e.area, e.inline = area, opts["inline"]
            e.pre = opts["pre"](pos) if opts["pre"] else TRUE
            self.memo[k] = e
        return e

    def sizes(self):
        """Encodings that always take the same number of bytes."""
        p = mk("pos", 0)
        again = True
        while again:
            again = False
            for name, (area, pt, fn, opts) in TABLE.items():
                if pt == "u64" and name in self.byname and name not in t.env.fixed:
                    prm = mk("prm", "base", "u64")
                elif pt is None and name in self.byname and name not in t.env.fixed and opts["inline"]:
                    prm = None
                else:
                    continue
                try:
                    e = self.at(name, p, prm)
                except Missing:
                    continue
                d = t.sub(e.end, p)
                if d.op == "int":
                    t.env.fixed[name] = d.a[0]
                    again = True
            self.memo.clear()
            t.clear_memo()

    def sequential(self):
        """The types whose encodings are followed by something else that is read: where they end matters."""
        if self._seq is None:
            need, alt = set(), {}
            for name, (area, pt, fn, opts) in TABLE.items():
                if name not in self.byname:
                    continue
                try:
                    e = self.at(name, mk("pos", 0), self.parameter(name))
                except Missing:
                    continue
                for r in e.reads:
                    if r.inline is True and r.ty in TABLE:
                        need.add(r.ty)
                    elif r.inline is None:
                        alt.setdefault(name, set()).add(r.ty)
            work = list(need)
            while work:
                for x in alt.get(work.pop(), ()):
                    if x not in need:
                        need.add(x)
                        work.append(x)
            self._seq = need
        return self._seq

    def parameter(self, name):
        pt = TABLE[name][1]
        if pt is None:
            return None
        if isinstance(pt, str):
            return mk("prm", "given", pt)
        return t.tup(*[mk("prm", "given%d" % i, x) for i, x in enumerate(pt)])

    def size_of(self, ty, addr, prm):
        e = TABLE.get(ty)
        if e is None or ty not in self.byname:
            return None
        if ty in self.opaque:
            return mk("size", ty, NONE, t.field(prm, None, 1, "?"))
        if e[1] is None:
            return None
        try:
            x = self.at(ty, addr, prm)
        except Missing:
            return None
        d = t.sub(x.end, addr)
        return d if addr not in t.subterms(d) and addr.op != "int" else None

    # nested encodings, looked into

    def expand(self, v):
        if not self.has(v.a[0], v.a[2] is not NONE):
            return None
        try:
            return self.at(v.a[0], v.a[1], v.a[2]).value
        except Missing:
            return None

    def expand_field(self, v, variant, i):
        x = self.expand(v)
        if x is None:
            return None
        return t.field(x, variant, i, None)

    def expand_discr(self, v):
        x = self.expand(v)
        return None if x is None else t.discr(x)
