"""Fonts, files, and the association of tables with tags."""
import terms as t
from terms import mk, I, TRUE, FALSE, land, lnot
import functions
import interp
import search
import compare
from api import missing, trouble, settled
from compare import Mismatch, Comparison, short, has_opaque
from functions import TAPE, find, free, call

# type of a table, and the tag that the specification gives it
TAGS = {
    "compact1::font_set::FontSet": "CFF ", "FontSet": "CFF ",
    "color_palettes::ColorPalettes": "CPAL", "glyph_definition::GlyphDefinition": "GDEF",
    "GlyphPositioning": "GPOS", "GlyphSubstitution": "GSUB", "WindowsMetrics": "OS/2", "CharacterMapping": "cmap",
    "font_variations::FontVariations": "fvar", "GlyphData": "glyf", "FontHeader": "head", "HorizontalHeader": "hhea",
    "HorizontalMetrics": "hmtx", "GlyphMapping": "loca", "MaximumProfile": "maxp", "Names": "name", "PostScript": "post"}


def members(d, path):
    """{field: (index, type name)} of the struct with the path."""
    for x in d.types.t:
        if x["k"] == "adt" and x["v"].endswith(path):
            return {f[0]: (i, d.types.name(f[1])) for i, f in enumerate(x["vs"][0]["f"])}
    return None


KEEP = ("checksum", "binary search", "binary search hit")


class Fonts:
    def __init__(self, A):
        self.A = A
        d = A.d
        self.ok = False
        f = members(d, "font::Font")
        o = members(d, "offsets::Offsets")
        r = members(d, "offsets::Record")
        if not f or not o or not r or "offsets" not in f or "records" not in o or not {"tag", "checksum", "offset"} <= set(r):
            return
        self.font = mk("prm", "font", "font::Font")
        self.records = t.field(t.field(self.font, None, *f["offsets"]), None, *o["records"])
        self.n = t.length(self.records)
        self.r = r
        self.ok = True

    def part(self, i, name):
        return t.field(t.index(self.records, i), None, *self.r[name])

    def args(self, fn):
        """The font, the tape, and a parameter."""
        out = []
        for i in range(fn.argc):
            k = fn.locals[1 + i]
            nm = self.A.d.types.name(k)
            if nm == "font::Font":
                out.append(mk("vref", self.font))
            elif nm == "#" and self.A.d.types[k]["k"] == "ref":
                out.append(TAPE)
            else:
                out.append(mk("prm", "parameter", nm))
        return out


def functions_of(A, F, prop, out):
    """{name: Call} of the font's functions."""
    r = {}
    for name in ("exists", "position", "take", "take_given"):
        key = find(A.d, "font::Font", name)
        if key is None:
            missing(out, "font::Font", name, prop)
            continue
        fn = A.d.func(key)
        c = call(A.d, A.sp, key, F.args(fn))
        if trouble(out, c, "Font." + name):
            continue
        r[name] = (key, c)
    return r


def calls_of(v):
    """The tags that are asked for, and checksums."""
    return [x for x in t.subterms(v) if x.op == "call" and x.a[0] == "Table::tag"]


def generic_tag(c):
    """The tag of the requested table as the function names it."""
    v = [c.value] + ([c.state.mem[c.tape]] if c.tape is not None and c.state is not None else [])
    ts = {x for y in v for x in calls_of(y)}
    return ts


def access(A, prop, out):
    F = Fonts(A)
    n, samples, fns = 0, [], set()
    if not F.ok:
        missing(out, "font::Font", "offsets", prop)
        return
    gated = "ignore-invalid-checksums" not in A.features
    fs = functions_of(A, F, prop, out)
    for name, (key, c) in fs.items():
        fns |= c.interp.visited
        ts = generic_tag(c)
        if not ts:
            # the requested type does not matter to the result
            v = [c.value] + ([c.state.mem[c.tape]] if c.tape is not None and c.state is not None else [])
            if any(x.unk or has_opaque(x) for x in v):
                out.undecided.append("Font.%s: %s" % (name, short(c.value)))
            else:
                out.violations.append(Mismatch("access", "font::Font", name, "gives %s whichever table is asked for" % short(c.value), c.where, {prop}))
            continue
        if len(ts) > 1:
            out.undecided.append("Font.%s: several tags" % name)
            continue
        tag = ts.pop()
        if tag.a[1] not in ("#",):
            out.violations.append(Mismatch("access", "font::Font", name, "asks for the tag of %s" % tag.a[1], c.where, {prop}))
            continue

        def cond(i):
            return t.eq(F.part(i, "tag"), tag)

        def again(what=lambda c: c.value):
            return what(call(A.d, A.sp, key, F.args(c.fn)))
        q = search.Search(A, prop, "Font." + name, c.where, "font::Font", out)
        n += 1
        if name == "exists":
            q.run(c.value, TRUE, F.n, cond, FALSE, lambda j: TRUE, name, {tag: "tag"}, again=again)
            samples.append("exists = %s" % short(c.value, 200))
            continue
        def gate(j):
            """Whether the checksum lets one through, for the record at the index."""
            if not gated:
                return TRUE
            return t.eq(F.part(j, "checksum"), mk("call", "checksum", t.index(F.records, j), "u32"))
        want = {"position": lambda a: t.UNIT, "take": lambda a: t.rd("#", a),
                "take_given": lambda a: t.rd("#", a, c.args[-1])}[name]
        size = {"position": lambda a: I(0), "take": lambda a: t.size("#", a), "take_given": lambda a: t.size("#", a, c.args[-1])}[name]

        def present(j):
            return t.ok(t.some(want(F.part(j, "offset"))))
        # with a right checksum here; whether a wrong one is refused is a property of its own
        q.run(c.value, TRUE, F.n, cond, t.ok(t.none()), present, name, {tag: "tag"}, assume=gate, keep=KEEP, again=again)
        n += 1
        q = search.Search(A, prop, "Font." + name, c.where, "font::Font", out)

        def place(j):
            a = F.part(j, "offset")
            return t.add(a, size(a))
        q.run(c.state.mem[c.tape], TRUE, F.n, cond, mk("pos", 0), place, name + " (tape)", {tag: "tag"}, assume=gate, keep=KEEP,
              again=lambda: again(lambda c: c.state.mem[c.tape]))
        samples.append("%s leaves the tape at %s" % (name, short(c.state.mem[c.tape], 200)))
    # the association with tags
    seen = set()
    for (s, tr, f), keys in A.d.impls.items():
        if f != "tag" or not tr or not tr.endswith("table::Table"):
            continue
        for key in keys:
            im = A.d.raw[key]["impl"]
            ty = typename(A, im["self"])
            n += 1
            c = call(A.d, A.sp, key, [])
            fns |= c.interp.visited
            if trouble(out, c, ty + "::tag"):
                continue
            want = TAGS.get(ty)
            if want is None:
                out.undecided.append("%s: a table that the specification in use does not know" % ty)
                continue
            seen.add(want)
            got = "".join(chr(x.a[0]) if x.op == "int" else "?" for x in (t.index(t.field(c.value, None, 0, "[u8; 4]"), I(i)) for i in range(4)))
            if "?" in got:
                out.undecided.append("%s: tag %s" % (ty, short(c.value)))
            elif got != want:
                out.violations.append(Mismatch("tag", ty, "tag", "is registered under %r and not %r" % (got, want), c.where, {prop}))
    for want in sorted(set(TAGS.values()) - seen):
        out.violations.append(Mismatch("tag", want, "tag", "no table is registered under the tag", "src/table.rs", {prop}))
    samples.append("%d tables registered under %s" % (len(seen), ", ".join(sorted(seen))))
    out.coverage = {"explanation": "The functions of a font are interpreted abstractly over the compiler's intermediate representation for an arbitrary "
                    "table directory, an arbitrary table type and an arbitrary position of the tape; the search is summarised as `the first index such "
                    "that`, and its condition, the result, and where the tape is left are compared with the specification. The tag of each table type is "
                    "compared with the OpenType specification. Nothing is executed.", "obligations": n, "functions_analysed": len(fns),
                    "tables": len(seen), "rule": "first record whose tag is the type's; jump to its offset; absent => Ok(None)", "samples": samples}


def typename(A, i):
    """Name of a table type that tells the instances of a generic one apart."""
    n = A.d.selfname(i)
    tt = A.d.types[A.d.types.strip(i)] if hasattr(A.d.types, "strip") else A.d.types[i]
    if n.endswith("Directory"):
        arg = A.d.types.name(tt["a"][0]) if tt.get("a") else ""
        return {"glyph_positioning": "GlyphPositioning", "glyph_substitution": "GlyphSubstitution"}.get(arg.split("::")[0], n + "<" + arg + ">")
    return n if n in TAGS else n.rsplit("::", 1)[-1]


def checksums(builds, prop, out):
    """With a wrong checksum: refused; with verification disabled: it makes no difference."""
    n, samples, fns = 0, [], set()
    for A in builds:
        F = Fonts(A)
        gated = "ignore-invalid-checksums" not in A.features
        if not F.ok:
            missing(out, "font::Font", "offsets", prop)
            continue
        for name, (key, c) in functions_of(A, F, prop, out).items():
            if name == "exists":
                continue
            fns |= c.interp.visited
            ts = generic_tag(c)
            if len(ts) != 1:
                out.undecided.append("Font.%s: tags" % name)
                continue
            tag = ts.pop()
            j = t.fresh_ix()

            def cond(i):
                return t.eq(F.part(i, "tag"), tag)
            who = "Font.%s (%s)" % (name, "verification on" if gated else "verification off")
            n += 1
            if gated:
                def wrong(j):
                    return lnot(t.eq(F.part(j, "checksum"), mk("call", "checksum", t.index(F.records, j), "u32")))
                q = search.Search(A, prop, who, c.where, "font::Font", out)
                q.run(c.value, TRUE, F.n, cond, None, lambda j: t.err(interp.ERR), name + " with a wrong checksum", {tag: "tag"},
                      assume=wrong, keep=KEEP, again=lambda: call(A.d, A.sp, key, F.args(c.fn)).value)
                # and a failure of the computation
                for e in c.interp.events:
                    if e.kind != "checksum":
                        continue
                    n += 1
                    c2 = call(A.d, A.sp, key, F.args(c.fn), fail=e.site)
                    bad = compare.accepted(c2.value)
                    cmp = Comparison(A.sp)
                    for p, x, y in cmp.differences(bad, FALSE, e.pc):
                        if x is TRUE and not p.unk:
                            out.violations.append(Mismatch("checksum", "font::Font", name + " with a failing checksum",
                                                           "succeeds although the checksum cannot be computed", e.span, {prop}))
                            break
            else:
                es = [e for e in c.interp.events if e.kind == "checksum"]
                for e in es:
                    n += 1
                    c2 = call(A.d, A.sp, key, F.args(c.fn), fail=e.site)
                    acc, acc2 = compare.accepted(c.value), compare.accepted(c2.value)
                    q = search.Search(A, prop, who, c.where, "font::Font", out)
                    q.run(acc2, TRUE, F.n, cond, None, lambda j: TRUE, name + " with a failing checksum", {tag: "tag"}, keep=KEEP)
                q = search.Search(A, prop, who, c.where, "font::Font", out)
                q.run(compare.accepted(c.value), TRUE, F.n, cond, None, lambda j: TRUE, name + " with verification off", {tag: "tag"},
                      keep=KEEP, again=lambda: compare.accepted(call(A.d, A.sp, key, F.args(c.fn)).value))
            samples.append("%s: %d computations of a checksum" % (who, len([e for e in c.interp.events if e.kind == "checksum"])))
    out.coverage = {"explanation": "Each way of reaching a table through a font is interpreted abstractly over the compiler's intermediate representation, "
                    "with and without the feature that disables verification, for the case that the stored and the computed checksum of the record "
                    "found differ, and for the case that the computation fails. Nothing is executed.", "obligations": n,
                    "functions_analysed": len(fns), "rule": "stored != computed => error, unless disabled", "samples": samples}


def bytewise(x, tag):
    """The tag may have been read as a number: comparisons with numbers in terms of its bytes."""
    m = {}
    for a in t.atoms(x):
        if a.op != "eq" or a.a[0].op != "rd" or a.a[1].op != "int" or a.a[0].a[0] not in ("u8", "u16", "u32"):
            continue
        k, w = t.sub(a.a[0].a[1], tag.a[1]), t.fixed(a.a[0].a[0])
        if k.op == "int" and 0 <= k.a[0] <= 4 - w:
            c = TRUE
            for i, b in enumerate(a.a[1].a[0].to_bytes(w, "big")):
                c = land(c, t.eq(t.index(t.field(tag, None, 0, "[u8; 4]"), I(k.a[0] + i)), I(b)))
            m[a] = c
    return t.subst(x, m) if m else x


def files(A, prop, out):
    n, samples, fns = 0, [], set()
    sp = A.sp
    pos = mk("pos", 0)
    key = find(A.d, "file::File", "read")
    if key is None:
        missing(out, "file::File", "read", prop)
    else:
        c = call(A.d, sp, key, [TAPE])
        fns |= c.interp.visited
        n += 2
        if not trouble(out, c, "File.read"):
            tag = t.rd("Tag", pos)
            ttc = TRUE
            for i, b in enumerate(b"ttcf"):
                ttc = land(ttc, t.eq(t.index(t.field(tag, None, 0, "[u8; 4]"), I(i)), I(b)))
            value, end = bytewise(c.value, tag), bytewise(c.state.mem[c.tape], tag)
            acc = compare.accepted(value)
            settled(out, prop, "File.read", c.where, "file", "file::File", "read (collection)", interp.given(acc, ttc), FALSE, ttc, sp, "succeeds:")
            rest = lnot(ttc)
            font = mk("agg", "font::Font", 0, t.rd("Offsets", pos))
            want = t.ok(mk("agg", "file::File", 0, t.cat(t.one(font))))
            settled(out, prop, "File.read", c.where, "file", "file::File", "read", interp.given(value, rest), want, rest, sp, "gives")
            settled(out, prop, "File.read", c.where, "file", "file::File", "read (tape)", interp.given(end, rest),
                    t.add(pos, t.size("Offsets", pos)), rest, sp, "leaves the tape at")
            samples.append("read = %s" % short(value, 300))
    for k in ("read",):
        for tr in (None, "typeface::value::Read"):
            key = find(A.d, "font::Font", k, tr)
            if key is None:
                missing(out, "font::Font", k, prop)
                continue
            c = call(A.d, sp, key, [TAPE])
            fns |= c.interp.visited
            n += 1
            if not trouble(out, c, "Font.read"):
                settled(out, prop, "Font.read", c.where, "file", "font::Font", "read", c.value,
                        t.ok(mk("agg", "font::Font", 0, t.rd("Offsets", pos))), TRUE, sp)
    key = free(A.d, "opentype::accept")
    if key is None:
        missing(out, "opentype", "accept", prop)
    else:
        tag = mk("prm", "tag", "Tag")
        c = call(A.d, sp, key, [mk("vref", tag)])
        fns |= c.interp.visited
        n += 1
        if not trouble(out, c, "accept"):
            other = mk("call", "truetype::accept", tag, "bool")
            named = mk("prm", "recognized by truetype", "bool")
            b = lambda i: t.index(t.field(tag, None, 0, "[u8; 4]"), I(i))
            isit = lambda s: t.land(t.land(t.eq(b(0), I(s[0])), t.eq(b(1), I(s[1]))), t.land(t.eq(b(2), I(s[2])), t.eq(b(3), I(s[3]))))
            # the four signatures of single fonts, as the dependency defines them
            single = FALSE
            for s in (b"\0\1\0\0", b"true", b"typ1", b"OTTO"):
                single = t.lor(single, isit(s))
            x = t.subst(c.value, {other: single})
            settled(out, prop, "accept", c.where, "file", "opentype", "accept", x, t.lor(isit(b"ttcf"), single), TRUE, sp)
            samples.append("accept = %s" % short(c.value))
    out.coverage = {"explanation": "The functions that read a file or a font and the one that recognizes a signature are interpreted abstractly over the "
                    "compiler's intermediate representation for an arbitrary tape and an arbitrary tag, and compared with the specification. Nothing is "
                    "executed.", "obligations": n, "functions_analysed": len(fns),
                    "rule": "collection => error; else one font read from the start; accept == the five signatures", "samples": samples}


def failures(A, prop, out):
    """The operations on the tape in the functions of files and fonts: a failure is reported."""
    n, fns = 0, set()
    F = Fonts(A)
    todo = []
    if F.ok:
        for name, (key, c) in functions_of(A, F, prop, out).items():
            todo.append(("font::Font", name, key, F.args(c.fn), c))
    else:
        missing(out, "font::Font", "offsets", prop)
    for ty, tr in (("file::File", None), ("font::Font", None), ("font::Font", "typeface::value::Read")):
        key = find(A.d, ty, "read", tr)
        if key is None:
            missing(out, ty, "read", prop)
            continue
        c = call(A.d, A.sp, key, [TAPE])
        if not trouble(out, c, ty + ".read"):
            todo.append((ty, "read", key, [TAPE], c))
    for ty, name, key, args, c in todo:
        fns |= c.interp.visited
        sites = {}
        for e in c.interp.events:
            sites.setdefault(e.site, []).append(e)
        for site, es in sites.items():
            n += 1
            pc = FALSE
            for e in es:
                pc = t.lor(pc, e.pc)
            c2 = call(A.d, A.sp, key, args, fail=site)
            cmp = Comparison(A.sp)
            for p, x, y in cmp.differences(compare.accepted(c2.value), FALSE, pc):
                e = es[0]
                if x is TRUE and not p.unk:
                    out.violations.append(Mismatch("swallowed", ty, name + " " + e.kind + " " + e.ty, "succeeds although %s fails (when %s)" % (
                        compare.describe(e), short(p)), e.span, {prop}))
                else:
                    out.undecided.append("%s.%s after the failure of %s: %s" % (ty, name, compare.describe(e), short(x)))
                break
            out.undecided += cmp.undecided
    return n, len(fns)
