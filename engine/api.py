"""Checks of the functions around the readers: predicates, registries, lookups, palettes, fonts, files."""
import json
import os
import terms as t
from terms import mk, I, TRUE, FALSE, DC, ite, land, lor, lnot
import compare
import functions
import models
import interp
import search
from compare import Mismatch, Comparison, short, has_opaque
from functions import TAPE, find, free, call

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def missing(out, ty, what, prop):
    out.violations.append(Mismatch("missing", ty, what, "the function is not there any more", "src", {prop}))


def settled(out, prop, who, where, kind, ty, what, x, y, pc=TRUE, sp=None, text="gives"):
    """x has to be y under pc; reports a violation or notes that it is not known."""
    cmp = Comparison(sp)
    bad = cmp.equal(x, y, pc)
    for u in cmp.undecided:
        out.undecided.append("%s: %s" % (who, u))
    for path, p, a, b in bad:
        out.violations.append(Mismatch(kind, ty, what + path, "%s %s and not %s%s" % (
            text, short(a), short(b), "" if p is TRUE else " (when %s)" % short(p)), where, {prop}))
        return False
    return not cmp.undecided


def trouble(out, c, who):
    """A function that is not understood."""
    if c.error or c.interp.effects:
        out.undecided.append("%s: %s" % (who, c.error or c.interp.effects[0]))
        return True
    return False


# ---------------------------------------------------------------- flags

PREDICATES = {
    "lookup::Flags": {
        "is_right_to_left": 0x0001, "should_ignore_base_glyphs": 0x0002, "should_ignore_ligature": 0x0004,
        "should_ignore_marks": 0x0008, "has_mark_filtering": 0x0010, "is_invalid": 0x00E0},
    "glyph_positioning::Flags": {
        "has_x_placement": 0x0001, "has_y_placement": 0x0002, "has_x_advance": 0x0004, "has_y_advance": 0x0008,
        "has_x_placement_correction": 0x0010, "has_y_placement_correction": 0x0020, "has_x_advance_correction": 0x0040,
        "has_y_advance_correction": 0x0080, "is_invalid": 0xFF00},
    "font_variations::AxisFlags": {"is_hidden": 0x0001, "is_invalid": 0xFFFE},
    "font_variations::InstanceFlags": {"is_invalid": 0xFFFF},
}


def flags(A, prop, out):
    n, samples = 0, []
    for ty, ps in PREDICATES.items():
        word = mk("prm", "word", "u16")
        v = mk("agg", ty, 0, word)
        for name, mask in ps.items():
            key = find(A.d, ty, name)
            if key is None:
                missing(out, ty, name, prop)
                continue
            byref = A.d.types[A.d.func(key).locals[1]]["k"] == "ref"
            c = call(A.d, A.sp, key, [mk("vref", v) if byref else v])
            n += 1
            if trouble(out, c, ty + "." + name):
                continue
            want = lnot(t.eq(t.band(word, I(mask)), I(0)))
            settled(out, prop, ty + "." + name, c.where, "predicate", ty, name, c.value, want, sp=A.sp)
            if len(samples) < 4:
                samples.append("%s.%s = %s" % (ty, name, short(c.value)))
        for key in A.d.impls.get(("u16", "core::convert::From", "from"), []):
            if A.d.types.name(A.d.func(key).locals[1]) == ty:
                c = call(A.d, A.sp, key, [v])
                n += 1
                if not trouble(out, c, ty + " into u16"):
                    settled(out, prop, ty + " into u16", c.where, "conversion", ty, "into u16", c.value, word, sp=A.sp)
        if ty in A.names():
            r = A.analyse(ty)
            n += 1
            if not r.missing:
                out.violations += [m for m in r.mismatches if m.kind in ("value", "shape")]
                out.undecided += ["%s: %s" % (ty, u) for u in r.undecided]
    # words that readers keep
    for name in A.names():
        r = A.analyse(name)
        if r.missing or r.run is None:
            continue
        holds = [x for x in t.subterms(r.enc.value) if x.op in ("rd", "agg") and x.a[0] in PREDICATES]
        if holds:
            n += 1
            out.violations += [m for m in r.mismatches if m.kind == "value" and "flags" in m.what]
    out.coverage = {"explanation": "Each predicate is interpreted abstractly over the compiler's intermediate representation for an "
                    "arbitrary 16-bit word and compared with the bit test that the specification gives; the flag fields of all readers "
                    "are compared with the word on the tape. Nothing is executed.",
                    "predicates": sum(len(x) for x in PREDICATES.values()), "obligations": n,
                    "rule": "predicate(word) == (word & mask != 0) for every word", "samples": samples}


# ---------------------------------------------------------------- registries

REGISTRIES = {"feature": "feature::Feature", "script": "script::Script", "language": "language::Language"}


def registry(features=()):
    r = {}
    for line in open(os.path.join(HERE, "data", "registry.jsonl")):
        e = json.loads(line)
        if "feature" in e and e["feature"] not in features:
            continue
        r.setdefault(e["registry"], {}).setdefault(e["tag"], []).append(e)
    return r


TAG = mk("prm", "tag", "Tag")


def tag_byte(v, i):
    return t.index(t.field(v, None, 0, "[u8; 4]"), I(i))


def converted(A, ty):
    """from_tag over an arbitrary tag, or None."""
    key = find(A.d, ty, "from_tag")
    if key is None:
        return None
    return call(A.d, A.sp, key, [mk("vref", TAG)], limit=10**7)


def at_tag(v, tag):
    """The result of from_tag for one tag."""
    for i, b in enumerate(tag.encode("latin-1")):
        v = t.restrict(v, mk("eq", mk("idx", TAG, I(i), "u8"), I(b)), True)
    return t.subst(v, {mk("idx", TAG, I(i), "u8"): I(b) for i, b in enumerate(tag.encode("latin-1"))})


def variants(A, ty):
    j = A.sp.byname.get(ty)
    return [v["n"] for v in A.d.types[j]["vs"]] if j is not None else None


def isother(A, ty, v):
    """Variants that carry a tag of their own."""
    j = A.sp.byname[ty]
    return bool(A.d.types[j]["vs"][v]["f"])


def into_tag(A, ty):
    for key in A.d.impls.get(("Tag", "core::convert::From", "from"), []):
        i = A.d.func(key).locals[1]
        if A.d.types.name(A.d.types.strip(i)) == ty:
            return key
    return None


def paths(v, pc=TRUE):
    if v.op == "ite":
        return paths(v.a[1], pc + ((v.a[0], True),)) + paths(v.a[2], pc + ((v.a[0], False),))
    return [(pc, v)]


def round_trip(A, prop, out):
    n, samples = 0, []
    golden = registry(A.features)
    fns = set()
    for reg, ty in REGISTRIES.items():
        names = variants(A, ty)
        c = converted(A, ty)
        key = into_tag(A, ty)
        nk = find(A.d, ty, "name")
        if names is None or c is None or key is None or nk is None:
            missing(out, ty, "from_tag, name or From", prop)
            continue
        fns |= c.interp.visited
        if trouble(out, c, ty):
            continue
        byref = A.d.types[A.d.func(key).locals[1]]["k"] == "ref"
        memo = {}

        def back(leaf):
            """(tag, has a name) of one result"""
            if leaf not in memo:
                d = call(A.d, A.sp, key, [mk("vref", leaf) if byref else leaf])
                m = call(A.d, A.sp, nk, [mk("vref", leaf)])
                fns.update(d.interp.visited | m.interp.visited)
                memo[leaf] = (None if d.error else d.value, None if m.error else m.value, d, m)
            return memo[leaf]
        seen = set()
        for pc, leaf in paths(c.value, ()):
            n += 1
            if leaf.op != "agg" or leaf.a[0] != ty:
                out.undecided.append("%s: %s" % (ty, short(leaf)))
                continue
            tag, name, d, m = back(leaf)
            if tag is None or name is None:
                out.undecided.append("%s: %s" % (ty, d.error or m.error))
                continue
            vn = names[leaf.a[1]]
            bad = unsure = False
            for i in range(4):
                x, y = tag_byte(tag, i), mk("idx", TAG, I(i), "u8")
                for atom, val in pc:
                    x, y = t.restrict(x, atom, val), t.restrict(y, atom, val)
                if x is y:
                    continue
                if any(has_opaque(z) for z in (x, y)) or any(has_opaque(a) for a, _ in pc):
                    p = TRUE
                    for atom, val in reversed(pc):
                        p = t.land(t.W(atom) if val else t.lnot(t.W(atom)), p)
                    if compare.witness.find(p, tag_byte(tag, i), mk("idx", TAG, I(i), "u8")) is not None:
                        bad = True
                    else:
                        unsure = True
                else:
                    bad = True
            if bad and (vn, "tag") not in seen:
                seen.add((vn, "tag"))
                out.violations.append(Mismatch("tag", ty, vn, "is converted to another tag than it is made from (%s)" % short(tag),
                                               d.where, {prop}))
            elif unsure:
                out.undecided.append("%s: tag of %s: %s" % (ty, vn, short(tag)))
            named = t.eq(t.discr(name), I(1))
            want = t.B(not isother(A, ty, leaf.a[1]))
            if named is not want and (vn, "name") not in seen:
                if named.op == "bool":
                    seen.add((vn, "name"))
                    out.violations.append(Mismatch("name", ty, vn, "has %s name" % ("no" if named is FALSE else "a"), m.where, {prop}))
                else:
                    out.undecided.append("%s: name of %s: %s" % (ty, vn, short(name)))
        # registered tags are known
        for tag in golden[reg]:
            n += 1
            v = at_tag(c.value, tag)
            if v.op == "agg" and isother(A, ty, v.a[1]):
                out.violations.append(Mismatch("unknown", ty, tag, "the registered tag is reported as an unknown one", c.where, {prop}))
            elif v.op != "agg":
                out.undecided.append("%s: %s: %s" % (ty, tag, short(v)))
        samples.append("%s: %d cases of the first to the last byte, %d results" % (ty, len(paths(c.value, ())), len(memo)))
    out.coverage = {"explanation": "The conversion from a tag is interpreted abstractly for four arbitrary bytes, which gives a decision tree "
                    "over the bytes; the conversion back and the name are interpreted for the result in each of its cases and compared with "
                    "the bytes the case stands for. Nothing is executed.", "cases": n, "functions_analysed": len(fns),
                    "rule": "tag(from_tag(x)) == x for every x; name present exactly for known results; registered tags are known",
                    "samples": samples}


def strings_of(A, c, limit=64):
    """The strings that an iterator over constants yields: [str] or None."""
    if c.state is None:
        return None
    it, st, out = c.value, c.state, []
    try:
        for _ in range(limit):
            r = models.next_(c.interp, st, it)
            if r is None:
                return None
            has, th = r
            if has is FALSE:
                return out
            if has is not TRUE:
                return None
            q = th(st)
            if q is None:
                return None
            g, x, it, st = q
            if g is FALSE:
                continue
            x = models.deep(c.interp, st, x)
            if g is not TRUE or x.op != "str":
                return None
            out.append(x.a[0])
    except models.Unsupported:
        return None
    return None


def meaning(A, prop, out):
    n, samples = 0, []
    fns = set()
    golden = registry(A.features)
    for reg, ty in REGISTRIES.items():
        names = variants(A, ty)
        c = converted(A, ty)
        nk = find(A.d, ty, "name")
        ck = find(A.d, ty, "codes") if reg == "language" else None
        if names is None or c is None or nk is None or reg == "language" and ck is None:
            missing(out, ty, "from_tag, name or codes", prop)
            continue
        fns |= c.interp.visited
        if trouble(out, c, ty):
            continue
        for tag, es in golden[reg].items():
            v = at_tag(c.value, tag)
            n += 1
            if v.op != "agg" or v.a[0] != ty:
                out.undecided.append("%s: %s: %s" % (ty, tag, short(v)))
                continue
            vn = names[v.a[1]]
            es = [e for e in es if e["variant"] == vn]
            if not es:
                out.violations.append(Mismatch("variant", ty, tag, "is taken for %s and not for %s" % (
                    vn, " or ".join(e["variant"] for e in golden[reg][tag])), c.where, {prop}))
                continue
            e = es[0]
            m = call(A.d, A.sp, nk, [mk("vref", v)])
            fns |= m.interp.visited
            n += 1
            x = m.value
            s = models.deep(m.interp, m.state, t.field(x, 1, 0, None)) if m.state is not None and x.op == "agg" and x.a[1] == 1 else None
            if x.op == "agg" and x.a[1] == 0:
                out.violations.append(Mismatch("name", ty, tag, "has no name", m.where, {prop}))
            elif s is None or s.op != "str":
                out.undecided.append("%s: name of %s: %s" % (ty, tag, short(x)))
            elif s.a[0] != e["name"]:
                out.violations.append(Mismatch("name", ty, tag, "is called %r and not %r" % (s.a[0], e["name"]), m.where, {prop}))
            if ck is None:
                continue
            n += 1
            k = call(A.d, A.sp, ck, [mk("vref", v)])
            fns |= k.interp.visited
            xs = strings_of(A, k)
            if xs is None:
                out.undecided.append("%s: codes of %s: %s" % (ty, tag, short(k.value)))
            elif xs != e["codes"]:
                out.violations.append(Mismatch("codes", ty, tag, "has the codes %r and not %r" % (xs, e["codes"]), k.where, {prop}))
        samples.append("%s: %d registered tags" % (ty, len(golden[reg])))
    out.coverage = {"explanation": "The decision tree of from_tag over the four bytes, and the name and the codes in the context of the variant "
                    "it gives (constant propagation over the compiler's intermediate representation), are compared with the registry in "
                    "data/registry.jsonl for each registered tag. Nothing is executed.", "entries": n, "functions_analysed": len(fns),
                    "rule": "variant, name and codes of each registered tag == registry", "samples": samples}


# ---------------------------------------------------------------- lookup by tag

LISTS = (("feature::Features", "headers", "records"), ("script::Scripts", "headers", "records"),
         ("script::Record", "language_headers", "language_records"))


def named_field(A, v, ty, name):
    j = A.sp.byname.get(ty)
    if j is None:
        return None
    for i, f in enumerate(A.d.types[j]["vs"][0]["f"]):
        if f[0] == name:
            return t.field(v, None, i, A.d.types.name(f[1]))
    return None


def lookup(A, prop, out):
    n, samples, fns = 0, [], set()
    for ty, hs, rs in LISTS:
        key = find(A.d, ty, "get")
        pos = mk("pos", 0)
        e = A.sp.at(ty, pos, None)
        self_ = e.value
        h, r = named_field(A, self_, ty, hs), named_field(A, self_, ty, rs)
        if key is None or h is None or r is None:
            missing(out, ty, "get", prop)
            continue
        arg = mk("prm", "tag", "#")
        pc = land(e.pre, e.valid)
        c = call(A.d, A.sp, key, [mk("vref", self_), arg], pc)
        fns |= c.interp.visited
        n += 1
        if trouble(out, c, ty):
            continue
        tag = mk("call", "into", arg, "Tag")
        m = t.length(h)
        head = ty.rsplit("::", 1)[0] + "::Header" if ty != "script::Record" else "language::Header"

        def matches(i):
            x = t.index(h, i)
            return t.eq(named_field(A, x, head, "tag"), tag)

        def again():
            e = A.sp.at(ty, pos, None)
            return call(A.d, A.sp, key, [mk("vref", e.value), arg], land(e.pre, e.valid)).value
        q = search.Search(A, prop, ty + ".get", c.where, ty, out)
        q.run(c.value, pc, m, matches, t.none(), lambda j: t.some(mk("vref", t.index(r, j))), "get", {tag: "tag"},
              keep=("binary search", "binary search hit"), again=again)
        samples.append("%s.get = %s" % (ty, short(c.value, 240)))
    out.coverage = {"explanation": "Each lookup is interpreted abstractly over the compiler's intermediate representation for an arbitrary list that "
                    "the reader can yield and an arbitrary tag, the search being summarised as `the first index such that`; the result is compared "
                    "with `absent if no header has the tag, else the record at the first index whose header has it`. Nothing is executed.",
                    "lookups": n, "functions_analysed": len(fns), "rule": "get(tag) == records[first i: headers[i].tag == tag]", "samples": samples}


# ---------------------------------------------------------------- palettes

def instantiate(pc, n, i):
    """pc with what holds for all indices below n stated for i as well."""
    out = pc
    lits = compare.conj(pc) or [(c, True) for c in t.atoms(pc) if land(pc, lnot(t.W(c))) is FALSE]
    for c, val in lits:
        if c.op == "forall" and val and c.a[0] is n:
            body = t.subst(c.a[1], {t.bv(c.h): i})
            out = land(out, body)
    return out


def palettes(A, prop, out, panics=None):
    ty = "color_palettes::ColorPalettes"
    key = find(A.d, ty, "iter")
    if key is None:
        missing(out, ty, "iter", prop)
        return
    pos = mk("pos", 0)
    e = A.sp.at(ty, pos, None)
    value, base = e.value, land(e.pre, e.valid)
    if panics is not None:
        value, base = A.actual(ty)
    header, colors = named_field(A, value, ty, "header"), named_field(A, value, ty, "colors")
    n, samples = 0, []
    hc = t.discr(header)
    for version in (0, 1):
        # one version at a time
        pc = land(base, t.eq(hc, I(version)))
        hv = interp.given(header, pc)
        hty = "color_palettes::Header%d" % version
        hd = interp.given(t.field(header, version, 0, hty), pc)
        entries, indices = named_field(A, hd, hty, "entry_count"), named_field(A, hd, hty, "color_indices")
        if entries is None or indices is None:
            missing(out, ty, "header", prop)
            return
        entries, indices = interp.given(entries, pc), interp.given(indices, pc)
        self_ = interp.given(value, pc)
        count = t.length(indices)
        c = call(A.d, A.sp, key, [mk("vref", self_)], pc)
        if trouble(out, c, ty):
            continue
        it, st, ip = c.value, c.state, c.interp
        who = "version %d" % version
        got = counted(ip, st, it, pc)
        n += 1
        if got is None:
            out.undecided.append("%s: iterator %s" % (who, short(it)))
            continue
        settled(out, prop, who, c.where, "palettes", ty, "%s: number of palettes" % who, got, count, pc, A.sp, "yields")
        p = t.fresh_ix(max(0, t.rng(count)[1] - 1))
        pc2 = instantiate(land(pc, t.lt(p, count)), count, p)
        q = item(ip, st, it, p, pc2)
        n += 1
        if q is None:
            out.undecided.append("%s: palette %s" % (who, short(it)))
            continue
        inner, st = q
        got = counted(ip, st, inner, pc2)
        if got is None:
            out.undecided.append("%s: palette %s" % (who, short(inner)))
            continue
        settled(out, prop, who, c.where, "palettes", ty, "%s: number of entries" % who, got, entries, pc2, A.sp, "yields")
        x = t.fresh_ix(max(0, t.rng(entries)[1] - 1))
        pc3 = land(pc2, t.lt(x, entries))
        q = item(ip, st, inner, x, pc3)
        n += 1
        if q is None:
            out.undecided.append("%s: color %s" % (who, short(inner)))
            continue
        got = models.deep(ip, q[1], q[0])
        want = t.index(interp.given(named_field(A, self_, ty, "colors"), pc3), t.add(t.index(indices, p), x))
        settled(out, prop, who, c.where, "palettes", ty, "%s: color" % who, got, want, pc3, A.sp, "yields")
        samples.append("%s: color %s of palette %s = %s" % (who, short(x), short(p), short(got)))
        if panics is not None:
            panics.append((ip, pc3))
    out.coverage = {"explanation": "The iterator over the palettes is interpreted abstractly over the compiler's intermediate representation for an "
                    "arbitrary table that the reader can yield; the number of palettes, the number of entries and the color at an arbitrary entry "
                    "of an arbitrary palette are compared with the specification. Nothing is executed.",
                    "obligations": n, "rule": "color e of palette p == colors[start[p] + e]", "samples": samples}


def counted(ip, st, it, pc):
    """The number of items that an iterator yields."""
    if it.op != "agg":
        return None
    n = models.count_of(it)
    if n is not None:
        return n
    s = interp.State(dict(st.mem), pc)
    try:
        r = models.collect_vec(ip, s, it)
    except (models.Unsupported, interp.Budget):
        return None
    if r is None or r[1] is None or r[0].unk:
        return None
    return t.length(r[0])


def item(ip, st, it, i, pc):
    """The i-th item of an iterator with known length."""
    it = models.skip_any(it, i)
    if it is None:
        return None
    s = interp.State(dict(st.mem), pc)
    r = models.next_(ip, s, it)
    if r is None:
        return None
    has, th = r
    s.pc = land(s.pc, has)
    try:
        q = th(s)
    except models.Unsupported:
        return None
    if q is None or q[0] is not TRUE:
        return None
    return q[1], q[3]
