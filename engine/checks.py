"""One check for each property."""
import os
import terms as t
import compare
import dump as dump_
import spec as spec_
import api
import fonts
import safety
import features
import effects
from compare import Mismatch


class Out:
    def __init__(self):
        self.violations = []
        self.undecided = []
        self.coverage = {}
        self.assumptions = []
        self.level = "other"


TRUST = ["the compiler's intermediate representation of the default build (debug assertions and overflow checks on)",
         "the models of the standard library's and the typeface crate's items in engine/models.py",
         "the format specification in engine/spec.py",
         "positions on the tape stay below 2^61"]

CHECKS = {}


def check(*ids):
    def f(fn):
        for i in ids:
            CHECKS[i] = fn
        return fn
    return f


# decided on several builds of their own
BUILDS = {"C24", "C25", "C27", "C30"}
chosen = [()]


def run(prop, tier):
    fn = CHECKS[prop]
    out = Out()
    out.assumptions = list(TRUST)
    chosen[0] = ()
    fn(prop, tier, out)
    if prop in BUILDS or os.environ.get("VERIF_DUMP") and not os.environ.get("VERIF_DUMP_ALL"):
        return out
    # the same for the code that only the features of the crate bring in
    sets = [tuple(dump_.FEATURES)]
    if tier == "thorough":
        sets = [(x,) for x in dump_.FEATURES] + sets
    keys = {m.key() for m in out.violations}
    builds = 1
    for features in sets:
        chosen[0] = features
        more = Out()
        try:
            fn(prop, tier, more)
        except dump_.BuildError as e:
            out.undecided.append("with %s: does not compile" % "+".join(features))
            continue
        builds += 1
        for m in more.violations:
            if m.key() not in keys:
                keys.add(m.key())
                m.text = "with %s: %s" % ("+".join(features), m.text)
                out.violations.append(m)
        out.undecided += [u for u in more.undecided if u not in out.undecided]
    chosen[0] = ()
    out.coverage["builds"] = builds
    return out


def analysis(features=None):
    f = tuple(chosen[0] if features is None else features)
    return compare.Analysis(dump_.load(f), f)


def readers(A, out, names=None):
    """Analyse the readers; (result of each, totals)."""
    tot = {"readers": 0, "functions": set(), "comparisons": 0, "fields": 0}
    res = []
    for n in names or A.names():
        r = A.analyse(n)
        if r.missing:
            out.violations.append(Mismatch("missing", n, "", "there is no reader of this type any more", "src", {r.area, "C15"}))
            continue
        res.append(r)
        if r.run is not None:
            tot["readers"] += 1
            tot["functions"] |= r.run.visited
            tot["comparisons"] += r.counts.get("comparisons", 0)
            for leaf in t.leaves(r.enc.value):
                if leaf.op == "agg":
                    tot["fields"] += len(leaf.a) - 2
        for u in r.undecided:
            out.undecided.append("%s: %s" % (r.name, u))
    tot["functions"] = len(tot["functions"])
    return res, tot


AREAS = {"C01": "layout lists", "C02": "coverage, class and correction tables", "C03": "contextual lookups",
         "C04": "glyph-substitution subtables", "C05": "glyph-positioning subtables", "C06": "the glyph definition",
         "C07": "color palettes", "C08": "font variations", "C09": "item variation stores"}

HOW = ("Each reader is interpreted abstractly over the compiler's intermediate representation (gated value numbering: branches "
       "joined, loops summarised, helpers, closures and macro output analysed in context); %s. Nothing is executed.")


@check(*AREAS)
def area(prop, tier, out):
    A = analysis()
    names = [n for n in A.names() if spec_.TABLE[n][0] == prop]
    res, tot = readers(A, out, names)
    for r in res:
        out.violations += [m for m in r.mismatches if m.kind in ("value", "end", "shape") and prop in m.tags]
        if r.run is not None:
            for b in A.bytes_read(r)[0]:
                if prop in b.tags and b.kind == "reads":
                    out.violations.append(b)
    samples = []
    for r in res[:4]:
        if r.run is not None:
            samples.append("%s (%s) = %s" % (r.name, r.where, compare.short(r.enc.value, 300)))
    out.coverage = {"explanation": HOW % ("the value it yields for %s is compared, field by field, with the value the format "
                                          "specification gives at an arbitrary position" % AREAS[prop]),
                    "readers": tot["readers"], "functions_analysed": tot["functions"], "fields": tot["fields"],
                    "comparisons": tot["comparisons"], "rule": "value of each field == specification, for every tape and position",
                    "samples": samples}


CROSS = {
    "C10": "every subtable's address is the start of the specified base plus the offset",
    "C11": "a nullable offset yields absence without a read when zero, the located subtable otherwise",
    "C12": "the length of every exposed array is the one its governing count declares, element by element",
    "C13": "the selecting number picks the variant and its address, any other number fails",
    "C14": "the condition of success implies the specification's validity condition",
    "C15": "the validity condition implies success, and every byte read belongs to an encoding",
    "C19": "the position after the read is the start plus the size of the encoding",
}


@check(*CROSS)
def cross(prop, tier, out):
    A = analysis()
    names = A.names()
    if prop == "C13":
        names = [n for n in names if A.signature(n)[0] is not False or True]
    res, tot = readers(A, out, names)
    n = 0
    samples = []
    for r in res:
        out.violations += [m for m in r.mismatches if prop in m.tags]
        if r.run is None:
            continue
        enc = r.enc
        if prop in ("C11", "C15"):
            v, u, k = A.bytes_read(r)
            out.violations += [m for m in v if prop in m.tags]
            if prop == "C15":
                out.undecided += ["%s: %s" % (r.name, x) for x in u]
        k = 0
        if prop == "C10":
            k = sum(1 for x in enc.reads if x.inline is False)
            what = [x for x in enc.reads if x.inline is False]
        elif prop == "C11":
            what = [x for x in enc.reads if x.null]
            k = len(what)
        elif prop == "C12":
            what = [x for x in enc.reads if x.n is not None]
            k = sum(1 for x in t.subterms(enc.value) if x.op in ("seq", "map"))
        elif prop == "C13":
            k = 1 if enc.dispatch else 0
            what = []
        elif prop == "C14":
            k = len(t.atoms(enc.valid))
            what = []
        elif prop == "C15":
            k = len(r.run.events)
            what = []
        else:
            k = 1 if r.name in A.sp.sequential() else 0
            what = []
        n += k
        if k and len(samples) < 4:
            if prop in ("C10", "C11", "C12") and what:
                x = what[0]
                samples.append("%s: %s at %s" % (r.name, x.ty, compare.short(x.addr, 120)))
            elif prop in ("C14", "C13"):
                samples.append("%s: valid when %s" % (r.name, compare.short(enc.valid, 160)))
            elif prop == "C19":
                samples.append("%s ends at %s" % (r.name, compare.short(enc.end, 120)))
            elif prop == "C15":
                samples.append("%s: %s" % (r.name, compare.describe(r.run.events[0])))
    out.coverage = {"explanation": HOW % CROSS[prop], "readers": tot["readers"], "functions_analysed": tot["functions"],
                    "obligations": n, "comparisons": tot["comparisons"], "rule": CROSS[prop], "samples": samples}


@check("C16")
def failures(prop, tier, out):
    A = analysis()
    res, tot = readers(A, out)
    n = 0
    samples = []
    for r in res:
        v, u, k = A.failures(r)
        out.violations += v
        out.undecided += ["%s: %s" % (r.name, x) for x in u]
        n += k
        if r.run is not None and len(samples) < 4 and r.run.events:
            samples.append("%s: %s fails => the read fails" % (r.name, compare.describe(r.run.events[-1])))
    k, f = fonts.failures(A, prop, out)
    n += k
    tot["functions"] += f
    out.coverage = {"explanation": HOW % "for each operation on the tape the interpretation is repeated with that operation "
                    "failing, and the result must be an error wherever the operation is reached",
                    "readers": tot["readers"], "functions_analysed": tot["functions"], "operations": n,
                    "rule": "operation fails => read fails", "samples": samples}


@check("C28")
def c28(prop, tier, out):
    api.flags(analysis(), prop, out)


@check("C20")
def c20(prop, tier, out):
    api.round_trip(analysis(), prop, out)


@check("C21")
def c21(prop, tier, out):
    api.meaning(analysis(), prop, out)


@check("C22")
def c22(prop, tier, out):
    api.lookup(analysis(), prop, out)


@check("C29")
def c29(prop, tier, out):
    api.palettes(analysis(), prop, out)


@check("C23")
def c23(prop, tier, out):
    fonts.access(analysis(), prop, out)


@check("C24")
def c24(prop, tier, out):
    fonts.checksums([analysis(())] + optional(("ignore-invalid-checksums",), out), prop, out)


@check("C26")
def c26(prop, tier, out):
    fonts.files(analysis(), prop, out)


@check("C17")
def c17(prop, tier, out):
    safety.panics(analysis(), prop, out)


@check("C18")
def c18(prop, tier, out):
    safety.termination(analysis(), prop, out)


@check("C25")
def c25(prop, tier, out):
    features.check(prop, tier, out)


def optional(features, out):
    """The analysis of a build that there may be none of."""
    try:
        return [analysis(features)]
    except dump_.BuildError:
        out.undecided.append("with %s: does not compile" % "+".join(features))
        return []


@check("C27")
def c27(prop, tier, out):
    effects.pure(analysis, lambda: optional(dump_.FEATURES, out), prop, out)


@check("C30")
def c30(prop, tier, out):
    effects.owned(analysis, lambda: optional(dump_.FEATURES, out), prop, out)
