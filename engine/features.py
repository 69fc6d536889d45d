"""The builds under every combination of the crate features, against each other and against what each is to change."""
import concurrent.futures
import gc
import itertools
import multiprocessing
import os
import traceback
import terms as t
from terms import mk, TRUE, FALSE, land, lnot
import api
import compare
import dump as dump_
import fonts
import functions
import mir
import safety
from compare import Comparison, Mismatch, short, has_opaque


def combinations():
    fs = dump_.FEATURES
    return [c for n in range(len(fs) + 1) for c in itertools.combinations(fs, n)]


class Scratch:
    def __init__(self):
        self.violations, self.undecided, self.coverage = [], [], {}


def everything(A, scope):
    """{key: mismatch} of one build against the specification for its features."""
    out = Scratch()
    n = 0
    if "readers" in scope:
        for name in A.names():
            r = A.analyse(name)
            if r.missing or r.run is None:
                continue
            n += 1
            out.violations += r.mismatches
            out.undecided += ["%s: %s" % (name, u) for u in r.undecided]
            out.violations += A.bytes_read(r)[0]
            v, u, _, _ = A.panics(name, r.run, r.where, r.enc.pre)
            out.violations += v
    if "changed" in scope:
        for name in scope["changed"]:
            out.violations += A.failures(A.analyse(name))[0]
    if "fonts" in scope:
        fonts.access(A, "C25", out)
        fonts.checksums([A], "C25", out)
        fonts.files(A, "C25", out)
        n += 3
    if "languages" in scope:
        api.round_trip(A, "C25", out)
        api.meaning(A, "C25", out)
        n += 2
    return {m.key(): m for m in out.violations}, out.undecided, n


def settledly(cmp, ds, what):
    """The first difference that is certain."""
    for p, x, y in ds:
        if not compare.known(p):
            cmp.note("under a condition that is not understood")
            continue
        if x is what:
            return p
        cmp.note("%s" % short(x, 80))
    return None


def against(A0, A, features, prop, out):
    """Accepted without => accepted with, and the same value."""
    n = 0
    label = "+".join(features)
    changed = []
    for name in A0.names():
        a, b = A0.analyse(name), A.analyse(name)
        if a.run is None and b.run is None:
            continue
        n += 1
        if b.run is None or a.run is None:
            if b.run is None:
                out.violations.append(Mismatch("feature", name, "missing", "is not there with %s" % label, a.where, {prop}))
            continue
        if a.run.value is b.run.value and a.run.end is b.run.end:
            continue
        changed.append(name)
        cmp = Comparison(A.sp)
        pre = a.enc.pre
        # what the features replace: items that are missing
        strict = {(r.ty, r.addr) for r in a.enc.reads if not r.null}
        for r in b.enc.reads:
            if r.null and (r.ty, r.addr) in strict:
                pre = land(pre, r.cond)
        x, y = compare.accepted(a.run.value), compare.accepted(b.run.value)
        p = settledly(cmp, cmp.differences(y, TRUE, land(pre, x)), FALSE) if not x.unk else None
        if p is not None:
            out.violations.append(Mismatch("feature", name, "accepts less", "rejects with %s what is accepted without (when %s)" % (
                label, short(p)), b.where, {prop}))
        if not (x.unk or y.unk):
            pc = land(pre, land(x, y))
            for path, p, v, w in cmp.equal(compare.payload(b.run.value), compare.payload(a.run.value), pc):
                out.violations.append(Mismatch("feature", name, "value" + path, "is %s with %s and %s without (when %s)" % (
                    short(v), label, short(w), short(p)), b.where, {prop}))
            if name in A.sp.sequential():
                for path, p, v, w in cmp.equal(b.run.end, a.run.end, pc):
                    out.violations.append(Mismatch("feature", name, "end", "leaves the tape elsewhere with %s" % label, b.where, {prop}))
        out.undecided += ["%s with %s: %s" % (name, label, u) for u in cmp.undecided]
    return n, changed


def outcomes(A, c, ty):
    """The result of from_tag with variants replaced by their names."""
    names = api.variants(A, ty)
    return t.lift(lambda v: mk("text", names[v.a[1]]) if v.op == "agg" and v.a[0] == ty else v, c.value)


def languages(A0, A, features, prop, out):
    """With the language feature, one more tag is known, and nothing else changes."""
    label = "+".join(features)
    n = 0
    dflt = TRUE
    for i, b in enumerate(b"DFLT"):
        dflt = land(dflt, t.eq(mk("idx", api.TAG, t.I(i), "u8"), t.I(b)))
    for reg, ty in api.REGISTRIES.items():
        a, b = api.converted(A0, ty), api.converted(A, ty)
        if a is None or b is None or a.error or b.error:
            continue
        n += 1
        extra = reg == "language" and "default-language" in features
        xs = dict(leaves(outcomes(A0, a, ty)))
        ys = dict(leaves(outcomes(A, b, ty)))
        for tag in sorted(set(xs) | set(ys)):
            x, y = xs.get(tag), ys.get(tag)
            if extra and tag == "DFLT":
                if y != "Default":
                    out.violations.append(Mismatch("feature", ty, tag, "is not known with %s" % label, b.where, {prop}))
                if x is not None:
                    out.violations.append(Mismatch("feature", ty, tag, "is known without default-language", a.where, {prop}))
            elif x != y:
                out.violations.append(Mismatch("feature", ty, tag, "is %s with %s and %s without" % (
                    y or "unknown", label, x or "unknown"), b.where, {prop}))
    return n


def leaves(v, tag=(None,) * 4):
    """(tag, outcome) for the tags that are told apart from all others."""
    if v.op == "ite":
        c = v.a[0]
        if c.op == "eq" and c.a[0].op == "idx" and c.a[1].op == "int":
            i = c.a[0].a[1].a[0]
            yes = tuple(chr(c.a[1].a[0]) if k == i else x for k, x in enumerate(tag))
            yield from leaves(v.a[1], yes)
            yield from leaves(v.a[2], tag)
        else:
            yield from leaves(v.a[1], tag)
            yield from leaves(v.a[2], tag)
    elif v.op == "text" and None not in tag:
        yield "".join(tag), v.a[0]


def one(job):
    features, path, base, A0, prop = job
    out = Scratch()
    n = 0
    try:
        A = compare.Analysis(mir.Dump(path), features)
        k, changed = against(A0, A, features, prop, out)
        n += k
        n += languages(A0, A, features, prop, out)
        found, und, k = everything(A, {"readers": 1, "fonts": 1, "languages": "default-language" in features, "changed": changed}
                                   if "default-language" in features else {"readers": 1, "fonts": 1, "changed": changed})
        n += k
        for key, m in found.items():
            if key not in base:
                out.violations.append(Mismatch("feature", m.ty, "%s %s" % (m.kind, m.what), "with %s: %s" % ("+".join(features), m.text),
                                               m.where, {prop}))
        out.undecided += ["with %s: %s" % ("+".join(features), u) for u in und]
        return features, out.violations, out.undecided, n, changed
    except BaseException:
        return features, [], ["with %s: %s" % ("+".join(features), traceback.format_exc().strip().splitlines()[-1])], n, []


JOBS = {}


def work(features):
    return one(JOBS[features])


def check(prop, tier, out):
    cs = combinations()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        made = dict(zip(cs, ex.map(build, cs)))
    for c, p in made.items():
        if isinstance(p, dump_.BuildError):
            if c and not isinstance(made[()], dump_.BuildError):
                out.violations.append(Mismatch("feature", "crate", "+".join(c), "does not compile with %s" % "+".join(c), "Cargo.toml", {prop}))
    if isinstance(made[()], dump_.BuildError):
        raise made[()]
    A0 = compare.Analysis(mir.Dump(made[()]), ())
    base, und, n = everything(A0, {"readers": 1, "fonts": 1, "languages": 1, "changed": A0.names()})
    out.undecided += und
    jobs = [c for c in cs if c and not isinstance(made[c], dump_.BuildError)]
    for c in jobs:
        JOBS[c] = (c, made[c], base, A0, prop)
    seen, samples = set(), []
    gc.collect()
    gc.freeze()
    with concurrent.futures.ProcessPoolExecutor(workers(), multiprocessing.get_context("fork")) as pool:
        for features, vs, us, k, changed in pool.map(work, jobs):
            n += k
            out.undecided += us
            for m in vs:
                if m.key() not in seen:
                    seen.add(m.key())
                    out.violations.append(m)
            if len(features) == 1:
                samples.append("%s changes %s" % (features[0], ", ".join(changed) or "no reader"))
    out.coverage = {"explanation": "The crate is compiled under each combination of its features. In each build every reader, the font's functions and the "
                    "registries are interpreted abstractly over the compiler's intermediate representation; the condition of acceptance and the value "
                    "are compared with those of the build without features, and with the specification for the features. Nothing is executed.",
                    "builds": len(jobs) + 1, "obligations": n,
                    "rule": "accepted without => accepted with and equal; otherwise only what the feature is named after",
                    "samples": samples}


def workers():
    """As many as there are processors, and memory for."""
    n = min(6, os.cpu_count() or 1)
    try:
        with open("/proc/meminfo") as f:
            free = [int(x.split()[1]) for x in f if x.startswith("MemAvailable")][0]
        n = min(n, free // 1500000)
    except (OSError, IndexError, ValueError):
        pass
    return max(1, n)


def build(c):
    try:
        if not c and os.environ.get("VERIF_DUMP"):
            return os.environ["VERIF_DUMP"]
        return dump_.produce(c)
    except dump_.BuildError as e:
        return e
