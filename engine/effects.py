"""Reading without side effects; values that own what they hold."""
import json
import os
import re
import terms as t
import api
import compare
import dump as dump_
import safety
from compare import Mismatch, short

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# where the outside world, the time, chance and other threads are; what is kept shows in the items and types
WORLD = re.compile(r"""^(
    std::(fs|env|net|process|os|backtrace|thread|time|random)(::|$)
  | std::io::(stdio|_print|_eprint|cursor::never|print|eprint)
  | std::(print|eprint|_print|_eprint)
  | std::hash::random | std::collections::hash::(map|set)::RandomState
  | std::panic:: | std::panicking::(set_hook|take_hook|update_hook)
  | core::ptr::(read_volatile|write_volatile) | core::arch
)""", re.X)
# constructs of these that show nothing of the outside
PURE = re.compile(r"""^(
    std::io::(error|Error|cursor|Cursor|impls)
  | std::thread::panicking
)""", re.X)
ORDER = re.compile(r"^(std::collections::hash::(map|set)|hashbrown)::.*::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|next)$")
ORDERLESS = re.compile(r"::(sort\w*|sum|count|product|all|any|max|min|max_by\w*|min_by\w*|len|contains)$|alloc::collections::btree")


def calls(f):
    """(callee, place) of one function, constants that are functions included."""
    for b in f["blocks"] or ():
        seen = []
        walk(b, seen)
        for c in seen:
            yield c


def walk(x, out):
    if isinstance(x, dict):
        if "p" in x and "r" in x and "a" in x:
            out.append(x)
        for v in x.values():
            walk(v, out)
    elif isinstance(x, list):
        for v in x:
            walk(v, out)


def mentions(x, what, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "static" and isinstance(x[1], str):
            out.add(x[1])
        for v in x:
            mentions(v, what, out)
    elif isinstance(x, dict):
        for v in x.values():
            mentions(v, what, out)


def owner(f):
    return f["path"].replace("opentype::", "", 1) if f["path"].startswith("opentype::") else f["path"]


def stable(path):
    """A path without the numbers of implementations and closures."""
    return re.sub(r"#\d+", "", path)


def scan(d, label, prop, out):
    """Statics, unsafe code and calls of one build."""
    n = {"functions": 0, "calls": 0, "items": 0, "callees": set()}
    used = set()
    for f in d.raw.values():
        if f.get("local"):
            mentions(f["blocks"], "static", used)
    statics = {}
    for kind, path, span, reach, mutable, extra in d.items:
        n["items"] += 1
        if kind in ("ForeignMod", "GlobalAsm"):
            out.violations.append(Mismatch("foreign", stable(path), kind, "declares foreign code", span, {prop}))
        if kind == "Impl" and isinstance(extra, dict) and extra.get("unsafe") and not extra.get("derived"):
            out.violations.append(Mismatch("unsafe", d.selfname(extra["self"]), extra["trait"], "is an unsafe implementation of %s" % extra["trait"], span, {prop}))
        if kind == "Static":
            ty = d.types[extra["type"]]["s"] if isinstance(extra, dict) else ""
            statics[path] = ty
            where = path if path.startswith("opentype") else "opentype" + path
            if mutable or isinstance(extra, dict) and (extra["tls"] or not extra["freeze"]):
                if re.match(r"^std::sync::(LazyLock|Lazy)|^std::cell::LazyCell", ty) and not mutable:
                    continue
                if re.match(r"^std::sync::OnceLock|^std::cell::OnceCell", ty) and not mutable and capturefree(d):
                    continue
                live = path in used or extra["tls"] or any(path.endswith(u) or u.endswith(path) for u in used)
                if live:
                    out.violations.append(Mismatch("state", stable(path), "static", "keeps state between reads: static of the type %s" % ty, span, {prop}))
                else:
                    out.undecided.append("%s: a static that is not seen to be used" % where)
    for kind, path, span in d.d["unsafe"]:
        out.violations.append(Mismatch("unsafe", stable(path), kind, "is %s" % kind, span, {prop}))
    for key, f in sorted(d.raw.items()):
        if not f.get("local"):
            continue
        n["functions"] += 1
        cs = list(calls(f))
        paths = {c["r"] or c["p"] for c in cs} | {c["p"] for c in cs}
        for c in cs:
            n["calls"] += 1
            for p in (c["r"], c["p"]):
                if not p:
                    continue
                n["callees"].add(p)
                if WORLD.match(p) and not PURE.match(p):
                    out.violations.append(Mismatch("effect", stable(f["path"]), p, "depends on or changes more than the tape: calls %s" % (c.get("s") or p), f["span"], {prop}))
                    break
                if ORDER.match(p) and not any(ORDERLESS.search(q) for q in paths):
                    out.violations.append(Mismatch("effect", stable(f["path"]), p, "depends on the order of a hash table: calls %s" % (c.get("s") or p), f["span"], {prop}))
                    break
        for b in f["blocks"] or ():
            for s in b["s"]:
                if s[0] == "=" and isinstance(s[2], list) and s[2] and (s[2][0] == "tls" or s[2][0] == "cast" and "Expose" in str(s[2][1])):
                    what = "thread-local storage" if s[2][0] == "tls" else "the address of a value"
                    out.violations.append(Mismatch("effect", stable(f["path"]), what, "depends on %s" % what, s[-1] if isinstance(s[-1], str) else f["span"], {prop}))
    return n


def capturefree(d):
    """What is stored once is computed from nothing that is around it."""
    for f in d.raw.values():
        if not f.get("local"):
            continue
        for c in calls(f):
            p = c["r"] or c["p"]
            if re.search("once_lock|core::cell::once", p):
                if re.search(r"::(set|try_insert|take|get_mut)$", p):
                    return False
                for a in c["a"]:
                    tt = d.types[a] if isinstance(a, int) else {}
                    if tt.get("k") == "closure" and tt.get("es"):
                        return False
    return True


def pure(default, full, prop, out):
    n = {"functions": 0, "calls": 0, "items": 0}
    callees, samples = set(), []
    A = default()
    readers = 0
    for name in A.names():
        r = A.analyse(name)
        if r.run is None:
            continue
        readers += 1
        if r.run.effects or r.run.error:
            out.undecided.append("%s: %s" % (name, r.run.error or r.run.effects[0]))
            continue
        vs = [r.run.value, r.run.end]
        foreign = sorted({x.a[0] for v in vs for x in t.subterms(v) if x.op == "call"} | {
            str(x.a[0]) for v in vs for x in t.subterms(v) if x.op == "prm" and x.a[0] not in ("given", "parameter")})
        if foreign and readers <= 3:
            samples.append("%s: %s" % (name, foreign[:3]))
        for c in r.run.calls:
            out.undecided.append("%s: calls %s" % (name, c if isinstance(c, str) else c[0]))
        if len(samples) < 3:
            samples.append("%s = %s" % (name, short(r.run.value, 200)))
    builds = [("default", A)] + [("all features", B) for B in full()]
    for label, A in builds:
        k = scan(A.d, label, prop, out)
        for x in n:
            n[x] += k[x]
        callees |= k["callees"]
        # state inside of the values that are read
        for i, span, lts, freeze, reach, traits in A.d.d["autos"]:
            n["items"] += 1
            name = A.d.types.name(i)
            if not freeze:
                text = json.dumps(A.d.types[i])
                if re.search(r"OnceLock|OnceCell|LazyLock|LazyCell", inside(A.d, i, set())):
                    out.undecided.append("%s: computes something at most once" % name)
                else:
                    out.violations.append(Mismatch("state", name, "cell", "can be changed through a shared reference", span, {prop}))
    samples += sorted(x for x in callees if not x.startswith(("opentype::", "core::", "alloc::")))[:12]
    out.coverage = {"explanation": "All functions, closures and constants of the crate, in the build without features and in the one with all of them: no "
                    "static that can change, no thread-local storage, no unsafe code and no foreign code is there, no function calls what reaches the "
                    "environment, the time, chance, files, other threads or shared memory, no value has interior mutability, and the value and the end "
                    "of each read, as expressions, contain nothing but the tape, the start and the parameter. Nothing is executed.",
                    "builds": len(builds), "functions_analysed": n["functions"], "calls": n["calls"], "items": n["items"],
                    "distinct_callees": len(callees), "readers": readers, "rule": "no effect other than on the tape", "samples": samples}


def inside(d, i, seen, depth=0):
    """The names of all types within a type."""
    if i in seen or depth > 12 or not isinstance(i, int):
        return ""
    seen.add(i)
    x = d.types[i]
    s = x.get("s", "")
    for v in x.get("vs", ()):
        for f in v["f"]:
            if isinstance(f[1], int):
                s += " " + inside(d, f[1], seen, depth + 1)
    for a in x.get("a", ()):
        s += " " + inside(d, a, seen, depth + 1)
    for k in ("e",):
        if isinstance(x.get(k), int):
            s += " " + inside(d, x[k], seen, depth + 1)
    for a in x.get("es", ()) or ():
        s += " " + inside(d, a, seen, depth + 1)
    return s


# ---------------------------------------------------------------- owned values

PROMISES = os.path.join(HERE, "data", "promises.json")
PROMISED = ("Clone", "Copy", "Debug", "Default", "Eq", "PartialEq", "Hash", "Ord")


def owned(default, full, prop, out):
    with open(PROMISES) as f:
        promises = json.load(f)
    n = types = 0
    samples = []
    builds = [("default", default())] + [("all features", B) for B in full()]
    for label, A in builds:
        d = A.d
        readers = {s for (s, tr, fn) in d.impls if tr in ("typeface::value::Read", "typeface::walue::Read") and fn == "read"}
        seen = set()
        for i, span, lts, freeze, reach, traits in d.d["autos"]:
            name = d.types.name(i)
            base = d.types.adt(d.types[i])
            seen.add(base)
            types += 1
            decoded = base in readers or base in promises
            if not decoded and not reach:
                continue
            n += 4
            if lts and decoded:
                out.violations.append(Mismatch("owned", base, "borrows", "borrows from what it is read from", span, {prop}))
            if not decoded:
                continue
            for tr, why in (("Send", "cannot be sent to another thread"), ("Sync", "cannot be shared between threads")):
                if traits.get(tr) is False:
                    out.violations.append(Mismatch("owned", base, tr, why, span, {prop}))
                elif traits.get(tr) is None:
                    out.undecided.append("%s: %s is not found" % (base, tr))
            if not freeze and not re.search(r"OnceLock|LazyLock", inside(d, i, set())):
                out.violations.append(Mismatch("owned", base, "cell", "can be changed through a shared reference", span, {prop}))
            if re.search(r"\*(const|mut) ", " ".join(d.types[f[1]].get("s", "") for v in d.types[i]["vs"] for f in v["f"] if isinstance(f[1], int))):
                out.violations.append(Mismatch("owned", base, "pointer", "holds a raw pointer", span, {prop}))
            for tr in promises.get(base, ()):
                n += 1
                if traits.get(tr) is False:
                    out.violations.append(Mismatch("promise", base, tr, "does not implement %s any more" % tr, span, {prop}))
        for base in promises:
            if base not in seen:
                out.undecided.append("%s: the type is not there any more" % base)
        # nothing but the tape is needed exclusively
        for own, name, tr, key in safety.accessors(A):
            if tr:
                continue
            fn = d.func(key)
            for j in range(fn.argc):
                k = fn.locals[1 + j]
                tt = d.types[k]
                if tt["k"] != "ref":
                    continue
                n += 1
                base = d.types.name(d.types.strip(k))
                if tt.get("mut") and d.types[tt["e"]]["k"] != "param" and base in promises:
                    out.violations.append(Mismatch("exclusive", own, name, "needs exclusive access to %s" % base, fn.span, {prop}))
        if len(samples) < 3:
            samples.append("%d types; %s: %s" % (len(seen), d.types.name(d.d["autos"][0][0]), d.d["autos"][0][5]))
    out.coverage = {"explanation": "For each type of the crate the compiler's trait solver is asked, for the concrete types that occur, whether it can be sent "
                    "and shared, and whether it implements the traits it is known to implement; its definition is searched for borrowed, raw and "
                    "interior-mutable parts; and the signatures of the functions on it for exclusive borrows. Nothing is executed.",
                    "builds": len(builds), "types": types, "obligations": n,
                    "rule": "Send, Sync, no lifetime, no interior mutability, promised traits; &mut only for the tape", "samples": samples}
