"""Freedom from panics, termination."""
import terms as t
from terms import mk, I, TRUE, FALSE, land, lnot
import api
import compare
import fonts
import functions
import interp
from compare import Mismatch, short
from functions import TAPE

SKIP_TRAITS = ("core::fmt::", "typeface::value::Write", "typeface::value::Read", "typeface::walue::Read", "core::ops::drop")


class Fake:
    def __init__(self, ip):
        self.obligs = ip.obligs


def accessors(A):
    """(name, key) of the functions that can be called from outside, except readers."""
    for key, f in sorted(A.d.raw.items()):
        if not f.get("root") or not f.get("exported"):
            continue
        im = f.get("impl")
        if im and im.get("derived"):
            continue
        tr = (im or {}).get("trait") or ""
        if tr.startswith(SKIP_TRAITS):
            continue
        own = A.d.selfname(im["self"]) if im else f["path"].rsplit("::", 1)[0]
        yield own, f["name"], tr, key


def arguments(A, F, fn):
    """(arguments, what is known about them): values that a reader can yield where the type is one that is read."""
    args, pc = [], TRUE
    for i in range(fn.argc):
        k = fn.locals[1 + i]
        isref = A.d.types[k]["k"] == "ref"
        base = A.d.types.name(A.d.types.strip(k)) if isref else A.d.types.name(k)
        if base in ("#", "T") and isref:
            args.append(TAPE)
            continue
        if base == "font::Font" and F.ok:
            v = F.font
        elif base in A.names() and A.sp.parameter(base) is None:
            v, c = A.actual(base)
            pc = land(pc, c)
        else:
            v = mk("prm", "argument %d" % i, base)
        args.append(mk("vref", v) if isref else v)
    return args, pc


def panics(A, prop, out):
    n = proved = 0
    fns, samples = set(), []
    kinds = {}

    def add(name, ip, where, pre):
        nonlocal n, proved
        v, u, k, p = A.panics(name, ip, where, pre)
        out.violations += v
        out.undecided += ["%s: %s" % (name, x) for x in u]
        n += k
        proved += p
        for o in ip.obligs:
            w = o.kind.split("(")[0].strip()[:40]
            kinds[w] = kinds.get(w, 0) + 1
            if len(samples) < 4 and o.status != "proved":
                samples.append("%s: %s" % (name, short(o.cond)))
    readers = 0
    for name in A.names():
        r = A.cached(name)
        if r.run is None:
            continue
        readers += 1
        fns |= r.run.visited
        add(name, r.run, r.where, r.enc.pre)
        if r.run.error:
            out.undecided.append("%s: %s" % (name, r.run.error))
    F = fonts.Fonts(A)
    called = 0
    for own, name, tr, key in accessors(A):
        fn = A.d.func(key)
        args, pc = arguments(A, F, fn)
        who = "%s.%s" % (own, name)
        if own in set(api.REGISTRIES.values()) and fn.argc == 1 and name != "from_tag" or tr == "core::convert::From" and any(
                A.d.types.name(A.d.types.strip(fn.locals[1])) == ty for ty in api.REGISTRIES.values()):
            # over all the registered values
            ty = A.d.types.name(A.d.types.strip(fn.locals[1]))
            vs = api.variants(A, ty) or []
            isref = A.d.types[fn.locals[1]]["k"] == "ref"
            for i, vn in enumerate(vs):
                fields = A.d.types[A.sp.byname[ty]]["vs"][i]["f"]
                v = mk("agg", ty, i, *[mk("prm", "tag", A.d.types.name(f[1])) for f in fields])
                c = functions.call(A.d, A.sp, key, [mk("vref", v) if isref else v])
                fns |= c.interp.visited
                called += 1
                if c.error:
                    out.undecided.append("%s of %s: %s" % (who, vn, c.error))
                    continue
                if name == "codes":
                    api.strings_of(A, c)
                add(who, c.interp, c.where, TRUE)
            continue
        c = functions.call(A.d, A.sp, key, args, pc, limit=10**7)
        called += 1
        fns |= c.interp.visited
        if c.error:
            out.undecided.append("%s: %s" % (who, c.error))
        add(who, c.interp, c.where, pc)
        if c.interp.effects:
            out.undecided.append("%s: %s" % (who, c.interp.effects[0]))
    got, scratch = [], type("Scratch", (), {"violations": [], "undecided": [], "coverage": {}})()
    api.palettes(A, prop, scratch, got)
    for ip, pc in got:
        add("color_palettes::ColorPalettes.iter", ip, "", pc)
    out.undecided += [u for u in scratch.undecided if "iterator" in u or "palette " in u]
    out.coverage = {"explanation": "Every operation that panics when a condition fails (checked arithmetic, indexing and slicing, division, assertions, "
                    "unwrapping, explicit panics) in a reader or in a function callable on what has been read is an obligation: the condition has to "
                    "follow from the conditions under which the compiler's intermediate representation reaches it, for every tape, every position and "
                    "every value a reader can yield. Nothing is executed.", "readers": readers, "calls_analysed": called,
                    "functions_analysed": len(fns), "obligations": n, "discharged": proved, "kinds": kinds,
                    "rule": "condition of the check follows from the path condition", "samples": samples}


# ---------------------------------------------------------------- termination

def feasible(pc):
    return pc is not FALSE and not compare.dead(pc) and compare.known(pc)


def termination(A, prop, out):
    n, samples, fns = 0, [], set()
    graph = {}
    loops = {"counted": 0, "unknown": 0}
    runs = []
    for name in A.names():
        r = A.analyse(name)
        if r.run is not None:
            runs.append((name, r.run, r.where, r.enc.pre))
    F = fonts.Fonts(A)
    for own, name, tr, key in accessors(A):
        fn = A.d.func(key)
        args, pc = arguments(A, F, fn)
        c = functions.call(A.d, A.sp, key, args, pc, limit=10**7)
        if c.error:
            out.undecided.append("%s.%s: %s" % (own, name, c.error))
        ip = c.interp
        ip.loops = ip.loops_seen
        ip.error = c.error
        runs.append(("%s.%s" % (own, name), ip, c.where, pc))
    for name, run, where, pre in runs:
        fns |= run.visited
        if run.error:
            out.undecided.append("%s: %s" % (name, run.error))
        wild = set()
        for loop, span, text in run.wild:
            if (loop, text) not in wild:
                wild.add((loop, text))
                out.violations.append(Mismatch("loop", name, "loop", text, span, {prop}))
        for loop, how in run.loops.items():
            n += 1
            loops[how] = loops.get(how, 0) + 1
            if how != "counted" and not wild:
                out.undecided.append("%s: the loop %s has no count that is understood" % (name, loop))
        for key, stack, span, pc, now, entry in run.recursion:
            n += 1
            again = land(pre, pc)
            for a, v in entry.items():
                w = now.get(a)
                if v is None or w is None or v.unk or w.unk:
                    again = t.unk("position")
                    break
                again = land(again, t.le(w, v))
            if feasible(again):
                out.violations.append(Mismatch("recursion", name, key.rsplit("::", 2)[-2] if "::" in key else key,
                                               "calls itself again at the same position or an earlier one (when %s)" % short(again), span, {prop}))
            else:
                out.undecided.append("%s: calls itself again" % key)
        es = [e for e in run.events if e.kind == "read"]
        if name in A.names():
            g = graph.setdefault(name, {})
            for e in es:
                n += 1
                ty = A.elem(e.ty)
                if ty in A.names():
                    g.setdefault(ty, []).append((e, pre))
    # readers that reach themselves
    order = {}

    def reach(x):
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            for z in graph.get(y, ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return seen
    reached = {x: reach(x) for x in graph}
    for x in sorted(graph):
        if x not in reached[x]:
            continue
        # a step of the cycle that has to advance
        for y, es in sorted(graph[x].items()):
            if y != x and x not in reached.get(y, ()):
                continue
            for e, pre in es:
                n += 1
                back = land(land(pre, e.pc), t.le(e.addr, mk("pos", 0)))
                if y == x and feasible(back):
                    out.violations.append(Mismatch("recursion", x, y, "reads itself again at the same position or an earlier one (when %s)" % (
                        short(back)), e.span, {prop}))
                elif y == x and back is FALSE:
                    continue
                else:
                    order.setdefault(x, set()).add(y)
    if order:
        cycles = cyclic(graph, reached, out, prop)
        for x in sorted(order):
            if x not in cycles:
                out.undecided.append("%s can be read from within itself" % x)
    depth = {}

    def level(x, path=()):
        if x in path:
            return 0
        if x not in depth:
            depth[x] = 1 + max([level(y, path + (x,)) for y in graph.get(x, ())] or [0])
        return depth[x]
    for x in graph:
        level(x)
    if depth:
        m = max(depth, key=lambda x: (depth[x], x))
        samples.append("deepest nesting of readers: %d, from %s" % (depth[m], m))
    samples += ["%s: %s" % (name, ", ".join("%s %s" % x for x in sorted(run.loops.items()))) for name, run, _, _ in runs if run.loops][:3]
    out.coverage = {"explanation": "The readers and the functions callable on what has been read are interpreted abstractly over the compiler's intermediate "
                    "representation. Each loop has to have a number of turns that is known before it (counted), no function may call itself, and the "
                    "graph of which reader reads which type has to be free of cycles through which the same position can be read again. Nothing is "
                    "executed.", "functions_analysed": len(fns), "loops_counted": loops["counted"], "loops_not_understood": loops["unknown"],
                    "readers": len(graph), "nested_reads": sum(len(v) for v in graph.values()), "obligations": n,
                    "rule": "every loop is counted; no cycle of readers without an advancing position", "samples": samples}


def cyclic(graph, reached, out, prop):
    """Cycles of several readers all of whose steps can stay at the position."""
    bad = set()
    still = {}
    for x in graph:
        for y, es in graph[x].items():
            if x in reached.get(y, ()) and x != y:
                for e, pre in es:
                    back = land(land(pre, e.pc), t.le(e.addr, mk("pos", 0)))
                    if feasible(back):
                        still.setdefault(x, {})[y] = (e, back)
    for x in sorted(still):
        seen, todo = set(), [x]
        while todo:
            y = todo.pop()
            for z in still.get(y, ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        if x in seen:
            bad.add(x)
            e, back = sorted(still[x].items())[0][1]
            out.violations.append(Mismatch("recursion", x, "cycle", "reads %s, and so itself, again at the same position (when %s)" % (
                e.ty, short(back)), e.span, {prop}))
    return bad
