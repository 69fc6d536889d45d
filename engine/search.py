"""Searches for the first element that satisfies a condition, against what they should look for."""
import terms as t
from terms import mk, I, TRUE, FALSE, land, lnot
import interp
import compare
import witness
from compare import Mismatch, Comparison, short, has_opaque


def plain(pc):
    return compare.known(pc)


class Search:
    """The search for the first of n elements with `cond(index)`."""

    def __init__(self, A, prop, who, where, ty, out):
        self.A, self.prop, self.who, self.where, self.ty, self.out = A, prop, who, where, ty, out
        self.bad = False

    def violation(self, kind, what, text):
        self.bad = True
        self.out.violations.append(Mismatch(kind, self.ty, what, text, self.where, {self.prop}))

    def note(self, text):
        self.bad = True
        self.out.undecided.append("%s: %s" % (self.who, text))

    def same(self, got, want, ix, pc, what):
        """The condition of a search against the specified one."""
        if got is want:
            return True
        got, want, pc = witness.bytewise(got), witness.bytewise(want), witness.bytewise(pc)
        cmp = Comparison(self.A.sp)
        if not any(z.op == "prm" and z.a[0].startswith("the ") for z in t.subterms(got)):
            self.note("condition that does not concern what is looked for: %s" % short(got))
            return False
        ds = cmp.differences(got, want, pc)
        for p, x, y in ds:
            if x.op == "bool" and y.op == "bool" and plain(p):
                self.violation("search", what, "looks for the first that satisfies %s and not %s" % (short(got), short(want)))
                return False
        if ds or cmp.undecided:
            self.note("condition of the search: %s" % short(got))
            return False
        return True

    def run(self, x, pc, n, cond, absent, present, what, names, assume=None, keep=(), again=None):
        """As below; when it is not understood, for some numbers of elements instead: again() is x, with the number given."""
        was = len(self.out.violations)
        self.any(x, pc, n, cond, absent, present, what, names, assume, keep)
        if self.bad and len(self.out.violations) == was and again is not None and n.op in ("len", "rd"):
            for k in (2, 1, 3):
                self.sp_memo = dict(self.A.sp.memo)
                try:
                    self.A.sp.memo.clear()
                    t.pin({n: I(k)})
                    x = again()
                    ok = self.few(x, pc, n, k, cond, absent, present, what, names, assume)
                finally:
                    t.pin({})
                    self.A.sp.memo.clear()
                    self.A.sp.memo.update(self.sp_memo)
                if not ok:
                    return

    def few(self, x, pc, n, k, cond, absent, present, what, names, assume):
        """For k elements."""
        m = {c: mk("prm", "the %s" % nm, t.type_of(c)) for c, nm in names.items()}
        m[n] = I(k)
        s = lambda v: t.subst(v, m)
        x, pc = s(x), s(pc)
        y = s(absent) if absent is not None else compare.DC
        left, some = TRUE, FALSE
        for i in range(k):
            c = s(cond(I(i)))
            some = t.lor(some, c)
            if assume is not None:
                pc = land(pc, t.lor(lnot(land(left, c)), s(assume(I(i)))))
            left = land(left, lnot(c))
        for i in reversed(range(k)):
            y = t.ite(s(cond(I(i))), s(present(I(i))), y)
        if absent is None:
            pc = land(pc, some)
        calls = sorted((c for v in (x, y, pc) for c in t.subterms(v) if c.op == "call"), key=lambda c: c.id)
        r = {c: mk("prm", "the %s %d" % (c.a[0], i), t.type_of(c)) for i, c in enumerate(dict.fromkeys(calls))}
        x, y, pc = t.subst(x, r), t.subst(y, r), t.subst(pc, r)
        cmp = Comparison(self.A.sp)
        for path, p, a, b in cmp.equal(x, y, pc):
            if witness.find(p, a, b) is not None:
                self.violation("search", what + path, "gives %s and not %s (with %s = %d, when %s)" % (short(a), short(b), t.show(n), k, short(p)))
                return False
        return True

    def any(self, x, pc, n, cond, absent, present, what, names, assume=None, keep=()):
        """x has to be `absent` when no element satisfies the condition, else present(index of the first that does).

        names: terms that stand for themselves (calls that the specification names as well); keep: functions whose results
        stand for themselves; assume(index): what is taken for granted about the element."""
        m = {c: mk("prm", "the %s" % nm, t.type_of(c)) for c, nm in names.items()}
        s = lambda v: t.subst(v, m)
        x, pc, n = s(x), s(pc), s(n)
        ix = t.fresh_ix()
        none = t.forall(n, ix, lnot(s(cond(ix))))
        spec = lambda i: s(cond(i))
        kept = lambda *vs: {c: mk("prm", "the %s" % c.a[0], t.type_of(c)) for v in vs for c in t.subterms(v) if c.op == "call" and c.a[0] in keep}
        # the tags are in no particular order
        if any(c.op == "call" and c.a[0].startswith("binary search") for c in t.subterms(x)):
            sought = set(m.values())
            if all(sought & t.subterms(c) or any(z.op == "call" and z.a[0].startswith("binary search") for z in t.subterms(c))
                   for c in t.conds(x)):
                self.violation("search", what, "looks by a binary search, which takes the records for sorted")
            else:
                self.note("binary search: %s" % short(x))
            return
        # every search whose failure x depends on
        r = {}
        for c in sorted((c for c in t.atoms(x) if c.op == "forall" and t.W(c) is not none), key=lambda c: c.id):
            if not self.likewise(c.a[0], lnot(self.body(c)[0]), self.body(c)[1], n, spec, pc, what):
                return
            r[c] = none
        x = t.subst(x, r)
        if absent is not None:
            p2 = land(pc, none)
            for k in sorted({c.a[1].a[0] for c in t.subterms(x) if c.op == "idx" and c.a[1].op == "int"})[:64]:
                p2 = land(p2, t.lor(t.le(n, I(k)), lnot(s(cond(I(k))))))
            x2 = interp.given(x, p2)
            k = kept(x2)
            self.compare(t.subst(x2, k), s(absent), p2, what + " (absent)")
        pc = land(pc, lnot(none))
        if compare.dead(pc):
            return
        x = interp.given(x, pc)
        # what is found satisfies the condition it is searched by
        for _ in range(8):
            changed = False
            for f in sorted((f for f in t.subterms(x) if f.op == "first"), key=lambda f: f.id):
                b2, i2 = self.body(f)
                if land(pc, t.forall(f.a[0], i2, lnot(b2))) is FALSE:
                    y = interp.given(x, t.subst(f.a[1], {t.bv(f.h): f}))
                    if y is not x:
                        x, changed = y, True
                        break
            if not changed:
                break
        j = t.fresh_ix()
        r = {}
        for f in sorted((f for f in t.subterms(x) if f.op == "first"), key=lambda f: f.id):
            if not self.likewise(f.a[0], *self.body(f), n, spec, pc, what):
                return
            r[f] = j
        pcj = land(land(pc, t.lt(j, n)), s(cond(j)))
        if assume is not None:
            pcj = land(pcj, s(assume(j)))
        x, y = t.subst(x, r), s(present(j))
        k = kept(x, y, pcj)
        x, y, pcj = t.subst(x, k), t.subst(y, k), t.subst(pcj, k)
        self.compare(interp.given(x, pcj), y, pcj, what)

    def body(self, f):
        """The condition of a search at an index, and the index."""
        i = t.fresh_ix()
        return t.subst(f.a[1], {t.bv(f.h): i}), i

    def likewise(self, m, got, ix, n, spec, pc, what):
        """The search among m elements for `got` is the specified one."""
        if m is not n:
            cmp = Comparison(self.A.sp)
            for p, x, y in cmp.differences(m, n, pc):
                d = t.sub(x, y)
                if plain(p) and (not has_opaque(x) or witness.find(p, x, y) is not None) and (d.op == "int" or compare.isnumber(x)):
                    self.violation("search", what, "looks at %s elements of %s" % (short(x), short(y)))
                else:
                    self.note("number of elements searched: %s" % short(m))
                return False
            if cmp.undecided:
                self.note("number of elements searched: %s" % short(m))
                return False
        return self.same(got, spec(ix), ix, land(pc, t.lt(ix, n)), what)

    def compare(self, x, y, pc, what):
        cmp = Comparison(self.A.sp)
        bad = cmp.equal(x, y, pc)
        for u in cmp.undecided:
            self.note(u)
        for path, p, a, b in bad:
            self.violation("search", what + path, "gives %s and not %s" % (short(a), short(b)))
            return
