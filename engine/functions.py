"""Single functions of the public interface, analysed with given abstract arguments."""
import terms as t
from terms import mk, TRUE, DC
import interp
from interp import Interp, State


class Call:
    __slots__ = ("fn", "value", "state", "interp", "args", "tape", "error")

    @property
    def where(self):
        return self.fn.span

    @property
    def known(self):
        return self.error is None and not self.interp.effects


def find(dump, self_, name, trait=None):
    """The key of a method (inherent, or of a trait), or None."""
    r = []
    for k, f in dump.raw.items():
        im = f.get("impl")
        if not im or f.get("name") != name or not f.get("root"):
            continue
        if dump.selfname(im["self"]) != self_:
            continue
        if (im["trait"] or None) != trait:
            continue
        r.append(k)
    return sorted(r)[0] if r else None


def free(dump, path):
    """The key of a free function."""
    for k, f in dump.raw.items():
        if f.get("path") == path and f.get("root"):
            return k
    return None


def call(dump, sp, key, args, pc=TRUE, pos=None, fail=None, limit=None):
    """Analyse one function; an argument `TAPE` stands for a mutable reference to a tape at pos."""
    r = Call()
    r.fn = dump.func(key)
    ip = r.interp = Interp(dump, sp.has)
    ip.fail = fail
    if limit:
        ip.limit = limit
    st = State({}, pc)
    r.tape = None
    vals = []
    for a in args:
        if a is TAPE:
            r.tape = ip.alloc(st, pos if pos is not None else mk("pos", 0))
            ip.tapes.add(r.tape)
            vals.append(ip.ref(r.tape))
        else:
            vals.append(a)
    r.args = vals
    r.error = None
    try:
        v, s = ip.run_function(r.fn, vals, st)
    except interp.Budget:
        v, s, r.error = t.unk("budget"), None, "too many steps"
    except RecursionError:
        v, s, r.error = t.unk("depth"), None, "too deep"
    r.value = v if v is not None else DC
    r.state = s
    return r


TAPE = object()
