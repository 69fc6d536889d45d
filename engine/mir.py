"""The dump of one compilation: types, functions, control-flow graphs."""
import json


class Types:
    def __init__(self, rows):
        self.t = rows
        self._n = {}

    def __getitem__(self, i):
        return self.t[i]

    def name(self, i):
        r = self._n.get(i)
        if r is None:
            self._n[i] = "?"
            r = self._n[i] = self._name(i)
        return r

    def adt(self, t):
        """Canonical name of an aggregate type without its arguments."""
        v = t["v"]
        segs = v.split("::")
        if t["local"]:
            segs = [s for s in segs[1:] if s not in ("layout", "tables", "variations", "element")]
            return "::".join(segs)
        return segs[-1]

    def _name(self, i):
        if i is None:
            return "?"
        t = self.t[i]
        k = t["k"]
        if k == "adt":
            n = self.adt(t)
            if n in ("Vec", "Option", "Box"):
                return "%s<%s>" % (n, self.name(t["a"][0]))
            return n
        if k == "ref":
            return self.name(t["e"])
        if k == "tuple":
            return "(%s)" % ",".join(self.name(x) for x in t["es"])
        if k == "array":
            return "[%s; %s]" % (self.name(t["e"]), t["n"])
        if k == "param":
            return "#"
        if k == "slice":
            return "[%s]" % self.name(t["e"])
        return t.get("s", k)

    def aggname(self, i):
        t = self.t[i]
        if t["k"] == "adt":
            return self.adt(t)
        if t["k"] == "tuple":
            return "tuple"
        if t["k"] == "array":
            return "array"
        if t["k"] == "closure":
            return "closure"
        return t["k"]

    def fields(self, i, variant):
        t = self.t[i]
        if t["k"] == "adt":
            return [(f[0], f[1], f[2]) for f in t["vs"][variant or 0]["f"]]
        if t["k"] == "tuple":
            return [(str(j), e, True) for j, e in enumerate(t["es"])]
        if t["k"] == "closure":
            return None
        return None

    def strip(self, i):
        """Behind references."""
        while self.t[i]["k"] in ("ref", "ptr"):
            i = self.t[i]["e"]
        return i


class Func:
    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.blocks = d["blocks"]
        self.span = d["span"]
        self.argc = d["argc"]
        self.spread = d["spread"]
        self.locals = d["locals"]
        self._cfg()

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return list(dict.fromkeys(r))
        if k == "drop":
            return [t[2]] if t[2] is not None else []
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]] if t[4] is not None else []
        return []

    def _cfg(self):
        n = len(self.blocks)
        self.s = [self.succ(b) for b in range(n)]
        reach = set()
        st = [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.s[b])
        self.reach = reach
        self.p = [[] for _ in range(n)]
        for b in reach:
            for x in self.s[b]:
                self.p[x].append(b)
        # blocks from which the function can return
        live = set()
        st = [b for b in reach if self.blocks[b]["t"][0] == "return"]
        self.returns = list(st)
        while st:
            b = st.pop()
            if b in live:
                continue
            live.add(b)
            st.extend(self.p[b])
        self.live = live
        # reverse postorder
        seen = set()
        order = []

        def dfs(b):
            stack = [(b, iter(self.s[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(self.s[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        self.rpo = order[::-1]
        idx = self.order = {b: i for i, b in enumerate(self.rpo)}
        # dominators (sets; functions are small, large switches are shallow)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.p[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        # natural loops
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for x in self.s[b]:
                if idx[x] <= idx[b]:
                    if dominates(x, b):
                        body = self.loops.setdefault(x, {x})
                        st = [b]
                        while st:
                            y = st.pop()
                            if y not in body:
                                body.add(y)
                                st.extend(self.p[y])
                    else:
                        self.irreducible = True
        # postdominators over live blocks, virtual exit -1
        post = {-1: -1}
        ps = {b: [x for x in self.s[b] if x in live] + ([-1] if b in self.returns else []) for b in live}
        rs = {}
        for b, l in ps.items():
            for x in l:
                rs.setdefault(x, []).append(b)
        seen2 = set([-1])
        order2 = []
        stack = [(-1, iter(rs.get(-1, [])))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen2:
                    seen2.add(y)
                    stack.append((y, iter(rs.get(y, []))))
                    break
            else:
                order2.append(x)
                stack.pop()
        rpo2 = order2[::-1]
        idx2 = {b: i for i, b in enumerate(rpo2)}
        ch = True
        while ch:
            ch = False
            for b in rpo2[1:]:
                new = None
                for q in ps[b]:
                    if q in post:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while idx2[x] > idx2[y]:
                                    x = post[x]
                                while idx2[y] > idx2[x]:
                                    y = post[y]
                            new = x
                if post.get(b) != new:
                    post[b] = new
                    ch = True
        self.ipdom = post


class Dump:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.types = Types(d["types"])
        self._f = {}
        self.raw = d["functions"]
        self.items = d["items"]
        self.impls = {}
        for k, f in self.raw.items():
            im = f.get("impl")
            if im and im.get("trait") and f.get("root"):
                self.impls.setdefault((self.selfname(im["self"]), im["trait"], f.get("name")), []).append(k)

    def selfname(self, i):
        t = self.types[i]
        return self.types.adt(t) if t["k"] == "adt" else self.types.name(i)

    def func(self, key):
        f = self._f.get(key)
        if f is None:
            d = self.raw.get(key)
            if d is None:
                return None
            f = self._f[key] = Func(key, d)
        return f
