"""Loading of the JSON form of the LLVM IR that clang-20 produced from /repo's real sources."""
import json, os, re
PRIVATE = re.compile(r'"(\.str(?:\.[\w.]+)?|switch\.table[^"]*|__const\.[^"]*)"')

class Fn:
    __slots__ = ("name", "dem", "args", "ret", "blocks", "decl", "file", "line", "_loops", "_preds", "_idom")
    def __init__(self, o):
        self.name = o["name"]; self.dem = o["dem"]; self.ret = o["ret"]
        self.decl = o.get("decl", False)
        self.args = o.get("args", []); self.blocks = o.get("blocks", [])
        self.file = o.get("file", "?"); self.line = o.get("line", 0)
        self._loops = None

    def succs(self, b):
        t = self.blocks[b][-1]; op = t["op"]
        if op == "br": return [t["t"]] + ([t["f"]] if "cond" in t else [])
        if op == "switch": return [t["def"]] + [c[1] for c in t["cases"]]
        if op == "invoke": return [t["normal"]]     # unwind edges: exceptional paths are not followed as loops
        return []

    def loops(self):
        """natural loops: header -> set(blocks)"""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        for b in range(n):
            t = self.blocks[b][-1]
            if t["op"] == "invoke": succ[b] = [t["normal"], t["unwind"]]
        pred = [[] for _ in range(n)]
        # reachable, postorder
        seen = {0}; post = []
        stack = [(0, iter(succ[0]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                post.append(b); stack.pop()
        for b in seen:
            for s in succ[b]: pred[s].append(b)
        rpo = post[::-1]; order = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == 0: continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while order[x] > order[y]: x = idom[x]
                                while order[y] > order[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        L = {}
        for b in seen:
            for s in succ[b]:
                if dom(s, b):
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(pred[x])
        self._loops = L
        return L

class Module:
    def __init__(self):
        self.fns = {}      # mangled -> Fn
        self.globals = {}
        self.types = {}    # name -> {"size","m"}
        self.enums = {}
        self.bydem = {}
    def load(self, path):
        with open(path) as f:
            tu = os.path.basename(path)[:-5]
            for l in f:
                l = PRIVATE.sub(r'"%s:\1"' % tu, l)     # private symbols are per translation unit
                o = json.loads(l.replace('"x86_fp80"', '"f80"')); t = o["t"]
                if t == "F":
                    old = self.fns.get(o["name"])
                    if old is None or (old.decl and not o.get("decl")):
                        fn = Fn(o); self.fns[fn.name] = fn
                        self.bydem.setdefault(fn.dem, fn.name)
                elif t == "G":
                    if o["name"] not in self.globals or "hex" in o: self.globals[o["name"]] = o
                elif t == "T":
                    old = self.types.get(o["name"])
                    if old is None or len(o["m"]) > len(old["m"]): self.types[o["name"]] = o
                elif t == "E":
                    self.enums[o["name"]] = o
        return self
    def field(self, ty, *path):
        """byte offset of a (possibly nested) member, looking through base classes"""
        off = 0
        for p in path:
            t = self.types.get(ty) or self.types["oclgrind::" + ty]; hit = None
            for m in t["m"]:
                if m[0] == p: hit = m; break
            if hit is None:
                for m in t["m"]:
                    if m[0] == "<base>":
                        try:
                            o2 = self.field(m[2], p); hit = [p, m[1] + o2, "?"]; break
                        except KeyError: pass
            if hit is None: raise KeyError("%s.%s" % (ty, p))
            off += hit[1]; ty = hit[2]
        return off
    def sizeof(self, ty): return (self.types.get(ty) or self.types["oclgrind::" + ty])["size"]
    def enum(self, ename, key):
        for m in (self.enums.get(ename) or self.enums["oclgrind::" + ename])["m"]:
            if m[0] == key: return m[1]
        raise KeyError(key)
    def find(self, pattern):
        r = re.compile(pattern)
        return [f for f in self.fns.values() if r.search(f.dem)]
    def fn(self, dem):
        """function by exact demangled prefix up to '(' or full demangled name; must be unique and defined"""
        if dem in self.bydem and not self.fns[self.bydem[dem]].decl: return self.fns[self.bydem[dem]]
        c = [f for f in self.fns.values() if not f.decl and (f.dem == dem or f.dem.split("(")[0] == dem)]
        if len(c) == 1: return c[0]
        raise KeyError("function %s: %d candidates" % (dem, len(c)))
