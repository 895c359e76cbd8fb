"""Native oracle for control flow: random control-flow graphs (phis with swaps, switches, calls, byval arguments) run on the
real simulator and compared with a reference interpreter of the same program."""
import random, struct
import nat
from natinst import HDR, number_md
from natmem import mdk
TY = [8, 16, 32, 64]
class Fn:
    def __init__(self, rnd, name, callees, nblk):
        self.name = name; self.rnd = rnd; self.nv = rnd.randint(2, 4); self.w = [rnd.choice(TY) for _ in range(self.nv)]; self.callees = callees
        same = rnd.choice(TY)
        if rnd.random() < .6: self.w = [same] * self.nv
        self.blocks = []          # block: ops [(kind, ...)], outs: var -> value name index, term
        n = nblk
        for b in range(n):
            ops = []; vals = [("v", i, self.w[i]) for i in range(self.nv)]
            for _ in range(rnd.randint(0, 3)):
                a = rnd.randrange(len(vals)); w = vals[a][2]; c = rnd.choice([v for v in range(len(vals)) if vals[v][2] == w]); k = rnd.choice(["add", "sub", "mul", "xor", "and", "or"])
                ops.append((k, a, c, w)); vals.append(("t", len(ops) - 1, w))
            if callees and rnd.random() < .5:
                f = rnd.choice(callees); args = []
                for w in f.w:
                    m = [i for i, v in enumerate(vals) if v[2] == w]; args.append(rnd.choice(m) if m else ("k", rnd.getrandbits(w)))
                ops.append(("call", f, args, f.w[0])); vals.append(("t", len(ops) - 1, f.w[0]))
            perm = list(range(self.nv)); rnd.shuffle(perm)
            outs = []
            for i in range(self.nv):
                m = [j for j, v in enumerate(vals) if v[2] == self.w[i]]
                outs.append(rnd.choice(m) if rnd.random() < .5 else (perm[i] if self.w[perm[i]] == self.w[i] else i))
            t = rnd.random(); x = rnd.randrange(len(vals)); T = lambda: rnd.randrange(1, n + 1)     # n = exit
            if t < .2: term = ("br", T())
            elif t < .6: term = ("cond", x, rnd.choice(["eq", "ne", "ult", "slt", "sgt", "uge"]), rnd.randrange(len(vals)), T(), T())
            else:
                w = vals[x][2]; mask = rnd.choice([None, 1, 3, 7] + ([0x100000003, 0x8000000000000003] if w == 64 else [0x103] if w > 8 else [])); cs = set()
                for _ in range(rnd.randint(0, 5)): cs.add(rnd.choice([rnd.getrandbits(w), 0, 1, 2, 3, 0x100000000 + rnd.randrange(4), 0x8000000000000000 + rnd.randrange(4), 0x100 + rnd.randrange(4), (1 << w) - 1, (1 << (w - 1)), rnd.randrange(8)]) & ((1 << w) - 1))
                cs = sorted(cs); rnd.shuffle(cs)
                term = ("switch", x, mask, [(c, T()) for c in cs], T())
            self.blocks.append((ops, vals, outs, term))
        self.n = n; self.fuel = rnd.randint(3, 25)
        reach = {0}; st = [0]
        while st:
            for s in self.succs(st.pop()):
                if s < n and s not in reach: reach.add(s); st.append(s)
        self.reach = sorted(reach)
    def succs(self, b):
        t = self.blocks[b][3]
        if t[0] == "br": return [t[1]]
        if t[0] == "cond": return [t[4], t[5]]
        return [c for _, c in t[3]] + [t[4]]
    # reference semantics
    def run(self, args, st):
        v = [a & ((1 << w) - 1) for a, w in zip(args, self.w)]; b = 0; fuel = self.fuel; h = 7
        while True:
            ops, vals, outs, term = self.blocks[b]; tv = []
            h = (h * 31 + b) & 0xffffffff
            get = lambda i: (v[vals[i][1]] if vals[i][0] == "v" else tv[vals[i][1]]) if not isinstance(i, tuple) else i[1]
            for o in ops:
                if o[0] == "call": tv.append(o[1].run([get(a) for a in o[2]], st) & ((1 << o[3]) - 1)); continue
                k, a, c, w = o; A, B = get(a), get(c)
                tv.append({"add": A + B, "sub": A - B, "mul": A * B, "xor": A ^ B, "and": A & B, "or": A | B}[k] & ((1 << w) - 1))
            new = [get(o) for o in outs]
            if term[0] == "br": s = term[1]
            elif term[0] == "cond":
                w = vals[term[1]][2]; w2 = vals[term[3]][2]; A = get(term[1]); B = get(term[3])
                W = 64; sx = lambda q, w: (q - (1 << w) if q >> (w - 1) else q)
                SA, SB = sx(A, w), sx(B, w2)
                s = term[4] if {"eq": A == B, "ne": A != B, "ult": A < B, "uge": A >= B, "slt": SA < SB, "sgt": SA > SB}[term[2]] else term[5]
            else:
                q = get(term[1]); q = q & term[2] if term[2] is not None else q
                s = dict(term[3]).get(q, term[4])
            fuel -= 1
            if fuel == 0: s = self.n
            v = new
            if s == self.n:
                r = h
                for i in range(self.nv): r = (r * 33 + v[i]) & 0xffffffffffffffff
                return r
            b = s
    def ir(self):
        n = self.n; L = []; P = {}
        for b in self.reach:
            for s in self.succs(b): P.setdefault(s, []).append(b)
        nm = lambda b, i: ("%%b%d_v%d" % (b, self.blocks[b][1][i][1]) if self.blocks[b][1][i][0] == "v" else "%%b%d_t%d" % (b, self.blocks[b][1][i][1])) if not isinstance(i, tuple) else str(i[1])
        L.append("define internal i64 @%s(%s) {\nentry:\n br label %%b0\n" % (self.name, ", ".join("i%d %%p%d" % (w, i) for i, w in enumerate(self.w))))
        for b in self.reach:
            ops, vals, outs, term = self.blocks[b]
            L.append("b%d:\n" % b)
            pred = [(q, "c%d" % q) for q in sorted(set(P.get(b, [])))]
            mult = {q: 1 for q, _ in pred}
            # fuel test sits between the block and its terminator: predecessors are the 'c' blocks, one phi entry per edge
            edges = [q for q in P.get(b, [])]
            for i, w in enumerate(self.w):
                inc = ["[%s, %%c%d]" % (nm(q, self.blocks[q][2][i]), q) for q in edges]
                if b == 0: inc.append("[%%p%d, %%entry]" % i)
                L.append(" %%b%d_v%d = phi i%d %s\n" % (b, i, w, ", ".join(inc)))
            L.append(" %%b%d_h0 = phi i32 %s\n" % (b, ", ".join(["[%%b%d_h, %%c%d]" % (q, q) for q in edges] + (["[7, %entry]"] if b == 0 else []))))
            L.append(" %%b%d_f0 = phi i32 %s\n" % (b, ", ".join(["[%%b%d_f, %%c%d]" % (q, q) for q in edges] + (["[%d, %%entry]" % self.fuel] if b == 0 else []))))
            L.append(" %%b%d_h1 = mul i32 %%b%d_h0, 31\n %%b%d_h = add i32 %%b%d_h1, %d\n %%b%d_f = sub i32 %%b%d_f0, 1\n" % (b, b, b, b, b, b, b))
            for j, o in enumerate(ops):
                if o[0] == "call":
                    L.append(" %%b%d_c%d = call i64 @%s(%s)\n" % (b, j, o[1].name, ", ".join("i%d %s" % (w, nm(b, a)) for w, a in zip(o[1].w, o[2]))))
                    L.append((" %%b%d_t%d = trunc i64 %%b%d_c%d to i%d\n" % (b, j, b, j, o[3])) if o[3] < 64 else " %%b%d_t%d = add i64 %%b%d_c%d, 0\n" % (b, j, b, j))
                else: L.append(" %%b%d_t%d = %s i%d %s, %s\n" % (b, j, o[0], o[3], nm(b, o[1]), nm(b, o[2])))
            L.append(" %%b%d_z = icmp eq i32 %%b%d_f, 0\n br i1 %%b%d_z, label %%x%d, label %%c%d\nx%d:\n br label %%exit\nc%d:\n" % (b, b, b, b, b, b, b))
            lab = lambda s: "label %%b%d" % s if s < n else "label %exit"
            if term[0] == "br": L.append(" br %s\n" % lab(term[1]))
            elif term[0] == "cond":
                w, w2 = vals[term[1]][2], vals[term[3]][2]; sg = term[2] in ("slt", "sgt"); W = []
                for k, (i, wi) in enumerate(((term[1], w), (term[3], w2))):
                    if wi < 64: L.append(" %%b%d_e%d = %s i%d %s to i64\n" % (b, k, "sext" if sg else "zext", wi, nm(b, i))); W.append("%%b%d_e%d" % (b, k))
                    else: W.append(nm(b, i))
                L.append(" %%b%d_q = icmp %s i64 %s, %s\n br i1 %%b%d_q, %s, %s\n" % (b, term[2], W[0], W[1], b, lab(term[4]), lab(term[5])))
            else:
                w = vals[term[1]][2]; x = nm(b, term[1])
                if term[2] is not None: L.append(" %%b%d_m = and i%d %s, %d\n" % (b, w, x, term[2])); x = "%%b%d_m" % b
                L.append(" switch i%d %s, %s [ %s ]\n" % (w, x, lab(term[4]), " ".join("i%d %d, %s" % (w, c, lab(s)) for c, s in term[3])))
        L.append("exit:\n")
        ed = [("x%d" % b, b) for b in self.reach] + [("c%d" % b, b) for b in self.reach for s in self.succs(b) if s == n]
        for i, w in enumerate(self.w): L.append(" %%r%d = phi i%d %s\n" % (i, w, ", ".join("[%s, %%%s]" % (nm(b, self.blocks[b][2][i]), l) for l, b in ed)))
        L.append(" %%rh = phi i32 %s\n %%a0 = zext i32 %%rh to i64\n" % ", ".join("[%%b%d_h, %%%s]" % (b, l) for l, b in ed))
        for i, w in enumerate(self.w):
            L.append((" %%w%d = zext i%d %%r%d to i64\n" % (i, w, i)) if w < 64 else " %%w%d = add i64 %%r%d, 0\n" % (i, i))
            L.append(" %%m%d = mul i64 %%a%d, 33\n %%a%d = add i64 %%m%d, %%w%d\n" % (i, i, i + 1, i, i))
        L.append(" ret i64 %%a%d\n}\n" % self.nv)
        return "".join(L)
FIXED = """
define internal void @bump(ptr byval({i32,i64,i8}) align 8 %p, ptr addrspace(1) %o) {
 %q = getelementptr {i32,i64,i8}, ptr %p, i32 0, i32 1
 %v = load i64, ptr %q, align 8
 %w = add i64 %v, 5
 store i64 %w, ptr %q, align 8
 %x = load i64, ptr %q, align 8
 store i64 %x, ptr addrspace(1) %o, align 8
 %l = getelementptr {i32,i64,i8}, ptr %p, i32 0, i32 2
 %m = load i8, ptr %l, align 1
 %o2 = getelementptr i64, ptr addrspace(1) %o, i64 2
 store i8 %m, ptr addrspace(1) %o2, align 1
 ret void
}
define spir_kernel void @byval(ptr addrspace(1) %o) !kernel_arg_addr_space !{i32 1} !kernel_arg_type !{!"char*"} {
 %a = alloca {i32,i64,i8}, align 8
 %q = getelementptr {i32,i64,i8}, ptr %a, i32 0, i32 1
 store i64 37, ptr %q, align 8
 %l = getelementptr {i32,i64,i8}, ptr %a, i32 0, i32 2
 store i8 99, ptr %l, align 1
 call void @bump(ptr byval({i32,i64,i8}) align 8 %a, ptr addrspace(1) %o)
 %v = load i64, ptr %q, align 8
 %o1 = getelementptr i64, ptr addrspace(1) %o, i64 1
 store i64 %v, ptr addrspace(1) %o1, align 8
 ret void
}
define internal ptr @leak(i32 %k) {
 %a = alloca i32, align 4
 store i32 %k, ptr %a, align 4
 ret ptr %a
}
define internal ptr @leak2(i32 %k) {
 %x = alloca i64, align 8
 store i64 1, ptr %x, align 8
 %a = call ptr @leak(i32 %k)
 %y = load i64, ptr %x, align 8
 ret ptr %x
}
define spir_kernel void @frames(ptr addrspace(1) %o) !kernel_arg_addr_space !{i32 1} !kernel_arg_type !{!"char*"} {
 %mine = alloca i32, align 4
 store i32 11, ptr %mine, align 4
 %a = call ptr @leak(i32 5)
 %b = call ptr @leak2(i32 6)
 %v = load i32, ptr %mine, align 4
 store i32 %v, ptr addrspace(1) %o, align 4
 ret void
}
define spir_kernel void @dangle(ptr addrspace(1) %o) !kernel_arg_addr_space !{i32 1} !kernel_arg_type !{!"char*"} {
 %a = call ptr @leak(i32 5)
 %v = load i32, ptr %a, align 4
 store i32 %v, ptr addrspace(1) %o, align 4
 ret void
}
define spir_kernel void @dangle2(ptr addrspace(1) %o) !kernel_arg_addr_space !{i32 1} !kernel_arg_type !{!"char*"} {
 %a = call ptr @leak2(i32 5)
 %v = load i32, ptr %a, align 4
 store i32 %v, ptr addrspace(1) %o, align 4
 ret void
}
"""
def native_I07(info):
    rnd = random.Random(info["seed"]); N = 60 if info["tier"] == "quick" else 800
    fails = []; nc = 0; k = nat.Krun(); what = ""
    try:
        for base in range(0, N, 40):
            mod = []; jobs = []
            for q in range(min(40, N - base)):
                leaf = Fn(rnd, "l%d" % q, [], rnd.randint(1, 4)); mid = Fn(rnd, "m%d" % q, [leaf], rnd.randint(1, 5)); top = Fn(rnd, "t%d" % q, [leaf, mid], rnd.randint(1, 8))
                mod += [leaf.ir(), mid.ir(), top.ir()]
                ld = "".join(" %%q%d = getelementptr i64, ptr addrspace(1) %%a, i64 %d\n %%s%d = load i64, ptr addrspace(1) %%q%d, align 8\n" % (i, i, i, i) + (" %%u%d = trunc i64 %%s%d to i%d\n" % (i, i, w) if w < 64 else " %%u%d = add i64 %%s%d, 0\n" % (i, i)) for i, w in enumerate(top.w))
                mod.append("define spir_kernel void @k%d(ptr addrspace(1) %%a, ptr addrspace(1) %%o) %s {\n%s %%r = call i64 @t%d(%s)\n store i64 %%r, ptr addrspace(1) %%o, align 8\n ret void\n}\n" % (q, mdk(2), ld, q, ", ".join("i%d %%u%d" % (w, i) for i, w in enumerate(top.w))))
                jobs.append(top)
            k.module(HDR + number_md("".join(mod) + FIXED))
            for q, top in enumerate(jobs):
                for _ in range(5):
                    a = [rnd.choice([0, 1, 2, 3, rnd.getrandbits(64), (1 << w) - 1, 1 << (w - 1)]) for w in top.w]; nc += 1; what = "program %d" % (base + q)
                    outs, logs = k.run("k%d" % q, [("B", b"".join(struct.pack("<Q", x) for x in a)), ("B", 8)])
                    exp = top.run(a, None); got = int.from_bytes(outs[1], "little")
                    if got != exp or logs:
                        fails.append(dict(prop="I07", key="control flow", args=[hex(x) for x in a], got=hex(got), expected=hex(exp), logs=logs[:2], program=top.ir()[:6000])); break
            nc += 4; what = "byval / frames"
            outs, logs = k.run("byval", [("B", 24)]); g = struct.unpack("<QQQ", outs[0])
            if g != (42, 37, 99) or logs: fails.append(dict(prop="I07", key="byval argument", got=g, expected=(42, 37, 99), logs=logs[:2]))
            outs, logs = k.run("frames", [("B", 4)])
            if outs[0] != struct.pack("<I", 11) or logs: fails.append(dict(prop="I07", key="frames", got=outs[0].hex(), expected="caller's alloca survives callees", logs=logs[:2]))
            for d in ("dangle", "dangle2"):
                outs, logs = k.run(d, [("B", 4)])
                if not any("nvalid read" in l for l in logs): fails.append(dict(prop="I07", key=d, got=logs[:2], expected="reading a returned frame's alloca is reported"))
    except nat.KrunCrash as e: fails.append(dict(prop="I07", key="crash", what=what + ": " + str(e)))
    finally: k.close()
    return dict(cases=nc, failures=fails)
