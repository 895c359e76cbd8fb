"""Native oracle: every work-item writes all query values for dimension arguments 0..5; compared with the OpenCL definitions."""
import struct, random, itertools
import nat
SRC = """kernel void q(global ulong* o, ulong slots) {
  size_t n = get_global_linear_id();
  global ulong* p = o + n * 64;
  p[0] += 1;
  uint dims[6] = {0, 1, 2, 3, 4, 0xffffffffu};
  for (int i = 0; i < 6; i++) { uint d = dims[i];
    p[1 + i] = get_global_id(d); p[7 + i] = get_local_id(d); p[13 + i] = get_group_id(d); p[19 + i] = get_global_size(d); p[25 + i] = get_local_size(d);
    p[31 + i] = get_enqueued_local_size(d); p[37 + i] = get_num_groups(d); p[43 + i] = get_global_offset(d); }
  p[49] = get_work_dim(); p[50] = get_global_linear_id(); p[51] = get_local_linear_id();
}
"""
def ndranges(rnd, n):
    out = [((1, 1, 1), (1, 1, 1), (0, 0, 0), 1), ((6, 4, 2), (3, 2, 1), (5, 7, 9), 3), ((8, 3, 1), (4, 1, 1), (0, 1, 0), 2), ((4, 4, 4), (2, 2, 2), (1 << 33, 0, 3), 3), ((5, 1, 1), (5, 1, 1), (2, 0, 0), 1)]
    for _ in range(n):
        d = rnd.randint(1, 3); l = [rnd.randint(1, 3) if i < d else 1 for i in range(3)]; g = [l[i] * rnd.randint(1, 3) if i < d else 1 for i in range(3)]
        out.append((tuple(g), tuple(l), tuple(rnd.randint(0, 9) if i < d else 0 for i in range(3)), d))
    return out
def expected(g, l, off, d, uniform=True):
    ng = [(g[i] + l[i] - 1) // l[i] for i in range(3)]; exp = {}
    for z, y, x in itertools.product(range(g[2]), range(g[1]), range(g[0])):
        i = (x, y, z); grp = [i[k] // l[k] for k in range(3)]; gsz = [min(l[k], g[k] - grp[k] * l[k]) for k in range(3)]; lid = [i[k] % l[k] for k in range(3)]
        lin = (z * g[1] + y) * g[0] + x
        def ext(v, dflt): return list(v) + [dflt] * 3
        r = [1] + ext([i[k] + off[k] for k in range(3)], 0) + ext(lid, 0) + ext(grp, 0) + ext(g, 1) + ext(gsz, 1) + ext(l, 1) + ext(ng, 1) + ext(off, 0) + [d, lin, (lid[2] * gsz[1] + lid[1]) * gsz[0] + lid[0]]
        exp[lin] = r
    return exp
NAMES = ["executions"] + ["%s(%s)" % (f, d) for f in ("get_global_id", "get_local_id", "get_group_id", "get_global_size", "get_local_size", "get_enqueued_local_size", "get_num_groups", "get_global_offset") for d in ("0", "1", "2", "3", "4", "0xffffffff")] + ["get_work_dim", "get_global_linear_id", "get_local_linear_id"]
def run_nd(prop, info, n, nonuni=True):
    rnd = random.Random(info["seed"]); fails = []; cases = 0
    for opts, uni in (("-cl-std=CL2.0", True),) + ((("-cl-std=CL2.0", False),) if nonuni else ()):
        k = nat.Krun()
        try:
            k.module(SRC, cl=True, opts=opts)
            rs = ndranges(rnd, n) if uni else [((5, 3, 1), (2, 2, 1), (1, 2, 0), 2), ((7, 1, 1), (4, 1, 1), (0, 0, 0), 1), ((3, 4, 5), (2, 3, 2), (0, 0, 1), 3)]
            for g, l, off, d in rs:
                tot = g[0] * g[1] * g[2]
                try: outs, logs = k.run("q", [("B", tot * 64 * 8), ("V", struct.pack("<Q", tot))], g=g, l=l, off=off, dim=d)
                except nat.KrunCrash: fails.append(dict(prop=prop, key="ndrange", kind="simulator crashed", global_size=g, local_size=l, offset=off)); k = nat.Krun(); k.module(SRC, cl=True, opts=opts); continue
                cases += tot; data = outs.get(0, b"")
                for lin, r in expected(g, l, off, d).items():
                    got = struct.unpack("<52Q", data[lin * 512:lin * 512 + 416]) if len(data) >= lin * 512 + 416 else None
                    if got is None or list(got) != r:
                        j = next((j for j in range(52) if got and got[j] != r[j]), 0)
                        fails.append(dict(prop=prop, key=NAMES[j], kind="wrong value", global_size=g, local_size=l, offset=off, work_dim=d, work_item=lin, got=got and got[j], expected=r[j])); break
                if logs: fails.append(dict(prop=prop, key="ndrange", kind="diagnostic", logs=logs[:2], global_size=g, local_size=l, offset=off))
        finally: k.close()
    return dict(cases=cases, failures=fails, harness="krun")
def native_B04(info): return run_nd("B04", info, 6 if info["tier"] == "quick" else 40)
