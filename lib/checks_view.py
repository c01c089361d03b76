"""V01: the viewer (Viewer.tla, MC_View.tla, TraceView.tla)."""
from concurrent.futures import ThreadPoolExecutor
from checks_core import *
from checks_prim import tlv, time_texts, real_contents, doubles, int_content, oid_content, ZONES

def build_viewer(ctx):
    fl = ["-O1", "-g1", "-I" + os.path.join(REPO, "include")] + SAN
    jobs = [(s, ctx.path("vw-%d.o" % k), fl) for k, s in enumerate([os.path.join(REPO, "src/view/view.cpp")] + repo_files())]
    compile_objs(jobs)
    exe = ctx.path("viewer")
    rc, o, e = run([CXX] + SAN + [j[1] for j in jobs] + absl_libs() + ["-o", exe])
    if rc != 0: raise BuildError("link viewer", e)
    return exe

def primitives(r, quick):
    """Elements of every universal type with contents right, wrong and at the edges."""
    out = [tlv(c, 0, t, b) for t in list(range(1, 38)) for b in (b"", b"\0", b"\1", b"\x7f", b"\xff", b"A", b"A~ \"\\", b"a\n", b"\x80\x01", b"2A\x03", b"0123456789") for c in (0,)]
    for v in {s * (1 << k) + d for k in range(64) for s in (1, -1) for d in (-1, 0, 1)}:
        if -1 << 63 <= v < 1 << 63:
            c = int_content(v)
            out.append(tlv(0, 0, r.choice([2, 2, 10]), c))
            if r.random() < .2: out.append(tlv(0, 0, r.choice([2, 10]), (b"\xff" if v < 0 else b"\0") * r.randrange(1, 9) + c))
    for _ in range(60 if quick else 3000):
        a = [r.randrange(3), r.randrange(40)] + [r.choice([r.randrange(200), 127, 128, 16383, 16384, 2 ** 31, 2 ** 62, 2 ** 63 - 1, r.getrandbits(r.randrange(1, 63))]) for _ in range(r.randrange(6))]
        c = oid_content(a); out.append(tlv(0, 0, 6, c))
        out.append(tlv(0, 0, 6, corrupt(r, c)))
    cs = real_contents(r, quick)
    out += [tlv(0, 0, 9, c[:90]) for c in (r.sample(cs, min(len(cs), 500)) if quick else cs)]
    ds = doubles(r, quick)
    for d in r.sample(ds, min(len(ds), 300 if quick else 6000)):
        b = int(d, 16); e, m = (b >> 52) & 2047, b & ((1 << 52) - 1)
        if e == 2047: continue
        m, e = (m, -1074) if e == 0 else (m | 1 << 52, e - 1075)
        if m == 0: continue
        while m % 2 == 0: m //= 2; e += 1
        x = e.to_bytes(1 if -128 <= e < 128 else 2, "big", signed=True)
        out.append(tlv(0, 0, 9, bytes([0x80 | (b >> 63) << 6 | len(x) - 1]) + x + m.to_bytes((m.bit_length() + 7) // 8, "big")))
    for _ in range(150 if quick else 4000):
        out.append(tlv(0, 0, r.choice([4, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30]), bytes(r.randrange(*r.choice([(32, 127), (31, 128), (0, 256)])) for _ in range(r.choice([0, 1, 2, 5, 14, 20, 126, 127, 128, 200])))))
    return out

def times(r, n): return [tlv(0, 0, r.choice([23, 24, 24]), t) for t in time_texts(r, n)]

def trees(r, leaves, n):
    """Elements nested in one another; some damaged."""
    def build(d):
        if d == 0 or r.random() < .4: return r.choice(leaves) if r.random() < .8 else random_tlv(r, 0)
        c = b"".join(build(d - 1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])))
        if r.random() < .1: c = corrupt(r, c)
        return tlv(r.choice([0, 0, 1, 2, 3]), 1, r.choice([16, 16, 17, 2, 4, 12, 23, 24, 9, 0, r.randrange(31), r.choice(TAGS)]), c, r.choice([None, None, None, 4, 8]))
    out = []
    for _ in range(n):
        b = build(r.choice([1, 2, 3, 4]))
        if r.random() < .2: b = corrupt(r, b)
        if len(b) < 900: out.append(b)
    return out

def v01(ctx):
    r = ctx.rng
    with ThreadPoolExecutor(2) as ex:
        h, v = ex.submit(ctx.build, [HARNESS + "/h_view.cpp"], "view"), ex.submit(build_viewer, ctx)
        exe, viewer = h.result(), v.result()
    ctx.log("built")
    model = [bytes(tla_seq(b)) for b in dump_states(ctx, "MC_View", "MC_View.cfg" if ctx.quick else "MC_View_t.cfg", "b")]
    if len(model) > (2500 if ctx.quick else 9000): model = r.sample(model, 2500 if ctx.quick else 9000)
    short = [bytes(tla_seq(b)) for b in dump_states(ctx, "MC_Parse", "MC_Parse_parse4.cfg", "b")]
    short = r.sample(short, min(len(short), 600 if ctx.quick else 4000))
    leaves = primitives(r, ctx.quick)
    mixed = trees(r, leaves + times(r, 150), 700 if ctx.quick else 7000)
    other = [f(r) for _ in range(250 if ctx.quick else 3000) for f in (random_tlv, hostile, lambda r: corrupt(r, random_tlv(r)))]
    other = [b for b in other if len(b) < 900] + overflow_lengths()
    plan = {ZONES[0]: model + short + leaves + other + mixed + times(r, 250 if ctx.quick else 3000)}
    for z in ZONES[1:]: plan[z] = times(r, 120 if ctx.quick else 1000) + r.sample(mixed, 40)
    cmds = list(dict.fromkeys("view %s %s %d" % (hx(b), z[0], z[1]) for z, bs in plan.items() for b in bs))
    cmds += ["deep %d %d" % (k, t) for k in (1, 2, 3, 10, 100, 1000, 3000) for t in (0x30, 0xbe)] + (["deep 20000 48"] if not ctx.quick else [])
    r.shuffle(cmds)
    ctx.log("%d inputs" % len(cmds))
    ctx.conform(exe, "TraceView", cmds, per_cmd=60.0)
    program(ctx, viewer, [b for b in model + mixed + other + leaves], 300 if ctx.quick else 3000)

def program(ctx, viewer, pool, n):
    """The program itself, on files."""
    r = ctx.rng
    files = list(dict.fromkeys([b""] + r.sample(pool, min(n, len(pool)))))
    d = ctx.path("files"); os.makedirs(d)
    def one(k):
        f = os.path.join(d, "%d.ber" % k); open(f, "wb").write(files[k])
        z = ZONES[k % len(ZONES)]
        rc, o, e = run([viewer, f], 30, env=dict(os.environ, TZ=z[0], ASAN_OPTIONS="exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=99"))
        return k, z, rc, o, e
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(files))))
    evs = []
    for k, z, rc, o, e in res:
        if rc not in (0, 255): ctx.reject("file " + hx(files[k]), "crash: " + ("did not terminate" if rc == -999 else ctx._why(rc, e)), {"file": hx(files[k])})
        else: evs.append({"n": k, "op": "view", "b": list(files[k]), "tz": z[1], "rc": rc, "again": True, "out": "".join(c if 32 <= ord(c) < 127 else "\\u%04x" % ord(c) for c in o)})
    # a deep nest
    k = 3000; b = b""
    for _ in range(k): b = b"\x30" + enc_len(len(b)) + b
    f = os.path.join(d, "deep"); open(f, "wb").write(b)
    rc, o, e = run([viewer, f], 60)
    ev = {"n": len(files), "op": "deep", "k": k, "rc": rc, "elements": o.count('"length"'), "opened": o.count("["), "closed": o.count("]")}
    files.append(b"deep"); evs.append(ev)
    at = {e["n"]: e for e in evs}
    for n, why in ctx.judge("TraceView", evs).items():
        ctx.reject("file %s at %d" % (hx(files[n]), at[n].get("tz", 0)), "expected " + why, {"file": hx(files[n]), "zone": at[n].get("tz", 0), "event": at[n]})
    ctx.add("files given to the program", len(files))
    # arguments: none, two, a file which is not there
    for args in ([], ["a", "b"], [os.path.join(d, "nothing")]):
        rc, o, e = run([viewer] + args, 30)
        if rc != 255: ctx.reject("arguments %d" % len(args), "status %d" % rc, {"arguments": args})
CHECKS = {"V01": v01}
