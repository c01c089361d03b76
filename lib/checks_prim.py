"""B04 to B07: the primitive types (Types.tla, Prim.tla, MC_Types.tla, MC_Prim.tla, TracePrim.tla)."""
import struct, time as _time
from core import *
from checks_core import tla_seq, hx, enc_tag, enc_len, corrupt

UTAG = {"bool": 1, "int": 2, "null": 5, "oid": 6, "real": 9, "enum8": 10, "enum32": 10, "enum64": 10, "utc": 23, "time": 24}
def ids_of(kind, i):
    """The identifiers of h_prim's IdAt, outer to inner."""
    u = (0, UTAG[kind])
    return [[u], [(2, 0)], [(1, 31)], [(3, 1099511627776)], [(2, 1), u], [(1, 200), (2, 31)]][i]

def tlv(cls, cons, tag, c, lo=None): return enc_tag(cls, cons, tag) + enc_len(len(c), lo) + c
def wrap(ids, c, cons=0):
    for k, (cls, tag) in enumerate(reversed(ids)): c = tlv(cls, cons if k == 0 else 1, tag, c)
    return c

def variants(r, ids, c, n=3):
    """Elements around the contents c that a decoder for ids should accept, and ones it should not."""
    out = [wrap(ids, c)]
    def long(lvl):
        x = c
        for k, (cls, tag) in enumerate(reversed(ids)):
            x = tlv(cls, 0 if k == 0 else 1, tag, x, r.randrange(max(1, (len(x).bit_length() + 7) // 8), 9) if lvl in (k, 9) else None)
        return x
    out.append(long(r.choice([0, 9])))
    out.append(wrap(ids, c) + bytes(r.randrange(256) for _ in range(r.randrange(1, 4))))
    w = wrap(ids, c)
    out.append(w[:r.randrange(len(w))])
    cls, tag = ids[0]
    out.append(wrap([((cls + r.randrange(1, 4)) % 4, tag)] + ids[1:], c))
    out.append(wrap([(cls, tag + r.choice([1, 2, 32, 128]))] + ids[1:], c))
    out.append(wrap(ids, c, 1))
    if len(ids) > 1:
        inner = wrap(ids[1:], c)
        out += [inner, tlv(cls, 0, tag, inner), tlv(cls, 1, tag, inner + wrap(ids[1:], c + b"\x01")), tlv(cls, 1, tag, b""), tlv(cls, 1, tag, wrap(ids[1:], c, 1)),
                tlv(cls, 1, tag, inner[:-1]) if inner else b"", wrap([ids[0], (ids[1][0], ids[1][1] + 1)], c), wrap([ids[0], ((ids[1][0] + 1) % 4, ids[1][1])], c)]
    out.append(corrupt(r, w))
    r.shuffle(out)
    return [wrap(ids, c)] + out[:n]

def arg(kind, v):
    """A value of the specification as an argument of the harness."""
    if kind == "bool": return "1" if v else "0"
    if kind == "null": return "0"
    if kind in ("int", "enum8", "enum32", "enum64"): return str(int.from_bytes(bytes(v), "big", signed=True))
    if kind == "real": return bytes(v).hex()
    if kind == "oid": return ".".join(str(int("".join("{:07b}".format(x) for x in a), 2)) for a in v) or "-"
    return " ".join(str(x) for x in v)

def histories(ctx, kinds, depth):
    """Sessions from the histories TLC enumerates."""
    sess = []
    for k in kinds:
        f = ctx.path("hist-" + k)
        r = ctx.tlc("MC_Prim", "MC_Prim.cfg", env={"FB_TY": k, "FB_DEPTH": str(depth)}, extra=["-dump", f])
        if not r["ok"]: raise Infra("MC_Prim %s:\n%s" % (k, r["out"][-2000:]))
        ctx.states += r["distinct"]; ctx.trans += r["gen"]; ctx.cover["model:MC_Prim:" + k] = r["distinct"]
        for h in re.findall(r"^/\\ hist = ((?:.*)(?:\n [^/]*)*)", open(f + ".dump").read(), re.M):
            ops = parse_tla(h)
            if len(ops) < depth: continue
            s = ["new %s:0 %s:0 %s:4" % (k, k, k)]
            for o in ops:
                i = o["s"] - 1
                if o["op"] == "set": s.append("set %d %s %s" % (i, o["how"], arg(k, o["v"])))
                elif o["op"] == "copy": s.append("copy %d %d %d" % (i, o["from"] - 1, o["how"]))
                else: s.append("dec %d %s %d" % (i, hx(o["b"]), (len(sess) + i) % 3))
            sess.append(s)
    return sess

def pool(kind, ids=range(6)): return "new " + " ".join("%s:%d" % (kind, i) for i in ids)

def value_sessions(r, kind, sets, how):
    """Every value set on an object, encoded into full and short buffers, and its encoding decoded by another object."""
    out = []
    for n, (v, content) in enumerate(sets):
        i = n % 6 if n >= 6 else r.randrange(6)
        s = ["new %s:%d %s:%d" % (kind, i, kind, i), "set 0 %s %s" % (r.choice(how), v)]
        if content is not None:
            w = wrap(ids_of(kind, i), content)
            s += ["enc 0 %d %d" % (b, r.randrange(2)) for b in sorted({len(w), r.randrange(len(w) + 1), len(w) - 1, len(w) + 3} if n % 3 == 0 else {len(w) - 1})]
            s.append("dec 1 %s %d" % (hx(w), r.randrange(3)))
        s.append("copy 1 0 %d" % r.randrange(2))
        out.append(s)
    return out

def content_sessions(r, kind, contents, many=3, per=6):
    """Contents octets framed in every way and decoded, several in a row by the same objects."""
    out, cur = [], []
    for c in contents:
        i = r.randrange(6)
        for w in variants(r, ids_of(kind, i), c, many): cur.append("dec %d %s %d" % (i, hx(w), r.randrange(3)))
        if len(cur) >= per: out.append([pool(kind)] + cur); cur = []
    if cur: out.append([pool(kind)] + cur)
    return out

def mixed_sessions(r, kind, sets, contents, how, n, length=10, same_id_copies=False):
    """Long histories: sets, copies and decodes in any order."""
    out = []
    for _ in range(n):
        ids = [r.randrange(6) for _ in range(3)]
        if same_id_copies: ids[1] = ids[0]
        s = [pool(kind, ids)]
        for _ in range(length):
            k, t = r.randrange(3), r.random()
            if t < .35: s.append("set %d %s %s" % (k, r.choice(how), r.choice(sets)[0]))
            elif t < .6:
                f = r.randrange(3)
                if same_id_copies and ids[k] != ids[f]: f = k
                s.append("copy %d %d %d" % (k, f, r.randrange(2)))
            elif t < .95: s.append("dec %d %s %d" % (k, hx(r.choice(variants(r, ids_of(kind, ids[k]), r.choice(contents), 4))), r.randrange(3)))
            else: s.append("enc %d %d %d" % (k, r.randrange(30), r.randrange(2)))
        out.append(s)
    return out

def int_content(v):
    n = 1
    while not -(1 << 8 * n - 1) <= v < 1 << 8 * n - 1: n += 1
    return v.to_bytes(n, "big", signed=True)

def b04(ctx):
    exe = ctx.build([HARNESS + "/h_prim.cpp"], "prim04", defs=["WITH_B04"])
    r = ctx.rng
    kinds = ["bool", "int", "enum8", "enum32", "enum64", "null"]
    sess = histories(ctx, kinds, 2)
    ctx.model_check("MC_Types", "MC_Types_int.cfg" if ctx.quick else "MC_Types_int_t.cfg")
    bound = sorted({s * (1 << k) + d for k in range(64) for s in (1, -1) for d in (-1, 0, 1) if -2 ** 63 <= s * (1 << k) + d < 2 ** 63} | {0, 2 ** 63 - 1, -2 ** 63})
    rnd = [r.randrange(-(1 << k), 1 << k) for k in range(1, 64) for _ in range(2 if ctx.quick else 60)]
    # contents: everything of MC_Types and random longer strings
    raw = [bytes(tla_seq(b)) for b in dump_states(ctx, "MC_Types", "MC_Types_int.cfg", "b")]
    raw += [bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(r.randrange(0, 12))) for _ in range(500 if ctx.quick else 8000)]
    for kind in kinds:
        w = {"enum8": 8, "enum32": 32}.get(kind, 64)
        if kind in ("bool", "null"): sets = [("0", b"\x00" if kind == "bool" else b""), ("1", b"\xff" if kind == "bool" else b"")] * 9
        else: sets = [(str(v), int_content(v)) for v in bound + rnd if -(1 << w - 1) <= v < 1 << w - 1]
        if kind.startswith("enum") and ctx.quick: sets = r.sample(sets, min(len(sets), 90))
        sess += value_sessions(r, kind, sets, ["a", "c", "="] if kind != "null" else ["a"])
        cs = raw if kind in ("int",) else r.sample(raw, min(len(raw), 250 if ctx.quick else 3000))
        # contents around the width of the type
        if kind in ("enum8", "enum32"): cs += [int_content(s * (1 << w - 1) + d) for s in (1, -1) for d in (-2, -1, 0, 1)]
        if kind == "bool": cs += [bytes([k]) for k in range(256)]
        sess += content_sessions(r, kind, cs)
        sess += mixed_sessions(r, kind, sets, cs, ["a", "c", "="] if kind != "null" else ["a"], 25 if ctx.quick else 600)
    codec = ["intd " + hx(b) for b in raw] + ["inte %d %d" % (v, b) for v in bound + rnd for b in {len(int_content(v)), len(int_content(v)) - 1, r.randrange(12)}]
    sess += [[c] for c in dict.fromkeys(codec)]
    ctx.log("%d sessions" % len(sess))
    ctx.conform_sessions(exe, "TracePrim", sess)

def oid_content(a):
    def sub(n):
        d = [n & 127]; n >>= 7
        while n: d.insert(0, n & 127 | 128); n >>= 7
        return bytes(d)
    return sub(a[0] * 40 + a[1]) + b"".join(sub(x) for x in a[2:])

def b05(ctx):
    exe = ctx.build([HARNESS + "/h_prim.cpp"], "prim05", defs=["WITH_B05"])
    r = ctx.rng
    sess = histories(ctx, ["oid"], 2)
    raw = [bytes(tla_seq(b)) for b in dump_states(ctx, "MC_Types", "MC_Types_oid.cfg" if ctx.quick else "MC_Types_oid_t.cfg", "b")]
    edge = sorted({(1 << 7 * k) + d for k in range(1, 9) for d in (-1, 0, 1)} | {0, 1, 2, 39, 40, 47, 48, 79, 80, 81, 2 ** 63 - 1, 2 ** 63 - 2, 2 ** 63 - 81, 2 ** 63 - 80, 2 ** 31, 2 ** 32, 113549})
    oids = [(a, b) for a in (0, 1) for b in (0, 1, 20, 38, 39)] + [(2, b) for b in edge] + [(1, 3, x) for x in edge] + [(2, 999, x, y) for x in edge[::3] for y in edge[::4]]
    oids += [tuple([r.randrange(2), r.randrange(40)] + [r.randrange(1 << r.randrange(1, 63)) for _ in range(r.randrange(12))]) for _ in range(150 if ctx.quick else 3000)]
    oids += [tuple([2, r.randrange(1 << r.randrange(1, 63))] + [r.randrange(1 << r.randrange(1, 33)) for _ in range(r.randrange(30))]) for _ in range(100 if ctx.quick else 2000)]
    oids += [(1, 2) + (5,) * 60, (2, 5) + (200,) * 64, (2, 1) + (2 ** 63 - 1,) * 20]
    good = [(".".join(map(str, a)), oid_content(a)) for a in dict.fromkeys(oids)]
    badset = ["-", "0", "1", "2", "1.40", "0.40", "0.100", "3.1", "4.5.6", "1.100000.5", "40.40", "0.-1", "1.2.-5", "-1.2.3", "2.-7", "1.2.3.-9223372036854775808", "9223372036854775807.1", "1.9223372036854775807"]
    sets = good + [(b, None) for b in badset]
    sess += value_sessions(r, "oid", sets, ["a", "c", "="])
    # a refused value in a used object
    for b in badset: sess.append(["new oid:0", "set 0 a 1.2.840", "set 0 a " + b, "set 0 = 2.5.4", "set 0 = " + b, "dec 0 " + hx(wrap([(0, 6)], b"\x2a\x03")) + " 0"])
    raws = raw if not ctx.quick else r.sample(raw, 1500)
    more = []
    for _ in range(600 if ctx.quick else 20000):
        c = oid_content(r.choice(oids))
        if r.random() < .7: c = corrupt(r, c)
        more.append(c[:400])
    for n in range(6, 14):
        for lead in (0x81, 0x82, 0x83, 0x87, 0x8f, 0xbf, 0xff, 0x80):
            for last in (0, 1, 0x7f, 0x4f, 0x50, 0x2f): more += [bytes([lead] + [0x80] * (n - 2) + [last]), bytes([lead] + [0xff] * (n - 2) + [last]), bytes([0x2a, lead] + [0xff] * (n - 3) + [last])]
    sess += content_sessions(r, "oid", raws + more, 1)
    sess += mixed_sessions(r, "oid", sets, raws + more, ["a", "c", "="], 120 if ctx.quick else 4000, same_id_copies=True)
    codec = ["oidd " + hx(b) for b in raw + more]
    for v, c in sets: codec += ["oide %s %d" % (v, b) for b in ({len(c), len(c) - 1, 0, r.randrange(len(c) + 4)} if c is not None else {0, 1, 20})]
    sess += [[c] for c in dict.fromkeys(codec)]
    ctx.log("%d sessions" % len(sess))
    ctx.conform_sessions(exe, "TracePrim", sess)

def dbits(d): return struct.pack(">d", d).hex()
def doubles(r, quick):
    out = set()
    for e in (list(range(-1074, 1024, 7)) + [-1074, -1073, -1072, -1023, -1022, -1021, -1, 0, 1, 2, 3, 51, 52, 53, 54, 62, 63, 64, 1022, 1023] if quick else range(-1074, 1024)):
        for m in (1, 3): 
            try: out.add(dbits(m * 2.0 ** e if e > -1074 else 5e-324 * m))
            except OverflowError: pass
    for v in (0.0, -0.0, 1.0, -1.0, .1, -.1, 1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 2.225073858507201e-308, 5e-324, float("inf"), float("-inf"), 3.141592653589793, 1 / 3, 123456789.125, 255, 256, 65535, 65536, 2 ** 52 + 1.0, 2 ** 53 - 1.0, 1e22, 1e23, 1e-5):
        out.add(dbits(v))
    out |= {"7ff8000000000000", "fff8000000000000", "7ff0000000000001", "7fffffffffffffff", "000fffffffffffff", "800fffffffffffff", "0010000000000000", "0008000000000000"}
    for _ in range(400 if quick else 12000):
        b = r.getrandbits(64)
        if r.random() < .5: b = b & ~((1 << r.randrange(53)) - 1) | (b >> 63 << 63)
        if r.random() < .15: b &= 0x800fffffffffffff
        out.add("%016x" % b)
    return sorted(out)

def real_contents(r, quick):
    out = []
    def exp(e, l=None):
        n = 1
        while not -(1 << 8 * n - 1) <= e < 1 << 8 * n - 1: n += 1
        return e.to_bytes(max(n, l or n), "big", signed=True)
    for base in range(4):
        for ff in range(4):
            for s in (0, 1):
                for e in (0, 1, -1, 5, -7, 100, -100, 200, 255, -260, -1074, 1000):
                    for m in (1, 3, 5, 0x53, 2 ** 24 + 1, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 64 - 1, 0, 2 ** 70 + 1):
                        if quick and r.random() > .15: continue
                        x = exp(e, r.choice([None, None, 2, 3]))
                        mb = m.to_bytes(max(1, (m.bit_length() + 7) // 8 + r.choice([0, 0, 1])), "big")
                        if len(x) <= 3 and r.random() < .8: out.append(bytes([128 + 64 * s + 16 * base + 4 * ff + len(x) - 1]) + x + mb)
                        else:
                            if r.random() < .3: x = exp(e, r.randrange(len(x), 6))
                            out.append(bytes([128 + 64 * s + 16 * base + 4 * ff + 3, len(x)]) + x + mb)
    # exponents at the edges of the double range
    for e in list(range(1015, 1030)) + list(range(-1085, -1015)) + [32767, -32768, 70000, -70000, 2 ** 31, -2 ** 31 - 1, 2 ** 40]:
        for m in (1, 3, 2 ** 52 + 1, 2 ** 53 - 1):
            for d in (0, -52):
                if quick and r.random() > .4: continue
                x = exp(e + d)
                mb = m.to_bytes((m.bit_length() + 7) // 8, "big")
                out.append(bytes([128 + (len(x) - 1 if len(x) <= 3 else 3)]) + (bytes([len(x)]) if len(x) > 3 else b"") + x + mb)
    for k in range(0, 80, 3 if quick else 1): out.append(bytes([0x80 | r.randrange(64), r.randrange(256), r.randrange(256)]) + bytes(r.randrange(256) for _ in range(k)))
    # decimal
    nums = ["0", "1", "-1", "+5", "15", "007", "3.14", "-2.5", ".5", "5.", "1,5", "-0", "0.0", "1.E0", "1.5E3", "-1.5e-3", "12345678901234567890", "0.1", "1.7976931348623157E308", "4.9E-324", "1.8E308", "2.E-324", "3.E-325", "1.E400", "1.E-400", "9.5E99999999999",
            "1.E+0", "1.0E+00", " 7", "   -3.25", " 1.E1", "9007199254740993", "9007199254740993.0", "0.30000000000000004", "123456789.987654321E-5", "2.2250738585072012E-308", "2.2250738585072011E-308", "17976931348623158079372.E286",
            "", " ", "-", ".", "E5", "1E5", "1.5E", "1.5E+", "1e", "0x10", "1 ", "1.5 ", "nan", "inf", "1..5", "1.5E5.5", "--1", "+-1", "1_0", "\t1", "1\n", "1\x00", "- 1", "1.5F2", "1,5,5", "1e5", "1.5d2"]
    for nr in list(range(0, 8)) + [63]:
        for s in nums:
            if nr in (1, 2, 3) or r.random() < .1: out.append(bytes([nr]) + s.encode())
    for _ in range(150 if quick else 5000):
        s = r.choice(["", "-", "+"]) + str(r.randrange(10 ** r.randrange(1, 25))) + "." + "".join(r.choice("0123456789") for _ in range(r.randrange(22))) + "E" + r.choice(["", "+", "-"]) + str(r.randrange(r.choice([3, 25, 320])))
        out.append(b"\x03" + s.encode())
    out += [bytes([k]) for k in range(256)] + [bytes([k, 0]) for k in range(64, 128)] + [b"\x80\x00", b"\xc0\x00", b"\x80\x00\x01", b"\x83", b"\x83\x00\x01", b"\x83\x01", b"\x83\x01\x05", b"\x83\x01\x05\x01", b"\x83\x03\x00\x00\x05\x01", b"\x83\xff\x01", b""]
    return out

def b06(ctx):
    exe = ctx.build([HARNESS + "/h_prim.cpp"], "prim06", defs=["WITH_B06"])
    r = ctx.rng
    sess = histories(ctx, ["real"], 2)
    raw = [bytes(tla_seq(b)) for b in dump_states(ctx, "MC_Types", "MC_Types_real.cfg" if ctx.quick else "MC_Types_real_t.cfg", "b")]
    dec = [bytes(tla_seq(b)) for b in dump_states(ctx, "MC_Types", "MC_Types_dec.cfg" if ctx.quick else "MC_Types_dec_t.cfg", "b")]
    ds = doubles(r, ctx.quick)
    cs = [c[:90] for c in real_contents(r, ctx.quick)]
    sets = [(d, None) for d in ds]
    sess += value_sessions(r, "real", sets, ["a", "c", "="])
    some = r.sample(raw + dec, min(len(raw + dec), 800 if ctx.quick else 20000)) + cs
    sess += content_sessions(r, "real", some, 1)
    sess += mixed_sessions(r, "real", sets, some, ["a", "c", "="], 60 if ctx.quick else 2500)
    for d in r.sample(ds, 60): sess.append(["new real:%d" % r.randrange(6), "set 0 a " + d] + ["enc 0 %d %d" % (k, k % 2) for k in range(0, 20, 1)])
    codec = ["reale " + d for d in ds] + ["reald " + hx(b) for b in raw + dec + cs]
    sess += [[c] for c in dict.fromkeys(codec)]
    ctx.log("%d sessions" % len(sess))
    ctx.conform_sessions(exe, "TracePrim", sess)

ZONES = [("UTC", 0), ("Fixed/UTC+05:30:00", 19800), ("Fixed/UTC-11:00:00", -39600), ("Fixed/UTC+14:00:00", 50400), ("Fixed/UTC-00:30:00", -1800)]

def time_texts(r, n):
    out = []
    for _ in range(n):
        y, mo, d = r.choice([r.randrange(10000), r.randrange(1900, 2100), 2000, 2004, 1900, 2100, 9999, 0]), r.choice([r.randrange(1, 13), 2, 12, 0, 13]), r.choice([r.randrange(1, 29), 28, 29, 30, 31, 0, 32])
        h, mi, s = r.choice([r.randrange(24), 0, 23, 24]), r.choice([r.randrange(60), 59, 60]), r.choice([r.randrange(60), 0, 59, 60, 61])
        t = "%04d%02d%02d%02d%02d%02d" % (y, mo, d, h, mi, s) + r.choice(["", "Z", "+0000", "-0130", "+1400", "-1200", "+9959", "z", "+01", "+1", ".5", ".123Z", "Z ", " ", "+01a0", "+ 100"])
        if r.random() < .15:
            k = r.randrange(len(t)); t = t[:k] + r.choice([" ", "-", "x", "+", ":", "", "\0", "/", ";"]) + t[k + 1:]
        if r.random() < .05: t = t[:r.randrange(len(t) + 1)]
        out.append(t.encode("latin1"))
    return out

def b07(ctx):
    exe = ctx.build([HARNESS + "/h_prim.cpp"], "prim07", defs=["WITH_B07"])
    r = ctx.rng
    ctx.model_check("MC_Types", "MC_Types_time.cfg" if ctx.quick else "MC_Types_time_t.cfg")
    hist = histories(ctx, ["time", "utc"], 2)
    lo, hi = -719528, 2932896     # 0000-01-01 .. 9999-12-31
    import datetime
    ep = datetime.date(1970, 1, 1).toordinal()
    days = {lo, lo + 1, lo + 59, lo + 60, lo + 365, lo + 366, hi, hi - 1, 0, -1, 1, 11016, 11017, 19782, 24855, 24856, -25508, -25567, 47482, 47540, 47541}
    for y in [1, 4, 100, 400, 1582, 1600, 1700, 1900, 1970, 1972, 1999, 2000, 2001, 2024, 2038, 2100, 2400, 9999]:
        for m, d in ((1, 1), (2, 28), (3, 1), (12, 31)): days.add(datetime.date(y, m, d).toordinal() - ep)
    days = sorted(days) + [r.randrange(lo, hi + 1) for _ in range(120 if ctx.quick else 6000)]
    secs = [0, 1, 59, 60, 3599, 3600, 43200, 86398, 86399]
    def text(day, sec):
        o = day + ep
        if o < 1: d = datetime.date.fromordinal(o + 146097); y = d.year - 400     # the year 0
        else: d = datetime.date.fromordinal(o); y = d.year
        return "%04d%02d%02d%02d%02d%02d" % (y, d.month, d.day, sec // 3600, sec // 60 % 60, sec % 60)
    def sets(z):
        out = []
        for d in days:
            s = r.choice(secs + [r.randrange(86400)])
            k = r.randrange(4)
            t = text(d, s)
            if k == 0: out.append(("univ %d %d" % (d, s), (t + "Z").encode()))
            elif k == 1: out.append(("ctor %d %d" % (d, s), (t + "Z").encode()))
            elif k == 2:
                m = r.choice([0, 1, -1, 59, 60, -60, 90, -90, 330, 840, -720, r.randrange(-840, 841)])
                out.append(("off %d %d %d" % (d, s, m), (t + ("-" if m < 0 else "+") + "%02d%02d" % (abs(m) // 60, abs(m) % 60)).encode()))
            else: out.append(("local %d %d %d %d %d %d" % (int(t[:4]), int(t[4:6]), int(t[6:8]), int(t[8:10]), int(t[10:12]), int(t[12:])), t.encode()))
        return out
    for tz, off in ZONES if not ctx.quick else ZONES[:2] + r.sample(ZONES[2:], 1):
        sess = list(hist) if tz == "UTC" else hist[:200]
        st = sets(off)
        if ctx.quick and tz != "UTC": st = r.sample(st, 90)
        texts = time_texts(r, 500 if ctx.quick else 12000)
        for kind in ("time", "utc"):
            k_st, k_tx = (st, texts) if kind == "time" else (r.sample(st, 60), r.sample(texts, 150))
            v = []
            for s, c in k_st: v += value_sessions(r, kind, [(s, c)], [""])
            sess += v
            sess += content_sessions(r, kind, [c for _, c in k_st[:60]] + k_tx, 1)
            sess += mixed_sessions(r, kind, k_st, k_tx, [""], 40 if ctx.quick else 1500, same_id_copies=True)
        ctx.log("%d sessions with TZ=%s" % (len(sess), tz))
        ctx.conform_sessions(exe, "TracePrim", sess, env={"TZ": tz, "FB_TZOFF": str(off)})

CHECKS = {"B04": b04, "B05": b05, "B06": b06, "B07": b07}
