"""B08 to B10: containers, variants, optional and default values (Container.tla, Variant.tla, Optional.tla)."""
import math
from core import *
from checks_core import hx, enc_tag, enc_len, corrupt
from checks_prim import tlv, wrap

def emitted(ctx, module, cfg, env, name):
    """The complete histories of a bounded model, as TLC prints them."""
    r = ctx.tlc(module, cfg, env=env)
    if not r["ok"]: raise Infra("%s %s:\n%s" % (module, env, r["out"][-2000:]))
    ctx.states += r["distinct"]; ctx.trans += r["gen"]; ctx.cover["model:%s:%s" % (module, name)] = r["distinct"]
    seen, out = set(), []
    for m in re.finditer(r'^"HIST (.*)"$', r["out"], re.M):
        h = m.group(1).replace('\\"', '"')
        if h not in seen: seen.add(h); out.append(parse_tla(h))
    return sorted(out, key=str)

def pat(n, seed): return bytes((seed + 7 * j) % 256 for j in range(1, n + 1))
STR_UTAG = [4, 12, 22, 26, 19, 3]
def cont_ids(kind, i):
    u = (0, STR_UTAG[i] if kind == "str" else 4)
    return [[u], [(2, 0)], [(1, 31)], [(3, 1099511627776)], [(2, 1), u], [(1, 200), (2, 31)]][i]
def made(kind, i, c): return tlv(0, 0, 0, c) if kind == "raw" else wrap(cont_ids(kind, i), c)

SETS = {"raw": "ca", "fix": "ca", "small": "ca", "str": "ca=sSvVwpP"}
def set_cmd(r, kind, s, b):
    how = r.choice(SETS[kind])
    if how in "pP" and 0 in b: how = "a"
    return "set %d %s %s" % (s, how, hx(b))

def b08_history(r, kind, hist):
    k = "str" if kind == "fix" and r.random() < .3 else kind
    i, j = (0, 4)
    cmds = ["new " + " ".join("raw" if k == "raw" else "%s:%d" % (k, x) for x in (i, i, j))]
    for o in hist:
        s, op = o["s"] - 1, o["op"]
        idx = j if s == 2 else i
        if op == "set": cmds.append(set_cmd(r, k, s, pat(o["n"], 1)))
        elif op == "nest": cmds.append("set %d a %s" % (s, hx(tlv(0, 0, 0, pat(o["n"], 3)))))
        elif op == "hset": cmds.append("hset %d %s 0 2 %d %s" % (s, r.choice("ca"), o["tag"][0] * 128 + o["tag"][1], hx(pat(o["n"], 2))))
        elif op == "resize": cmds.append("resize %d %d" % (s, o["m"]))
        elif op == "write": cmds.append("write %d %d 255 %d" % (s, o["p"], r.randrange(3 if k == "str" else 2)))
        elif op == "sub": cmds.append("sub %d %d %d %d" % (s, o["off"], o["m"], r.randrange(3 if k == "str" else 1)))
        elif op == "dec":
            w = made(k, idx, pat(o["n"], 9))
            if o["how"] == "cut": w = w[:-1]
            elif o["how"] == "tag": w = bytes([(w[0] + 64) % 256]) + w[1:]
            cmds.append("dec %d %s %d" % (s, hx(w), r.randrange({"raw": 4, "fix": 3, "str": 2}.get(k, 1))))
        elif op in ("child", "self"): cmds.append("%s %d" % (op, s))
        elif op == "swap": cmds.append("swap %d %d" % (s, o["from"] - 1))
        elif op in ("copy", "move", "cross"):
            h = r.randrange(3 if k == "str" and op == "copy" else 2)
            if s == o["from"] - 1 and h == 1: h = 0
            cmds.append("%s %d %d %d" % (op, s, o["from"] - 1, h))
    return cmds

EDGE = [0, 0, 1, 2, 5, 20, 60, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 120, 123, 124, 125, 126, 127, 128, 129, 130, 200, 251, 252, 253, 254, 255, 256, 257, 300]
def octets(r, n): 
    t = r.random()
    return bytes(r.randrange(1, 256) for _ in range(n)) if t < .6 else bytes(r.choice([0, 1, 127, 128, 255]) for _ in range(n))

def b08_random(r, n, length):
    out = []
    while len(out) < n:
        kind = r.choice(["raw", "raw", "fix", "fix", "small", "str", "str"])
        ids = [r.randrange(6) for _ in range(4)]
        ids[1] = ids[0]
        cap = {"small": 20}.get(kind, 70000)
        if kind == "small" and r.random() < .2:
            name, cap, ids = r.choice([("small127", 127, [1] * 4), ("small125", 125, [4] * 4)])
            s = ["new " + " ".join([name] * 4)]
        else: s = ["new " + " ".join("raw" if kind == "raw" else "%s:%d" % (kind, i) for i in ids)]
        def ln(): return min(cap, r.choice(EDGE) if r.random() < .99 else r.choice([1000, 65534, 65535, 65536, 65540]))
        def same(k): return r.choice([x for x in range(4) if ids[x] == ids[k] or kind == "raw"])
        for _ in range(length):
            k, t = r.randrange(4), r.random()
            if t < .2: s.append(set_cmd(r, kind, k, octets(r, ln())))
            elif t < .22 and kind == "raw": s.append("hsub %d %d %d %d %d %d" % (k, r.randrange(2), r.randrange(4), r.choice([0, 4, 30, 31, 127, 128, 16384, 2 ** 62]), r.choice([0, 0, 1, r.randrange(300)]), r.choice([300, r.randrange(300)])))
            elif t < .26 and kind == "raw":
                s.append("hset %d %s %d %d %d %s" % (k, r.choice("ca"), r.randrange(2), r.randrange(4), r.choice([0, 1, 30, 31, 127, 128, 16383, 16384, 2 ** 31, 2 ** 62]), hx(octets(r, ln()))))
            elif t < .36: s.append("resize %d %d" % (k, ln()))
            elif t < .46: s.append("write %d %d %d %d" % (k, r.randrange(400), r.randrange(256), r.randrange(3 if kind == "str" else 2)))
            elif t < .52: s.append("sub %d %d %d %d" % (k, r.randrange(300), r.randrange(300), r.randrange(3 if kind == "str" else 1)))
            elif t < .66:
                if kind == "raw":
                    w = tlv(r.randrange(4), r.randrange(2), r.choice([0, 4, 16, 30, 31, 500, 2 ** 40]), octets(r, ln()), r.choice([None, 4, 8]) if r.random() < .5 else None) if r.random() < .8 else bytes(r.randrange(256) for _ in range(r.randrange(6)))
                else:
                    c = octets(r, min(300, ln() + r.choice([0, 0, 0, 1, 2])))
                    I = cont_ids("str" if kind == "str" else kind, ids[k])
                    w = wrap(I, c)
                    if r.random() < .3:
                        x = c
                        for q, (cl, tg) in enumerate(reversed(I)): x = tlv(cl, 0 if q == 0 else 1, tg, x, r.choice([None, 4, 8]) if len(x) else None)
                        w = x
                u = r.random()
                if u < .15: w = w[:r.randrange(len(w) + 1)]
                elif u < .3: w = w + octets(r, r.randrange(1, 5))
                elif u < .45 and w: w = corrupt(r, w)
                elif u < .5: w = b""
                s.append("dec %d %s %d" % (k, hx(w), r.randrange({"raw": 4, "fix": 3, "str": 2}.get(kind, 1))))
            elif t < .69 and kind == "raw": s.append("child %d" % k)
            elif t < .73: s.append("self %d" % k)
            elif t < .8: f = same(k); s.append("copy %d %d %d" % (k, f, 0 if f == k else r.randrange(3 if kind == "str" else 2)))
            elif t < .88: f = same(k); s.append("move %d %d %d" % (k, f, 0 if f == k else r.randrange(2)))
            elif t < .9: s.append("swap %d %d" % (k, same(k)))
            elif t < .95 and kind != "raw": s.append("cross %d %d %d" % (k, r.randrange(4), r.randrange(2)) if cap in (20, 70000) else "self %d" % k)
            elif kind == "raw": s.append("enc %d %d" % (k, r.choice(EDGE)))
            elif t < .98: s.append("eq %d %d" % (k, same(k)))
            else: s.append("enc %d %d" % (k, r.choice(EDGE)))
        out.append(s)
    return out

def fixups(sess):
    """copy construction of an object from itself and comparisons are only asked of kinds that have them."""
    return [[c for c in s if not (s[0].startswith("new raw") and c.startswith("eq "))] for s in sess]

def b08(ctx):
    exe = ctx.build([HARNESS + "/h_cont.cpp"], "cont", opt="-O0")
    r = ctx.rng
    sess = []
    for kind in ("raw", "fix", "small"):
        hs = emitted(ctx, "MC_Container", "MC_Container.cfg", {"FB_KIND": kind, "FB_DEPTH": "2"}, kind)
        sess += [b08_history(r, kind, h) for h in (r.sample(hs, min(len(hs), 1300)) if ctx.quick else hs)]
        if not ctx.quick:
            hs = emitted(ctx, "MC_Container", "MC_Container.cfg", {"FB_KIND": kind, "FB_DEPTH": "3"}, kind + "3")
            sess += [b08_history(r, kind, h) for h in r.sample(hs, min(len(hs), 12000))]
    ctx.log("built and enumerated")
    sess += b08_random(r, 420 if ctx.quick else 9000, 12)
    # contents as long as the arrays admit
    sess.append(["new small127", "set 0 a " + hx(pat(127, 5)), "self 0", "resize 0 126", "resize 0 127"])
    sess.append(["new small125", "set 0 a " + hx(pat(125, 5)), "self 0", "resize 0 124", "resize 0 125"])
    sess.append(["new small128", "set 0 a " + hx(pat(127, 5)), "self 0"])
    sess.append(["new small128", "set 0 a " + hx(pat(128, 5))])
    ctx.conform_sessions(exe, "TraceContainer", fixups(sess))

MAKE = ["cl", "cc", "cr", "it", "ii", "al", "ac", "ar", "et", "ei"]
def b09_cmd(o):
    s, op = o["s"] - 1, o["op"]
    if op == "mk": return "mk %d %s %d %d" % (s, o["how"], o["alt"], o["v"])
    if op == "throw": return "throw %d %s" % (s, o["how"])
    if op == "alias": return "alias %d" % s
    if op == "poke": return "poke %d %d" % (s, o["v"])
    if op == "cmp": return "cmp %d %d" % (s, o["from"] - 1)
    return "%s %d %d %d" % (op, s, o["from"] - 1, o["how"])

def b09_random(r, kind, n, length):
    """Long histories; the values are tracked only to keep moved-from and empty variants from being read."""
    out = []
    for _ in range(n):
        m = r.choice([2, 3, 3, 4]); s = ["new %s %d" % (kind, m)]
        ok = [True] * m
        for _ in range(length):
            k, t = r.randrange(m), r.random()
            f = r.choice([j for j in range(m) if ok[j]]) if any(ok) else None
            if t < .3 or not any(ok):
                alt = r.randrange(3); how = r.choice(MAKE + (["il", "jl", "el", "fl"] if alt == 1 else []))
                s.append("mk %d %s %d %d" % (k, how, alt, r.randrange(-3, 50))); ok[k] = True
            elif t < .36: s.append("throw %d %s" % (k, r.choice(["et", "ei", "a"]))); ok[k] = False      # may have no value afterwards
            elif t < .42: s.append("alias %d" % f)
            elif t < .5: s.append("poke %d %d" % (f, r.randrange(50)))
            elif t < .62: s.append("copy %d %d %d" % (k, f, 0 if f == k else r.randrange(3))); ok[k] = True
            elif t < .74:
                s.append("move %d %d %d" % (k, f, 0 if f == k else r.randrange(2)))
                if f == k: ok[k] = False
                else: ok[k] = True; ok[f] = False
            elif t < .8 and ok[k]: s.append("swap %d %d %d" % (k, f, r.randrange(2)))
            elif t < .86: s.append("rget %d" % f)
            elif ok[k]: s.append("cmp %d %d" % (k, f))
        out.append(s)
    return out

def b09(ctx):
    exe = ctx.build([HARNESS + "/h_var.cpp"], "var", opt="-O0")
    r = ctx.rng
    sess = []
    hs = emitted(ctx, "MC_Variant", "MC_Variant.cfg", {"FB_DEPTH": "2"}, "2")
    if not ctx.quick: hs += r.sample(emitted(ctx, "MC_Variant", "MC_Variant.cfg", {"FB_DEPTH": "3"}, "3"), 15000)
    for kind in ("dyn", "chd", "chs"):
        sess += [["new %s 2" % kind] + [b09_cmd(o) for o in h] for h in (r.sample(hs, 900) if ctx.quick else hs)]
        sess += b09_random(r, kind, 150 if ctx.quick else 4000, 25)
    sess += [["new dyn 1"] + ["ded " + w for w in ("string", "literal", "int", "char", "cint", "cstring")]]
    ctx.conform_sessions(exe, "TraceVariant", sess)

OPTS = {"oi": "int", "oid": "int", "oi4": "int", "oid4": "int", "os": "str", "osd": "str", "os4": "str", "osd5": "str", "ob": "bool", "obd": "bool", "or": "real", "ord": "real"}
DEFS = {"di": "int", "di4": "int", "ds": "str", "ds5": "str", "db": "bool", "dr": "real", "dr4": "real"}
MEM_IDS = {"oi": 0, "oid": 0, "oi4": 4, "oid4": 4, "os": 1, "osd": 1, "os4": 4, "osd5": 5, "ob": 3, "obd": 0, "di": 0, "di4": 4, "ds": 1, "ds5": 5, "db": 2, "or": 0, "ord": 4, "dr": 0, "dr4": 4}
def mem_ids(k):
    u = (0, {"int": 2, "str": 4, "bool": 1, "real": 9}[{**OPTS, **DEFS}[k]])
    return [[u], [(2, 0)], [(1, 31)], [(3, 1099511627776)], [(2, 1), u], [(1, 200), (2, 31)]][MEM_IDS[k]]

def b10_cmd(r, o):
    s, op = o["s"] - 1, o["op"]
    if op == "set": return "set %d %s %d" % (s, o["how"], [0, 1, 40][o["n"]])
    if op == "clear": return "clear %d %d" % (s, o["how"])
    if op == "fresh": return "fresh %d" % s
    if op in ("copy", "move"): return "%s %d %d %d" % (op, s, o["from"] - 1, o["how"])
    if op in ("swap", "cmp"): return "%s %d %d" % (op, s, o["from"] - 1)
    if op == "cmpv": return "cmpv %d %d" % (s, [0, 1, 40][o["n"]])
    return "%s %d %s %d" % (op, s, hx(bytes(o["b"])), 1 if op == "iter" else r.choice([0, 3]))

def b10_random(r, kind, n, length):
    ty = {**OPTS, **DEFS}[kind]; ids = mem_ids(kind)
    values = {"int": [0, 1, 5, -1, 127, 128, 2 ** 40, -2 ** 63, 2 ** 63 - 1], "str": [0, 1, 2, 3, 7], "bool": [0, 1], "real": [0, 1, 1, 7, 7, 3, -4, 9]}[ty]
    def content():
        if ty == "int": v = r.choice(values + [5, 5]); k = 1 + (max(v, ~v)).bit_length() // 8; return v.to_bytes(k, "big", signed=True)
        if ty == "real":        # as the library spells them
            m, e = math.frexp(r.choice([0, .5, .5, 1, 1.5, -2, 1e30]))
            return bytes([0x80 + 0x40 * (m < 0), (e - 53) % 256]) + int(abs(m) * 2 ** 53).to_bytes(7, "big") if m else b""
        if ty == "bool": return bytes([r.choice([0, 255, 255, 1])])
        return r.choice([b"", b"abc", b"abc", b"q" * 127, b"xyz"])
    out = []
    for _ in range(n):
        s = ["new " + " ".join([kind] * 3)]
        for _ in range(length):
            k, f, t = r.randrange(3), r.randrange(3), r.random()
            hows = "amveCcd" if kind[0] == "o" else "avcC"
            if t < .25: s.append("set %d %s %d" % (k, r.choice(hows), r.choice(values)))
            elif t < .32: s.append("clear %d %d" % (k, r.randrange(4)))
            elif t < .34: s.append("fresh %d" % k)
            elif t < .44: s.append("copy %d %d %d" % (k, f, 0 if k == f else r.randrange(2)))
            elif t < .54: s.append("move %d %d %d" % (k, f, 0 if k == f else r.randrange(2)))
            elif t < .58: s.append("swap %d %d" % (k, f))
            elif t < .64: s.append("cmp %d %d" % (k, f))
            elif t < .7: s.append("cmpv %d %d" % (k, r.choice(values)))
            elif t < .73: s.append("empty %d" % k)
            else:
                c = content()
                w = wrap(ids, c)
                u = r.random()
                if u < .15: w = wrap(ids, c, 1)
                elif u < .25: w = w[:r.randrange(len(w))]
                elif u < .35: w = bytes([w[0] ^ r.choice([64, 128, 1])]) + w[1:]
                elif u < .45: w = w + b"\x05\x00"
                elif u < .5: w = b""
                elif u < .55: w = tlv(ids[0][0], 1, ids[0][1], tlv(0, 0, 23, c) if len(ids) > 1 else c)
                elif u < .6 and ty == "int": w = wrap(ids, r.choice([b"", b"\x01" * 9]))
                elif u < .65: w = tlv(ids[0][0], 1 if len(ids) > 1 else 0, ids[0][1], w[len(enc_tag(*((ids[0][0], 0, ids[0][1])))) + 1:], 3) if len(w) < 100 else w
                via = r.choice([0, 1, 3])
                s.append("%s %d %s %d" % ("iter" if via == 1 else "dec", k, hx(w), via))
        out.append(s)
    return out

def b10(ctx):
    exe = ctx.build([HARNESS + "/h_opt.cpp"], "opt", opt="-O0")
    r = ctx.rng
    sess = []
    for mk, kinds in (("opt", ("os", "osd")), ("def", ("ds",))):
        hs = emitted(ctx, "MC_Optional", "MC_Optional.cfg", {"FB_KIND": mk, "FB_DEPTH": "2"}, mk)
        if not ctx.quick: hs += r.sample(emitted(ctx, "MC_Optional", "MC_Optional.cfg", {"FB_KIND": mk, "FB_DEPTH": "3"}, mk + "3"), 12000)
        for k in kinds: sess += [["new %s %s" % (k, k)] + [b10_cmd(r, o) for o in h] for h in (r.sample(hs, min(len(hs), 1400)) if ctx.quick else hs)]
    for k in list(OPTS) + list(DEFS): sess += b10_random(r, k, 40 if ctx.quick else 1000, 20)
    ctx.conform_sessions(exe, "TraceOptional", sess)

# ---- collections (part of G04) ----
LIST_KINDS, LIST_IDS = "ABCDSG", {"A": 0, "B": 4, "C": 5, "D": 2, "S": 0, "G": 3}
def list_ids(k):
    i, u = LIST_IDS[k], (0, 17 if k in "SG" else 16)
    return [[u], [(2, 0)], [(1, 31)], [(3, 1099511627776)], [(2, 1), u], [(1, 200), (2, 31)]][i]
def int_octets(v): return v.to_bytes(1 + (max(v, ~v)).bit_length() // 8, "big", signed=True)
def constructed(ids, c):
    for i, (cls, t) in reversed(list(enumerate(ids))): c = tlv(cls, 1, t, c)
    return c
def list_elem(el, v):
    if el == "int": return tlv(2, 0, 0, int_octets(v))
    if el == "str": return wrap([(2, 1), (0, 4)], bytes([97 + v % 26]) * v)
    return tlv(3, 1, 1099511627776, b"".join(tlv(0, 0, 2, int_octets(v * (i + 1))) for i in range(v % 8)))

def list_cmd(r, o, kind):
    s, op = o["s"] - 1, o["op"]
    N = lambda c: c[0]
    if op == "assign": return "assign %d %d %s" % (s, r.randrange(6), " ".join(str(N(c)) for c in o["cs"]))
    if op == "push": return "push %d %d %d" % (s, N(o["c"]), o["how"])
    if op in ("insert", "put"): return "%s %d %d %d %d" % (op, s, o["k"], N(o["c"]), r.randrange(3))
    if op == "erase": return "erase %d %d %d" % (s, o["k"], o["m"])
    if op == "resize": return "resize %d %d %d 1" % (s, o["m"], N(o["c"]))
    if op == "fill": return "fill %d %d %d %d" % (s, o["m"], N(o["c"]), r.randrange(2))
    if op in ("pop",): return "pop %d" % s
    if op == "clear": return "clear %d %d" % (s, o["how"])
    if op in ("copy", "move"): return "%s %d %d %d" % (op, s, o["from"] - 1, o["how"])
    if op in ("swap", "cmp"): return "%s %d %d" % (op, s, o["from"] - 1)
    b = bytes(o["b"])
    if b[0] == 48 and kind != "A":
        ids = list_ids(kind); c = b[2:]
        b = constructed(ids, c) if len(c) == b[1] else constructed(ids, c)[:-1]
    return "dec %d %s %d" % (s, hx(b), r.randrange(3))

LIST_LEN = [0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 9, 10, 11, 13]
def lists_random(r, el, n, length):
    pick = {"int": lambda: r.choice([0, 1, -1, 127, 128, -129, 2 ** 31, -2 ** 63, 2 ** 63 - 1]), "str": lambda: r.choice([0, 1, 2, 30, 93, 97, 100, 127, 130]), "ints": lambda: r.choice([0, 1, 4, 5, 6, 7, 15, 300])}[el]
    out = []
    for _ in range(n):
        kinds = [r.choice(LIST_KINDS) for _ in range(3)]
        if r.random() < .5: kinds[1] = kinds[0]
        s = ["new %s %s" % (el, " ".join(kinds))]
        for _ in range(length):
            k, f, t = r.randrange(3), r.randrange(3), r.random()
            if t < .16: s.append("push %d %d %d" % (k, pick(), r.randrange(5)))
            elif t < .22: s.append("insert %d %d %d %d" % (k, r.randint(1, 7), pick(), r.randrange(3)))
            elif t < .27: s.append("put %d %d %d %d" % (k, r.randint(1, 7), pick(), r.randrange(3)))
            elif t < .32: i = r.randint(1, 6); s.append("erase %d %d %d" % (k, i, i + r.choice([0, 0, 1, 3])))
            elif t < .35: s.append("pop %d" % k)
            elif t < .40: s.append("resize %d %d %d %d" % (k, r.choice(LIST_LEN), pick(), r.randrange(2)))
            elif t < .43: s.append("fill %d %d %d %d" % (k, r.choice(LIST_LEN), pick(), r.randrange(2)))
            elif t < .46: s.append("clear %d %d" % (k, r.randrange(4)))
            elif t < .54: s.append("assign %d %d %s" % (k, r.randrange(6), " ".join(str(pick()) for _ in range(r.choice(LIST_LEN)))))
            elif t < .64: s.append("copy %d %d %d" % (k, f, 0 if k == f else r.randrange(2)))
            elif t < .74: s.append("move %d %d %d" % (k, f, 0 if k == f else r.randrange(2)))
            elif t < .79: s.append("swap %d %d" % (k, f))
            elif t < .85: s.append("cmp %d %d" % (k, f))
            else:
                es = [list_elem(el, pick()) for _ in range(r.choice(LIST_LEN))]
                u = r.random()
                if es and u < .1: i = r.randrange(len(es)); es[i] = corrupt(r, es[i])
                elif es and u < .2: i = r.randrange(len(es)); es[i] = es[i][:r.randrange(len(es[i]))]
                elif es and u < .3: i = r.randrange(len(es)); es[i] = bytes([es[i][0] ^ r.choice([1, 32, 64])]) + es[i][1:]
                elif u < .35: es.append(bytes(r.randrange(256) for _ in range(r.randint(1, 4))))
                w = constructed(list_ids(kinds[k]), b"".join(es))
                u = r.random()
                if u < .08: w = w[:r.randrange(len(w))]
                elif u < .16: w = bytes([w[0] ^ r.choice([1, 32, 64, 128])]) + w[1:]
                elif u < .2: w = w + b"\x02\x01\x05"
                elif u < .25: w = constructed(list_ids(r.choice(LIST_KINDS)), b"".join(es))
                s.append("dec %d %s %d" % (k, hx(w), r.randrange(3)))
        out.append(s)
    return out

def lists(ctx):
    exe = ctx.build([HARNESS + "/h_list.cpp"], "list", opt="-O0")
    r = ctx.rng
    hs = emitted(ctx, "MC_Lists", "MC_Lists.cfg", {"FB_DEPTH": "2"}, "lists")
    sess = []
    for el, kinds in (("int", "ABCDSG"), ("str", "AB"), ("ints", "DG")):
        for k in kinds:
            for h in r.sample(hs, min(len(hs), 250 if ctx.quick else 4000)):
                other = k if r.random() < .5 or any(o["op"] == "swap" for o in h) else r.choice(LIST_KINDS)
                sess.append(["new %s %s %s" % (el, k, other)] + [list_cmd(r, o, k) for o in h])
    for el in ("int", "str", "ints"): sess += lists_random(r, el, 130 if ctx.quick else 2500, 20)
    ctx.conform_sessions(exe, "TraceLists", sess)
    ctx.log("%d sessions on collections" % len(sess))

CHECKS = {"B08": b08, "B09": b09, "B10": b10}
