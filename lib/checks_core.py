"""B01, B02, B03: the header layer (Ber.tla, MC_Parse.tla, TraceCore.tla)."""
import re
from core import *

def tla_seq(txt):
    return [int(x) for x in re.findall(r"-?\d+", txt)]
def hx(b): return bytes(b).hex() if len(b) else "-"

TAGS = sorted({t for k in range(1, 9) for t in ((1 << 7 * k) - 1, 1 << 7 * k, (1 << 7 * k) + 1)} |
              {0, 1, 2, 15, 16, 17, 29, 30, 31, 32, 63, 64, 255, 256, 2 ** 62, 2 ** 63 - 1, 2 ** 63 - 2, 2 ** 56 - 1, 10 ** 9, 2 ** 31, 2 ** 32})
LENS = sorted({t for k in range(1, 8) for t in ((1 << 8 * k) - 1, 1 << 8 * k, (1 << 8 * k) + 1)} |
              {0, 1, 2, 126, 127, 128, 129, 254, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2, 2 ** 31, 1000, 54321})

def enc_tag(cls, cons, tag, pad=0, force_long=False):
    if tag <= 30 and not force_long: return bytes([cls << 6 | cons << 5 | tag])
    d = []
    t = tag
    while True:
        d.insert(0, t % 128); t //= 128
        if t == 0: break
    d = [0] * pad + d
    return bytes([cls << 6 | cons << 5 | 31] + [x | 128 for x in d[:-1]] + [d[-1]])

def enc_len(n, octets=None):
    if octets is None: return bytes([n]) if n < 128 else enc_len(n, (n.bit_length() + 7) // 8)
    return bytes([128 + octets]) + n.to_bytes(octets, "big")

def random_tlv(r, depth=3):
    """A mostly well-formed element with unusual but legal header forms."""
    cls, cons = r.randrange(4), r.randrange(2)
    tag = r.choice([r.randrange(31), r.randrange(31), r.choice(TAGS), r.randrange(1 << r.randrange(1, 63))])
    if cons and depth > 0: content = b"".join(random_tlv(r, depth - 1) for _ in range(r.randrange(4)))
    else: content = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9, r.randrange(40), 127, 128, 130, 255, 256][: 11 if depth < 3 else 13])))
    n = len(content)
    ln = enc_len(n) if r.random() < .7 else enc_len(n, r.randrange(max(1, (n.bit_length() + 7) // 8), 9))
    return enc_tag(cls, cons, tag, r.choice([0, 0, 0, 1, 2, 5]) if tag > 30 or r.random() < .2 else 0, r.random() < .1) + ln + content

def corrupt(r, b):
    b = bytearray(b)
    k = r.randrange(6)
    if k == 0 and b: b = b[:r.randrange(len(b))]
    elif k == 1 and b: b[r.randrange(len(b))] = r.choice([0, 1, 0x7f, 0x80, 0x81, 0x84, 0x88, 0x89, 0xff, 0x1f, 0x3f, r.randrange(256)])
    elif k == 2: b += bytes(r.randrange(256) for _ in range(r.randrange(1, 6)))
    elif k == 3 and b: del b[r.randrange(len(b))]
    elif k == 4: b.insert(r.randrange(len(b) + 1), r.randrange(256))
    return bytes(b)

def hostile(r):
    """Headers around the machine limits."""
    tagpart = r.choice([
        lambda: bytes([r.randrange(256) & 0xe0 | r.randrange(31)]),
        lambda: bytes([r.randrange(8) << 5 | 31]) + bytes(r.choice([0x80, 0x81, 0xff, 0xc0]) for _ in range(r.randrange(12))) + bytes([r.randrange(128)]),
        lambda: bytes([r.randrange(8) << 5 | 31]) + bytes(r.choice([0x80, 0xff]) for _ in range(r.randrange(12)))])()
    k = r.randrange(0, 11)
    body = bytes(r.choice([0, 0, 0, 1, 0x7f, 0x80, 0xff]) for _ in range(k))
    return tagpart + bytes([r.choice([0x80 + k, 0x80 + k, r.randrange(256)])]) + body + bytes(r.randrange(4) for _ in range(r.randrange(14)))

def overflow_lengths():
    out = []
    for h in (b"\x02", b"\x1f\x81\x01", b"\x3f\x7f"):
        for v in [2 ** 64 - k for k in range(1, 24)] + [2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 32, 2 ** 32 - 1, 2 ** 31]:
            for tail in (0, 5, 20): out.append(h + enc_len(v, 8) + bytes(tail))
    return out

def b01(ctx):
    exe = ctx.build([HARNESS + "/h_core.cpp"], "core")
    r = ctx.rng
    ins = [bytes(tla_seq(s)) for s in dump_states(ctx, "MC_Parse", "MC_Parse_parse4.cfg" if ctx.quick else "MC_Parse_parse5.cfg", "b")]
    ins += overflow_lengths()
    for n in (126, 127, 128, 129, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537):
        for miss in (0, 1, -1):
            body = bytes((i * 5) & 255 for i in range(n))
            b = b"\x04" + enc_len(n) + body
            if n < 2000 or miss == 0 or not ctx.quick: ins.append(b if miss == 0 else b[:-1] if miss == 1 else b + b"\x00")
    for _ in range(5000 if ctx.quick else 120000):
        b = random_tlv(r)
        ins.append(corrupt(r, b) if r.random() < .4 else b + bytes(r.randrange(256) for _ in range(r.randrange(4))))
    for _ in range(4000 if ctx.quick else 80000): ins.append(hostile(r))
    # tags of 62..70 bits with a valid rest
    for bits in range(56, 72):
        for v in (2 ** bits - 1, 2 ** bits, 2 ** bits + 5):
            ins.append(enc_tag(r.randrange(4), 0, v) + b"\x01\xaa")
            ins.append(enc_tag(r.randrange(4), 1, v, 3) + b"\x00")
    cmds, seen = [], set()
    for b in ins:
        if b in seen: continue
        seen.add(b)
        cmds.append("parse " + hx(b))
        if len(b) <= 40:
            offs = {0, len(b)} | ({1} if b else set()) | ({r.randrange(len(b) + 1)} if r.random() < .3 else set())
            if r.random() < .35 or len(b) > 5: cmds += ["extract %s %d" % (hx(b), o) for o in sorted(offs)]
    ctx.log("%d commands" % len(cmds))
    ctx.conform(exe, "TraceCore", cmds)

def b02(ctx):
    exe = ctx.build([HARNESS + "/h_core.cpp"], "core")
    r = ctx.rng
    ctx.model_check("MC_Parse", "MC_Parse_parse4.cfg" if ctx.quick else "MC_Parse_parse5.cfg")
    cmds = []
    def hl(tag, ln): return len(enc_tag(0, 0, tag)) + len(enc_len(ln))
    for t in TAGS:
        for l in LENS:
            h = hl(t, l)
            bufs = {h - 1, h, h + r.randrange(1, 9), r.randrange(h + 1)}
            if not ctx.quick: bufs |= set(range(0, h + 3))
            for b in sorted(bufs): cmds.append("enc %d %d %d %d %d" % (r.randrange(4), r.randrange(2), t, l, b))
    for c in range(4):
        for k in range(2):
            for t in (0, 1, 30, 31, 127, 128, 16383, 16384):
                for l in (0, 127, 128, 255, 256, 65536):
                    for b in range(0, hl(t, l) + 3): cmds.append("enc %d %d %d %d %d" % (c, k, t, l, b))
    for _ in range(2000 if ctx.quick else 60000):
        t, l = r.randrange(1 << r.randrange(1, 64)), r.randrange(1 << r.randrange(1, 65))
        t = min(t, 2 ** 63 - 1)
        cmds.append("enc %d %d %d %d %d" % (r.randrange(4), r.randrange(2), t, l, max(0, hl(t, l) + r.randrange(-2, 4))))
    NID = 29
    for i in range(NID):
        for l in (0, 1, 100, 126, 127, 128, 129, 200, 254, 255, 256, 300, 65535, 65536, 70000, 2 ** 24 - 1, 2 ** 24, 2 ** 30):
            for b in {0, 1, r.randrange(30), 40, min(l, 70000) + r.randrange(28), min(l, 70000) + 40}:
                cmds.append("sid %d %d %d %d" % (i, l, r.randrange(2), b))
        for b in range(0, 30): cmds.append("sid %d %d %d %d" % (i, r.choice([0, 1, 3]), r.randrange(2), b))
        # in place wrapping around every header growth
        for l in [0, 1, 2, 3, 5, 100, 118, 119] + list(range(120, 133)) + [200] + list(range(244, 260)) + ([65530, 65536] if i in (3, 8, 24, 26) or not ctx.quick else []):
            for off in {0, 1, 2, 3, 4, r.randrange(0, 26)} if ctx.quick else set(range(0, 30)):
                if ctx.quick and l > 1000 and off not in (0, 2): continue
                base = max(l + off, l)
                for b in {base, base + r.randrange(0, 30), l + off + 30}: cmds.append("wrap %d %d %d %d %d" % (i, l, r.randrange(2), b, off))
    cmds = list(dict.fromkeys(cmds))
    ctx.log("%d commands" % len(cmds))
    ctx.conform(exe, "TraceCore", cmds)

def b03(ctx):
    exe = ctx.build([HARNESS + "/h_core.cpp"], "core")
    r = ctx.rng
    ins = [bytes(tla_seq(s)) for s in dump_states(ctx, "MC_Parse", "MC_Parse_iter6.cfg" if ctx.quick else "MC_Parse_iter7.cfg", "b")]
    for _ in range(5000 if ctx.quick else 60000):
        b = b"".join(random_tlv(r, r.randrange(4)) for _ in range(r.choice([1, 1, 2, 3, 6])))
        if len(b) > 1500: b = b[:1500]
        if r.random() < .5: b = corrupt(r, b)
        if r.random() < .6: b = enc_tag(r.randrange(4), 1, r.choice([16, 17, 0, 31, 300])) + enc_len(len(b)) + b
        if r.random() < .2: b = corrupt(r, b)
        ins.append(b)
    # every truncation of a few nested structures
    for _ in range(6 if ctx.quick else 60):
        inner = b"".join(random_tlv(r, 1)[:60] for _ in range(3))
        b = b"\x30" + enc_len(len(inner)) + inner
        ins += [b[:k] for k in range(len(b) + 1)] + [b"\x30" + enc_len(k) + inner[:k] for k in range(len(inner) + 1)]
    ins += [b"\x30" * 1 + enc_len(2 * 40) + b"\x05\x00" * 40, b"\x05\x00" * 200]
    # deep nesting
    d = b""
    for _ in range(60): d = b"\x30" + enc_len(len(d)) + d
    ins.append(d)
    ins += overflow_lengths()
    ins = list(dict.fromkeys(ins))
    ctx.log("%d inputs" % len(ins))
    ctx.conform(exe, "TraceCore", ["iter " + hx(b) for b in ins])

CHECKS = {"B01": b01, "B02": b02, "B03": b03}
