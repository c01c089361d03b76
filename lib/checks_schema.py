"""G01 to G08, E01, C02, C03, C05: generated code (Schema.tla, MC_Schema.tla, MC_Tags.tla, TraceSchema.tla)."""
import itertools, random
from core import *
from rig import Rig
import schema as S
from schema import *
from gen_schema import *
from checks_store import lists

DECODE = {"ok", "value", "back", "whole", "re-encoding", "re-encoded value", "out", "again"}
ENCODE = {"out", "value", "back", "whole", "again", "re-encoding", "re-encoded value"}

# ---- the pool of component types of MC_Schema ----
SLOT = {"a": tag(0, BOOL, 2, "I"), "b": tag(1, INT, 2, "E"),
        "c": choice(alt("x", tag(3, NULL, 2, "I")), alt("y", tag(1, OCTETS, 2, "I"))), "d": OCTETS,
        "e": tag(0, seq(comp("p", BOOL, "o"), comp("q", NULL, "o")), 1, "I")}
DEFAULT = {"a": vbool(True), "b": vint(7), "d": vstr("ab")}
VALUES = {"a": [True, False], "b": [octets(7), octets(-300)], "c": [[1, True], [2, [1, 2]]], "d": [[], [97, 98]],
          "e": [[[], []], [[True], [True]]]}
ELEM = [bytes(x) for x in ([128, 1, 255], [161, 3, 2, 1, 5], [131, 0], [129, 1, 7], [4, 1, 120], [96, 3, 1, 1, 0], [137, 0], [128, 2, 1, 1], [160, 3, 1, 1, 255])]

def mc_schema(ctx, kind, comps, words, ext):
    text = open(os.path.join(SPEC, "MC_Schema.cfg")).read()
    text = re.sub(r"Kind = .*", 'Kind = "%s"' % kind, text); text = re.sub(r"MaxComp = .*", "MaxComp = %d" % comps, text)
    text = re.sub(r"MaxWord = .*", "MaxWord = %d" % words, text); text = re.sub(r"Ext = .*", "Ext = %s" % ("TRUE" if ext else "FALSE"), text)
    rows = {}
    for cs, w in dump_pairs(ctx, "MC_Schema", "%s-%d-%d-%s" % (kind, comps, words, ext), ("cs", "w"), text):
        if kind == "choice" and not cs: continue
        rows.setdefault(tuple(tuple(x) for x in cs), []).append(w)
    return rows

def family(ctx, kind, rows, ext, name, per=16, header="EXPLICIT"):
    """Units with a type for each of the component lists. Returns units and (module, type) -> list."""
    units, at = [], {}
    ls = sorted(rows)
    for k in range(0, len(ls), per):
        m = Module("%s%d" % (name, k // per), header)
        for j, cs in enumerate(ls[k:k + per]):
            c = [comp("c%d" % i, SLOT[s], p, DEFAULT.get(s) if p == "d" else None) for i, (s, p) in enumerate(cs)]
            m.types["T%d" % j] = type_def({"seq": seq, "set": set_, "choice": choice}[kind](*c, ext=ext)); at[(m.name, "T%d" % j)] = cs
        m.order = list(m.types)
        units.append(Unit(m.name, [m], note="%s %d of MC_Schema" % (kind, k // per)))
    return units, at

def family_cmds(rig, kind, rows, at, keep=1.0, rng=None):
    cmds = []
    first = {"seq": 48, "set": 49}.get(kind)
    for mt, cs in at.items():
        if mt[0] not in rig.index: continue
        for w in rows[cs]:
            b = b"".join(ELEM[k - 1] for k in w)
            if keep < 1 and len(w) > 1 and rng.random() > keep: continue
            cmds.append(rig.d(mt, b if kind == "choice" else bytes([first, len(b)]) + b))
        if kind == "choice": vs = [[k + 1, v] for k, (s, p) in enumerate(cs) for v in VALUES[s]]
        else: vs = [list(v) for v in itertools.product(*[([] if p == "m" else [[]]) + [[v] for v in VALUES[s]] for s, p in cs])]
        if rng and len(vs) > 20: vs = rng.sample(vs, 20)
        for v in vs: cmds.append(rig.e(mt, v))
    return cmds

def synonyms():
    """The other names of two string types, in every place."""
    t61, iso = dict(string("TeletexString"), txt="T61String"), dict(string("VisibleString"), txt="ISO646String")
    m = Module("Synonyms", "EXPLICIT")
    m.types = {"T": type_def(t61), "I": type_def(iso), "S": type_def(seq(comp("a", t61), comp("b", iso, "o"), comp("c", tag(1, t61), "d", vstr("xyz")), comp("d", seq_of(t61), "o"))),
               "C": type_def(choice(alt("a", t61), alt("b", iso), alt("c", tag(0, t61)))), "L": type_def(set_of(iso)), "R": type_def(set_(comp("a", ref("T")), comp("b", ref("I"), "o")))}
    m.order = list(m.types)
    u = Unit("Synonyms", [m]); u.drive = [("Synonyms", n) for n in m.types]
    for n in m.types: u.check(u.closure(("Synonyms", n)))
    return u

def random_units(ctx, n, name="R", **kw):
    r = ctx.rng
    tags = kw.pop("tags", ["EXPLICIT", "IMPLICIT", "AUTOMATIC"])
    return [Gen(r, "%s%d" % (name, k), tags=tags[k % len(tags)], **kw).unit() for k in range(n)]

def tweak(r, u, c, v):
    """A value differing from v in one place (mostly)."""
    h = u.top(c); k = h["k"]
    if k == "of":
        x = r.random()
        if not v or x < .25: return v + [u.value(r, u.of(h), 3)]
        if x < .5: return v[:-1]
        i = r.randrange(len(v)); return v[:i] + [tweak(r, u, u.of(h), v[i])] + v[i + 1:]
    if k == "choice":
        cs = u.comps(h)
        if r.random() < .3: return u.value(r, c, 3)
        return [v[0], tweak(r, u, cs[v[0] - 1]["t"], v[1])]
    if k in ("seq", "set"):
        cs = u.comps(h)
        if not cs: return v
        i = r.randrange(len(cs))
        if not v[i]: new = [u.value(r, cs[i]["t"], 3)]
        elif cs[i]["p"] != "m" and r.random() < .4: new = []
        else: new = [tweak(r, u, cs[i]["t"], v[i][0])]
        return v[:i] + [new] + v[i + 1:]
    if k in ("str",) and v and r.random() < .8:
        i = r.randrange(len(v)); return r.choice([v[:i] + [(v[i] + 1) % 256] + v[i + 1:], v[:-1], v + [0]])
    return u.value(r, c, 3)

def respell(r, u, c, v):
    """The same value with some of its defaults omitted or written out."""
    h = u.top(c); k = h["k"]
    if k == "of": return [respell(r, u, u.of(h), x) for x in v]
    if k == "choice": return [v[0], respell(r, u, u.comps(h)[v[0] - 1]["t"], v[1])]
    if k not in ("seq", "set"): return v
    out = []
    for x, w in zip(u.comps(h), v):
        d = u.denotes(x["t"][0], x["t"], x["dv"]) if x["p"] == "d" else None
        if x["p"] == "d" and r.random() < .7 and w in ([], [d]): out.append([d] if not w else [])
        else: out.append([respell(r, u, x["t"], w[0])] if w else [])
    return out

def other(r, u, c, v):
    x = r.random()
    return v if x < .15 else respell(r, u, c, v) if x < .45 else tweak(r, u, c, v) if x < .9 else u.value(r, c)

def traffic(rig, ctx, n, ops="ded", units=None, mts=None):
    """Random commands: d decodings of right and damaged elements, e encodings, q comparisons."""
    r, cmds = ctx.rng, []
    todo = mts if mts is not None else [mt for u in (units or rig.units) for mt in u.drive]
    for mt in todo:
        u = rig.index.get(mt[0])
        if not u: continue
        c = u.closure(mt)
        for _ in range(n):
            for o in ops:
                v = u.value(r, c)
                if o == "e": cmds.append(rig.e(mt, v))
                elif o == "d": cmds.append(rig.d(mt, ser(u.tree(c, v), r, .15)))
                elif o == "m": cmds.append(rig.d(mt, mutate(r, u.tree(c, v))))
                elif o == "q":
                    w = other(r, u, c, v)
                    cmds.append(rig.q(mt, r.choice("bcmdoa") + r.choice("bcmdoa"), v, w))
                elif o == "p": cmds.append(rig.p(mt, r.choice("fo") + r.choice("fo"), ser(u.tree(c, v), r, .1), ser(u.tree(c, other(r, u, c, v), r), r, .3)))
    return cmds

def check_family(ctx, kind, exts, gen):
    comps, words = (2, 2) if ctx.quick else (3, 2)
    units, plan = [], []
    for ext in exts:
        rows = mc_schema(ctx, kind, comps, words, ext)
        us, at = family(ctx, kind, rows, ext, {"seq": "Q", "set": "S", "choice": "C"}[kind] + ("X" if ext else ""))
        units += us; plan.append((rows, at))
    # in the quick tier a part of the family, a different one for each seed
    if ctx.quick and len(units) > 12:
        units = ctx.rng.sample(units, 12)
    extra = gen(ctx)
    ctx.log("%d units of the family, %d random" % (len(units), len(extra)))
    if ctx.quick: batches = [units + extra]
    else: batches = [(units + extra)[k:k + 48] for k in range(0, len(units + extra), 48)]
    for b in batches:
        rig = Rig(ctx, b)
        cmds = []
        for rows, at in plan:
            cmds += family_cmds(rig, kind, rows, {mt: cs for mt, cs in at.items() if mt[0] in rig.index}, 1.0 if ctx.quick else .5, ctx.rng)
        cmds += traffic(rig, ctx, 6 if ctx.quick else 25, "ddmme", units=[u for u in rig.units if u in extra])
        rig.run(cmds)
        ctx.log("%d commands judged" % len(cmds))

def g01(ctx):
    ctx.fields = DECODE
    check_family(ctx, "seq", [False], lambda ctx: random_units(ctx, 9 if ctx.quick else 60, kinds=("seq", "seq", "seq", "choice", "of", "set"), tagp=.3, optp=.45))
def g02(ctx):
    ctx.fields = DECODE
    check_family(ctx, "set", [False, True], lambda ctx: random_units(ctx, 9 if ctx.quick else 60, kinds=("set", "set", "set", "choice", "of", "seq"), tagp=.6, optp=.45, ext=.4))
def g03(ctx):
    ctx.fields = DECODE
    check_family(ctx, "choice", [False, True], lambda ctx: random_units(ctx, 12 if ctx.quick else 60, kinds=("choice", "choice", "choice", "seq", "of"), tagp=.6, ext=.3))

def of_units(ctx, n):
    """Lists of everything, and lists in everything."""
    r, out = ctx.rng, []
    elems = [BOOL, INT, NULL, OID, OCTETS, string("UTF8String"), REAL, time("GeneralizedTime"), enum("a", ("b", 300)), tag(3, INT, 2, "E"), tag(200, OCTETS, 1, "I"),
             seq(comp("p", INT), comp("q", OCTETS, "o")), set_(comp("p", tag(0, BOOL)), comp("q", tag(1, INT), "d", vint(3))),
             choice(alt("p", INT), alt("q", OCTETS), alt("r", tag(5, NULL))), ref("Base"), seq_of(INT), set_of(OCTETS), seq_of(set_of(BOOL)), set_of(choice(alt("p", BOOL), alt("q", INT)))]
    for k in range(n):
        m = Module("L%d" % k, ["EXPLICIT", "IMPLICIT", "AUTOMATIC"][k % 3])
        m.types["Base"] = type_def(r.choice([seq(comp("x", seq_of(INT), "o")), choice(alt("x", seq_of(OCTETS)), alt("y", INT)), enum("a", "b"), string("IA5String")]))
        for j, e in enumerate(r.sample(elems, 6)):
            f = r.choice([seq_of, set_of]); t = f(e)
            x = r.random()
            if x < .2: t = tag(r.choice([0, 31, 1000]), t, r.choice([1, 2, 3]), r.choice(["", "E", "I"]))
            elif x < .4: t = seq(comp("l", t, r.choice("mo")), comp("m", tag(9, f(e)), r.choice("mo")))
            elif x < .5: t = choice(alt("l", t), alt("n", tag(9, f(e))))
            elif x < .6 and e["k"] == "ref": t = dict(seq_of(e), name="named")
            m.types["T%d" % j] = type_def(t)
        m.types["Rec"] = type_def(r.choice([seq(comp("v", INT), comp("kids", tag(0, seq_of(ref("Rec"))))), seq(comp("kids", set_of(ref("Rec")), "o"))]))
        m.order = list(m.types)
        u = Unit(m.name, [m])
        ok = []
        for n_ in m.types:
            try: u.check(u.closure((m.name, n_))); ok.append(n_)
            except Invalid: pass
        for n_ in list(m.types):
            if n_ not in ok: del m.types[n_]
        m.order = list(m.types); u.drive = [(m.name, n_) for n_ in m.types if n_ != "Base"]
        out.append(u)
    return out

def counted(r, u, c, n, depth=0):
    """A value whose outermost list has n elements."""
    h = u.top(c); k = h["k"]
    if k == "of": return [u.value(r, u.of(h), 5) for _ in range(n)]
    if k == "choice":
        i = r.randrange(len(u.comps(h))); return [i + 1, counted(r, u, u.comps(h)[i]["t"], n, depth + 1)] if depth < 4 else u.value(r, c, 5)
    if k in ("seq", "set"): return [[counted(r, u, x["t"], n, depth + 1)] if x["p"] == "m" or (depth < 3 and r.random() < .8) else [] for x in u.comps(h)]
    return u.value(r, c, 3)

def g04(ctx):
    lists(ctx)
    ctx.fields = DECODE | {"dirty", "copy", "el", "exact", "eq", "ne", "qe", "a", "c"}
    units = of_units(ctx, 14 if ctx.quick else 60)
    for b in range(0, len(units), 40):
        rig = Rig(ctx, units[b:b + 40])
        r, cmds = ctx.rng, []
        for u in rig.units:
            for mt in u.drive:
                c = u.closure(mt)
                ns = [0, 1, 2, 3, 4, 5, 6, 7, 11] + ([40] if ctx.quick else [40, 130, 300])
                for n in ns: cmds.append(rig.e(mt, counted(r, u, c, n)))
                for _ in range(6 if ctx.quick else 30):
                    v, w = counted(r, u, c, r.choice(ns[:9])), counted(r, u, c, r.choice(ns[:9]))
                    cmds.append(rig.d(mt, ser(u.tree(c, v), r, .1))); cmds.append(rig.d(mt, mutate(r, u.tree(c, w))))
                    cmds.append(rig.q(mt, r.choice("bcmdoa") + r.choice("cmdoa"), v, r.choice([v, w, tweak(r, u, c, v)])))
        rig.run(cmds); ctx.log("%d commands judged" % len(cmds))

def g05(ctx):
    ctx.fields = ENCODE
    units = random_units(ctx, 24 if ctx.quick else 160, unusual=.5) + [synonyms()]
    for b in range(0, len(units), 40):
        rig = Rig(ctx, units[b:b + 40])
        cmds = traffic(rig, ctx, 12 if ctx.quick else 60, "ee" if ctx.quick else "eed")
        # components of more octets than two length octets can tell
        mts = [mt for u in rig.units for mt in u.drive]; ctx.rng.shuffle(mts); n = 0
        for mt in mts:
            u = rig.index[mt[0]]; c = u.closure(mt); v = sized(ctx.rng, u, c, 66000) if n < (4 if ctx.quick else 12) and u.top(c)["k"] in ("seq", "set", "of") else None
            if v is not None: cmds.append(rig.e(mt, v)); n += 1
        rig.run(cmds)

def g06(ctx):
    ctx.fields = {"el", "exact", "larger", "smaller", "guard", "whole"}
    units = random_units(ctx, 18 if ctx.quick else 120, tagp=.5, unusual=.5) + of_units(ctx, 4 if ctx.quick else 20)
    for b in range(0, len(units), 40):
        rig = Rig(ctx, units[b:b + 40])
        cmds = traffic(rig, ctx, 8 if ctx.quick else 40, "ede")
        # values whose encoding lies around the sizes where the length octets grow
        for u in rig.units:
            for mt in u.drive:
                c = u.closure(mt)
                for n in (126, 128, 254, 256) + ((65534, 65536) if not ctx.quick else ()):
                    v = sized(ctx.rng, u, c, n)
                    if v is not None: cmds.append(rig.e(mt, v))
        rig.run(cmds)

def sized(r, u, c, n, depth=0):
    """A value with some string of about n octets, so that the lengths around it cross a boundary; None if there is no string."""
    h = u.top(c); k = h["k"]
    if depth > 5: return None
    if k == "str": return [r.randrange(256) for _ in range(max(0, n - r.randrange(0, 2 + 6 * depth)))]
    if k == "of":
        x = sized(r, u, u.of(h), n, depth + 1); return None if x is None else [x]
    if k == "choice":
        for i, x in enumerate(u.comps(h)):
            y = sized(r, u, x["t"], n, depth + 1)
            if y is not None: return [i + 1, y]
        return None
    if k in ("seq", "set"):
        out, hit = [], False
        for x in u.comps(h):
            y = None if hit else sized(r, u, x["t"], n, depth + 1)
            if y is not None: out.append([y]); hit = True
            else: out.append([u.value(r, x["t"], 6)] if x["p"] == "m" else [])
        return out if hit else None
    return None

def g07(ctx):
    ctx.fields = {"dirty", "trail", "copy", "back", "again", "eq", "ne", "exact", "guard"}
    units = random_units(ctx, 16 if ctx.quick else 100, unusual=.5, tagp=.5) + of_units(ctx, 4 if ctx.quick else 20)
    r = ctx.rng
    for b in range(0, len(units), 40):
        rig = Rig(ctx, units[b:b + 40]); cmds = []
        for u in rig.units:
            for mt in u.drive:
                c = u.closure(mt)
                for k in range(2 if ctx.quick else 8):
                    t = u.tree(c, u.value(r, c, 1)); w = ser(t, r, .1)
                    if len(w) > 400: continue
                    cuts = range(len(w)) if len(w) < 14 else sorted(r.sample(range(len(w)), 14))
                    for n in cuts: cmds.append(rig.d(mt, w[:n]))
                    for n in (cuts if len(w) < 10 else r.sample(range(len(w)), 8)):
                        x = bytearray(w); x[n] = r.choice([0, 0x7f, 0x80, 0x81, 0x84, 0x88, 0xff, x[n] ^ 1, x[n] ^ 0x20]); cmds.append(rig.d(mt, bytes(x)))
                    # hostile lengths at the head
                    body = w[:1] + r.choice([b"\x84\xff\xff\xff\xff", b"\x88" + b"\xff" * 8, b"\x88\x80" + b"\0" * 7, b"\x80", b"\xff", b"\x81", b"\x89" + b"\0" * 9]) + w[1:]
                    cmds.append(rig.d(mt, body)); cmds.append(rig.d(mt, w))
                    for _ in range(4): cmds.append(rig.d(mt, mutate(r, t)))
                    cmds.append(rig.d(mt, bytes(r.randrange(256) for _ in range(r.randrange(1, 24)))))
                    cmds.append(rig.e(mt, u.value(r, c)))
        rig.run(cmds); ctx.log("%d commands judged" % len(cmds))

# ---- tagging ----
def tag_states(ctx):
    return dump_pairs(ctx, "MC_Tags", "MC_Tags.cfg", ("d", "x", "chain", "pos"))

ALT = choice(alt("x", tag(0, NULL, 2, "I")), alt("y", tag(1, BOOL, 1, "I")))
ROW = [comp("p", tag(2, BOOL, 2, "I"))]
BASES = {"bool": BOOL, "seq": seq(*ROW), "set": set_(*ROW), "choice": ALT, "of": seq_of(BOOL), "rb": ref("RB"), "rt": ref("RT"), "rc": ref("RC"), "rs": ref("RS")}
BASEV = {"bool": True, "rb": True, "rt": True, "seq": [[True]], "set": [[True]], "rs": [[True]], "choice": [2, True], "rc": [2, True], "of": [True, False]}

def tag_units(ctx, states, per=14):
    by = {}
    for s in states: by.setdefault(s[0], []).append(s)
    units, at = [], {}
    for d, ls in sorted(by.items()):
        k = 0
        while k < len(ls):
            m = Module("G%s%d" % (d[0], k), d)
            m.types.update({"RB": type_def(BOOL), "RT": type_def(tag(5, BOOL, 1, "")), "RC": type_def(ALT), "RS": type_def(seq(*ROW))})
            u = Unit(m.name, [m], note="tags %s %d" % (d, k)); n = 0
            while k < len(ls) and n < per:
                _, x, chain, pos = ls[k]; k += 1
                t = BASES[x]
                for c, num, mode in chain: t = tag(num, t, c, mode)
                v = BASEV[x]
                t, v = {"top": (t, v), "comp": (seq(comp("c0", t)), [[v]]), "opt": (set_(comp("c0", t, "o")), [[v]]), "alt": (choice(alt("c0", t)), [1, v]), "elem": (set_of(t), [v, v])}[pos]
                name = "T%d" % n; m.types[name] = type_def(t)
                try: u.check(u.closure((m.name, name)))
                except Invalid: del m.types[name]; continue       # beyond two levels
                at[(m.name, name)] = v; n += 1
            m.order = list(m.types)
            u.drive = [(m.name, t) for t in m.types if t[0] == "T"]
            units.append(u)
    return units, at

def retag(r, t):
    """t with the identifier or form of one element changed."""
    t = S.copy(t); n, p = r.choice(nodes(t))
    op = r.randrange(5)
    if op == 0: n[0] = (n[0] + r.randrange(1, 4)) % 4
    elif op == 1: n[1] ^= 1
    elif op == 2: n[2] = n[2] ^ r.choice([1, 2, 32, 64, 128, 256, 1 << 33])
    elif op == 3 and isinstance(n[3], list) and len(n[3]) == 1: x = n[3][0]; n[0], n[1], n[2], n[3] = x
    else: n[3] = [S.copy(n)]; n[1] = 1
    return ser(t)

def g08(ctx):
    ctx.fields = DECODE
    st = tag_states(ctx); st = sorted(st, key=str)
    r = ctx.rng
    few = [s for s in st if len(s[2]) <= 1]; many = [s for s in st if len(s[2]) == 2]
    pick = (r.sample(few, 110) + r.sample(many, 60)) if ctx.quick else (few + r.sample(many, 900))
    units, at = tag_units(ctx, sorted(pick, key=str))
    extra = random_units(ctx, 8 if ctx.quick else 50, tagp=.8, kinds=("seq", "set", "choice", "of", "choice"))
    for b in range(0, len(units + extra), 48):
        rig = Rig(ctx, (units + extra)[b:b + 48]); cmds = []
        for u in rig.units:
            for mt in u.drive:
                c = u.closure(mt)
                for v in ([at[mt]] if mt in at else []) + [u.value(r, c) for _ in range(2 if mt in at else 8)]:
                    t = u.tree(c, v)
                    cmds.append(rig.e(mt, v)); cmds.append(rig.d(mt, ser(t)))
                    for _ in range(4): cmds.append(rig.d(mt, retag(r, t)))
        rig.run(cmds); ctx.log("%d commands judged" % len(cmds))

def e01(ctx):
    ctx.fields = {"eq", "ne", "qe"}
    units = random_units(ctx, 20 if ctx.quick else 140, reals=False, optp=.5) + of_units(ctx, 4 if ctx.quick else 20)
    for b in range(0, len(units), 40):
        rig = Rig(ctx, units[b:b + 40])
        rig.run(traffic(rig, ctx, 12 if ctx.quick else 60, "qqp" if ctx.quick else "qqppd"))

# ---- references between modules, parameterized types ----
def model_units(ctx, module, n, name, per=5, text=None):
    """Units of some of the schemas of a model."""
    def some(texts):
        texts = sorted(t for t in texts if not re.search(r"^/\\ mods = <<>>", t, re.M))
        return ctx.rng.sample(texts, min(n, len(texts)))
    pick = dump_pairs(ctx, module, module if text else module + ".cfg", ("pick", "mods"), text, some)
    out = []
    for k in range(0, len(pick), per):
        ms = []
        for j, (p, mods) in enumerate(pick[k:k + per]): ms += modules_of(mods, "%s%dx%d" % (name, k // per, j), ctx.rng)
        out.append(Unit(ms[0].name, ms, note="%s %s" % (module, ", ".join(json.dumps(p, sort_keys=True) for p, _ in pick[k:k + per]))))
    return out

def modular(ctx, units, n, ops, per=40):
    for b in range(0, len(units), per):
        rig = Rig(ctx, units[b:b + per])
        rig.run(traffic(rig, ctx, n, ops) + rig.names()); ctx.log("%d commands judged" % ctx.commands)
    return rig

def c02(ctx):
    ctx.fields = None
    q = ctx.quick
    units = model_units(ctx, "MC_Resolve", 50 if q else 600, "r")
    units += [MultiGen(ctx.rng, "M%d" % k, nmods=ctx.rng.choice([2, 3, 3, 4])).unit() for k in range(12 if q else 100)]
    modular(ctx, units, 3 if q else 12, "ede" + "m")

def c03(ctx):
    ctx.fields = None
    q = ctx.quick
    units = model_units(ctx, "MC_Expand", 50 if q else 500, "e")
    units += [MultiGen(ctx.rng, "P%d" % k, nmods=ctx.rng.choice([1, 2, 3]), param=ctx.rng.choice([0, .3, .5]), compof=ctx.rng.choice([.3, .7])).unit() for k in range(12 if q else 100)]
    modular(ctx, units, 3 if q else 12, "ede" + "m")
    modular(ctx, holders(ctx), 1 if q else 6, "ed", 15)

# Where a parameter may stand.
HOLDERS = [lambda x: tag(21, x, 2, "E"), lambda x: tag(22, x, 1, "E"), lambda x: seq(comp("f", BOOL), comp("x", tag(1, x))), lambda x: seq(comp("x", tag(2, x), "o"), comp("g", NULL)),
           lambda x: set_(comp("x", tag(3, x), "o"), comp("f", BOOL)), lambda x: choice(alt("n", NULL), alt("x", tag(4, x))),
           lambda x: dict(seq_of(x), name=""), lambda x: dict(seq_of(x), name="item"), lambda x: dict(set_of(x), name=""), lambda x: dict(set_of(x), name="item"),
           lambda x: ref("Box", x), lambda x: ref("Pair", BOOL, x), lambda x: ref("Pair", x, OCTETS)]
def holders(ctx, per=13):
    """Templates with their parameter below every two places, and a type of each."""
    r, out = ctx.rng, []
    # a parameter hides a type of its name
    actuals = [INT, OCTETS, seq(comp("u", INT, "o")), choice(alt("u", BOOL), alt("v", INT)), ref("Own"), ref("Box", BOOL), enum("u", ("v", 7)), dict(set_of(INT), name="w"), tag(9, NULL, 2, "E")]
    every = list(itertools.product(HOLDERS, repeat=2)); r.shuffle(every)
    for k in range(0, len(every), per):
        m = Module("Hold%d" % (k // per), r.choice(["EXPLICIT", "IMPLICIT"])); P = r.choice(["P", "Own2", "X-param"])
        m.types["Own"] = type_def(seq(comp("own", REAL, "o"))); m.types["Box"] = type_def(seq(comp("b", ref("Q"))), "Q"); m.types["Pair"] = type_def(seq(comp("l", tag(1, ref("L"))), comp("r", tag(2, ref("R")))), "L", "R")
        if r.random() < .5: m.types[P] = type_def(seq(comp("hidden", tag(30, BOOL))))
        for j, (f, g) in enumerate(every[k:k + per]):
            m.types["T%d" % j] = type_def(f(g(ref(P))), P); m.types["N%d" % j] = type_def(ref("T%d" % j, r.choice(actuals)))
        m.order = list(m.types); r.shuffle(m.order)
        u = Unit(m.name, [m], note="places of a parameter %d" % (k // per)); u.drive = [mt for mt in u.drive if mt[1][0] == "N"]; good = []
        for mt in u.drive:
            try: u.check(u.closure(mt)); good.append(mt)
            except Invalid:
                for x in (mt[1], "T" + mt[1][1:]): del m.types[x]; m.order.remove(x)
        u.drive = good; out.append(u)
    return out

# Names which are words of C++, or of what is generated, or which C++ cannot have.
ODD_TYPES = ["Class", "Is-Const", "Namespace", "Operator-T", "Value", "Data", "Tag", "Result", "T-1-b", "AsnId-x", "Std", "Absl", "List", "Self", "Index", "Impl", "Output-1", "Input", "Iterator", "Length"]
ODD_COMPS = ["class", "int", "new", "delete", "operator", "this", "template", "my-name", "a-b-c", "value", "data", "length", "output", "input", "iterator", "result", "namespace", "private", "union", "std", "content", "success", "id", "index", "default", "switch", "res", "true", "nullptr", "auto"]
def odd(ctx, u, name):
    r = ctx.rng
    ts = sorted({n for m in u.modules for n in m.types}); cs = sorted({c["n"] for m in u.modules for t in m.types.values() for c in components_in(t["t"])} - {""})
    types = dict(zip(ts, r.sample(ODD_TYPES, min(len(ts), len(ODD_TYPES))))); comps = dict(zip(cs, r.sample(ODD_COMPS, min(len(cs), len(ODD_COMPS)))))
    return rewritten(u, name, r, {m.name: "%s-%s" % (name, m.name) for m in u.modules}, types, comps)
def components_in(a):
    if a["k"] in ("seq", "set", "choice"):
        for c in a["c"]: yield c; yield from components_in(c["t"])
    elif a["k"] in ("of", "tag"): yield from components_in(a["t"])
    elif a["k"] == "ref":
        for x in a["args"]: yield from components_in(x)

# Valid schemas the code is known not to cope with, by their keys in known-findings.json.
LIMITS = {"nested-mandatory": "B ::= CHOICE { a SEQUENCE { x B }, n NULL }", "nested-optional": "B ::= SEQUENCE { c SEQUENCE { x B } OPTIONAL }",
          "tagged-element": "B ::= SEQUENCE OF [1] B"}

# Ways in which a type may contain another and still have finite values.
LINKS = [lambda x, n: dict(seq_of(x), name=""), lambda x, n: dict(seq_of(x), name="item"), lambda x, n: dict(set_of(x), name=""), lambda x, n: dict(set_of(x), name="item"),
         lambda x, n: seq(comp("a", INT), comp("r" + n, tag(1, x), "o")), lambda x, n: set_(comp("a", INT), comp("r" + n, tag(2, x), "o")),
         lambda x, n: choice(alt("r" + n, tag(3, x)), alt("z", NULL)), lambda x, n: choice(alt("z", NULL), alt("r" + n, tag(4, x))),
         lambda x, n: seq(comp("r" + n, set_of(x)), comp("b", BOOL)), lambda x, n: set_(comp("r" + n, tag(5, seq_of(x)), "o")),
         lambda x, n: choice(alt("z", NULL), alt("r" + n, tag(6, set_of(x))))]

def rings(ctx, size, per, every=1.0):
    """Types which contain each other in a ring, by every combination of links."""
    r, out = ctx.rng, []
    combos = [ks for ks in itertools.product(range(len(LINKS)), repeat=size) if ks[0] == min(ks) and r.random() < every]
    r.shuffle(combos)
    for k in range(0, len(combos), per):
        m = Module("Ring%dx%d" % (size, k // per), r.choice(["EXPLICIT", "IMPLICIT"]))
        for j, ks in enumerate(combos[k:k + per]):
            for i, l in enumerate(ks): m.types["T%dx%d" % (j, i)] = type_def(LINKS[l](ref("T%dx%d" % (j, (i + 1) % size)), str(i)))
        m.order = list(m.types); r.shuffle(m.order)
        out.append(Unit(m.name, [m], note="rings of %d: %s" % (size, " ".join("".join(map(str, ks)) for ks in combos[k:k + per]))))
    return out

def c01(ctx):
    ctx.fields = None
    q, r = ctx.quick, ctx.rng
    units = model_units(ctx, "MC_Order", 48 if q else 1500, "o", 6)
    base = [Gen(r, "G%d" % k, tags=["EXPLICIT", "IMPLICIT", "AUTOMATIC"][k % 3], ntypes=r.choice([4, 7, 10]), recursive=.25).unit() for k in range(4 if q else 60)]
    base += [MultiGen(r, "M%d" % k, nmods=r.choice([2, 3, 4]), param=r.choice([0, .3]), compof=r.choice([0, .3])).unit() for k in range(4 if q else 60)]
    base += [ConstGen(r, "K%d" % k, nmods=2).unit() for k in range(2 if q else 20)]
    # the same schema, in other orders
    for u in base:
        units.append(u)
        for k in range(1 if q else 3):
            x = "%sp%d" % (u.name, k); units.append(rewritten(u, x, r, {m.name: m.name + "p%d" % k for m in u.modules}))
        if r.random() < .6: units.append(odd(ctx, u, "X" + u.name))
    units.append(synonyms())
    units += rings(ctx, 2, 11) + ([] if q else rings(ctx, 3, 20, .5))
    for u in units:
        if not u.note: u.note = u.name + " " + " ".join(u.text().split())[:150]
    asnc = modular(ctx, units, 2 if q else 6, "edem", 48).asnc; d = ctx.path("limits"); os.makedirs(d, exist_ok=True)
    for key, text in LIMITS.items():
        f = os.path.join(d, key); open(f + ".asn", "w").write("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN %s END\n" % text); open(f + ".cpp", "w").write('#include "%s.hpp"\n::fast_ber::M::B b;\n' % key)
        rc, o, e = run([asnc, f + ".asn", f], 60)
        if rc == 0: rc, o, e = run([CXX] + BASE + ["-I" + os.path.join(REPO, "include"), "-fsyntax-only", f + ".cpp"], 120)
        if rc != 0: ctx.reject("limit " + key, "does not compile", {"schema": text, "why": e[-600:]})

def c05(ctx):
    ctx.fields = None
    q = ctx.quick
    text = open(os.path.join(SPEC, "MC_Constants.cfg")).read()
    if not q: text = text.replace("MaxItems = 3", "MaxItems = 5").replace("Full = 2", "Full = 3")
    else: text = text.replace("MaxItems = 3", "MaxItems = 4")
    units = model_units(ctx, "MC_Constants", 40 if q else 500, "k", text=text)
    units += [ConstGen(ctx.rng, "N%d" % k, nmods=ctx.rng.choice([1, 2, 2, 3])).unit() for k in range(14 if q else 120)]
    for b in range(0, len(units), 40):
        rig = Rig(ctx, units[b:b + 40]); cmds = rig.names(); r = ctx.rng
        for u in rig.units:
            for mt in u.drive:
                if mt[1] not in ("S", "C", "D"): continue
                c = u.closure(mt)
                for _ in range(6 if q else 25):
                    v = around_defaults(r, u, c)
                    cmds.append(rig.e(mt, v)); cmds.append(rig.d(mt, ser(u.tree(c, v), r, .1)))
                cmds.append(rig.e(mt, [[] for _ in v])); cmds.append(rig.d(mt, mutate(r, u.tree(c, v))))
        rig.run(cmds); ctx.log("%d commands judged" % ctx.commands)

CHECKS = {"C01": c01, "C05": c05, "C02": c02, "C03": c03, "G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05, "G06": g06, "G07": g07, "G08": g08, "E01": e01}
