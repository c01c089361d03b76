"""ASN.1 schemas as data: text for the compiler, abstract syntax for the specification, C++ glue for the
generated code, and generation of schemas, values and octets. Not an oracle: verdicts come from Schema.tla."""
import json, os, random, struct

UTAG = {"bool": 1, "int": 2, "null": 5, "oid": 6, "real": 9, "enum": 10, "seq": 16, "set": 17}
STR = {"BIT STRING": 3, "OCTET STRING": 4, "UTF8String": 12, "NumericString": 18, "PrintableString": 19, "TeletexString": 20,
       "VideotexString": 21, "IA5String": 22, "GraphicString": 25, "VisibleString": 26, "GeneralString": 27,
       "UniversalString": 28, "BMPString": 30}
TIME = {"UTCTime": 23, "GeneralizedTime": 24}
CLS = {"UNIVERSAL": 0, "APPLICATION": 1, "": 2, "PRIVATE": 3}

# ---- abstract syntax ----
BOOL, INT, NULL, OID, REAL = {"k": "bool"}, {"k": "int", "nn": []}, {"k": "null"}, {"k": "oid"}, {"k": "real"}
def named_int(**kw): return {"k": "int", "nn": [{"n": n, "v": octets(v)} for n, v in kw.items()]}
def string(name): return {"k": "str", "u": STR[name], "txt": name}
OCTETS = string("OCTET STRING")
def time(name): return {"k": "time", "u": TIME[name], "txt": name}
def enum(*items): return {"k": "enum", "items": [{"n": i[0], "v": [i[1]]} if isinstance(i, tuple) else {"n": i, "v": []} for i in items]}
def comp(n, t, p="m", dv=None): return {"n": n, "t": t, "p": p, "dv": dv or {"k": "none"}}
def components_of(t): return {"n": "", "t": t, "p": "components", "dv": {"k": "none"}}
def seq(*c, ext=False, exts=()): return {"k": "seq", "c": list(c) + list(exts), "ext": ext or bool(exts), "root": len(c)}
def set_(*c, ext=False, exts=()): return {"k": "set", "c": list(c) + list(exts), "ext": ext or bool(exts), "root": len(c)}
def choice(*c, ext=False, exts=()): return {"k": "choice", "c": list(c) + list(exts), "ext": ext or bool(exts), "root": len(c)}
def alt(n, t): return comp(n, t)
def of(u, t): return {"k": "of", "u": u, "t": t, "name": element_name()}
def seq_of(t): return of(16, t)
def set_of(t): return of(17, t)
def tag(num, t, cls=2, mode=""): return {"k": "tag", "cls": cls, "num": digits(num, 128), "mode": mode, "t": t, "dec": num}
def ref(n, *args, mod=""): return {"k": "ref", "mod": mod, "n": n, "args": list(args)}
def digits(n, base):
    d = [n % base]
    while n >= base: n //= base; d.insert(0, n % base)
    return d
def octets(v): return list((v & ((1 << 64) - 1)).to_bytes(8, "big"))
def from_octets(o): return int.from_bytes(bytes(o), "big", signed=True)
def vint(n): return {"k": "int", "v": octets(n), "txt": str(n)}
def vbool(b): return {"k": "bool", "v": b, "txt": "TRUE" if b else "FALSE"}
def vname(n): return {"k": "name", "n": n, "txt": n}
def vstr(s): return {"k": "str", "v": list(s.encode("latin1")), "txt": '"%s"' % s.replace('"', '""')}
def vhex(b): return {"k": "str", "v": list(b), "txt": "'%s'H" % bytes(b).hex().upper()}
def vreal(txt):
    t = txt; neg = t.startswith("-"); t = t.lstrip("-")
    m, _, e = t.partition("E"); e = int(e or 0); ip, _, fp = m.partition(".")
    d = (ip + fp).lstrip("0"); e -= len(fp)
    while d.endswith("0"): d = d[:-1]; e += 1
    return {"k": "real", "neg": neg, "dec": [int(x) for x in d] or [0], "e10": e if d else 0, "txt": txt}
def voi(*arcs): return {"k": "oid", "v": [digits(a, 128) for a in arcs], "txt": "{ " + " ".join(map(str, arcs)) + " }"}

def type_def(t, *params): return {"params": list(params), "t": t}
def value_def(t, v): return {"t": t, "v": v}

class Module:
    def __init__(self, name, tags="EXPLICIT", imports=(), types=(), vals=(), order=None, header=None):
        self.name, self.tags = name, tags
        self.imports = [{"from": f, "names": list(n)} for f, n in imports]
        self.types = {n: t if "params" in t else type_def(t) for n, t in types}
        self.vals = dict(vals)
        self.order = order or list(self.types) + list(self.vals)
        self.header = header or {"EXPLICIT": "EXPLICIT TAGS ", "IMPLICIT": "IMPLICIT TAGS ", "AUTOMATIC": "AUTOMATIC TAGS "}[tags]
    def ast(self): return {"tags": self.tags, "imports": self.imports, "types": {n: strip(t) for n, t in self.types.items()},
                           "vals": {n: strip(v) for n, v in self.vals.items()}}
    def text(self):
        o = ["%s DEFINITIONS %s::= BEGIN" % (self.name, self.header)]
        if self.imports: o.append("IMPORTS " + " ".join("%s FROM %s" % (", ".join(i["names"]), i["from"]) for i in self.imports) + ";")
        for n in self.order:
            if n in self.types:
                t = self.types[n]
                o.append("%s%s ::= %s" % (n, " {%s}" % ", ".join(t["params"]) if t["params"] else "", text(t["t"])))
            else:
                v = self.vals[n]
                o.append("%s %s ::= %s" % (n, text(v["t"]), v["v"]["txt"]))
        return "\n".join(o + ["END", ""])

def strip(x):
    """Leaves out what the specification does not need."""
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("txt", "dec_", "root", "name")
                                    and not (k == "dec" and x.get("k") == "tag") or (k == "root" and x["k"] in ("seq", "set") and v < len(x["c"]))}
    if isinstance(x, list): return [strip(v) for v in x]
    return x

def number(mods):
    """Numbers the type expressions and lists them, for the specification to resolve beforehand."""
    nodes = []
    def walk(m, a, g):
        nodes.append({"m": m, "a": a, "g": g}); a["i"] = len(nodes)
        k = a["k"]
        if k in ("seq", "set", "choice"):
            for c in a["c"]: walk(m, c["t"], g)
        elif k in ("of", "tag"): walk(m, a["t"], g)
        elif k == "ref":
            for x in a["args"]: walk(m, x, g)
    for m, mod in mods.items():
        for t in mod["types"].values(): walk(m, t["t"], not t["params"])
        for v in mod["vals"].values(): walk(m, v["t"], True)
    return nodes

# Elements may have a name, which means nothing.
ELEMENT_NAMES = ["", "", "", "item", "e0", "value", "class", "my-item"]
NAMING = random.Random(os.environ.get("VERIF_SEED", "1"))
def element_name(): return NAMING.choice(ELEMENT_NAMES)

def text(a):
    k = a["k"]
    if k == "bool": return "BOOLEAN"
    if k == "int": return "INTEGER" + (" { " + ", ".join("%s(%d)" % (n["n"], from_octets(n["v"])) for n in a["nn"]) + " }" if a["nn"] else "") + a.get("con", "")
    if k == "null": return "NULL"
    if k == "oid": return "OBJECT IDENTIFIER"
    if k == "real": return "REAL"
    if k in ("str", "time"): return a["txt"]
    if k == "enum":
        o = [i["n"] + ("(%d)" % i["v"][0] if i["v"] else "") for i in a["items"]]
        if a.get("root", 0): o.insert(a["root"], "...")
        return "ENUMERATED { " + ", ".join(o) + " }"
    if k in ("seq", "set", "choice"):
        def one(c):
            if c["p"] == "components": return "COMPONENTS OF " + text(c["t"])
            return c["n"] + " " + text(c["t"]) + {"m": "", "o": " OPTIONAL", "d": " DEFAULT " + c["dv"].get("txt", "")}[c["p"]]
        parts = [one(c) for c in a["c"][:a["root"]]]
        if a["ext"]: parts += ["..."] + [one(c) for c in a["c"][a["root"]:]]
        return {"seq": "SEQUENCE", "set": "SET", "choice": "CHOICE"}[k] + " { " + ", ".join(parts) + " }"
    if k == "of": return ("SEQUENCE OF " if a["u"] == 16 else "SET OF ") + (a["name"] + " " if a["name"] else "") + text(a["t"])
    if k == "tag": return "[%s%d] %s%s" % ({0: "UNIVERSAL ", 1: "APPLICATION ", 2: "", 3: "PRIVATE "}[a["cls"]], a["dec"], {"": "", "E": "EXPLICIT ", "I": "IMPLICIT "}[a["mode"]], text(a["t"]))
    if k == "ref": return (a["mod"] + "." if a["mod"] else "") + a["n"] + ("{" + ", ".join(text(x) for x in a["args"]) + "}" if a["args"] else "")
    raise KeyError(k)

TXT = {u: n for d in (STR, TIME) for n, u in d.items()}
def from_spec(a, names):
    """A type expression of the specification as one of ours; names: modules renamed."""
    k = a["k"]; f = lambda x: from_spec(x, names)
    if k in ("str", "time"): return dict(a, txt=TXT[a["u"]])
    if k in ("seq", "set", "choice"):
        return dict(a, c=[dict(c, t=f(c["t"]), dv=dict(c["dv"], txt=c["dv"].get("n") or str(from_octets(c["dv"]["v"]))) if c["dv"]["k"] != "none" else c["dv"]) for c in a["c"]],
                    root=a.get("root", len(a["c"])))
    if k == "of": return of(a["u"], f(a["t"]))
    if k == "tag":
        n = 0
        for d in a["num"]: n = n * 128 + d
        return dict(a, t=f(a["t"]), dec=n)
    if k == "ref": return dict(a, mod=names.get(a["mod"], ""), args=[f(x) for x in a["args"]])
    return dict(a)

def modules_of(mods, suffix, rng):
    """The modules of a state of a model, written in some order."""
    names = {m: m + suffix for m in mods}; out = []
    for m, d in mods.items():
        types = {n: {"params": t["params"], "t": from_spec(t["t"], names)} for n, t in (d["types"] or {}).items()}
        vals = {n: {"t": from_spec(v["t"], names), "v": dict(v["v"], txt=v["v"].get("n") or str(from_octets(v["v"]["v"])))} for n, v in (d["vals"] or {}).items()}
        order = list(types) + list(vals); rng.shuffle(order)
        x = Module(names[m], d["tags"], [(names[i["from"]], i["names"]) for i in d["imports"]], types.items(), vals.items(), order)
        out.append(x)
    rng.shuffle(out)
    return out

def rewritten(u, name, rng, modules, types={}, comps={}):
    """A unit with other names for its modules, types and components, its definitions and modules in another order."""
    def walk(a):
        a = dict(a)
        if a["k"] == "ref": a.update(mod=modules.get(a["mod"], a["mod"]), n=types.get(a["n"], a["n"]), args=[walk(x) for x in a["args"]])
        elif a["k"] in ("seq", "set", "choice"): a["c"] = [dict(c, n=comps.get(c["n"], c["n"]), t=walk(c["t"])) for c in a["c"]]
        elif a["k"] in ("of", "tag"): a["t"] = walk(a["t"])
        return a
    out = []
    for m in u.modules:
        x = Module(modules[m.name], m.tags, [(modules[i["from"]], [types.get(n, n) for n in i["names"]]) for i in m.imports],
                   [(types.get(n, n), type_def(walk(t["t"]), *t["params"])) for n, t in m.types.items()],
                   {n: value_def(walk(v["t"]), v["v"]) for n, v in m.vals.items()}, header=m.header)
        rng.shuffle(x.order); rng.shuffle(x.imports)
        for i in x.imports: rng.shuffle(i["names"])
        out.append(x)
    rng.shuffle(out)
    return Unit(name, out, [(modules[m], types.get(n, n)) for m, n in u.drive], u.note)

class Invalid(Exception): pass

class Unit:
    """A set of modules compiled together. drive: the (module, type) pairs exercised."""
    def __init__(self, name, modules, drive=None, note=""):
        self.name, self.modules, self.note = name, modules, note
        self.mods = {m.name: m for m in modules}
        self.drive = drive if drive is not None else [(m.name, n) for m in modules for n in m.types if not m.types[n]["params"]]
    def ast(self): return {m.name: m.ast() for m in self.modules}
    def text(self): return "\n".join(m.text() for m in self.modules)

    # the same reading of a schema as in Schema.tla, for generating inputs and glue
    def home(self, m, n, vals=False):
        mod = self.mods.get(m)
        if mod is None: raise Invalid("module " + m)
        if n in (mod.vals if vals else mod.types): return m
        for i in mod.imports:
            if n in i["names"]: return self.home(i["from"], n, vals)
        raise Invalid("undefined " + n)
    def top(self, c, depth=0):
        m, a, b = c
        if depth > 60: raise Invalid("circular")
        k = a["k"]
        if k == "ref":
            if not a["mod"] and a["n"] in b: return self.top(b[a["n"]], depth + 1)
            h = self.home(a["mod"] or m, a["n"]); d = self.mods[h].types[a["n"]]
            return self.top((h, d["t"], {p: (m, x, b) for p, x in zip(d["params"], a["args"])}), depth + 1)
        if k == "tag":
            h = dict(self.top((m, a["t"], b), depth + 1)); i = (a["cls"], a["dec"])
            ex = a["mode"] == "E" or (a["mode"] == "" and self.mods[m].tags == "EXPLICIT")
            h["ids"] = [i] if not h["ids"] else [i] + h["ids"] if ex else [i] + h["ids"][1:]
            return h
        if k == "choice": return {"k": k, "ids": [], "a": a, "m": m, "b": b}
        return {"k": k, "ids": [(0, UTAG.get(k) or a["u"])], "a": a, "m": m, "b": b}
    def written(self, h, last=None):
        out = []
        for x in h["a"]["c"][:last]:
            t = (h["m"], x["t"], h["b"])
            if x["p"] == "components": i = self.top(t); out += self.written(i, i["a"]["root"])
            else: out.append({"n": x["n"], "t": t, "p": x["p"], "dv": x["dv"]})
        return out
    def automatic(self, h): return self.mods[h["m"]].tags == "AUTOMATIC" and all(x["p"] == "components" or x["t"]["k"] != "tag" for x in h["a"]["c"])
    def comps(self, h):
        w = self.written(h)
        if self.automatic(h):
            w = [dict(x, t=(x["t"][0], tag(i, x["t"][1], 2, "I"), x["t"][2])) for i, x in enumerate(w)]
        return w
    def of(self, h): return (h["m"], h["a"]["t"], h["b"])
    def outer(self, c):
        h = self.top(c)
        if h["ids"]: return {h["ids"][0]}
        return set().union(*[self.outer(x["t"]) for x in self.comps(h)])
    def check(self, c, seen=None, depth=0):
        """Raises Invalid if the type is not valid ASN.1 (or beyond two levels of tags)."""
        if seen is None: seen, self._heights = set(), {}
        key = json.dumps([c[0], c[1], str(c[2])], sort_keys=True)
        if key in seen: return
        seen.add(key)
        h = self.top(c)
        if len(h["ids"]) > 2: raise Invalid("tag depth")
        if h["k"] == "of": return self.check(self.of(h), seen)
        if h["k"] in ("seq", "set", "choice"):
            cs = self.comps(h)
            outs = [self.outer(x["t"]) for x in cs]
            for i in range(len(cs)):
                for j in range(i + 1, len(cs)):
                    if h["k"] == "seq" and not (cs[i]["p"] != "m" and all(x["p"] != "m" for x in cs[i + 1:j])): continue
                    if outs[i] & outs[j]: raise Invalid("ambiguous")
            if len({x["n"] for x in cs}) != len(cs): raise Invalid("duplicate component")
            if self.weight(c) >= 100: raise Invalid("no finite value")
            for x in cs: self.check(x["t"], seen)
    def has_real(self, c, seen=None):
        seen = set() if seen is None else seen
        h = self.top(c); key = json.dumps([h["m"], h["a"], str(h["b"])], sort_keys=True)
        if key in seen: return False
        seen.add(key)
        if h["k"] == "real": return True
        if h["k"] == "of": return self.has_real(self.of(h), seen)
        if h["k"] in ("seq", "set", "choice"): return any(self.has_real(x["t"], seen) for x in self.written(h))
        return False
    def denotes(self, m, c, v):
        """The value written as v where one of type c is expected."""
        h = self.top(c)
        if v["k"] == "name":
            if h["k"] == "enum" and v["n"] in [i["n"] for i in h["a"]["items"]]:
                return octets(enum_numbers(h["a"]["items"])[[i["n"] for i in h["a"]["items"]].index(v["n"])])
            if h["k"] == "int" and v["n"] in [i["n"] for i in h["a"]["nn"]]: return [i["v"] for i in h["a"]["nn"] if i["n"] == v["n"]][0]
            w = self.home(m, v["n"], True); d = self.mods[w].vals[v["n"]]
            return self.denotes(w, (w, d["t"], {}), d["v"])
        if v["k"] == "real": return {"c": [], "d": list(struct.pack(">d", float(v["txt"]))), "l": []}
        return v["v"]
    def closure(self, mt): return (mt[0], ref(mt[1]), {})
    def noreal(self, mt):
        if not hasattr(self, "_nr"): self._nr = {}
        if mt not in self._nr: self._nr[mt] = 0 if self.has_real(self.closure(mt)) else 1
        return self._nr[mt]

    # ---- values ----
    def value(self, rng, c, depth=0, big=0.02):
        h = self.top(c); k = h["k"]
        if k == "bool": return rng.random() < .5
        if k == "null": return True
        if k == "int":
            n = rng.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, -32768, 32768, (1 << 31) - 1, -(1 << 31), (1 << 63) - 1, -(1 << 63), rng.getrandbits(64) - (1 << 63), rng.randrange(-300, 300)])
            return octets(n)
        if k == "enum":
            return octets(rng.choice(enum_numbers(h["a"]["items"])))
        if k == "oid": return [digits(x, 128) for x in rng.choice([[0, 0], [1, 39], [2, 999, 3], [1, 2, 840, 113549], [2, 5, 4, 3, rng.getrandbits(40)], [1, 3, 6, 1, 4, 1, 127, 128, 16384]])]
        if k == "real":
            d = rng.choice([0.0, 1.0, -1.5, 3.14159, 1e300, -2.5e-300, 123456789.0, 0.1, 1.5, 1.5000000000000002, 2.9999999999999996, 5e-324])
            return {"c": [], "d": list(struct.pack(">d", d)), "l": []}
        if k == "str":
            n = rng.choice([0, 1, 2, 3, 10, 20, 63, 64, 65, 126, 127, 128, 130, 300]) if rng.random() < .25 else rng.randrange(0, 6)
            if depth == 0 and rng.random() < big: n = rng.choice([255, 256, 1000, 70000 if rng.random() < .1 else 2000])
            return [rng.randrange(32, 127) if rng.random() < .7 else rng.randrange(256) for _ in range(n)]
        if k == "time":
            t = "%04d%02d%02d%02d%02d%02d" % (rng.randrange(1970, 2038), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
            return list((t + rng.choice(["Z", "Z", "+0130", "-0500"])).encode())
        if k == "of":
            n = rng.choice([0, 1, 2, 3]) if depth > 1 or rng.random() < .7 else rng.choice([4, 5, 6, 7, 12])
            if depth > 4: n = rng.choice([0, 0, 1])
            if depth > 7: n = 0
            return [self.value(rng, self.of(h), depth + 1) for _ in range(n)]
        cs = self.comps(h)
        if k == "choice":
            i = rng.randrange(len(cs))
            if depth > 4:
                order = sorted(range(len(cs)), key=lambda i: (self.weight(cs[i]["t"]), rng.random())); i = order[0]
            return [i + 1, self.value(rng, cs[i]["t"], depth + 1)]
        out = []
        for x in cs:
            if x["p"] == "m" or rng.random() < (.6 if depth < 4 else .1 if depth < 7 else 0):
                out.append([self.value(rng, x["t"], depth + 1)])
            else: out.append([])
        return out
    def weight(self, c):
        """The height of the lowest value of the type; a hundred where there is none."""
        if not hasattr(self, "_heights"): self._heights = {}
        key = lambda c: json.dumps([c[0], c[1], str(c[2])], sort_keys=True)
        todo, below = [c], {}
        if key(c) in self._heights: return self._heights[key(c)]
        while todo:
            x = todo.pop(); k = key(x)
            if k in below: continue
            h = self.top(x)
            parts = [y["t"] for y in self.comps(h) if h["k"] == "choice" or y["p"] == "m"] if h["k"] in ("seq", "set", "choice") else []
            below[k] = (h["k"], [key(y) for y in parts]); todo += parts
        height = {k: 100 for k in below}
        for n in range(101):
            new = {k: 0 if not (p or w == "choice") else min([100] + [1 + (min if w == "choice" else max)([height[y] for y in p] or [100])]) for k, (w, p) in below.items()}
            if new == height: break
            height = new
        self._heights.update(height)
        return height[key(c)]
    def toks(self, c, v):
        """Tokens from which the glue builds the value."""
        h = self.top(c); k = h["k"]
        if k == "bool": return ["t" if v else "f"]
        if k == "null": return ["n"]
        if k in ("int", "enum"): return [str(from_octets(v))]
        if k == "oid": return [".".join(str(undigits(x)) for x in v)]
        if k == "real": return [bytes(v["d"]).hex()]
        if k in ("str", "time"): return [bytes(v).hex() or "-"]
        if k == "of":
            o = [str(len(v))]
            for x in v: o += self.toks(self.of(h), x)
            return o
        cs = self.comps(h)
        if k == "choice": return [str(v[0] - 1)] + self.toks(cs[v[0] - 1]["t"], v[1])
        o = []
        for x, w in zip(cs, v):
            if x["p"] != "m": o.append("+" if w else "=")
            if w: o += self.toks(x["t"], w[0])
        return o
    def real_contents(self, c, v, seen):
        """v with the contents octets of REAL values as observed (seen: the dump)."""
        h = self.top(c); k = h["k"]
        try:
            if k == "real": return dict(v, c=seen["c"])
            if k == "of": return [self.real_contents(self.of(h), a, b) for a, b in zip(v, seen)] if len(v) == len(seen) else v
            if k == "choice": return [v[0], self.real_contents(self.comps(h)[v[0] - 1]["t"], v[1], seen[1])] if v[0] == seen[0] else v
            if k in ("seq", "set"): return [[self.real_contents(x["t"], a[0], b[0])] if a and b else a for x, a, b in zip(self.comps(h), v, seen)]
        except (TypeError, KeyError, IndexError): pass
        return v
    # ---- octets ----
    def tree(self, c, v, rng=None):
        """An element tree [cls, cons, tag, kids or contents]; with rng, one of those which mean the same."""
        h = self.top(c); k = h["k"]
        if k == "choice":
            t = self.tree(self.comps(h)[v[0] - 1]["t"], v[1], rng); body = [t]
            if not h["ids"]: return t
        elif k == "of": body = [self.tree(self.of(h), x, rng) for x in v]
        elif k in ("seq", "set"): 
            body = [self.tree(x["t"], w[0], rng) for x, w in zip(self.comps(h), v) if w]
            if rng and k == "set": rng.shuffle(body)
        elif k == "bool": body = bytes([(rng.choice([1, 128, 255]) if rng else 255) if v else 0])
        elif k == "null": body = b""
        elif k in ("int", "enum"):
            n = from_octets(v); body = n.to_bytes(max(1, (n.bit_length() if n >= 0 else (n + 1).bit_length()) // 8 + 1), "big", signed=True)
        elif k == "oid":
            arcs = [undigits(x) for x in v]; body = b"".join(b128(x) for x in [arcs[0] * 40 + arcs[1]] + arcs[2:])
        elif k == "real":
            d = struct.unpack(">d", bytes(v["d"]))[0]
            body = b"" if d == 0 else real_binary(d)
        else: body = bytes(v)
        ids = h["ids"]
        t = [ids[-1][0], 1 if isinstance(body, list) else 0, ids[-1][1], body]
        for i in reversed(ids[:-1]): t = [i[0], 1, i[1], [t]]
        return t

def undigits(d):
    n = 0
    for x in d: n = n * 128 + x
    return n
def b128(n):
    d = digits(n, 128); return bytes([x + 128 for x in d[:-1]] + [d[-1]])
def real_binary(d):
    import math
    m, e = math.frexp(abs(d)); m = int(m * (1 << 53)); e -= 53
    while m % 2 == 0: m //= 2; e += 1
    eb = e.to_bytes(1 if -128 <= e < 128 else 2, "big", signed=True)
    return bytes([0x80 | (0x40 if d < 0 else 0) | (len(eb) - 1)]) + eb + m.to_bytes((m.bit_length() + 7) // 8, "big")
def enum_numbers(items):
    used = {i["v"][0] for i in items if i["v"]}; out, nxt = [], 0
    for i in items:
        if i["v"]: out.append(i["v"][0])
        else:
            while nxt in used: nxt += 1
            out.append(nxt); nxt += 1
    return out
def ident(cls, cons, t):
    lead = cls * 64 + cons * 32
    return bytes([lead + t]) if t < 31 else bytes([lead + 31]) + b128(t)
def length(n, pad=0):
    if n < 128 and not pad: return bytes([n])
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    b = b"\0" * pad + b if n >= 128 or pad > 1 else b
    return bytes([128 + len(b)]) + b
def ser(t, rng=None, loose=0.0):
    body = b"".join(ser(k, rng, loose) for k in t[3]) if isinstance(t[3], list) else bytes(t[3])
    pad = rng.randrange(1, 4) if rng and rng.random() < loose else 0
    return ident(t[0], t[1], t[2]) + length(len(body), pad) + body
def nodes(t, out=None, parent=None):
    out = [] if out is None else out
    out.append((t, parent))
    if isinstance(t[3], list):
        for k in t[3]: nodes(k, out, t)
    return out
def copy(t): return [t[0], t[1], t[2], [copy(k) for k in t[3]] if isinstance(t[3], list) else bytes(t[3])]
def mutate(rng, t):
    """A structurally damaged copy of an element tree, and the octets."""
    t = copy(t)
    for _ in range(rng.choice([1, 1, 1, 2])):
        ns = nodes(t)
        n, p = rng.choice(ns)
        op = rng.choice(["class", "cons", "tag", "drop", "dup", "swap", "unknown", "content", "empty", "trunc", "tail", "wrap", "tagdelta"])
        if op == "class": n[0] = rng.choice([c for c in range(4) if c != n[0]])
        elif op == "cons": n[1] ^= 1
        elif op == "tag": n[2] = rng.choice([0, 1, 2, 3, 4, 5, 9, 10, 16, 17, 30, 31, 127, 128, n[2] + 1, n[2] + 128, n[2] ^ 32])
        elif op == "tagdelta": n[2] = max(0, n[2] + rng.choice([-1, 1, 256, 128, 65536, 1 << 32]))
        elif op == "drop" and p: p[3].remove(n)
        elif op == "dup" and p: p[3].insert(rng.randrange(len(p[3]) + 1), copy(n))
        elif op == "swap" and isinstance(n[3], list) and len(n[3]) > 1: rng.shuffle(n[3])
        elif op == "unknown" and isinstance(n[3], list): n[3].insert(rng.randrange(len(n[3]) + 1), [rng.randrange(4), 0, rng.randrange(0, 40), bytes(rng.randrange(256) for _ in range(rng.randrange(3)))])
        elif op == "content" and not isinstance(n[3], list): n[3] = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 10)))
        elif op == "empty": n[3] = [] if isinstance(n[3], list) else b""
        elif op == "wrap": n[3] = [copy(n)]; n[1] = 1
        elif op == "tail" and isinstance(n[3], list): n[3].append(rng.choice([[0, 0, 5, b""], [2, 0, 99, b"\1"]]))
        elif op == "trunc":
            b = ser(t); return b[:rng.randrange(len(b))]
    b = ser(t, rng, 0.05)
    if rng.random() < .1 and b:
        b = bytearray(b); b[rng.randrange(len(b))] = rng.randrange(256); b = bytes(b)
    return b

# ---- C++ glue ----
KEYWORDS = set()
def cname(n):
    n = n.replace("-", "_")
    return n + "_" if n in CPP_RESERVED else n
CPP_RESERVED = set("""alignas alignof and and_eq asm atomic_cancel atomic_commit atomic_noexcept auto bitand bitor bool break case catch char char8_t
char16_t char32_t class compl concept const consteval constexpr const_cast continue co_await co_return co_yield decltype default delete do double
dynamic_cast else enum explicit export extern false float for friend goto if import inline int long module mutable namespace new noexcept not not_eq
nullptr operator or or_eq private protected public reflexpr register reinterpret_cast requires return short signed sizeof static static_assert
static_cast struct switch synchronized template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile
wchar_t while xor xor_eq BMPString BitString Boolean CharacterString Choice Class Date DateTime Duration EmbeddedPDV Enumerated External GeneralString
GeneralizedTime GraphicString IA5String IRI ISO646String Id Identifier InstanceOf Integer Null NumericString ObjectIdentifier OctetString Optional
Prefixed PrintableString Real RelativeIRI RelativeOID Sequence SequenceOf Set SetOf TaggedType TeletexString Time TimeOfDay UTCTime UTF8String
UniversalString VideotexString VisibleString decode encode encoded_length""".split())

class Glue:
    def __init__(self, unit, header):
        self.u, self.header, self.n, self.out = unit, header, 0, []
    def var(self):
        self.n += 1; return "y%d" % self.n
    def fn(self, m, n): return "T_%s_%s" % (cname(m), cname(n))
    def named(self, c):
        """(module, type) if the closure is a reference to a plain assignment of the unit."""
        m, a, b = c
        while a["k"] == "tag": a = a["t"]
        if a["k"] != "ref" or a["args"] or (not a["mod"] and a["n"] in b): return None
        h = self.u.home(a["mod"] or m, a["n"])
        return (h, a["n"])
    def build(self, c, x, top=False):
        nm = self.named(c)
        if nm and not top: return "%s::b(in, %s);" % (self.fn(*nm), x)
        h = self.u.top(c); k = h["k"]
        if k == "of":
            y, i = self.var(), self.var()
            return "for (long %s = in.num(); %s > 0; %s--) { %s.emplace_back(); auto& %s = %s.back(); %s }" % (i, i, i, x, y, x, self.build(self.u.of(h), y))
        if k == "choice":
            cs = self.u.written(h); o = "switch (in.num()) {"
            for i, z in enumerate(cs):
                y = self.var()
                o += " case %d: { auto& %s = %s.template emplace<%d>(); %s break; }" % (i, y, x, i, self.build(z["t"], y))
            return o + " default: abort(); }"
        if k in ("seq", "set"):
            o = ""
            for z in self.u.written(h):
                f = "%s.%s" % (x, cname(z["n"]))
                if z["p"] == "m": o += self.build(z["t"], f)
                elif z["p"] == "o":
                    y = self.var(); o += " if (in.flag()) { %s.emplace(); auto& %s = *%s; %s }" % (f, y, f, self.build(z["t"], y))
                else:
                    y = self.var(); o += " if (in.flag()) { std::decay_t<decltype(%s.get())> %s; %s %s = %s; }" % (f, y, self.build(z["t"], y), f, y)
                o += "\n    "
            return o
        return "rd_%s(in, %s);" % (k, x)
    def dump(self, c, x, top=False):
        nm = self.named(c)
        if nm and not top: return "%s::d(o, %s);" % (self.fn(*nm), x)
        h = self.u.top(c); k = h["k"]
        if k == "of":
            y, s = self.var(), self.var()
            return "{ o += '['; bool %s = false; for (const auto& %s : %s) { if (%s) o += ','; %s = true; %s } o += ']'; }" % (s, y, x, s, s, self.dump(self.u.of(h), y))
        if k == "choice":
            cs = self.u.written(h); o = "o += '[' + std::to_string(%s.index() + 1) + ','; switch (%s.index()) {" % (x, x)
            for i, z in enumerate(cs):
                y = self.var()
                o += " case %d: { const auto& %s = fast_ber::get<%d>(%s); %s break; }" % (i, y, i, x, self.dump(z["t"], y))
            return o + " default: o += \"null\"; } o += ']';"
        if k in ("seq", "set"):
            o = "o += '[';"
            for i, z in enumerate(self.u.written(h)):
                f = "%s.%s" % (x, cname(z["n"]))
                if i: o += " o += ',';"
                y = self.var()
                if z["p"] == "m": o += " o += '['; %s o += ']';" % self.dump(z["t"], f)
                elif z["p"] == "o": o += " o += '['; if (%s.has_value()) { const auto& %s = *%s; %s } o += ']';" % (f, y, f, self.dump(z["t"], y))
                else: o += " o += '['; { const auto& %s = %s.get(); %s } o += ']';" % (y, f, self.dump(z["t"], y))
                o += "\n    "
            return o + " o += ']';"
        return "wr_%s(o, %s);" % (k, x)
    def text(self):
        u = self.u
        names = []
        for m in u.modules:
            for n in m.types:
                if not m.types[n]["params"]: names.append((m.name, n))
        o = ['#include "hgen.hpp"', '#include "%s"' % self.header, "using namespace hx;", "namespace {"]
        for nm in names: o.append("struct %s;" % self.fn(*nm))
        for nm in names:
            o.append("struct %s { template <class X> static void b(In& in, X& x); template <class X> static void d(std::string& o, const X& x); };" % self.fn(*nm))
        for nm in names:
            d = u.mods[nm[0]].types[nm[1]]
            c = (nm[0], d["t"], {})
            o.append("template <class X> void %s::b(In& in, X& x)\n{ (void)in; (void)x; %s }" % (self.fn(*nm), self.build(c, "x")))
            o.append("template <class X> void %s::d(std::string& o, const X& x)\n{ (void)x; %s }" % (self.fn(*nm), self.dump(c, "x")))
        reg = []
        for m, n in u.drive:
            reg.append('    Reg::add<::fast_ber::%s::%s, %s>("%s.%s");' % (cname(m), cname(n), self.fn(m, n), m, n))
        for m, n, items in self.enums():
            for i, it in enumerate(items):
                reg.append('    Reg::name("%s.%s", %d, static_cast<long long>(decltype(std::declval<::fast_ber::%s::%s>().value())::%s));' % (m, n, i + 1, cname(m), cname(n), cname(it["n"])))
        for m in u.modules:
            for n, v in m.vals.items():
                k = u.top((m.name, v["t"], {}))["k"]
                reg.append('    Reg::value("%s.%s", [](std::string& o) { val_%s(o, ::fast_ber::%s::%s); });' % (m.name, n, k, cname(m.name), cname(n)))
        o.append("struct R { R() {\n%s\n} } r_;" % "\n".join(reg))
        o.append("}")
        return "\n".join(o) + "\n"
    def enums(self):
        for m in self.u.modules:
            for n, t in m.types.items():
                a = t["t"]
                while a["k"] == "tag": a = a["t"]
                if a["k"] == "enum" and not t["params"]: yield m.name, n, a["items"]
