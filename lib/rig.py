"""Builds the ASN.1 compiler of /repo, has it generate code for units of modules, builds that code and drives it."""
import hashlib, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import *
import schema as S

def absl_small():
    return subprocess.run(["pkg-config", "--libs", "absl_strings", "absl_hash", "absl_raw_hash_set"], capture_output=True, text=True, check=True).stdout.split()

def parser_header(ctx, dst):
    """The parser generated from /repo's grammar, as its own build does."""
    y = os.path.join(REPO, "src/compiler/asn_compiler.yacc")
    os.makedirs(os.path.join(dst, "autogen"), exist_ok=True)
    out, re_ = os.path.join(dst, "autogen/asn_compiler.hpp"), os.path.join(dst, "asn_compiler.re")
    rc, o, e = run(["bison", "-Wno-other", "-Wno-deprecated", "-Wno-empty-rule", y, "-t", "-o", re_], 120, cwd=dst)
    if rc != 0: raise BuildError("grammar", e)
    rc, o, e = run(["re2c", "--no-generation-date", "-o", out, re_], 120, cwd=dst)
    if rc != 0: raise BuildError("lexer", e)

def build_compiler(ctx, san=False, opt="-O0", name="asnc"):
    gen = ctx.path("gen-" + name); os.makedirs(gen, exist_ok=True)
    parser_header(ctx, gen)
    fl = ([opt] if isinstance(opt, str) else list(opt)) + (["-g1"] + SAN if san else []) + ["-I" + os.path.join(REPO, "src/compiler/include"), "-I" + os.path.join(REPO, "include"), "-I" + gen]
    d = os.path.join(REPO, "src/compiler")
    srcs = [os.path.join(REPO, "src/compiler_main/CompilerMain.cpp")] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    jobs = [(s, ctx.path("%s-%s.o" % (name, os.path.basename(s))), fl) for s in srcs]
    compile_objs(jobs)
    exe = ctx.path(name)
    rc, o, e = run([CXX] + (SAN if san else []) + [j[1] for j in jobs] + absl_small() + ["-o", exe])
    if rc != 0: raise BuildError("link " + name, e)
    return exe

def tail(e):
    lines = [l for l in e.splitlines() if "error" in l] or e.splitlines()[-3:]
    return " | ".join(lines[:2])[:600]

class Rig:
    """Units, compiled and linked into one executable."""
    def __init__(self, ctx, units, keep_files=False):
        self.ctx, self.units = ctx, []
        names = [m.name for u in units for m in u.modules]
        assert len(set(names)) == len(names), "module names shared between units"
        # in parallel: the compiler, the runtime library, the driver, and the header every glue file begins with, precompiled
        pch = ctx.path("pch"); os.makedirs(pch, exist_ok=True)
        shutil.copy(HARNESS + "/hgen.hpp", pch + "/hgen.hpp")
        fl = ["-O0", "-I" + pch, "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + SAN
        base = [(s, ctx.path("lib-%s.o" % hashlib.md5(s.encode()).hexdigest()[:8]), fl) for s in repo_files() + [HARNESS + "/h_gen.cpp"]]
        def pchbuild():
            rc, o, e = run([CXX] + BASE + fl + ["-x", "c++-header", pch + "/hgen.hpp", "-o", pch + "/hgen.hpp.gch"])
            if rc != 0: raise BuildError("hgen.hpp", e)
        with ThreadPoolExecutor(3) as bg:
            work = [bg.submit(build_compiler, ctx), bg.submit(pchbuild), bg.submit(compile_objs, base, 3)]
            asnc = [w.result() for w in work][0]
        ctx.log("compiler built")
        self.asnc = asnc
        todo = []
        def generate(u):
            d = ctx.path("u_" + u.name); os.makedirs(d, exist_ok=True)
            files = []
            for m in u.modules:
                f = os.path.join(d, m.name + ".asn"); open(f, "w").write(m.text()); files.append(f)
            env = dict(os.environ)
            rc, o, e = run([asnc] + files + [os.path.join(d, "g")], 60, env=env)
            if rc != 0: return "the compiler refuses a valid schema: " + (e or o)[-300:].strip() if rc > 0 else "the compiler ends with %d on a valid schema" % rc
            try: glue = S.Glue(u, os.path.join(d, "g.hpp")).text()
            except KeyError as x: raise Infra("glue for %s: %r" % (u.name, x))
            open(os.path.join(d, "glue.cpp"), "w").write(glue)
            return None
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(generate, units))
        for u, why in zip(units, res):
            if why: self.drop(u, why)
            else: todo.append(u)
        def comp(u):
            d = ctx.path("u_" + u.name)
            rc, o, e = run([CXX] + BASE + fl + ["-c", os.path.join(d, "glue.cpp"), "-o", os.path.join(d, "glue.o")], 300)
            if rc == -999: raise Infra("compiling %s timed out" % u.name)
            return None if rc == 0 else tail(e)
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, todo))
        objs = []
        for u, why in zip(todo, res):
            if why: self.drop(u, "generated code does not compile or lacks a type: " + why)
            else: self.units.append(u); objs.append(os.path.join(ctx.path("u_" + u.name), "glue.o"))
        self.exe = ctx.path("gen.exe")
        rc, o, e = run([CXX] + SAN + [j[1] for j in base] + objs + absl_libs() + ["-o", self.exe])
        if rc != 0: raise BuildError("link generated code", e)
        self.asts = ctx.path("schemas.json")
        mods = {}
        for u in self.units: mods.update(u.ast())
        json.dump({"mods": mods, "nodes": S.number(mods)}, open(self.asts, "w"))
        self.index = {m.name: u for u in self.units for m in u.modules}
        self.ctx.cover["schemas"] = self.ctx.cover.get("schemas", 0) + len(self.units)
        self.ctx.cover["types"] = self.ctx.cover.get("types", 0) + sum(len(u.drive) for u in self.units)
        ctx.log("%d of %d units built" % (len(self.units), len(units)))
    def drop(self, u, why):
        self.ctx.reject("unit " + (u.note or u.name), why, {"schema": u.text(), "why": why})

    # ---- commands: (text, additions to the event) ----
    def d(self, mt, b):
        u = self.index[mt[0]]; return ("D %s.%s %d %s" % (mt[0], mt[1], u.noreal(mt), bytes(b).hex() or "-"), None)
    def e(self, mt, v):
        u = self.index[mt[0]]; c = u.closure(mt)
        return ("E %s.%s %d %s" % (mt[0], mt[1], u.noreal(mt), " ".join(u.toks(c, v))), ("E", u, c, v))
    def q(self, mt, modes, v, w):
        u = self.index[mt[0]]; c = u.closure(mt)
        return ("Q %s.%s %s%d %s" % (mt[0], mt[1], modes, u.noreal(mt), " ".join(u.toks(c, v) + u.toks(c, w))), ("Q", u, c, v, w))
    def p(self, mt, modes, b, d):
        u = self.index[mt[0]]
        return ("P %s.%s %s%d %s %s" % (mt[0], mt[1], modes, u.noreal(mt), bytes(b).hex() or "-", bytes(d).hex() or "-"), None)
    def names(self):
        out = []
        for u in self.units:
            for m, n, items in S.Glue(u, "").enums():
                for k in range(len(items)): out.append(("N %s.%s %d" % (m, n, k + 1), ("N", items)))
            for m in u.modules:
                for n in m.vals: out.append(("V %s.%s" % (m.name, n), None))
        return out
    def run(self, cmds, per_cmd=10.0):
        ctx = self.ctx
        seen = {}
        for c in cmds: seen.setdefault(c[0], c)
        cmds = list(seen.values())
        texts = [c[0] for c in cmds]
        events, crashes = ctx.execute(self.exe, texts, per_cmd)
        ctx.commands += len(cmds)
        more = crashes.pop("more", None)
        def where(n): return "%s in %s" % (texts[n], self.unit_key(texts[n]))
        for n, why in sorted(crashes.items()):
            ctx.reject(where(n), "crash: " + why, {"command": texts[n], "schema": self.index[texts[n].split()[1].split(".")[0]].text()})
        if more: ctx.notes.append(more)
        missing = [n for n in range(len(cmds)) if n not in events and n not in crashes]
        if missing and not more: raise Infra("%d commands gave no event, first %s" % (len(missing), texts[missing[0]]))
        for n, e in events.items():
            x = cmds[n][1]
            if not x: continue
            if x[0] == "E": e["want"] = x[1].real_contents(x[2], x[3], e["v"])
            elif x[0] == "Q":
                e["wa"] = x[1].real_contents(x[2], x[3], e["a"]); e["wc"] = x[1].real_contents(x[2], x[4], e["c"])
            elif x[0] == "N": e["items"] = S.strip(x[1])
        bad = ctx.judge("TraceSchema", [events[n] for n in sorted(events)], cfg="TraceSchema.cfg", env={"SCHEMAS": self.asts})
        ctx.sample([{"command": texts[n][:300], "event": {k: v for k, v in events[n].items() if k != "want"}} for n in sorted(events) if len(str(events[n])) < 1200])
        for n, why in sorted(bad.items()):
            if ctx.fields and not why.startswith("not an event") and not set(re.findall(r'<<"([a-z][a-z -]*)",', why)) & ctx.fields: continue
            ctx.reject(where(n), "expected " + why, {"command": texts[n], "event": events[n], "expected": why, "schema": self.index[texts[n].split()[1].split(".")[0]].text()})
        return events
    def unit_key(self, text):
        u = self.index[text.split()[1].split(".")[0]]
        return u.note or u.name
