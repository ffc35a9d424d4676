"""Generated programs for C19: component types of many shapes, spread over translation units, static code, shared
libraries and plugins, driven by scripts that mix operations of all modules on shared registries."""
import copy
import hashlib
import json
import os
import random
import shutil
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
IDENTS = ["A", "B", "Item", "transform", "x1", "Node"]
SCOPES = ["", "n1", "n2", "n1::n2", "n1::A2", "game"]
PRIMS = ["int", "unsigned", "long", "long long", "char", "signed char", "unsigned char", "bool", "float", "double", "short",
         "const int", "int&", "const int&", "int*", "const int*", "int* const", "int[3]", "int[4]", "int(*)(long)", "int(long)",
         "void", "void() noexcept", "void()", "int&&", "char16_t", "wchar_t"]
NTTP = ["1", "1u", "1l", "1ul", "1ll", "true", "'a'", "97", "(signed char)97", "(unsigned char)97", "(short)97", "97ull", "L'a'",
        "u8'a'", "u'a'", "';'", "']'", "'='", "'>'", "0", "false", "nullptr", "-1", "(short)-1", "0.1", "0.1f", "0.10000001",
        "0.1000000000000001", "1.0", "1.0f", "shape::a", "shape::b", "(shape)7", "other::a", "pt{1,2}", "pt{1,2.0000001}", "pt{2,2}",
        "&glob1", "&glob2", "&pt::a", "&pt::c"]
PRELUDE = """
struct pt { int a; double b; int c; constexpr pt(int x, double y) : a(x), b(y), c(0) {} };
enum class shape { a, b }; enum class other { a };
inline int glob1{}, glob2{};
template<std::size_t N> struct text { char v[N]{}; constexpr text(const char (&s)[N]) { for (std::size_t i = 0; i < N; i++) v[i] = s[i]; } };
template<typename... T> struct gen { int v{}; };
template<typename... T> struct gen2 { int v{}; struct inner { int v{}; char pad[40]{}; }; };
template<auto... V> struct val { int v{}; };
template<text S> struct tag { int v{}; };
template<template<typename...> class T> struct tmpl { int v{}; };
template<typename T> struct outer { template<typename U> struct in { int v{}; T* p{}; U* q{}; }; };
template<int I> struct bulk0 { int v{}; };
template<int I> struct bulk1 { char c[1 + I % 7]; };
"""


def body(rng):
    """members of a component of random size and alignment"""
    a = rng.choice(["", "", "", "alignas(16) ", "alignas(32) ", "alignas(8) "])
    extra = rng.choice(["", "", "char c{};", "double d{};", "char c[33]{};", "std::string s{};", "std::vector<int> w{};", "short h[5]{};"])
    if rng.random() < 0.12:
        return a, "", ""  # empty
    order = ["int v{};", extra]
    rng.shuffle(order)
    return a, " ".join(order), ""


def make_types(rng, n):
    """list of {decl, expr, ident, copy}; exprs name pairwise different types"""
    out, used = [], set()
    exprs = []
    while len(out) < n:
        kind = rng.choice(["plain"] * 4 + ["nested", "gen", "gen", "val", "val", "val", "tag", "tmpl", "outer", "local", "local", "localt",
                                           "lambda", "derived", "many", "long"])
        i = len(out)
        decl, expr, ident = "", "", ""
        if kind in ("plain", "derived"):
            ns, nm = rng.choice(SCOPES), rng.choice(IDENTS)
            expr = (ns + "::" if ns else "::") + nm if ns else "::" + nm
            a, b, _ = body(rng)
            base = ""
            if kind == "derived" and exprs:
                base = " : base%d" % i
                decl = "struct base%d { int base{}; };\n" % i
            decl += ("namespace %s { " % ns if ns else "") + "%s %s%s%s { %s };" % (rng.choice(["struct"]), a, nm, base, b) + (" }" if ns else "")
            ident = nm
        elif kind == "nested":
            ns, nm, inn = rng.choice(SCOPES), "Holder%d" % i, rng.choice(IDENTS)
            a, b, _ = body(rng)
            decl = ("namespace %s { " % ns if ns else "") + "struct %s { struct %s%s { %s }; };" % (nm, a, inn, b) + (" }" if ns else "")
            expr = "%s::%s::%s" % (ns, nm, inn)
            ident = inn
        elif kind == "gen":
            args = [rng.choice(PRIMS + exprs[-6:]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
            t = rng.choice(["gen", "gen2"])
            expr = "%s<%s>" % (t, ", ".join(args))
            ident = t
            if t == "gen2" and rng.random() < 0.4:
                expr += "::inner"
                ident = "inner"
        elif kind == "val":
            args = [rng.choice(NTTP) for _ in range(rng.choice([1, 1, 1, 2]))]
            expr, ident = "val<%s>" % ", ".join(args), "val"
        elif kind == "tag":
            s = rng.choice(["", "a", "ab", "long text that goes on and on until it is cut ", "]", ";", "=", "\\\"", "x = y; ["]) + rng.choice("abc")
            if rng.random() < 0.3:
                s = s * rng.choice([3, 20])
            expr, ident = 'tag<"%s">' % s, "tag"
        elif kind == "tmpl":
            expr, ident = "tmpl<%s>" % rng.choice(["gen", "gen2", "std::vector", "std::basic_string", "std::tuple"]), "tmpl"
        elif kind == "outer":
            expr, ident = "outer<%s>::template in<%s>" % (rng.choice(["int", "long", "char"] + exprs[-3:]), rng.choice(["int", "long", "char"] + exprs[-3:])), "in"
        elif kind == "local":
            nm = rng.choice(IDENTS)
            a, b, _ = body(rng)
            decl = "inline auto fn%d() { struct %s%s { %s }; return %s{}; }" % (i, a, nm, b, nm)
            expr, ident = "decltype(fn%d())" % i, nm
        elif kind == "localt":
            nm = rng.choice(IDENTS)
            k = rng.randrange(3)
            decl = "#ifndef FT%d_%s\n#define FT%d_%s\ntemplate<typename T> inline auto ft%d_%s() { struct %s { int v{}; }; return %s{}; }\n#endif" % (k, nm, k, nm, k, nm, nm, nm)
            expr, ident = "decltype(ft%d_%s<%s>())" % (k, nm, rng.choice(["int", "long", "char"])), nm
        elif kind == "lambda":
            decl = "inline auto lam%d = [](int a) { return a + %d; };" % (i, i)
            expr, ident = "decltype(lam%d)" % i, "lambda"
        elif kind == "long":
            # long names which differ in one place
            n, at = rng.choice([10, 30, 60, 120, 300]), rng.random()
            nm = "".join(rng.choice("abcdefgh_") for _ in range(n))
            k = rng.choice([0, n // 2, n])
            a, b, _ = body(rng)
            names = ["L%d%s%s%s" % (i, nm[:k], c, nm[k:]) for c in "xy"]
            if rng.random() < 0.5:
                # the difference is in a template argument
                for q in names:
                    out.append({"decl": "struct %s {};" % q, "expr": "gen<%s>" % q, "ident": "gen"})
            else:
                for q in names:
                    out.append({"decl": "struct %s%s { %s };" % (a, q, b), "expr": "::" + q, "ident": q})
            continue
        elif kind == "many":
            expr, ident = "gen<std::integral_constant<int, %d>>" % rng.randrange(1000), "gen"
        key = expr
        if key in used:
            continue
        # different spellings of one type
        norm = expr.replace(" ", "")
        if norm in used:
            continue
        used.add(key)
        used.add(norm)
        exprs.append(expr)
        out.append({"decl": decl, "expr": expr, "ident": ident})
    return out


def make_spec(seed):
    rng = random.Random(seed)
    types = make_types(rng, rng.choice([3, 6, 12, 24, 36]))
    # some types only exist in one translation unit (unnamed namespace, name used nowhere else)
    compiler = rng.choice(["clang++", "clang++", "g++"])
    hidden = rng.random() < 0.5
    macros = hidden or rng.random() < 0.5
    shape = rng.choice(["tus", "host-exe", "host-exe", "host-lib", "host-lib", "host-lib"])
    ids_only = rng.random() < 0.75
    units = []  # kind: exe, archive, host, lib, plugin

    def unit(kind, home):
        n = len(types)
        light = rng.sample(range(n), rng.randint(1, min(n, 16)))
        if ids_only:
            units.append({"kind": kind, "home": home, "types": [], "light": light, "pairs": [], "local": rng.random() < 0.25, "early": [],
                          "bulk": [[f, rng.choice([3, 17, 40, 90, 90, 90, 200])] for f in (0, 1) if rng.random() < 0.2]})
            return
        # most registry operations are on the first few types, so that modules meet on them
        mine = rng.sample(range(min(n, 5)), rng.randint(1, min(n, 3)))
        if rng.random() < 0.3:
            mine = list(dict.fromkeys(mine + [rng.randrange(n)]))
        light = [t for t in light if t not in mine]
        pairs = [rng.sample(mine, 2) for _ in range(rng.choice([0, 0, 1, 1, 2]))] if len(mine) > 1 else []
        units.append({
            "kind": kind, "home": home, "types": mine, "light": light, "pairs": pairs,
            "local": rng.random() < 0.25,
            "early": rng.sample(mine, min(len(mine), rng.randint(1, 2))) if rng.random() < 0.4 else [],
            "bulk": [[f, rng.choice([3, 17, 40, 90])] for f in (0, 1) if rng.random() < 0.2],
        })

    for _ in range(rng.randint(1, 3)):
        unit("exe", "exe")
    if rng.random() < 0.4:
        unit("archive", "exe")
    if shape == "host-lib":
        for _ in range(rng.randint(1, 2)):
            unit("host", "host")
    if shape != "tus":
        for k in range(rng.randint(0, 2)):
            unit("lib", "lib%d" % k)
        for k in range(rng.randint(0 if len(units) > 2 else 1, 3)):
            unit("plugin", "plug%d" % k)
            units[-1]["unload"] = rng.random() < 0.5
            units[-1]["flags"] = [rng.choice(["RTLD_NOW", "RTLD_LAZY"]), rng.choice(["RTLD_LOCAL", "RTLD_GLOBAL"])]
    return {"seed": seed, "ids_only": ids_only, "compiler": compiler, "hidden": hidden, "macros": macros, "shape": shape, "opt": "-O1" if rng.random() < 0.04 else "-O0",
            "inlines_hidden": hidden and rng.random() < 0.3, "types": types, "units": units}


def make_script(spec, seed):
    rng = random.Random(seed)
    units = spec["units"]
    out, linked = [], [k for k, u in enumerate(units) if u["kind"] != "plugin"]
    loaded, waiting = list(linked), [k for k, u in enumerate(units) if u["kind"] == "plugin"]
    rng.shuffle(waiting)
    rng.shuffle(linked)
    for k in linked:
        if rng.random() < 0.5:
            out.append("ids %d" % k)
    RT = {"RTLD_LAZY": 1, "RTLD_NOW": 2, "RTLD_LOCAL": 0, "RTLD_GLOBAL": 0x100}
    n = rng.choice([10, 30, 80])
    for step in range(n):
        if waiting and rng.random() < 0.25:
            k = waiting.pop()
            out.append("load %d %d %d" % (k, sum(RT[f] for f in units[k]["flags"]), rng.random() < 0.3))
            loaded.append(k)
            continue
        k = rng.choice(loaded)
        u = units[k]
        if u.get("unload") or not u["types"]:
            # never touches the registries: its code and metadata may go away
            if rng.random() < 0.5:
                out.append("%s %d" % (rng.choice(["ids", "ids", "tids"]), k))
            elif u.get("unload") and rng.random() < 0.6:
                out.append("unload %d" % k)
                loaded.remove(k)
                waiting.insert(rng.randint(0, len(waiting)), k)
            continue
        t = rng.choice(u["types"])
        r = rng.random()
        v = rng.randint(0, 1000)
        if r < 0.2:
            out.append("create %d %d %d %d" % (k, rng.randint(0, 1), t, v))
        elif r < 0.3 and u["pairs"]:
            out.append("pair %d %d %d %d %d" % (k, rng.randint(0, 1), rng.randrange(len(u["pairs"])), v, rng.randint(0, 1000)))
        elif r < 0.5:
            out.append("set %d %d %d %d" % (k, rng.randint(0, 30), t, v))
        elif r < 0.58:
            out.append("remove %d %d %d 0" % (k, rng.randint(0, 30), t))
        elif r < 0.66:
            out.append("each %d %d %d 0" % (k, rng.randint(0, 1), t))
        elif r < 0.70:
            out.append("destroy %d %d 0 0" % (k, rng.randint(0, 30)))
        elif r < 0.8:
            out.append("%s %d %d 0 0" % (rng.choice(["clone", "copy", "move"]), k, rng.randint(0, 30)))
        elif r < 0.85:
            out.append("ids %d" % k)
        elif r < 0.9:
            out.append("early %d" % k)
        else:
            out.append("verify %d" % k)
    for k in loaded:
        if not units[k]["types"]:
            continue
        out.append("early %d" % k)
        if not units[k].get("unload"):
            out.append("verify %d" % k)
    return out


class Broken(Exception):
    """the program does not build: not a verdict on the property"""


def run(cmd, cwd=None, timeout=120):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def base_flags(spec, repo):
    f = ["-std=c++20", spec["opt"], "-fPIC", "-w", "-I" + os.path.join(repo, "include"), "-I" + HERE]
    if spec["ids_only"]:
        f.append("-DPROG_IDS_ONLY")
    if spec["hidden"]:
        f.append("-fvisibility=hidden")
    if spec["inlines_hidden"]:
        f.append("-fvisibility-inlines-hidden")
    return f


def role(spec, u):
    if not spec["macros"] or spec["shape"] == "tus":
        return None
    host = "host" if spec["shape"] == "host-lib" else "exe"
    return "CO_ECS_HOST" if u["home"] == host else "CO_ECS_CLIENT"


def source_of(spec, k):
    u = spec["units"][k]
    out = ["#include \"prog.hpp\"", "#include \"types.hpp\""]
    expr = lambda t: spec["types"][t]["expr"]
    if u["local"]:
        out.append("namespace { struct only_in_%d { int v{}; }; }" % k)
    # static initialization first, before anything else of this unit has used the types
    out.append("static prog::module_info info = [] {\n    prog::module_info m;")
    for j, t in enumerate(u["early"]):
        out.append("    prog::early<%s>(m, %d, %d);" % (expr(t), t, j + 7))
    for t in u["types"]:
        out.append("    m.types.push_back(prog::ops<%s>(%d));" % (expr(t), t))
    for t in u["light"]:
        out.append("    m.types.push_back(prog::light<%s>(%d));" % (expr(t), t))
    if u["local"]:
        out.append("    m.types.push_back(prog::light<only_in_%d>(%d));" % (k, 500 + k))
    for a, b in u["pairs"]:
        out.append("    m.pairs.push_back(prog::pair<%s, %s>(%d, %d));" % (expr(a), expr(b), a, b))
    for f, n in u["bulk"]:
        out.append("    m.bulk.push_back(prog::bulk<bulk%d, %d>(%d));" % (f, n, f))
    out.append("    return m;\n}();")
    out.append("extern \"C\" CO_ECS_EXPORT const prog::module_info* unit_%d() { return &info; }" % k)
    return "\n".join(out) + "\n"


class Builder:
    def __init__(self, repo, scratch):
        self.repo, self.scratch, self.pch = repo, scratch, {}
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(8)

    def header(self, spec, r):
        """precompiled prog.hpp for these flags"""
        flags = base_flags(spec, self.repo) + (["-D" + r] if r else [])
        key = hashlib.sha256(repr((spec["compiler"], flags)).encode()).hexdigest()[:16]
        with self.lock:
            if key not in self.pch:
                d = os.path.join(self.scratch, "pch-" + key)
                os.makedirs(d)
                if spec["compiler"] == "clang++":
                    cmd = ["clang++"] + flags + ["-x", "c++-header", os.path.join(HERE, "prog.hpp"), "-o", os.path.join(d, "prog.pch")]
                    use = ["-include-pch", os.path.join(d, "prog.pch")]
                else:
                    shutil.copy(os.path.join(HERE, "prog.hpp"), os.path.join(d, "prog.hpp"))
                    cmd = ["g++"] + flags + ["-x", "c++-header", os.path.join(d, "prog.hpp"), "-o", os.path.join(d, "prog.hpp.gch")]
                    use = ["-I" + d]
                self.pch[key] = (self.pool.submit(run, cmd), use)
        fut, use = self.pch[key]
        r2 = fut.result()
        if r2.returncode != 0:
            raise Broken("precompiling failed:\n" + r2.stdout[-3000:])
        return use + flags

    def build(self, spec, d):
        """build the program in directory d; returns the path of the executable"""
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "types.hpp"), "w") as f:
            f.write("#pragma once\n#include \"prog.hpp\"\n#include <string>\n#include <tuple>\n#include <vector>\n" + PRELUDE)
            for t in spec["types"]:
                f.write(t["decl"] + "\n")
        units = spec["units"]
        with open(os.path.join(d, "table.cpp"), "w") as f:
            f.write("#include \"main.cpp\"\n")
            for k, u in enumerate(units):
                if u["kind"] != "plugin":
                    f.write("extern \"C\" const prog::module_info* unit_%d();\n" % k)
            f.write("std::vector<module_ref> modules() {\n    return {\n")
            for k, u in enumerate(units):
                nm = "unit %d (%s)" % (k, u["home"] if u["kind"] != "archive" else "archive")
                if u["kind"] == "plugin":
                    f.write("        { \"%s\", nullptr, \"%s/lib%s.so\", \"unit_%d\" },\n" % (nm, d, u["home"], k))
                else:
                    f.write("        { \"%s\", unit_%d, nullptr, nullptr },\n" % (nm, k))
            f.write("    };\n}\nconst char* type_ident(int t) {\n    if (t >= 500) {\n        return \"only_in_\";\n    }\n    static const char* n[] = { ")
            f.write(", ".join("\"%s\"" % t["ident"] for t in spec["types"]))
            f.write(" };\n    return n[t];\n}\n")
        jobs = []
        for k, u in enumerate(units):
            src = os.path.join(d, "unit%d.cpp" % k)
            with open(src, "w") as f:
                f.write(source_of(spec, k))
            jobs.append((src, role(spec, u)))
        exe_role = role(spec, {"home": "exe"})
        jobs.append((os.path.join(d, "table.cpp"), exe_role))

        def comp(j):
            src, r = j
            r2 = run([spec["compiler"]] + self.header(spec, r) + ["-I" + d, "-c", src, "-o", src[:-4] + ".o"])
            if r2.returncode != 0:
                raise Broken("compiling %s failed:\n%s" % (src, r2.stdout[-3000:]))
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(comp, jobs))
        obj = lambda k: os.path.join(d, "unit%d.o" % k)
        link = [spec["compiler"], "-fuse-ld=lld" if spec["compiler"] == "clang++" else "-fuse-ld=bfd"]

        def must(cmd):
            r2 = run(cmd)
            if r2.returncode != 0:
                raise Broken("linking failed:\n%s\n%s" % (" ".join(cmd), r2.stdout[-3000:]))
        libs = []
        hosts = [k for k, u in enumerate(units) if u["home"] == "host"]
        host_so = []
        if hosts:
            so = os.path.join(d, "libhost.so")
            must(link + ["-shared"] + [obj(k) for k in hosts] + ["-o", so])
            host_so = [so]
        for home in dict.fromkeys(u["home"] for u in units if u["kind"] in ("lib", "plugin")):
            ks = [k for k, u in enumerate(units) if u["home"] == home]
            so = os.path.join(d, "lib%s.so" % home)
            must(link + ["-shared"] + [obj(k) for k in ks] + host_so + ["-Wl,-rpath," + d, "-o", so])
            if units[ks[0]]["kind"] == "lib":
                libs.append(so)
        ar = [k for k, u in enumerate(units) if u["kind"] == "archive"]
        arch = []
        if ar:
            a = os.path.join(d, "libar.a")
            must(["ar", "rcs", a] + [obj(k) for k in ar])
            arch = [a]
        exe = os.path.join(d, "prog")
        must(link + [os.path.join(d, "table.o")] + [obj(k) for k, u in enumerate(units) if u["kind"] == "exe"] + arch + libs + host_so
             + ["-rdynamic", "-Wl,-rpath," + d, "-lpthread", "-ldl", "-o", exe])
        return exe


def execute(exe, d, script):
    p = os.path.join(d, "script-%s.txt" % hashlib.sha256("\n".join(script).encode()).hexdigest()[:12])
    with open(p, "w") as f:
        f.write("\n".join(script) + "\n")
    try:
        r = run([exe, p], cwd=d, timeout=60)
    except subprocess.TimeoutExpired:
        return "the program does not end within 60 s", ""
    out = r.stdout.strip()
    last = out.splitlines()[-1] if out else ""
    if r.returncode == 0 and last.startswith("OK"):
        return None, last
    if r.returncode == 3:
        raise Broken(out[-2000:])
    if r.returncode == 1 and "FAIL" in out:
        return out[out.index("FAIL"):][:2000], ""
    return "the program ends with status %d: %s" % (r.returncode, out[-500:]), ""


def attempt(builder, spec, script, d):
    """message of the failure, or None"""
    shutil.rmtree(d, ignore_errors=True)
    exe = builder.build(spec, d)
    return execute(exe, d, script)[0]


def shrink(builder, spec, script, d, deadline):
    """greedy: fewer commands, modules, types"""
    def fails(s, sc):
        try:
            return attempt(builder, s, sc, d) is not None
        except (Broken, IndexError, KeyError, subprocess.TimeoutExpired):
            return False
    # commands need no rebuild
    exe_dir = d + "-s"
    shutil.rmtree(exe_dir, ignore_errors=True)
    exe = builder.build(spec, exe_dir)

    def cmds(sc):
        size = max(1, len(sc) // 2)
        while size and time.time() < deadline:
            i = 0
            while i < len(sc) and time.time() < deadline:
                cut = sc[:i] + sc[i + size:]
                try:
                    bad = execute(exe, exe_dir, cut)[0]
                except Broken:
                    bad = None
                if bad and "status" not in bad or bad and "status" in last[0]:
                    sc = cut
                    last[0] = bad
                else:
                    i += size
            size //= 2
        return sc
    last = [execute(exe, exe_dir, script)[0] or ""]
    script = cmds(script)
    for what in ("light", "types", "bulk", "early", "pairs", "local"):
        for k in range(len(spec["units"])):
            if time.time() > deadline:
                break
            s = copy.deepcopy(spec)
            u = s["units"][k]
            if what == "local":
                if not u["local"]:
                    continue
                u["local"] = False
                if fails(s, script):
                    spec = s
            elif what in ("types", "light"):
                keep = {t for p in u["pairs"] for t in p} | set(u["early"])
                for t in list(u[what]):
                    if time.time() > deadline:
                        break
                    s = copy.deepcopy(spec)
                    if t in keep:
                        s["units"][k]["pairs"] = [p for p in s["units"][k]["pairs"] if t not in p]
                        s["units"][k]["early"] = [x for x in s["units"][k]["early"] if x != t]
                    s["units"][k][what].remove(t)
                    if not s["units"][k]["types"]:
                        continue
                    if fails(s, script):
                        spec = s
            elif u[what]:
                u[what] = []
                if fails(s, script):
                    spec = s
    shutil.rmtree(exe_dir, ignore_errors=True)
    return spec, script


def check(repo, pid, name, opts, tier, seed, deadline, replay_dir):
    t0 = time.time()
    budget = min(opts.get("max_seconds", {}).get(tier) or (75 if tier == "quick" else 1500), deadline - t0 - 60)
    target = (120 if tier == "quick" else 4000)
    scratch = tempfile.mkdtemp(prefix="co_ecs_c19_")
    stats = {"programs": 0, "types": 0, "units": 0, "plugins": 0, "hidden programs": 0, "operations on components of another module": 0,
             "g++ programs": 0, "early units": 0, "programs with registries": 0}
    samples, evaluations, seen = [], 0, set()
    fail = None
    broken = None
    lines = []
    try:
        builder = Builder(repo, scratch)

        def one(i):
            if time.time() - t0 > budget:
                return None
            spec = make_spec(seed * 1000003 + i)
            d = os.path.join(scratch, "p%d" % i)
            res = []
            try:
                exe = builder.build(spec, d)
                for j in range(6):
                    script = make_script(spec, seed * 1000003 + i * 16 + j)
                    bad, ok = execute(exe, d, script)
                    if bad:
                        # a program that fails once for reasons of its own must do so again
                        if all(execute(exe, d, script)[0] for _ in range(2)):
                            return i, spec, res, (script, bad), None
                        return i, spec, res, None, None
                    res.append((script, ok))
                return i, spec, res, None, None
            except Broken as e:
                return i, spec, res, None, str(e)
            except subprocess.TimeoutExpired as e:
                return i, spec, res, None, "timeout of " + str(e.cmd[:3])
            finally:
                if os.environ.get("C19_KEEP") is None:
                    shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(6) as ex:
            futs = [ex.submit(one, i) for i in range(target)]
            for f in futs:
                r = f.result()
                if r is None or fail or broken:
                    continue
                i, spec, res, bad, brk = r
                if brk:
                    broken = (spec, brk)
                    for g in futs:
                        g.cancel()
                    break
                stats["programs"] += 1
                stats["programs with registries"] += not spec["ids_only"]
                stats["types"] += len(spec["types"])
                stats["units"] += len(spec["units"])
                stats["plugins"] += sum(u["kind"] == "plugin" for u in spec["units"])
                stats["hidden programs"] += spec["hidden"]
                stats["g++ programs"] += spec["compiler"] == "g++"
                stats["early units"] += sum(bool(u["early"]) for u in spec["units"])
                for script, ok in res:
                    evaluations += 1
                    foreign = int(ok.split("foreign=")[1])
                    stats["operations on components of another module"] += foreign
                    shared = any(set(a["types"] + a["light"]) & set(b["types"] + b["light"]) for n, a in enumerate(spec["units"]) for b in spec["units"][:n])
                    if shared and len(spec["units"]) > 1:
                        seen.add(hashlib.sha256((json.dumps(spec, sort_keys=True) + "\n".join(script)).encode()).digest())
                        if len(samples) < 3 and (foreign or (spec["ids_only"] and len(samples) == 1)):
                            samples.append("%s, %s, %s visibility, %s; units: %s; types: %s; script: %s" % (
                                spec["compiler"], spec["shape"], "hidden" if spec["hidden"] else "default", "macros" if spec["macros"] else "no macros",
                                "; ".join("%s %s+%s" % (u["home"], u["types"], u["light"]) for u in spec["units"]),
                                ", ".join(t["expr"] for t in spec["types"][:8]), " | ".join(script[:10])))
                if bad:
                    fail = (spec,) + bad
                    for g in futs:
                        g.cancel()
                    break
        res = {"harness": pid + "/" + name, "evaluations": evaluations + (1 if fail else 0), "nontrivial": len(seen), "distinct_nontrivial": len(seen),
               "rule": "generated programs (1-8 translation units in an executable, archive, host library, client libraries and plugins; clang++ and "
                       "g++; default and hidden visibility; 3-36 types plus up to 90 bulk types per unit), each run with 6 generated scripts that load "
                       "and unload plugins and mix registry operations of all modules; ids, sizes, alignments and names agree between modules, ids differ "
                       "between types and never change, registries read the same in every module; non-trivial: at least two units use a common type",
               "samples": samples, "labels": stats, "wall_s": round(time.time() - t0, 1), "status": "ok", "rc": 0}
        if broken:
            res.update(rc=2, status="error")
            lines.append("a generated program does not build: " + broken[1])
        if fail:
            spec, script, msg = fail
            lines.append("program %d fails: %s" % (spec["seed"], msg))
            d = os.path.join(scratch, "shrink")
            try:
                spec, script = shrink(builder, spec, script, d, time.time() + opts.get("shrink", 60))
                msg = attempt(builder, spec, script, d) or msg
            except (Broken, subprocess.TimeoutExpired):
                spec, script, msg = fail
            path = save(replay_dir, pid, name, spec, script, msg)
            lines.append("message: " + msg)
            lines.append("replay: " + path)
            res.update(rc=1, status="violation", replay=path, message=msg)
        builder.pool.shutdown()
    finally:
        if os.environ.get("C19_KEEP") is None:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    lines.append("%s/%s: %d programs, %d runs, %d nontrivial, %.1fs, rc=%d" % (pid, name, stats["programs"], evaluations, len(seen), time.time() - t0, res["rc"]))
    res["out"] = "\n".join(lines) + "\n"
    return res


def save(replay_dir, pid, name, spec, script, msg):
    doc = json.dumps({"spec": spec, "script": script}, indent=1)
    path = os.path.join(replay_dir, "%s-%s-%s.txt" % (pid, name, hashlib.sha256(doc.encode()).hexdigest()[:16]))
    with open(path, "w") as f:
        f.write("# property %s harness %s\n# %s\n" % (pid, name, msg.replace("\n", "\n# ")))
        f.write("# the modules, for reading:\n")
        for k in range(len(spec["units"])):
            f.write("#   unit %d (%s):\n" % (k, spec["units"][k]["home"]))
            for line in source_of(spec, k).splitlines():
                f.write("#     " + line + "\n")
        f.write(doc + "\n")
    return path


def replay(repo, path):
    text = "".join(line for line in open(path) if not line.startswith("#"))
    doc = json.loads(text)
    scratch = tempfile.mkdtemp(prefix="co_ecs_c19_")
    try:
        msg = attempt(Builder(repo, scratch), doc["spec"], doc["script"], os.path.join(scratch, "p"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(msg or "holds")
    return 1 if msg else 0
