"""Generated uses of the interface for C20. Every misuse comes with a well-formed twin that differs only in what is wrong;
the compiler has to reject the first and accept the second. Other snippets check the types the interface gives."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))

HEADER = """#pragma once
#include <co_ecs/co_ecs.hpp>
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace u {
using namespace co_ecs;
template<typename T> T make() { throw 0; }
template<typename T, typename U> concept same = std::is_same_v<T, U>;
template<typename... T> struct pack {};
template<int I, typename T> struct gen { T t{}; };
enum en { e0 }; enum class ec { x }; union un { int a; float b; };
/// a callback which wants exactly these argument types
template<typename... A> struct taker {
    template<typename... B> void operator()(B&&...) const { static_assert(std::is_same_v<pack<A...>, pack<B&&...>>, "component access has another type"); }
};
}
"""

GOOD_BODIES = [
    "struct {n} {{}};",
    "struct {n} {{ int v{{}}; }};",
    "struct {n} {{ double a, b; char c[7]; }};",
    "struct {n} {{ std::string s; std::vector<int> v; }};",
    "struct {n} {{ std::unique_ptr<int> p; }};",
    "class {n} {{ int v{{}}; public: {n}() = default; {n}({n}&&) noexcept = default; {n}& operator=({n}&&) noexcept = default; }};",
    "class {n} final {{ int v{{}}; public: explicit {n}(int x) : v(x) {{}} }};",
    "struct alignas(32) {n} {{ float f[5]; }};",
    "struct {n}_base {{ virtual ~{n}_base() = default; }}; struct {n} : {n}_base {{ {n}() = default; {n}({n}&&) noexcept = default; {n}& operator=({n}&&) noexcept = default; }};",
    "struct {n} {{ {n}(const {n}&) noexcept; {n}& operator=(const {n}&) noexcept; }};",
    "template<typename T> struct {n}_t {{ T t{{}}; }}; using {n} = {n}_t<{i}>;",
    "struct {n}_o {{ struct in {{ int v{{}}; }}; }}; using {n} = {n}_o::in;",
    "struct {n} {{ std::shared_ptr<void> p; int (*f)(int){{}}; }};",
    "using {n} = decltype([](int a) {{ return a + {k}; }});",
]
# not a component: T in place of a component is a misuse
BAD_BODIES = [
    "using {n} = {i};",
    "using {n} = {i}*;",
    "using {n} = u::en;",
    "using {n} = u::ec;",
    "enum class {n} {{ a }};",
    "using {n} = u::un;",
    "union {n} {{ int a; char c; }};",
    "using {n} = void (*)({i});",
    "struct {n}_o {{ int a; }}; using {n} = int {n}_o::*;",
    "struct {n} {{ {n}() = default; {n}({n}&&) noexcept(false); {n}& operator=({n}&&) noexcept; }};",
    "struct {n} {{ {n}() = default; {n}({n}&&) noexcept; {n}& operator=({n}&&) noexcept(false); }};",
    "struct {n} {{ {n}() = default; {n}(const {n}&); {n}& operator=(const {n}&) noexcept; }};",
    "struct {n} {{ {n}() = default; {n}(const {n}&) noexcept; {n}& operator=(const {n}&); }};",
    "struct {n} {{ {n}() = default; {n}({n}&&) noexcept; {n}& operator=({n}&&) = delete; }};",
    "struct {n} {{ {n}() = default; {n}({n}&&) = delete; {n}& operator=({n}&&) = delete; }};",
    "struct {n} {{ const int v{{}}; }};",
    "struct {n} {{ int& v; }};",
    "struct {n} {{ std::mutex m; }};",
    "struct {n} {{ std::atomic<{i}> m; }};",
    "struct {n}_m {{ {n}_m() = default; {n}_m({n}_m&&) noexcept(false); {n}_m& operator=({n}_m&&); }}; struct {n} {{ {n}_m m; int v; }};",
    "struct {n}_m {{ {n}_m() = default; {n}_m({n}_m&&) noexcept(false); {n}_m& operator=({n}_m&&); }}; struct {n} : {n}_m {{ std::string s; }};",
    "struct {n}_m {{ std::unique_ptr<int> p; ~{n}_m() noexcept(false) {{}} }}; struct {n} {{ {n}_m m[2]; const char c[3]; }};",
]


class gen:
    def __init__(self, rng, small=False):
        self.rng, self.small = rng, small
        self.decls, self.count = [], 0

    def comp(self, bodies=GOOD_BODIES):
        n = "c%d" % self.count
        self.count += 1
        body = self.rng.choice(bodies[:3] if self.small and bodies is GOOD_BODIES else bodies)
        self.decls.append(body.format(n=n, i=self.rng.choice(["int", "long", "double", "char"]), k=self.count))
        return n

    def comps(self, lo, hi):
        if self.small:
            hi = min(hi, max(lo, 2))
        return [self.comp() for _ in range(self.rng.randint(lo, hi))]

    def invalid(self):
        """a component and, under the same name, a type that is none"""
        n = "t"
        bad = self.rng.choice(BAD_BODIES).format(n=n, i=self.rng.choice(["int", "unsigned", "long", "double", "bool"]))
        good = self.rng.choice(GOOD_BODIES).format(n=n, i="int", k=77)
        return n, bad, good


def insert(rng, xs, x):
    xs = list(xs)
    xs.insert(rng.randint(0, len(xs)), x)
    return xs


def create_call(on, cs):
    return "%s.create<%s>(%s);" % (on, ", ".join(cs), ", ".join("u::make<%s>()" % c for c in cs))


ARGS = "[[maybe_unused]] u::registry& r, [[maybe_unused]] const u::registry& cr, [[maybe_unused]] u::entity_ref e, [[maybe_unused]] const u::entity_ref ce, " \
       "[[maybe_unused]] u::const_entity_ref k, [[maybe_unused]] u::entity id, [[maybe_unused]] u::command_writer& cmd, [[maybe_unused]] u::schedule& sch"


def wrap(decls, stmt, fn_decls=""):
    return "%s\n%svoid f(%s) {\n    %s\n}\n" % ("\n".join(decls), fn_decls, ARGS, stmt)


# ---- kinds of snippets: each returns (bad or None, good, names) ------------------------------------------------------
def k_repeat(g):
    cs = g.comps(1, 9)
    dup = g.rng.choice(cs)
    other = g.comp()
    pos = g.rng.randint(0, len(cs))
    bad, good = cs[:pos] + [dup] + cs[pos:], cs[:pos] + [other] + cs[pos:]
    if g.rng.random() < 0.3:
        # twice more
        d2, o2 = g.rng.choice(cs), g.comp()
        pos = g.rng.randint(0, len(bad))
        bad, good = bad[:pos] + [d2] + bad[pos:], good[:pos] + [o2] + good[pos:]
    form = g.rng.randrange(5)

    def call(xs):
        if form == 0:
            return create_call("cmd", xs)
        if form == 1:
            return "r.create(%s);" % ", ".join("u::make<%s>()" % x for x in xs)
        if form == 2:
            return "[[maybe_unused]] u::entity n = r.create<%s>(%s);" % (", ".join(xs), ", ".join("u::make<%s>()" % x for x in xs))
        return create_call("r", xs)
    # a repeated type may hide behind an alias
    decl = list(g.decls)
    if g.rng.random() < 0.2:
        bad = list(bad)
        i = [j for j, x in enumerate(bad) if x == dup]
        bad[i[-1]] = "alias"
        return wrap(decl + ["using alias = %s;" % dup], call(bad)), wrap(decl, call(good))
    return wrap(decl, call(bad)), wrap(decl, call(good))


SITES = [
    ("create", lambda g, t, cs: create_call("r", insert(g.rng, cs, t))),
    ("create deduced", lambda g, t, cs: "r.create(%s);" % ", ".join("u::make<%s>()" % x for x in insert(g.rng, cs, t))),
    ("set", lambda g, t, cs: "e.set<%s>(u::make<%s>());" % (t, t)),
    ("get", lambda g, t, cs: "(void)e.get<%s>();" % t),
    ("get many", lambda g, t, cs: "(void)e.get<%s>();" % ", ".join(insert(g.rng, cs or [g.comp()], t))),
    ("const get", lambda g, t, cs: "(void)%s.get<%s>();" % (g.rng.choice(["ce", "k"]), t)),
    ("const get many", lambda g, t, cs: "(void)%s.get<%s>();" % (g.rng.choice(["ce", "k"]), ", ".join(insert(g.rng, cs or [g.comp()], t)))),
    ("has", lambda g, t, cs: "(void)%s.has<%s>();" % (g.rng.choice(["e", "ce", "k"]), ", ".join(insert(g.rng, cs, t)))),
    ("registry has", lambda g, t, cs: "(void)%s.has<%s>(id);" % (g.rng.choice(["r", "cr"]), ", ".join(insert(g.rng, cs, t)))),
    ("remove", lambda g, t, cs: "e.remove<%s>();" % t),
    ("get_or_insert", lambda g, t, cs: "(void)e.get_or_insert<%s>(u::make<%s>());" % (t, t)),
    ("view", lambda g, t, cs: "(void)r.view<%s>();" % ", ".join(insert(g.rng, [c + "&" for c in cs], t + "&"))),
    ("view each", lambda g, t, cs: "r.view<%s>().each([](auto&&...) {});" % ", ".join(insert(g.rng, [c + "&" for c in cs], t + "&"))),
    ("const view", lambda g, t, cs: "(void)cr.view<%s>();" % ", ".join("const %s&" % c for c in insert(g.rng, cs, t))),
    ("view object", lambda g, t, cs: "u::view<%s> v{ cr }; (void)v;" % ", ".join("const %s&" % c for c in insert(g.rng, cs, t))),
    ("single", lambda g, t, cs: "(void)r.single<%s>();" % ", ".join(insert(g.rng, [c + "&" for c in cs], t + "&"))),
    ("const single", lambda g, t, cs: "(void)cr.single<%s>();" % ", ".join("const %s&" % c for c in insert(g.rng, cs, t))),
    ("each", lambda g, t, cs: "r.each([](%s) {});" % ", ".join(insert(g.rng, [c + "&" for c in cs], t + "&"))),
    ("const each", lambda g, t, cs: "cr.each([](%s) {});" % ", ".join("const %s&" % c for c in insert(g.rng, cs, t))),
    ("meta", lambda g, t, cs: "(void)u::component_meta::of<%s>();" % t),
    ("component set", lambda g, t, cs: "(void)u::component_set::create<%s>();" % ", ".join(insert(g.rng, cs, t))),
    ("component set ops", lambda g, t, cs: "u::component_set s; %s" % g.rng.choice(["s.insert<%s>();", "s.erase<%s>();", "(void)s.contains<%s>();"]) % t),
    ("meta set", lambda g, t, cs: "(void)u::component_meta_set::create<%s>();" % ", ".join(insert(g.rng, cs, t))),
    ("meta set ops", lambda g, t, cs: "u::component_meta_set s; %s" % g.rng.choice(["s.insert<%s>();", "s.erase<%s>();", "(void)s.contains<%s>();"]) % t),
    ("command create", lambda g, t, cs: create_call("cmd", insert(g.rng, cs, t))),
    ("command set", lambda g, t, cs: "cmd.get_entity(id).set<%s>(u::make<%s>());" % (t, t)),
    ("command remove", lambda g, t, cs: "cmd.get_entity(id).remove<%s>();" % t),
    ("system", lambda g, t, cs: "sch.begin_stage().add_system([](u::view<%s>) {});" % ", ".join(insert(g.rng, [c + "&" for c in cs], t + "&"))),
]


def k_component(g):
    """a type that is no component"""
    site, f = g.rng.choice(SITES)
    t, bad, good = g.invalid()
    cs = g.comps(0, 4)
    stmt = f(g, t, cs)
    return wrap([bad] + g.decls, stmt), wrap([good] + g.decls, stmt)


def k_entity(g):
    """mutable reference to the entity handle"""
    cs = g.comps(0, 4)
    refs = [g.rng.choice(["%s&", "const %s&"]) % c for c in cs]
    at = g.rng.randint(0, len(refs))
    # keep the view itself mutable in both, so that only the reference to the handle differs
    force = g.rng.random() < 0.7
    if force:
        extra = g.comp()
        refs.insert(g.rng.randint(0, len(refs)), extra + "&")
    form = g.rng.randrange(9)
    gens = g.rng.randrange(2)

    def code(ent):
        xs = refs[:at] + [ent] + refs[at:]
        j = ", ".join(xs)
        return ["r.view<%s>().each([](auto&&...) {});" % j,
                "for (auto&& x : r.view<%s>().each()) { (void)x; }" % j,
                "r.each([](%s) {});" % j,
                "(void)r.single<%s>();" % j,
                "u::view<%s> v{ r }; (void)v.single();" % j,
                "r.view<%s>().par_each([](auto&&...) {});" % j,
                "for (auto&& ch : r.view<%s>().chunks()) { for (auto&& x : ch) { (void)x; } }" % j,
                "u::view<%s> v{ r }; v.each([](%s) {});" % (j, j),
                None][form] or ("%s h = e.get<u::entity>(); (void)h;" % ent if not gens else
                                "for (auto [%s] : r.view<%s>().each()) { (void)b0; }" % (", ".join("b%d" % i for i in range(len(xs))), j))
    if form == 8 and not gens:
        # through an entity reference: the const variants must be used
        return wrap(g.decls, "u::entity& h = e.get<u::entity>(); (void)h;"), wrap(g.decls, "const u::entity& h = %s.get<u::entity>(); (void)h;" % g.rng.choice(["ce", "k"]))
    return wrap(g.decls, code("u::entity&")), wrap(g.decls, code("const u::entity&"))


def k_const_registry(g):
    """mutable component access through a const registry"""
    cs = g.comps(1, 5)
    c = g.rng.choice(cs)
    others = [x for x in cs if x != c]
    mixed = [g.rng.choice(["%s&", "const %s&"]) % x for x in others] if g.rng.random() < 0.5 else ["const %s&" % x for x in others]
    at = g.rng.randint(0, len(mixed))
    consts = ["const %s&" % x for x in others]

    def lst(ref, base):
        return ", ".join(base[:at] + [ref] + base[at:])
    bad, good = lst(c + "&", mixed), lst("const %s&" % c, consts)
    forms = [
        lambda j: "(void)cr.view<%s>();" % j,
        lambda j: "cr.view<%s>().each([](auto&&...) {});" % j,
        lambda j: "for (auto&& x : cr.view<%s>().each()) { (void)x; }" % j,
        lambda j: "cr.each([](%s) {});" % j,
        lambda j: "(void)cr.single<%s>();" % j,
        lambda j: "u::view<%s> v{ cr }; (void)v;" % j,
        lambda j: "u::view<%s> v(cr); v.each([](auto&&...) {});" % j,
        lambda j: "cr.view<%s>().par_each([](auto&&...) {});" % j,
    ]
    f = g.rng.choice(forms)
    if g.rng.random() < 0.35:
        # the same call on a mutable registry is well-formed
        stmt = f(bad)
        return wrap(g.decls, stmt), wrap(g.decls, re.sub(r"\bcr\b", "r", stmt))
    return wrap(g.decls, f(bad)), wrap(g.decls, f(good))


def k_const_callback(g):
    """a callback of a const view that asks for a mutable reference"""
    cs = g.comps(1, 5)
    i = g.rng.randrange(len(cs))
    j = ", ".join("const %s&" % c for c in cs)
    bad = ", ".join(("%s&" if n == i else "const %s&") % c for n, c in enumerate(cs))
    on, form = g.rng.choice(["r", "cr"]), g.rng.randrange(3)

    def code(args):
        if form == 0:
            return "%s.view<%s>().each([](%s) {});" % (on, j, args)
        if form == 1:
            return "%s.view<%s>().par_each([](%s) {});" % (on, j, args)
        return "for (auto x : %s.view<%s>().each()) { std::apply([](%s) {}, x); }" % (on, j, args)
    return wrap(g.decls, code(bad)), wrap(g.decls, code(j))


def k_reference(g):
    """a query by value or by pointer"""
    cs = g.comps(1, 5)
    c = g.rng.choice(cs)
    on = g.rng.choice(["r", "cr"])
    others = [(g.rng.choice(["%s&", "const %s&"]) if on == "r" else "const %s&") % x for x in cs if x != c]
    at = g.rng.randint(0, len(others))
    val = g.rng.choice(["%s", "const %s", "%s", "%s*", "const %s* const"]) % c
    ref = "const %s&" % c if on == "cr" else g.rng.choice(["%s&", "const %s&"]) % c
    form = g.rng.choice(["(void)%s.view<%s>();", "%s.each([](%s) {});", "(void)%s.single<%s>();", "%s.view<%s>().each([](auto&&...) {});", "%.0su::schedule{}.begin_stage().add_system([](u::view<%s>) {});",
                         "%.0ssch.begin_stage().add_system(+[](u::view<%s>) {});"])
    if "each" in form and "view" not in form and "*" not in val:
        val = g.rng.choice([c, c + "*"])  # a const parameter is the same as one that is not

    def code(x):
        return form % (on, ", ".join(others[:at] + [x] + others[at:]))
    return wrap(g.decls, code(val)), wrap(g.decls, code(ref))


CONST_ENTS = ["k", "ce", "cr.get_entity(id)", "cr.get_entity_const(id)", "r.get_entity_const(id)", "std::as_const(r).get_entity(id)", "std::as_const(e)"]


def k_const_entity(g):
    """mutable component access through a const entity reference"""
    cs = g.comps(1, 5)
    c = g.rng.choice(cs)
    on = g.rng.choice(CONST_ENTS)
    form = g.rng.randrange(6)
    if form == 0 or len(cs) < 2:
        return wrap(g.decls, "%s& x = %s.get<%s>(); (void)x;" % (c, on, c)), wrap(g.decls, "const %s& x = %s.get<%s>(); (void)x;" % (c, on, c))
    if form in (1, 2, 3):
        i = cs.index(c)
        get = "auto t = %s.get<%s>();" % (on, ", ".join(cs))
        if form == 1:
            s = "%s %s& x = std::get<%d>(t); (void)x;"
            return wrap(g.decls, s % (get, c, i)), wrap(g.decls, s % (get, "const " + c, i))
        if form == 2:
            s = "%s %s& x = std::get<%s&>(t); (void)x;"
            return wrap(g.decls, s % (get, c, c)), wrap(g.decls, s % (get, "const " + c, "const " + c))
        names = ", ".join("b%d" % n for n in range(len(cs)))
        s = "auto [%s] = %s.get<%s>(); %s& x = b%d; (void)x;"
        return wrap(g.decls, s % (names, on, ", ".join(cs), c, i)), wrap(g.decls, s % (names, on, ", ".join(cs), "const " + c, i))
    ops = ["%s.set<" + c + ">(u::make<" + c + ">());", "(void)%s.get_or_insert<" + c + ">(u::make<" + c + ">());", "(void)(%s.get<" + c + ">() = u::make<" + c + ">());"]
    op = g.rng.choice(ops)
    return wrap(g.decls, op % on), wrap(g.decls, op % "e")


def k_const_visit(g):
    """visiting through something const hands out const pointers"""
    on = g.rng.choice(["%s.visit(" % x for x in CONST_ENTS] + ["cr.visit(id, ", "std::as_const(r).visit(id, "])
    body = g.rng.choice(["[](const u::component_meta&, %s p) { (void)p; });", "[](u::component_meta, %s p) { (void)p; });",
                         "[](auto&& m, %s p) { (void)m; (void)p; });", "[](const u::component_meta&, auto* p) { %s q = p; (void)q; });"])
    if g.rng.random() < 0.3:
        return wrap([], on + body % "void*"), wrap([], g.rng.choice(["e.visit(", "r.visit(id, ", "r.get_entity(id).visit("]) + body % "void*")
    return wrap([], on + body % "void*"), wrap([], on + body % "const void*")


def k_types(g):
    """well-formed uses, with the types they must have"""
    cs = g.comps(1, 6)
    c = g.rng.choice(cs)
    kinds = [g.rng.random() < 0.5 for _ in cs]
    refs = [("const %s&" if q else "%s&") % x for q, x in zip(kinds, cs)]
    if g.rng.random() < 0.4:
        at = g.rng.randint(0, len(refs))
        refs.insert(at, "const u::entity&")
    j = ", ".join(refs)
    is_const = all(x.startswith("const ") for x in refs)
    on = g.rng.choice(["r", "cr"]) if is_const else "r"
    same = "static_assert(std::is_same_v<%s, %s>);"
    w = g.rng.choice([x for x in CONST_ENTS])
    form = g.rng.randrange(14)
    cl = ", ".join(cs)
    st = {
        0: same % ("decltype(e.get<%s>())" % c, c + "&"),
        1: same % ("decltype(%s.get<%s>())" % (w, c), "const %s&" % c),
        2: "e.get<%s>() = u::make<%s>();" % (c, c),
        3: (same % ("decltype(e.get<%s>())" % cl, "std::tuple<%s>" % ", ".join(x + "&" for x in cs)) if len(cs) > 1 else ""),
        4: (same % ("decltype(%s.get<%s>())" % (w, cl), "std::tuple<%s>" % ", ".join("const %s&" % x for x in cs)) if len(cs) > 1 else ""),
        5: same % ("decltype(%s.single<%s>())" % (on, j), "std::optional<std::tuple<%s>>" % j),
        6: "%s.view<%s>().each(u::taker<%s>{});" % (on, j, j),
        7: "for (auto&& x : %s.view<%s>().each()) { %s }" % (on, j, same % ("std::decay_t<decltype(x)>", "std::tuple<%s>" % j)),
        8: "%s.each([](%s) {});" % (on, j),
        9: "%s.view<%s>().par_each([](%s) {});" % (on, j, j),
        10: "for (auto&& ch : %s.view<%s>().chunks()) { for (auto&& x : ch) { %s } }" % (on, j, same % ("std::decay_t<decltype(x)>", "std::tuple<%s>" % j)),
        11: "u::view<%s> v{ %s }; auto o = v.single(); %s" % (j, on, same % ("decltype(o)", "std::optional<std::tuple<%s>>" % j)),
        12: same % ("decltype(e.get_or_insert<%s>(u::make<%s>()))" % (c, c), c + "&") + " " + same % ("decltype(e.set<%s>(u::make<%s>()))" % (c, c), "u::entity_ref")
            + " " + same % ("decltype(cr.get_entity(id))", "u::const_entity_ref") + " " + same % ("decltype(r.get_entity(id))", "u::entity_ref"),
        13: g.rng.choice(["e.visit(", "r.visit(id, "]) + "[](const u::component_meta&, auto p) { %s });" % (same % ("decltype(p)", "void*")),
    }[form]
    return None, wrap(g.decls, st)


def k_usage(g):
    """longer well-formed functions"""
    cs = g.comps(2, 6)
    st = []
    for _ in range(g.rng.randint(2, 6)):
        c = g.rng.choice(cs)
        sub = g.rng.sample(cs, g.rng.randint(1, len(cs)))
        st.append(g.rng.choice([
            "{ auto n = %s (void)n; }" % create_call("r", sub),
            "e.set<%s>(u::make<%s>()).remove<%s>();" % (c, c, g.rng.choice(cs)),
            "if (e.has<%s>() && k.has<%s>()) { e.destroy(); }" % (", ".join(sub), c),
            create_call("cmd", sub),
            "cmd.get_entity(id).set<%s>(u::make<%s>()).remove<%s>().destroy();" % (c, c, g.rng.choice(cs)),
            "sch.begin_stage().add_system([](u::view<%s>, const u::registry&, u::command_writer) {});" % ", ".join(g.rng.choice(["%s&", "const %s&"]) % x for x in sub),
            "sch.begin_stage(\"s\").add_system([](u::view<%s>) {}, u::schedule::main_thread) ;" % ", ".join("const %s&" % x for x in sub) if False else
            "sch.begin_stage(\"s\").add_system([](u::view<%s>, u::registry&) {});" % ", ".join("const %s&" % x for x in sub),
            "r.each([](const u::entity&, %s) {});" % ", ".join("%s&" % x for x in sub),
            "(void)u::component_meta_set::create<%s>();" % ", ".join(sub),
            "{ u::registry other; (void)e.copy(other); (void)k.copy(other); (void)e.move(other); (void)e.clone(); }",
            "for (auto [ent, %s] : cr.view<const u::entity&, %s>().each()) { (void)ent; }" % (", ".join("a%d" % i for i in range(len(sub))), ", ".join("const %s&" % x for x in sub)),
        ]))
    return None, wrap(g.decls, "\n    ".join(st))


KINDS = [("repeated component", k_repeat, 3), ("not a component", k_component, 8), ("mutable entity handle", k_entity, 4),
         ("query not by reference", k_reference, 2), ("const registry", k_const_registry, 4), ("const view callback", k_const_callback, 2), ("const entity reference", k_const_entity, 4),
         ("const visit", k_const_visit, 2), ("types", k_types, 6), ("usage", k_usage, 3)]


def make(seed, small=False, kind=None):
    rng = random.Random(seed)
    name, f, _ = kind or rng.choices(KINDS, [w for _, _, w in KINDS])[0]
    bad, good = f(gen(rng, small))
    return {"seed": seed, "kind": name, "bad": bad, "good": good}


# ---- compiling ---------------------------------------------------------------------------------------------------------
def run(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


class Broken(Exception):
    pass


class Compiler:
    def __init__(self, repo, scratch, rv3=False):
        self.scratch, self.n = scratch, 0
        h = os.path.join(scratch, "snip.hpp")
        with open(h, "w") as f:
            f.write(HEADER)
        self.flags = ["-std=c++20", "-w", "-I" + os.path.join(repo, "include"), "-I" + scratch] + (["-DCO_ECS_USE_RANGE_V3"] if rv3 else [])
        g = os.path.join(scratch, "gcc")
        os.makedirs(g, exist_ok=True)
        shutil.copy(h, os.path.join(g, "snip.hpp"))
        cmds = [["clang++"] + self.flags + ["-x", "c++-header", h, "-o", os.path.join(scratch, "snip.pch")],
                ["g++"] + self.flags + ["-x", "c++-header", os.path.join(g, "snip.hpp"), "-o", os.path.join(g, "snip.hpp.gch")]]
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(run, cmds):
                if r.returncode != 0:
                    raise Broken("the headers do not compile:\n" + r.stdout[-3000:])
        self.use = {"clang++": ["-include-pch", os.path.join(scratch, "snip.pch")], "g++": ["-I" + g, "-include", "snip.hpp"]}

    def errors(self, cxx, parts):
        """which of the named parts have errors; (set of names, number of errors which belong to none, output)"""
        self.n += 1
        src = os.path.join(self.scratch, "t%d-%d.cpp" % (self.n, random.getrandbits(60)))
        with open(src, "w") as f:
            for i, (nm, code) in enumerate(parts):
                f.write('namespace s%d {\n#line 1 "%s"\n%s\n}\n' % (i, nm, code))
        cmd = [cxx] + self.flags + self.use[cxx] + ["-fsyntax-only", src]
        cmd += ["-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"] if cxx == "clang++" else \
               ["-fmax-errors=0", "-ftemplate-backtrace-limit=0", "-fno-diagnostics-show-caret"]
        r = run(cmd)
        os.unlink(src)
        hit, lost, cur, n = set(), 0, None, 0
        names = re.compile(r"\bpart_\d+_(?:bad|good)\b")
        # a diagnostic and the lines that tell where it comes from: g++ prints the instantiation stack before the error
        block, blocks = [], []
        for line in r.stdout.splitlines():
            if cxx == "clang++":
                if re.search(r": (fatal )?error: ", line):
                    blocks.append(block)
                    block = [line]
                else:
                    block.append(line)
            else:
                if ": In " in line or re.match(r"In file included", line) or "In instantiation" in line:
                    if any(": error: " in b or "fatal error" in b for b in block):
                        blocks.append(block)
                        block = []
                block.append(line)
        blocks.append(block)
        for b in blocks:
            if not any("error: " in x for x in b):
                continue
            n += 1
            found = set(m for x in b for m in names.findall(x))
            if found:
                hit |= found
            else:
                lost += 1
        if r.returncode not in (0, 1):
            raise Broken("%s ended with status %d:\n%s" % (cxx, r.returncode, r.stdout[-2000:]))
        if (r.returncode != 0) != (n > 0):
            lost += 1
        return hit, lost, r

    def alone(self, cxx, nm, code):
        """does this code compile by itself"""
        r = self.errors(cxx, [(nm, code)])[2]
        return r.returncode == 0, r.stdout


def verdict(comp, cxx, s):
    """None if fine, else what is wrong; compiles the snippet by itself"""
    ok, out = comp.alone(cxx, "part_0_good", s["good"])
    if not ok:
        return "well-formed use (%s) is rejected by %s:\n%s" % (s["kind"], cxx, "\n".join(x for x in out.splitlines() if "error" in x)[:1500])
    if s["bad"] is not None and comp.alone(cxx, "part_0_bad", s["bad"])[0]:
        return "misuse (%s) is accepted by %s" % (s["kind"], cxx)
    return None


def check(repo, pid, name, opts, tier, seed, deadline, replay_dir):
    t0 = time.time()
    budget = min(opts.get("max_seconds", {}).get(tier) or (60 if tier == "quick" else 1500), deadline - t0 - 60)
    batch = 40
    target = (120 if tier == "quick" else 4000)
    scratch = tempfile.mkdtemp(prefix="co_ecs_c20_")
    stats = {k: 0 for k, _, _ in KINDS}
    stats.update({"misuses": 0, "well-formed": 0, "compiled with g++": 0, "range-v3": 0})
    seen, samples, lines, fail, broken, evaluations = set(), [], [], None, None, 0
    try:
        comps = {}
        for rv3 in (False, True):
            d = os.path.join(scratch, "rv3" if rv3 else "std")
            os.makedirs(d)
            comps[rv3] = Compiler(repo, d, rv3)

        def one(b):
            if time.time() - t0 > budget:
                return None
            ss = [make(seed * 1000003 + b * batch + i) for i in range(batch)]
            cxx = "g++" if b % 4 == 3 else "clang++"
            rv3 = b % 8 == 5
            comp = comps[rv3]
            try:
                suspects = set()
                good = [("part_%d_good" % i, s["good"]) for i, s in enumerate(ss)]
                bad = [("part_%d_bad" % i, s["bad"]) for i, s in enumerate(ss) if s["bad"] is not None]
                hit, lost, r = comp.errors(cxx, good)
                suspects |= {int(x.split("_")[1]) for x in hit}
                if lost:
                    suspects |= set(range(batch))
                hit, lost, r = comp.errors(cxx, bad)
                suspects |= {int(nm.split("_")[1]) for nm, _ in bad} - {int(x.split("_")[1]) for x in hit}
                # some by themselves, in case one error hides or explains another
                suspects |= {random.Random(b).randrange(batch)}
                for i in sorted(suspects):
                    v = verdict(comp, cxx, ss[i])
                    if v:
                        return b, cxx, rv3, ss, (ss[i], v), None
                return b, cxx, rv3, ss, None, None
            except Broken as e:
                return b, cxx, rv3, ss, None, str(e)
            except subprocess.TimeoutExpired as e:
                return b, cxx, rv3, ss, None, "compiling takes too long"
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(one, b) for b in range(target)]
            for f in futs:
                r = f.result()
                if r is None or fail or broken:
                    continue
                b, cxx, rv3, ss, bad, brk = r
                if brk:
                    broken = brk
                    [x.cancel() for x in futs]
                    break
                for s in ss:
                    evaluations += 1
                    stats[s["kind"]] += 1
                    stats["misuses" if s["bad"] else "well-formed"] += 1
                    stats["compiled with g++"] += cxx == "g++"
                    stats["range-v3"] += rv3
                    if s["bad"] or "static_assert" in s["good"] or s["kind"] == "usage":
                        seen.add(hashlib.sha256(((s["bad"] or "") + s["good"]).encode()).digest())
                        if len(samples) < 4 and s["kind"] not in [x[0] for x in samples]:
                            samples.append((s["kind"], s["bad"] or s["good"]))
                if bad:
                    fail = (cxx, rv3) + bad
                    [x.cancel() for x in futs]
                    break
        res = {"harness": pid + "/" + name, "evaluations": evaluations, "nontrivial": len(seen), "distinct_nontrivial": len(seen),
               "rule": "generated uses of the interface: misuses (repeated components in create, types that are no component at 28 sites, mutable "
                       "references to the entity handle, queries by value or pointer, mutable access through const registries, const views and const entity references, visiting) each "
                       "with a well-formed twin, and well-formed uses whose types are asserted, from 1-10 generated component types, compiled with "
                       "clang++ and g++, std ranges and range-v3; every misuse is rejected and everything else accepted; non-trivial: misuse pairs, "
                       "uses with asserted types, and functions of several uses",
               "samples": ["%s:\n%s" % x for x in samples[:3]], "labels": stats, "wall_s": round(time.time() - t0, 1), "status": "ok", "rc": 0}
        if broken:
            # the headers themselves, or a compiler that fails
            res.update(rc=2, status="error")
            lines.append(broken)
        if fail:
            cxx, rv3, s, msg = fail
            comp = comps[rv3]
            lines.append("snippet %d fails: %s" % (s["seed"], msg.splitlines()[0]))
            # the smallest of some small snippets of the same kind that fail in the same way
            end = time.time() + opts.get("shrink", 40)
            kind = [k for k in KINDS if k[0] == s["kind"]][0]
            best, size = (s, msg), len(s["good"])
            tries = [make(x, True, kind) for x in range(400)]
            for c in sorted(tries, key=lambda x: len(x["good"]))[:200]:
                if time.time() > end or len(c["good"]) >= size:
                    break
                try:
                    v = verdict(comp, cxx, c)
                except (Broken, subprocess.TimeoutExpired):
                    continue
                if v and v.split()[0] == msg.split()[0]:
                    best = (c, v)
                    break
            s, msg = best
            doc = json.dumps({"cxx": cxx, "rv3": rv3, "snippet": s}, indent=1)
            path = os.path.join(replay_dir, "%s-%s-%s.txt" % (pid, name, hashlib.sha256(doc.encode()).hexdigest()[:16]))
            with open(path, "w") as f:
                f.write("# property %s harness %s\n# %s\n" % (pid, name, msg.replace("\n", "\n# ")))
                for nm in ("bad", "good"):
                    if s[nm]:
                        f.write("# %s:\n#     %s\n" % (nm, s[nm].replace("\n", "\n#     ")))
                f.write(doc + "\n")
            lines += ["message: " + msg, "misuse:" if "accepted" in msg else "code:", s["bad"] if "accepted" in msg else s["good"], "replay: " + path]
            res.update(rc=1, status="violation", replay=path, message=msg)
    except Broken as e:
        res = {"harness": pid + "/" + name, "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "rc": 2, "status": "error"}
        lines.append(str(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    lines.append("%s/%s: %d snippets, %d nontrivial, %.1fs, rc=%d" % (pid, name, evaluations, len(seen), time.time() - t0, res["rc"]))
    res["out"] = "\n".join(lines) + "\n"
    return res


def replay(repo, path):
    doc = json.loads("".join(line for line in open(path) if not line.startswith("#")))
    scratch = tempfile.mkdtemp(prefix="co_ecs_c20_")
    try:
        msg = verdict(Compiler(repo, scratch, doc["rv3"]), doc["cxx"], doc["snippet"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(msg or "holds")
    return 1 if msg else 0
