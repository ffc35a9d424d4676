// Driver of a generated program (C19): runs a script against a model and compares what every module sees.
#include "prog.hpp"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>

using co_ecs::component_id_t;
using ids_t = component_id_t;

struct module_ref {
    std::string name;                       // printed
    const prog::module_info* (*get)();      // linked module
    const char* file;                       // plugin
    const char* symbol;
    void* handle{};
    const prog::module_info* info{};
};
std::vector<module_ref> modules();          // generated
const char* type_ident(int);                // identifier a type's name must contain

struct known {
    ids_t id;
    std::size_t size, align;
    std::string name, who;
};
static std::map<int, known> types;          // what has been seen of each type
static std::map<ids_t, int> owner;          // type of each id
static std::map<std::pair<int, int>, ids_t> bulk_ids;
struct ent {
    int reg;
    co_ecs::entity e;
    std::map<int, int> comp;
    bool alive = true;
};
static std::vector<ent> ents;
#ifndef PROG_IDS_ONLY
static co_ecs::registry regs[2];
#endif
static std::vector<module_ref> mods;
static long line_no, foreign;
static std::map<std::pair<long, int>, int> creator;

#define CHECK(cond, msg)                                                    \
    do {                                                                    \
        if (!(cond)) {                                                      \
            std::cout << "FAIL line " << line_no << ": " << msg << "\n"; \
            std::exit(1);                                                   \
        }                                                                   \
    } while (0)

static void ids_of(int k) {
    auto& m = mods[k];
    for (auto& t : m.info->types) {
        auto* meta = t.meta();
        auto id = t.id();
        std::string name(meta->name);
        CHECK(t.value() == id, m.name << ": component_id::value of type " << t.index << " is " << t.value() << ", its meta has id " << id);
        CHECK(t.static_id == id, m.name << ": type " << t.index << " had id " << t.static_id << " during static initialization and has id " << id << " now");
        CHECK(meta->size == t.size && meta->align == t.align,
            m.name << ": type " << t.index << " has size " << t.size << " and alignment " << t.align << ", its meta says " << meta->size << " and " << meta->align);
        CHECK(name.find(type_ident(t.index)) != std::string::npos, m.name << ": type " << t.index << " (" << type_ident(t.index) << ") is named '" << name << "'");
        auto [it, fresh] = types.emplace(t.index, known{ id, t.size, t.align, name, m.name });
        auto& w = it->second;
        CHECK(w.id == id, "type " << t.index << " has id " << w.id << " in " << w.who << " and id " << id << " in " << m.name);
        CHECK(w.size == meta->size && w.align == meta->align, "type " << t.index << " has size " << w.size << " and alignment " << w.align << " in " << w.who << ", but "
                                                     << meta->size << " and " << meta->align << " in " << m.name);
        CHECK(w.name == name, "type " << t.index << " is named '" << w.name << "' in " << w.who << " and '" << name << "' in " << m.name);
        auto [o, first] = owner.emplace(id, t.index);
        CHECK(o->second == t.index, "types " << o->second << " and " << t.index << " (" << name << ") share id " << id << ", seen in " << m.name);
    }
    for (auto& b : m.info->bulk) {
        for (int i = 0; i < b.count; i++) {
            auto id = b.id(i);
            auto [it, fresh] = bulk_ids.emplace(std::pair{ b.family, i }, id);
            CHECK(it->second == id, "type " << i << " of family " << b.family << " had id " << it->second << " and has id " << id << " in " << m.name);
            int index = 1000000 * (b.family + 1) + i;
            auto [o, first] = owner.emplace(id, index);
            CHECK(o->second == index, "types " << o->second << " and " << index << " share id " << id << ", seen in " << m.name);
        }
    }
}
#ifndef PROG_IDS_ONLY
static const prog::type_ops* find(int k, int t) {
    for (auto& o : mods[k].info->types) {
        if (o.index == t) {
            return &o;
        }
    }
    return nullptr;
}
static void model_sum(int reg, int t, long& n, long& s) {
    for (auto& e : ents) {
        if (e.alive && e.reg == reg && e.comp.count(t)) {
            n++;
            s += e.comp[t];
        }
    }
}
static void verify(int k, bool use_registry) {
    ids_of(k);
    if (!use_registry) {
        return;
    }
    auto& m = mods[k];
    for (auto& t : m.info->types) {
        if (!t.create) {
            continue;
        }
        for (std::size_t i = 0; i < ents.size(); i++) {
            auto& e = ents[i];
            if (!e.alive) {
                continue;
            }
            bool has = t.has(regs[e.reg], e.e);
            CHECK(has == (e.comp.count(t.index) > 0), m.name << ": entity " << i << (has ? " has" : " lacks") << " type " << t.index << " (" << t.meta()->name << ")");
            if (has) {
                auto v = t.get(regs[e.reg], e.e);
                CHECK(v == e.comp[t.index], m.name << ": type " << t.index << " of entity " << i << " is " << v << ", not " << e.comp[t.index]);
            }
        }
        for (int r = 0; r < 2; r++) {
            long n = 0, s = 0, en = 0, es = 0;
            t.sum(regs[r], n, s, false);
            model_sum(r, t.index, en, es);
            CHECK(n == en && s == es, m.name << ": view of type " << t.index << " has " << n << " entities of sum " << s << ", not " << en << " of sum " << es);
        }
    }
    for (auto& p : m.info->pairs) {
        for (int r = 0; r < 2; r++) {
            long n = 0, s = 0, en = 0, es = 0;
            p.sum(regs[r], n, s);
            for (auto& e : ents) {
                if (e.alive && e.reg == r && e.comp.count(p.a) && e.comp.count(p.b)) {
                    en++;
                    es += 3L * e.comp[p.a] + e.comp[p.b];
                }
            }
            CHECK(n == en && s == es, m.name << ": view of types " << p.a << ", " << p.b << " has " << n << " entities of sum " << s << ", not " << en << " of sum " << es);
        }
    }
}
static void early(int k) {
    // what a module did to a registry of its own while its static variables were initialized
    auto& m = mods[k];
    if (!m.info->early) {
        return;
    }
    for (std::size_t i = 0; i < m.info->early_entities.size(); i++) {
        auto [t, e] = m.info->early_entities[i];
        for (auto& q : mods) {
            if (!q.info) {
                continue;
            }
            for (auto& o : q.info->types) {
                if (!o.create) {
                    continue;
                }
                bool has = o.has(*m.info->early, e);
                CHECK(has == (o.index == t), q.name << ": entity " << i << " created during the static initialization of " << m.name << " with type " << t
                                                    << (has ? " has" : " lacks") << " type " << o.index);
                if (has) {
                    auto v = o.get(*m.info->early, e);
                    CHECK(v == (o.valued ? static_cast<int>(i) + 7 : 1), q.name << ": value of entity " << i << " created during static initialization is " << v);
                }
            }
        }
    }
}
#endif
int main(int, char** argv) {
    mods = modules();
    for (auto& m : mods) {
        if (m.get) {
            m.info = m.get();
        }
    }
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        line_no++;
        std::istringstream is(line);
        std::string op;
        int k{}, i{}, j{}, v{}, w{};
        is >> op >> k;
        auto& m = mods[k];
        if (op == "load") {
            is >> i;
            bool other_thread{};
            is >> other_thread;
            auto load = [&] { m.handle = dlopen(m.file, i); };
            if (other_thread) {
                std::thread(load).join();
            } else {
                load();
            }
            if (!m.handle) {
                std::cout << "BROKEN " << dlerror() << "\n";
                return 3;
            }
            m.info = reinterpret_cast<const prog::module_info* (*)()>(dlsym(m.handle, m.symbol))();
            ids_of(k);
        } else if (op == "tids") {
            std::thread([&] { ids_of(k); }).join();
        } else if (op == "unload") {
            dlclose(m.handle);
            m.handle = nullptr;
            m.info = nullptr;
        } else if (op == "ids") {
            ids_of(k);
#ifndef PROG_IDS_ONLY
        } else if (op == "early") {
            early(k);
        } else if (op == "verify") {
            verify(k, true);
        } else if (op == "create") {
            is >> i >> j >> v; // registry, type
            auto* o = find(k, j);
            ents.push_back({ i, o->create(regs[i], v), { { j, o->valued ? v : 1 } } });
            creator[{ static_cast<long>(ents.size()) - 1, j }] = k;
        } else if (op == "pair") {
            is >> i >> j >> v >> w; // registry, pair
            auto& p = m.info->pairs[j];
            ents.push_back({ i, p.create(regs[i], v, w), { { p.a, find(k, p.a)->valued ? v : 1 }, { p.b, find(k, p.b)->valued ? w : 1 } } });
            creator[{ static_cast<long>(ents.size()) - 1, p.a }] = creator[{ static_cast<long>(ents.size()) - 1, p.b }] = k;
        } else {
            is >> i >> j >> v;
            if (op == "each") { // registry, type
                long n = 0, s = 0, en = 0, es = 0;
                auto* o = find(k, j);
                o->sum(regs[i], n, s, true);
                model_sum(i, j, en, es);
                CHECK(n == en && s == es, m.name << ": view of type " << j << " has " << n << " entities of sum " << s << ", not " << en << " of sum " << es);
                if (o->valued) {
                    for (auto& e : ents) {
                        if (e.alive && e.reg == i && e.comp.count(j)) {
                            e.comp[j]++;
                        }
                    }
                }
                continue;
            }
            if (ents.empty()) {
                continue;
            }
            std::size_t at = i % ents.size();
            auto& e = ents[at];
            if (!e.alive) {
                continue;
            }
            auto& r = regs[e.reg];
            if (op == "set") {
                auto* o = find(k, j);
                o->set(r, e.e, v);
                e.comp[j] = o->valued ? v : 1;
                if (creator.emplace(std::pair{ static_cast<long>(at), j }, k).first->second != k) {
                    foreign++;
                }
            } else if (op == "remove") {
                if (find(k, j)->has(r, e.e) != (e.comp.count(j) > 0)) {
                    CHECK(false, m.name << ": entity " << at << " has/lacks type " << j);
                }
                find(k, j)->remove(r, e.e);
                e.comp.erase(j);
                if (creator.emplace(std::pair{ static_cast<long>(at), j }, k).first->second != k) {
                    foreign++;
                }
            } else if (op == "destroy") {
                r.destroy(e.e);
                e.alive = false;
            } else if (op == "clone") {
                auto n = r.get_entity(e.e).clone();
                ents.push_back(ent{ e.reg, n, e.comp });
            } else if (op == "copy") {
                auto n = r.get_entity(e.e).copy(regs[1 - e.reg]);
                ents.push_back({ 1 - e.reg, n, e.comp });
            } else if (op == "move") {
                auto n = r.get_entity(e.e).move(regs[1 - e.reg]);
                ents.push_back({ 1 - e.reg, n, e.comp });
                ents[at].alive = false;
            }
#endif
        }
    }
    line_no++;
    for (std::size_t k = 0; k < mods.size(); k++) {
        if (mods[k].info) {
            ids_of(static_cast<int>(k));
        }
    }
    std::cout << "OK types=" << types.size() << " entities=" << ents.size() << " foreign=" << foreign << std::endl;
    std::_Exit(0);
}
