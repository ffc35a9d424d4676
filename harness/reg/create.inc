#include "types.hpp"
namespace rt {
template<int... I>
static create_combo combo() {
    create_combo c;
    c.types = { I... };
    c.create = [](registry& r, [[maybe_unused]] const u64* v) -> entity {
        [[maybe_unused]] std::size_t k = 0;
        // braces: evaluated left to right
        std::tuple<type_t<I>...> t{ maker<type_t<I>>::make(v[k++])... };
        return std::apply([&](auto&... a) -> entity { return r.create<type_t<I>...>(std::move(a)...); }, t);
    };
    c.cmd_create = [](registry& r, [[maybe_unused]] const u64* v) -> entity {
        [[maybe_unused]] std::size_t k = 0;
        std::tuple<type_t<I>...> t{ maker<type_t<I>>::make(v[k++])... };
        co_ecs::command_writer w{ r };
        return std::apply([&](auto&... a) -> entity { return w.create<type_t<I>...>(std::move(a)...); }, t);
    };
    return c;
}
} // namespace rt
