// instantiates the operation tables for the type indices in [RT_LO, RT_HI)
#include "types.hpp"
namespace rt {
// filler component types, registered before the active ones of this file: spreads the active ids over several
// 64-bit blocks of the component sets
template<int N>
struct filler {};
template<int... N>
static std::uint32_t touch_fillers(std::integer_sequence<int, N...>) {
    return (0u + ... + static_cast<std::uint32_t>(co_ecs::component_id::value<filler<RT_LO * 100 + N>>));
}
static const std::uint32_t filler_sum = touch_fillers(std::make_integer_sequence<int, 25>{});
template<int I>
static void put() {
    ops[I] = ops_impl<I>::table();
}
template<int... I>
static void put_all(std::integer_sequence<int, I...>) {
    (put<RT_LO + I>(), ...);
}
} // namespace rt
