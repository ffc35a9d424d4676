#define RT_LO 0
#define RT_HI 4
#include "ops.inc"
namespace rt {
void init_ops_0() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
