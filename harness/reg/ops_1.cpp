#define RT_LO 4
#define RT_HI 8
#include "ops.inc"
namespace rt {
void init_ops_1() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
