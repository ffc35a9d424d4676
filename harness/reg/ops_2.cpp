#define RT_LO 8
#define RT_HI 12
#include "ops.inc"
namespace rt {
void init_ops_2() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
