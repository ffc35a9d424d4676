#define RT_LO 12
#define RT_HI 16
#include "ops.inc"
namespace rt {
void init_ops_3() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
