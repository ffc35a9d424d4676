#define RT_LO 24
#define RT_HI 28
#include "ops.inc"
namespace rt {
void init_ops_6() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
