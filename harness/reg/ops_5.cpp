#define RT_LO 20
#define RT_HI 24
#include "ops.inc"
namespace rt {
void init_ops_5() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
