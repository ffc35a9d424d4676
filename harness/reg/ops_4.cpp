#define RT_LO 16
#define RT_HI 20
#include "ops.inc"
namespace rt {
void init_ops_4() {
    put_all(std::make_integer_sequence<int, RT_HI - RT_LO>{});
}
} // namespace rt
