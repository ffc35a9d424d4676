#include "create.inc"
namespace rt {
void init_combos_0(std::vector<create_combo>& c) {
    c.push_back(combo<>());
    c.push_back(combo<0>());
    c.push_back(combo<1>());
    c.push_back(combo<9>());
    c.push_back(combo<12>());
    c.push_back(combo<13>());
    c.push_back(combo<15>());
    c.push_back(combo<16>());
    c.push_back(combo<18>());
    c.push_back(combo<0, 1>());
    c.push_back(combo<2, 0>());
    c.push_back(combo<12, 15>());
    c.push_back(combo<16, 12>());
    c.push_back(combo<9, 10>());
    c.push_back(combo<2, 3, 4>());
    c.push_back(combo<17, 0, 9>());
}
} // namespace rt
