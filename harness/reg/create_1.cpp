#include "create.inc"
namespace rt {
void init_combos_1(std::vector<create_combo>& c) {
    c.push_back(combo<20, 15>());
    c.push_back(combo<18, 13>());
    c.push_back(combo<2, 8>());
    c.push_back(combo<14, 7, 1>());
    c.push_back(combo<6, 4, 0>());
    c.push_back(combo<13, 12>());
    c.push_back(combo<25, 11>());
    c.push_back(combo<15, 16, 17, 18>());
    c.push_back(combo<0, 1, 2, 3, 4, 5>());
    c.push_back(combo<27, 26, 12>());
    c.push_back(combo<22>());
    c.push_back(combo<23, 19>());
    c.push_back(combo<21, 12, 20>());
    c.push_back(combo<5, 25, 26, 27, 1, 9, 12>());
    // sets that cannot fit a chunk
    c.push_back(combo<24>());
    c.push_back(combo<22, 23, 13>());
    c.push_back(combo<15, 24>());
}
} // namespace rt
