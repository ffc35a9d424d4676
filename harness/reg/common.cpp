#include "types.hpp"
namespace rt {
tracker T;
const type_ops* ops[NT];
std::vector<create_combo> combos;

void init_ops_0();
void init_ops_1();
void init_ops_2();
void init_ops_3();
void init_ops_4();
void init_ops_5();
void init_ops_6();
void init_combos_0(std::vector<create_combo>&);
void init_combos_1(std::vector<create_combo>&);

void init_ops() {
    static bool done = false;
    if (done) {
        return;
    }
    done = true;
    init_ops_0();
    init_ops_1();
    init_ops_2();
    init_ops_3();
    init_ops_4();
    init_ops_5();
    init_ops_6();
    init_combos_0(combos);
    init_combos_1(combos);
}
} // namespace rt
