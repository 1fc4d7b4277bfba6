// Which simulations of the Python module decide which property.
#include "../sim.h"
void gen_py_P17(Rng &, int, Scenario &);
void gen_py_P21(Rng &, int, Scenario &);
void gen_py_P24(Rng &, int, Scenario &);
void run_py(const Scenario &);
void py_warm();
void gen_vss(Rng &, int, Scenario &);
void run_vss(const Scenario &);
void vss_warm();
const Family families[] = {
    {"P17", gen_py_P17, run_py, py_warm, 1},
    {"P21", gen_py_P21, run_py, py_warm, 1},
    {"P24", gen_py_P24, run_py, py_warm, 1},
    {"P23", gen_vss, run_vss, vss_warm, 1},
    {nullptr, nullptr, nullptr, nullptr, 0},
};
