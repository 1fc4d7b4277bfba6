// Which simulations decide which property.
#include "sim.h"
#define G(P) void gen_core_##P(Rng &, int, Scenario &);
G(P01) G(P02) G(P03) G(P04) G(P05) G(P06) G(P07) G(P08) G(P09) G(P10) G(P11) G(P12) G(P16) G(P18)
#define GV(P) void gen_value_##P(Rng &, int, Scenario &);
GV(P08) GV(P10) GV(P11) GV(P12)
void run_core(const Scenario &);
void core_warm();
void run_value(const Scenario &);
void value_warm();
void gen_pipe_P14(Rng &, int, Scenario &);
void gen_pipe_P15(Rng &, int, Scenario &);
void run_pipe(const Scenario &);
void gen_log_P13(Rng &, int, Scenario &);
void run_log(const Scenario &);
void gen_plug_P19(Rng &, int, Scenario &);
void gen_plug_P12(Rng &, int, Scenario &);
void run_plug(const Scenario &);
void gen_audio_P18(Rng &, int, Scenario &);
void run_audio(const Scenario &);
#define C(P, W) {#P, gen_core_##P, run_core, core_warm, W}
#define V(P, W) {#P, gen_value_##P, run_value, core_warm, W}
const Family families[] = {
    C(P01, 1), C(P02, 1), C(P03, 1), C(P04, 1), C(P05, 1), C(P06, 1), C(P07, 1), C(P08, 1), C(P09, 1), C(P10, 1), C(P11, 1), C(P12, 1), C(P16, 1), C(P18, 1),
    V(P08, 1), V(P10, 1), V(P11, 0.5), V(P12, 0.5),
    {"P14", gen_pipe_P14, run_pipe, core_warm, 1}, {"P15", gen_pipe_P15, run_pipe, core_warm, 1},
    {"P13", gen_log_P13, run_log, core_warm, 1},
    {"P19", gen_plug_P19, run_plug, core_warm, 1}, {"P12", gen_plug_P12, run_plug, core_warm, 0.2},
    {"P18", gen_audio_P18, run_audio, core_warm, 0.5},
    {nullptr, nullptr, nullptr, nullptr, 0},
};
