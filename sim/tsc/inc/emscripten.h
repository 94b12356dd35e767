// The part of emscripten's interface ems.c needs: the code blocks run in the node process (see tsc.c).
#pragma once
#include <stdint.h>
#define EMSCRIPTEN_KEEPALIVE
int sim_em(const char* code, int n, const uint64_t* args);
#define SIM_EM_N_(a, b, c, d, e, f, n, ...) n
#define SIM_EM_N(...)                       SIM_EM_N_(0, ##__VA_ARGS__, 5, 4, 3, 2, 1, 0)
#define SIM_EM_1(a)                         (uint64_t) (uintptr_t) (a)
#define SIM_EM_L0()
#define SIM_EM_L1(a)          SIM_EM_1(a)
#define SIM_EM_L2(a, b)       SIM_EM_1(a), SIM_EM_1(b)
#define SIM_EM_L3(a, b, c)    SIM_EM_1(a), SIM_EM_1(b), SIM_EM_1(c)
#define SIM_EM_L4(a, b, c, d) SIM_EM_1(a), SIM_EM_1(b), SIM_EM_1(c), SIM_EM_1(d)
#define SIM_EM_CAT_(a, b)     a##b
#define SIM_EM_CAT(a, b)      SIM_EM_CAT_(a, b)
#define EM_ASM_INT(code, ...) sim_em(#code, SIM_EM_N(__VA_ARGS__), (uint64_t[]) {SIM_EM_CAT(SIM_EM_L, SIM_EM_N(__VA_ARGS__))(__VA_ARGS__)})
#define EM_ASM(code, ...)     ((void) EM_ASM_INT(code, ##__VA_ARGS__))
