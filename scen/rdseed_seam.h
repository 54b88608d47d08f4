#pragma once
#include <x86intrin.h>
#include <immintrin.h>
// the CPU's entropy instructions, in whatever width they are used, are served by the simulator
extern "C" int sim_rdseed_step(void *, unsigned);
static inline int sim_rdseed64_step(unsigned long long *p) { return sim_rdseed_step(p, 8); }
static inline int sim_rdseed32_step(unsigned int *p) { return sim_rdseed_step(p, 4); }
static inline int sim_rdseed16_step(unsigned short *p) { return sim_rdseed_step(p, 2); }
#define _rdseed64_step sim_rdseed64_step
#define _rdseed32_step sim_rdseed32_step
#define _rdseed16_step sim_rdseed16_step
#define __builtin_ia32_rdseed_di_step(p) sim_rdseed_step((p), 8)
#define __builtin_ia32_rdseed_si_step(p) sim_rdseed_step((p), 4)
#define __builtin_ia32_rdseed_hi_step(p) sim_rdseed_step((p), 2)
