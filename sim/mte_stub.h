// Stands in for arm_mte.h: tag instructions become calls into the simulated tagging unit.
#ifndef ARM_MTE_H
#define ARM_MTE_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sim_mte_random_tag(uint64_t p, uint64_t excl);
void sim_mte_tag_and_clear(uint64_t p, size_t n);
#ifdef __cplusplus
}
#endif
static inline void *arm_mte_create_random_tag(void *p, uint64_t excl) { return (void *)sim_mte_random_tag((uint64_t)p, excl); }
static inline void arm_mte_tag_and_clear_mem(void *p, size_t n) { sim_mte_tag_and_clear((uint64_t)p, n); }
#endif
