// Stand-in for /repo/arm_mte.h (the tagging instructions): the checker decides the random tag and keeps the tag memory.
#ifndef ARM_MTE_H
#define ARM_MTE_H
#include <stddef.h>
#include <stdint.h>
extern void *hmc_mte_irg(void *p, uint64_t exclusion_mask);
extern void hmc_mte_store(void *tagged_ptr, size_t len);
static inline void *arm_mte_create_random_tag(void *p, uint64_t exclusion_mask) { return hmc_mte_irg(p, exclusion_mask); }
static inline void arm_mte_tag_and_clear_mem(void *tagged_ptr, size_t len) { hmc_mte_store(tagged_ptr, len); }
#endif
