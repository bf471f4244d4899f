// Linked into every target: the seam for random numbers.
#include <stdint.h>
#include <stddef.h>
struct random_state;
int hmc_rnd_uniform(int width, uint64_t bound, uint64_t *out);
int hmc_rnd_word(int width, uint64_t *out);
void hmc_rnd_state(void *state);   // a draw reads and advances its generator
uint16_t __real_get_random_u16(struct random_state *);
uint64_t __real_get_random_u64(struct random_state *);
uint16_t __real_get_random_u16_uniform(struct random_state *, uint16_t);
uint64_t __real_get_random_u64_uniform(struct random_state *, uint64_t);
uint16_t __wrap_get_random_u16_uniform(struct random_state *s, uint16_t bound) {
    uint64_t v;
    hmc_rnd_state(s);
    return hmc_rnd_uniform(16, bound, &v) ? (uint16_t)v : __real_get_random_u16_uniform(s, bound);
}
uint64_t __wrap_get_random_u64_uniform(struct random_state *s, uint64_t bound) {
    uint64_t v;
    hmc_rnd_state(s);
    return hmc_rnd_uniform(64, bound, &v) ? v : __real_get_random_u64_uniform(s, bound);
}
uint16_t __wrap_get_random_u16(struct random_state *s) {
    uint64_t v;
    hmc_rnd_state(s);
    return hmc_rnd_word(16, &v) ? (uint16_t)v : __real_get_random_u16(s);
}
uint64_t __wrap_get_random_u64(struct random_state *s) {
    uint64_t v;
    hmc_rnd_state(s);
    return hmc_rnd_word(64, &v) ? v : __real_get_random_u64(s);
}
