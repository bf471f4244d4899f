// Linked into "rng" targets: the keystream generator can be replaced by words the search chooses.
#include <stdint.h>
#include <stddef.h>
#include "random.h"
int hmc_keystream(uint8_t *out, uint32_t n);
void __real_chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 bytes);
void __wrap_chacha_keystream_bytes(chacha_ctx *x, u8 *c, u32 bytes) {
    if (!hmc_keystream(c, bytes)) __real_chacha_keystream_bytes(x, c, bytes);
}
size_t hmc_rng_size(void) { return sizeof(struct random_state); }

// the divisions by which addresses are turned into slab and slot numbers: first numerator from..to (in steps) answered wrongly
#if __has_include("third_party/libdivide.h")
#include "third_party/libdivide.h"
uint64_t hmc_div32(uint32_t d, uint64_t from, uint64_t to) {
    struct libdivide_u32_t x = libdivide_u32_gen(d);
    for (uint64_t n = from; n < to; n++) if (libdivide_u32_do((uint32_t)n, &x) != (uint32_t)n / d) return n;
    return ~0ull;
}
uint64_t hmc_div64(uint64_t d, uint64_t from, uint64_t to, uint64_t step, uint64_t around) {
    struct libdivide_u64_t x = libdivide_u64_gen(d);
    for (uint64_t b = from; b < to; b += step)
        for (uint64_t n = b > around ? b - around : 0; n <= b + around; n++) if (libdivide_u64_do(n, &x) != n / d) return n;
    return ~0ull;
}
#endif
