// Stand-in for bionic's <malloc.h>, for builds of the allocator's Android interface on this system.
#ifndef HMC_ANDROID_MALLOC_H
#define HMC_ANDROID_MALLOC_H
#include <features.h>
#include <stdint.h>
#define mallinfo hmc_glibc_mallinfo
#include_next <malloc.h>
#undef mallinfo
#undef __GLIBC__
struct mallinfo { size_t arena, ordblks, smblks, hblks, hblkhd, usmblks, fsmblks, uordblks, fordblks, keepcost; };
#define M_PURGE (-101)
#endif
