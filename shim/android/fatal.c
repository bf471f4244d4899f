// Linked into Android builds: what bionic's fatal error function does, as far as the checks are concerned.
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void put(const char *s) { (void)!write(2, s, strlen(s)); }
_Noreturn void hmc_async_safe_fatal(const char *fmt, const char *s) {
    const char *p = strstr(fmt, "%s");
    if (p) { (void)!write(2, fmt, p - fmt); put(s); put(p + 2); } else put(fmt);
    put("\n");
    abort();
}
