#pragma once
_Noreturn void hmc_async_safe_fatal(const char *fmt, const char *s);
#define async_safe_fatal hmc_async_safe_fatal
