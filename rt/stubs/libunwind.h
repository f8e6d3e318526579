// declarations of the part of libunwind's local interface that the library uses (libunwind is not installed here)
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint64_t unw_word_t;
typedef int unw_regnum_t;
typedef struct unw_context { uint64_t opaque[128]; } unw_context_t;
typedef struct unw_cursor { uint64_t opaque[127]; } unw_cursor_t;
enum { UNW_X86_64_RSP = 7, UNW_X86_64_RIP = 16, UNW_REG_IP = UNW_X86_64_RIP, UNW_REG_SP = UNW_X86_64_RSP };
int unw_getcontext(unw_context_t*);
int unw_init_local(unw_cursor_t*, unw_context_t*);
int unw_get_reg(unw_cursor_t*, unw_regnum_t, unw_word_t*);
int unw_is_signal_frame(unw_cursor_t*);
int unw_step(unw_cursor_t*);
#ifdef __cplusplus
}
#endif
