/* forced into every /repo C source under check: logging calls become an empty
 * variadic stub (their arguments are still evaluated). Allocator names are
 * renamed on the command line (-Dmalloc=v_malloc ...). */
#ifndef V_PRE_H
#define V_PRE_H
#include "v.h"
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include "utils/os.h"
#undef log_trace
#undef log_debug
#undef log_info
#undef log_warn
#undef log_error
#undef log_errno
#undef log_err_ex
#undef log_err_exp
static inline void v_log(const char *f, ...) { (void)f; }
#define log_trace(...) v_log(__VA_ARGS__)
#define log_debug(...) v_log(__VA_ARGS__)
#define log_info(...) v_log(__VA_ARGS__)
#define log_warn(...) v_log(__VA_ARGS__)
#define log_error(...) v_log(__VA_ARGS__)
#define log_errno(...) v_log(__VA_ARGS__)
#undef tolower
#undef toupper
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isxdigit
#undef isupper
#undef islower
#undef isprint
#endif
