/* Link-time interposition (ld --wrap) of the allocation and FFTW-planner calls
 * made by the library objects: accounting, fault injection, plan life cycle. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void wrap_reset(void);            /* forget errors, no faults; keeps live table */
void wrap_arm(long k, int sticky);/* k-th request from now (1-based) fails; sticky: all from then on */
void wrap_arm_plan(long k, int sticky); /* same for plan creation */
void wrap_disarm(void);
long wrap_requests(void);         /* requests since last wrap_reset/wrap_arm */
long wrap_plan_requests(void);
long wrap_injected(void);         /* faults delivered since wrap_reset */
long wrap_live(void);             /* live blocks */
long wrap_live_bytes(void);
long wrap_live_plans(void);
const char* wrap_error(void);     /* NULL, or description of a double free / dead plan use */
void wrap_forget_live(void);
void wrap_plan_real(int on);      /* on: use planner flags as given (slow), off: FFTW_ESTIMATE */
size_t wrap_block_size(const void* p); /* 0 if unknown */
/* fill newly allocated (non-calloc) blocks with this byte; -1: leave */
void wrap_junk(int byte);
#ifdef __cplusplus
}
#endif
