// What base.c offers to the other harnesses
#ifndef VT_H
#define VT_H
#include <setjmp.h>
#include <stdint.h>
extern volatile int64_t vt_write_left;
extern void (*volatile vt_time_hook)(void);
extern volatile int vt_time_fixed;
extern volatile double vt_time_value;
extern volatile int vt_usleep_divide;
extern __thread jmp_buf *vt_exit_jump;
extern __thread int vt_exit_code;
extern void (*volatile vt_thread_hook)(void *);
extern volatile int64_t vt_time_offset;
void vt_contain(const char *);
#endif
