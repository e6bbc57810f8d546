/* Declarations understood by the abstract interpreter (engine/). Nothing here is ever executed. */
#ifndef AI_H
#define AI_H
#include <stddef.h>
int __ai_int(const char* name, int lo, int hi);
unsigned __ai_bits(const char* name, int n);
float __ai_float(const char* name, float lo, float hi);
float __ai_float_nan(const char* name, float lo, float hi); /* range plus NaN */
void __ai_assert(int c, const char* msg);
void __ai_same_mem(const void* a, const void* b, size_t n, const char* msg);
void __ai_same_i(int a, int b, const char* msg);
void __ai_same_f(float a, float b, const char* msg);
void __ai_same_lin(float a, float b, float eps, const char* msg);
void __ai_range_f(float x, float lo, float hi, const char* msg);
void __ai_range_i(int x, int lo, int hi, const char* msg);
void __ai_init(const void* p, size_t n, const char* msg);
void __ai_uninit(void* p, size_t n);
void __ai_freeze(const void* p, size_t n);
void __ai_thaw(void);
void __ai_malloc_residue(int r);
void __ai_malloc_fail(int idx);
int __ai_malloc_count(void);
int __ai_live_heap(void);
void __ai_print_log(char* buf, int cap, int* len); /* printed text goes here */
void __ai_print_ignore(void);                     /* printed text is of no interest */
void __ai_new_thread(void);  /* thread-local library data as on a new thread */
void __ai_mark(void);
int __ai_forget_changed(void);  /* static data and heap blocks: every byte changed since the mark becomes unwritten; how many */
void __ai_new_process(void); /* all library data as initially */
void __ai_out_i(const char* k, int v);
void __ai_out_f(const char* k, float v);
void __ai_dump_i(const char* k, int v);
void __ai_dump_f(const char* k, float v);
int __ai_depends(const void* p, size_t n, const char* name);
void __ai_nodep(const void* p, size_t n, const char* name, const char* msg);
float __ai_uf_f(const char* name, int idx, const void* p, size_t n, float lo, float hi);
int __ai_uf_i(const char* name, int idx, const void* p, size_t n, int lo, int hi);
int __ai_is_single(int v);
#endif
