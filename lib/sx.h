// Harness API. In the engine these are intrinsics; natively (replay) they are in sx_native.c
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
void sx_symbolic(void *p, size_t n, const char *name);      // n fresh 8-bit unknowns
uint64_t sx_u64(const char *name);
uint32_t sx_u32(const char *name);
uint16_t sx_u16(const char *name);
uint8_t  sx_u8(const char *name);
uint64_t sx_bits(const char *name, unsigned w);             // w-bit unknown, zero extended
unsigned sx_choose(unsigned n, const char *name);           // unknown in [0,n), one path per value
void sx_assume(int c);
void sx_assert(int c, const char *msg);                     // the property
void sx_cover(const char *name);                            // reachability witness
uint64_t sx_conc(uint64_t v);                               // fork over every feasible value
int  sx_is_symbolic(uint64_t v);
void sx_end(void) __attribute__((noreturn));                // end this path quietly
void sx_fail(const char *msg) __attribute__((noreturn));    // unconditional violation
void sx_print(const char *s, uint64_t v);
void sx_heapfill(int byte);                                 // content of fresh heap/stack memory
void sx_instlimit(uint64_t n, int is_error);                // per-path step limit from here on
int  sx_native(void);                                       // 1 in native replay
uint64_t sx_readable(const void *p, size_t n);
uint64_t sx_objsize(const void *p);                         // size of heap object at p
void *sx_fnptr(const char *name);
void sx_giveup(const char *why) __attribute__((noreturn));  // path cannot be modelled: counted as incomplete
void sx_unsupported(const char *why, uint64_t v) __attribute__((noreturn));
typedef struct { uint64_t target, gpr[6], xmm[8][2], nfp, nstack, stack[96], rax, rdx, x0[2], x1[2]; unsigned char st0[16], st1[16]; } sx_x86_call;
uint64_t sx_native_call(uint64_t target, void *x86state);
uint64_t sx_mulhu(uint64_t a, uint64_t b);
uint64_t sx_mulhs(uint64_t a, uint64_t b);
int sx_ite32(int c, int a, int b);
int sx_str_eq(const char *a, const char *b);
#endif
