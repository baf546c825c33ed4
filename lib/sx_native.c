// Native runtime of the harness API: replays one assignment of the unknowns against the real build.
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
static struct { unsigned w; uint64_t v; } *in; static size_t nin, pos; static int over;
int x86_checkregs=1; uint64_t x86_maxsteps; 
static void load(void){ const char*f=getenv("SX_INPUTS"); FILE*h=f?fopen(f,"r"):0; if(!h) return; unsigned w; unsigned long long v; size_t cap=0; while(fscanf(h,"%u %llu",&w,&v)==2){ if(nin==cap){ cap=cap*2+64; in=realloc(in,cap*sizeof *in); } in[nin].w=w; in[nin++].v=v; } fclose(h); }
static uint64_t next(unsigned w){ if(pos>=nin){ over=1; return 0; } uint64_t v=in[pos].v; if(in[pos].w!=w){ fprintf(stderr,"SXMISMATCH input %zu has width %u, wanted %u\n",pos,in[pos].w,w); fflush(0); _exit(76); } pos++; return v; }
void sx_symbolic(void*p,size_t n,const char*nm){ for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]=next(8); }
uint64_t sx_u64(const char*n){ return next(64); } uint32_t sx_u32(const char*n){ return next(32); } uint16_t sx_u16(const char*n){ return next(16); } uint8_t sx_u8(const char*n){ return next(8); }
uint64_t sx_bits(const char*n,unsigned w){ return next(w); }
unsigned sx_choose(unsigned n,const char*nm){ if(n==0) sx_end(); unsigned v=next(32); return v<n?v:0; }
void sx_end(void){ fprintf(stderr,"SXEND\n"); fflush(0); _exit(0); }
void sx_assume(int c){ if(!c){ fprintf(stderr,"SXASSUME\n"); fflush(0); _exit(0); } }
void sx_fail(const char*m){ fprintf(stderr,"SXFAIL %s\n",m); fflush(0); _exit(77); }
void sx_assert(int c,const char*m){ if(!c) sx_fail(m); }
void sx_cover(const char*n){ fprintf(stderr,"SXCOVER %s\n",n); }
uint64_t sx_conc(uint64_t v){ return v; } int sx_is_symbolic(uint64_t v){ return 0; }
void sx_print(const char*s,uint64_t v){ if(getenv("SX_VERBOSE")) fprintf(stderr,"SXPRINT %s 0x%llx\n",s,(unsigned long long)v); }
void sx_heapfill(int b){} void sx_instlimit(uint64_t n,int e){} void sx_limits(uint64_t a,uint64_t b,uint64_t c){} int sx_native(void){ return 1; }
void sx_giveup(const char*w){ fprintf(stderr,"SXGIVEUP %s\n",w); fflush(0); _exit(75); }
void sx_unsupported(const char*w,uint64_t v){ sx_giveup(w); }
void *__asan_region_is_poisoned(void*,size_t) __attribute__((weak));
uint64_t sx_readable(const void*p,size_t n){ return !p?0: __asan_region_is_poisoned? !__asan_region_is_poisoned((void*)p,n):1; }
uint64_t sx_objsize(const void*p){ return malloc_usable_size((void*)p); }
void *sx_fnptr(const char*n){ return dlsym(RTLD_DEFAULT,n); }
uint64_t sx_mulhu(uint64_t a,uint64_t b){ return (uint64_t)(((unsigned __int128)a*b)>>64); }
uint64_t sx_mulhs(uint64_t a,uint64_t b){ return (uint64_t)(((__int128)(int64_t)a*(int64_t)b)>>64); }
int sx_ite32(int c,int a,int b){ return c?a:b; }
long double sx_host_strtold(const char*s,char**e){ return strtold(s,e); } double sx_host_strtod(const char*s,char**e){ return strtod(s,e); } float sx_host_strtof(const char*s,char**e){ return strtof(s,e); }
extern void SX_ENTRY(void);
int main(void){ setvbuf(stderr,0,_IOLBF,0); load(); SX_ENTRY(); fprintf(stderr,"SXDONE\n"); fflush(0); _exit(0); }
