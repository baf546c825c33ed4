// The real compiler (libtcc of the current tree, executed by the engine) compiles a text; the code it emits runs in
// the x86-64 emulator (natively: on the CPU) and is compared with the same text compiled by clang.
#include "model_env.h"
#include <string.h>
#include <stdlib.h>
#include "libtcc.h"
#define STR_(...) #__VA_ARGS__
#define STR(...) STR_(__VA_ARGS__)
typedef long long L; typedef unsigned long long U;
static TCCState *S; static char c_msg[400]; static int c_nerr, c_nwarn;
static void c_err(void*o,const char*m){ if(strstr(m,"warning:")){ c_nwarn++; return; } c_nerr++; size_t i=0; for(;m[i]&&i<sizeof c_msg-1;i++) c_msg[i]=m[i]; c_msg[i]=0; int sy=0; for(size_t k=0;c_msg[k];k++) if((sy=sx_is_symbolic(c_msg[k]))) break; if(!sy) sx_print(m,0); }
static TCCState *c_new(int type){ S=tcc_new(); tcc_set_error_func(S,0,c_err); tcc_set_options(S,"-nostdlib -nostdinc"); tcc_set_output_type(S,type); return S; }
static void c_load(void){ sx_assert(tcc_relocate(S)>=0,"the program links"); }
static void *c_sym(const char*n){ void*p=tcc_get_symbol(S,n); sx_assert(p!=0,"the compiled symbol exists"); return p; }
static void c_compile(const char*t){ sx_assert(tcc_compile_string(S,t)==0,"a valid program compiles"); }
static void c_begin(void){ mfs_reset(); sx_instlimit(2000000000,1); }
static char *c_num(char*p,int v){ char b[12]; int n=0; do b[n++]='0'+v%10, v/=10; while(v); while(n) *p++=b[--n]; *p=0; return p; }
// the 64-bit unknown v as binary digits, in two literals so that the reader's overflow tests do not split the paths
static char *c_bits(char*p,U v,int hi,int lo,const char*suffix){ *p++='0'; *p++='b'; for(int i=hi;i>=lo;i--) *p++='0'|(char)((v>>i)&1); while(*suffix) *p++=*suffix++; *p=0; return p; }
static char *c_bin(char*p,U v,const char*suffix){ *p++='('; p=c_bits(p,v,63,32,suffix); *p++='<'; *p++='<'; *p++='3'; *p++='2'; *p++='|'; p=c_bits(p,v,31,0,suffix); *p++=')'; *p=0; return p; }
static char *c_put(char*p,const char*s){ while(*s) *p++=*s++; *p=0; return p; }
// a message naming the program
static const char *c_msgf(const char*name,const char*what){ static char b[8][300]; static int n; char*p=b[n=(n+1)&7]; char*q=c_put(p,name); q=c_put(q,": "); c_put(q,what); return p; }
