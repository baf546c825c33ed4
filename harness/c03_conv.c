// C03: conversions between integer and floating types, at run time (0), of constants (1), for every source value.
#include "c_common.h"
#include "rt_ref.h"
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned u32; typedef long long i64; typedef unsigned long long u64; typedef float f32; typedef double f64; typedef _Bool b1;
#define TD "typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef int i32; typedef unsigned u32; typedef long long i64; typedef unsigned long long u64; typedef float f32; typedef double f64; typedef _Bool b1;"
#define INTS(X,s) X(s,i8) X(s,u8) X(s,i16) X(s,u16) X(s,i32) X(s,u32) X(s,i64) X(s,u64) X(s,b1)
#define TYPES(X,s) INTS(X,s) X(s,f32) X(s,f64)
#define FROM(X) TYPES(X,i8) TYPES(X,u8) TYPES(X,i16) TYPES(X,u16) TYPES(X,i32) TYPES(X,u32) TYPES(X,i64) TYPES(X,u64) TYPES(X,b1) TYPES(X,f32) TYPES(X,f64)
// the range of values whose conversion to an integer type is defined
#define LO_i8 -129.0
#define HI_i8 128.0
#define LO_u8 -1.0
#define HI_u8 256.0
#define LO_i16 -32769.0
#define HI_i16 32768.0
#define LO_u16 -1.0
#define HI_u16 65536.0
#define LO_i32 -2147483649.0
#define HI_i32 2147483648.0
#define LO_u32 -1.0
#define HI_u32 4294967296.0
#define LO_i64 -9223372036854777856.0
#define HI_i64 9223372036854775808.0
#define LO_u64 -1.0
#define HI_u64 18446744073709551616.0
enum { t_i8,t_u8,t_i16,t_u16,t_i32,t_u32,t_i64,t_u64,t_b1,t_f32,t_f64 };
// four ways to convert: an explicit cast, an assignment, an argument, mixed arithmetic with a compound assignment
#define FUN(s,d) d f_##s##_##d(s x){ return (d)x; } void g_##s##_##d(s*p,d*q){ q[0]=*p; d v[1]; *v=p[0]; q[1]=v[0]; } static d h_##s##_##d(d x){ return x; } d k_##s##_##d(s x){ return h_##s##_##d(x); }
#define DEFS FROM(FUN)
#if MODE==0
FROM(FUN)
#define ENT(s,d) {t_##s,t_##d,"f_" #s "_" #d,"g_" #s "_" #d,"k_" #s "_" #d,STR(FUN(s,d)),f_##s##_##d},
static const struct { int s,d; const char*f,*g,*k,*text; void*ref; } E[]={ FROM(ENT) };
static int size(int t){ static const int n[]={1,1,2,2,4,4,8,8,1,4,8}; return n[t]; }
static const double LO[]={LO_i8,LO_u8,LO_i16,LO_u16,LO_i32,LO_u32,LO_i64,LO_u64},HI[]={HI_i8,HI_u8,HI_i16,HI_u16,HI_i32,HI_u32,HI_i64,HI_u64};
static U call(int s,int d,void*f,U x){ union { U u; float f; double d; i8 c; i16 h; i32 i; } a,r; a.u=x; r.u=0;
#define C2(S,D) case t_##S*11+t_##D: { S v; memcpy(&v,&a,sizeof v); D w=((D(*)(S))f)(v); memcpy(&r,&w,sizeof w); break; }
  switch(s*11+d){ FROM(C2) } return r.u; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"conversion"); int s=E[k].s,d=E[k].d; static char text[40000]; c_put(c_put(c_put(text,TD),rt_libtcc1),E[k].text); c_compile(text); c_load();
  U x=sx_bits("x",8*size(s)); if(s==t_b1) sx_assume(x<=1); if(s==t_f32){ union { unsigned u; float f; } u={x}; sx_assume(d>t_u64||(u.f>LO[d]&&u.f<HI[d])); } if(s==t_f64){ union { U u; double f; } u={x}; sx_assume(d>t_u64||(u.f>LO[d]&&u.f<HI[d])); }
  int nan=0; if(s==t_f32&&d>=t_f32) nan=(x&0x7fffffff)>0x7f800000; if(s==t_f64&&d>=t_f32) nan=(x&0x7fffffffffffffff)>0x7ff0000000000000;
  U want=call(s,d,E[k].ref,x), got=call(s,d,c_sym(E[k].f),x); if(sx_native()) sx_print(E[k].f,x), sx_print("want",want), sx_print("got",got);
  sx_assert(nan|(want==got),c_msgf(E[k].f+2,"a converted value (cast)")); got=call(s,d,c_sym(E[k].k),x); sx_assert(nan|(want==got),c_msgf(E[k].f+2,"a converted value (argument)"));
  static U p[2],q[2]; p[0]=x; ((void(*)(void*,void*))c_sym(E[k].g))(p,q); U r0=0,r1=0; memcpy(&r0,q,size(d)); memcpy(&r1,(char*)q+size(d),size(d)); sx_assert(nan|((want==r0)&(want==r1)),c_msgf(E[k].f+2,"a converted value (assignment)")); sx_cover("end"); }
#else // constants: the source is an integer literal of unknown value, or that converted to a floating type first
static char text[60000]; static char *tp=text; static void W(const char*s){ tp=c_put(tp,s); }
static const char*const N[]={"i8","u8","i16","u16","i32","u32","i64","u64","b1","f32","f64"};
#define C1(S,D) static void c_##S##_##D(U x,U*r){ S v=(S)x; D w=(D)v; memcpy(r,&w,sizeof w); }
FROM(C1)
#define S1(S,D) static void s_##S##_##D(U x,U*r){ S v=(S)(L)x; D w=(D)v; memcpy(r,&w,sizeof w); }
FROM(S1)
#define CE(S,D) c_##S##_##D,
#define CT(S,D) s_##S##_##D,
static void (*const CS[])(U,U*)={ FROM(CT) };
static void (*const CV[])(U,U*)={ FROM(CE) };
static const double LO[]={LO_i8,LO_u8,LO_i16,LO_u16,LO_i32,LO_u32,LO_i64,LO_u64},HI[]={HI_i8,HI_u8,HI_i16,HI_u16,HI_i32,HI_u32,HI_i64,HI_u64};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned s=sx_choose(11,"from"),d=sx_choose(11,"to"); W(TD); W(rt_libtcc1);
  U x=sx_u64("x"); U r=0; int sg=sx_choose(2,"signed literal"); if(sg&&(s<t_f32||d==t_u8||d==t_u16||d==t_u32||d==t_u64||(TIER_QUICK&&!(d==t_i64||d==(s==t_f64?t_i32:t_f64))))) sx_end(); if(s>=t_f32&&d<=t_u64){ f64 f=s==t_f32?(sg?(f32)(L)x:(f32)x):(sg?(f64)(L)x:(f64)x); sx_assume((f<HI[d])&(f>LO[d])); } if(sg) CS[s*11+d](x,&r); else CV[s*11+d](x,&r);
  W(N[d]); W(" a=("); W(N[d]); W(")("); W(N[s]); W(sg?")(i64)":")"); tp=c_bin(tp,x,"ULL"); W("; "); W(N[d]); W(" b["); W("]={0,("); W(N[s]); W(sg?")(i64)":")"); tp=c_bin(tp,x,"ULL"); W("}; "); W(N[d]); W(" f(void){ return ("); W(N[s]); W(sg?")(i64)":")"); tp=c_bin(tp,x,"ULL"); W("; }");
  c_compile(text); c_load(); U g=0,h=0; static const int sz[]={1,1,2,2,4,4,8,8,1,4,8}; memcpy(&g,c_sym("a"),sz[d]); memcpy(&h,(char*)c_sym("b")+sz[d],sz[d]); void*f=c_sym("f"); U q=0; if(d==t_f32){ f32 v=((f32(*)(void))f)(); memcpy(&q,&v,4); } else if(d==t_f64){ f64 v=((f64(*)(void))f)(); memcpy(&q,&v,8); } else { q=((U(*)(void))f)(); if(sz[d]<8) q&=(1ull<<8*sz[d])-1; }
  if(sx_native()) sx_print(N[s],d), sx_print("x",x), sx_print("want",r), sx_print("a",g), sx_print("b",h), sx_print("f",q);
  sx_assert(g==r,c_msgf(N[s],"a converted constant (static initialiser)")); sx_assert(h==r,"a converted constant (array element)"); sx_assert(q==r,"a converted constant (returned)"); sx_cover("end"); }
#endif
