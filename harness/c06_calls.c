// C06: calls within and across compiled code and code of the system's compiler (clang), every argument value.
#include "c_common.h"
#include "rt_ref.h"
#define DEFS long long *O; int *N; static void R(long long v){ O[(*N)++]=v; } \
 union du { long long l; double d; }; union fu { int l; float d; }; static double D(long long v){ union du u; u.l=v; return u.d; } static long long RD(double v){ union du u; u.d=v; return u.l; } \
 static float F(long long v){ union fu u; u.l=v; return u.d; } static long long RF(float v){ union fu u; u.d=v; return u.l; } short EX=0x3fff; union lu { long double d; long long l; struct { long long l; short e; } s; }; static long double LD(long long v){ union lu u; u.s.e=EX; u.l=v|(-0x7fffffffffffffffLL-1); return u.d; } static long long RL(long double v){ union lu u; u.d=v; return u.l^u.s.e; } static long long twice(long long v){ return v+v; }
#if MODE==0||MODE==1 // structures: as arguments and results (0), as variable arguments (1)
#define STRS(X) \
 X(c1, { char a; }, s.a=p[i], R(s.a)) \
 X(c3, { char a[3]; }, (s.a[0]=p[i],s.a[1]=p[i]>>8,s.a[2]=p[i]>>16), (R(s.a[0]),R(s.a[1]),R(s.a[2]))) \
 X(sc, { short a; char b; }, (s.a=p[i],s.b=p[i]>>20), (R(s.a),R(s.b))) \
 X(if1, { int a; float b; }, (s.a=p[i],s.b=F(p[i]>>32)), (R(s.a),R(RF(s.b)))) \
 X(ff, { float a; float b; }, (s.a=F(p[i]),s.b=F(p[i]>>32)), (R(RF(s.a)),R(RF(s.b)))) \
 X(fff, { float a; float b; float c; }, (s.a=F(p[i]),s.b=F(p[i]>>32),s.c=F(p[i+1])), (R(RF(s.a)),R(RF(s.b)),R(RF(s.c)))) \
 X(d1, { double a; }, s.a=D(p[i]), R(RD(s.a))) \
 X(di, { double a; int b; }, (s.a=D(p[i]),s.b=p[i+1]), (R(RD(s.a)),R(s.b))) \
 X(id, { int a; double b; }, (s.a=p[i],s.b=D(p[i+1])), (R(s.a),R(RD(s.b)))) \
 X(ll, { long a; long b; }, (s.a=p[i],s.b=p[i+1]), (R(s.a),R(s.b))) \
 X(dd, { double a; double b; }, (s.a=D(p[i]),s.b=D(p[i+1])), (R(RD(s.a)),R(RD(s.b)))) \
 X(fd, { float a; double b; }, (s.a=F(p[i]),s.b=D(p[i+1])), (R(RF(s.a)),R(RD(s.b)))) \
 X(cl, { char a; long b; }, (s.a=p[i],s.b=p[i+1]), (R(s.a),R(s.b))) \
 X(lll, { long a; long b; short c; }, (s.a=p[i],s.b=p[i+1],s.c=p[i]>>3), (R(s.a),R(s.b),R(s.c))) \
 X(c16, { char a[16]; }, (s.a[0]=p[i],s.a[7]=p[i+1],s.a[8]=p[i]>>9,s.a[15]=p[i]>>50), (R(s.a[0]),R(s.a[7]),R(s.a[8]),R(s.a[15]))) \
 X(c17, { char a[17]; }, (s.a[0]=p[i],s.a[7]=p[i+1],s.a[8]=p[i]>>9,s.a[16]=p[i]>>50), (R(s.a[0]),R(s.a[7]),R(s.a[8]),R(s.a[16]))) \
 X(ld, { long double a; }, s.a=LD(p[i]), R(RL(s.a))) \
 X(u1, { union { int a; float b; } u; short c; }, (s.u.b=F(p[i]),s.c=p[i]>>40), (R(s.u.a),R(s.c))) \
 X(u2, { union { double a; long b; } u; double c; }, (s.u.b=p[i],s.c=D(p[i+1])), (R(RD(s.u.a)),R(RD(s.c)))) \
 X(ffi, { float a; float b; int c; }, (s.a=F(p[i]),s.b=F(p[i]>>32),s.c=p[i+1]), (R(RF(s.a)),R(RF(s.b)),R(s.c))) \
 X(fif, { float a; int b; float c; }, (s.a=F(p[i]),s.b=p[i]>>32,s.c=F(p[i+1])), (R(RF(s.a)),R(s.b),R(RF(s.c)))) \
 X(nst, { struct { short a; float b; } x; double y; }, (s.x.a=p[i],s.x.b=F(p[i]>>32),s.y=D(p[i+1])), (R(s.x.a),R(RF(s.x.b)),R(RD(s.y)))) \
 X(i4, { int a[4]; }, (s.a[0]=p[i],s.a[1]=p[i+1],s.a[2]=p[i]>>32,s.a[3]=p[i+1]>>32), (R(s.a[0]),R(s.a[1]),R(s.a[2]),R(s.a[3]))) \
 X(f4, { float a[4]; }, (s.a[0]=F(p[i]),s.a[1]=F(p[i+1]),s.a[2]=F(p[i]>>32),s.a[3]=F(p[i+1]>>32)), (R(RF(s.a[0])),R(RF(s.a[1])),R(RF(s.a[2])),R(RF(s.a[3])))) \
 X(bf, { int a:3; unsigned b:13; long c:40; }, (s.a=p[i],s.b=p[i]>>3,s.c=p[i+1]), (R(s.a),R(s.b),R(s.c))) \
 X(pd, { char a; double b; char c; }, (s.a=p[i],s.b=D(p[i+1]),s.c=p[i]>>8), (R(s.a),R(RD(s.b)),R(s.c)))
#if MODE==0
#define FUNS(n,decl,set,rec,callee,callee2,caller) struct n decl; static struct n mk_##n(long long*p,int i){ struct n s; for(int k=0;k<sizeof s;k++) ((char*)&s)[k]=0; set; return s; } static void rec_##n(struct n s){ rec; } \
 struct n callee(int a,struct n s,double d,struct n t,long b,struct n u,float f,struct n v){ R(a); rec_##n(s); R(RD(d)); rec_##n(t); R(b); rec_##n(u); R(RF(f)); rec_##n(v); return a&1?s:t; } \
 struct n callee2(struct n s,struct n t){ rec_##n(s); rec_##n(t); t=s; return t; } \
 long long caller(long long*p,void*f,void*g){ struct n s=mk_##n(p,0),t=mk_##n(p,2); struct n (*c)(int,struct n,double,struct n,long,struct n,float,struct n)=f; struct n (*c2)(struct n,struct n)=g; struct n r=c(p[4],s,D(p[5]),t,p[6],mk_##n(p,4),F(p[7]),c2(t,s)); rec_##n(r); rec_##n(s); rec_##n(t); c2(r,c2(s,r)); rec_##n(c2(t,t)); s=c2(s,t); rec_##n(s); return *N; }
#else
#define FUNS(n,decl,set,rec,callee,callee2,caller) struct n decl; static struct n mk_##n(long long*p,int i){ struct n s; for(int k=0;k<sizeof s;k++) ((char*)&s)[k]=0; set; return s; } static void rec_##n(struct n s){ rec; } \
 static void rest_##n(int m,__builtin_va_list v){ while(m-->0){ rec_##n(__builtin_va_arg(v,struct n)); R(__builtin_va_arg(v,int)); } } \
 int callee(int a,...){ __builtin_va_list v,w; R(a); __builtin_va_start(v,a); struct n s=__builtin_va_arg(v,struct n); rec_##n(s); R(RD(__builtin_va_arg(v,double))); R(__builtin_va_arg(v,long)); __builtin_va_copy(w,v); rest_##n(3,v); s=__builtin_va_arg(w,struct n); rec_##n(s); __builtin_va_end(w); __builtin_va_end(v); return a; } \
 int callee2(struct n s,long b,double d,...){ __builtin_va_list v; __builtin_va_start(v,d); rec_##n(s); R(b); R(RD(d)); rest_##n(2,v); __builtin_va_end(v); return b; } \
 long long caller(long long*p,void*f,void*g){ struct n s=mk_##n(p,0),t=mk_##n(p,2); int (*c)(int,...)=f; int (*c2)(struct n,long,double,...)=g; R(c(p[4],s,D(p[5]),p[6],t,(int)p[7],s,(int)p[3],t,(int)p[2])); R(c2(s,p[7],D(p[6]),t,(int)p[5],s,(int)p[4])); rec_##n(s); rec_##n(t); return *N; }
#endif
#define ALL(X) STRS(X)
#define CODE(n,d,s,r) FUNS(n,d,s,r,n##_a,n##_b,n##_c)
#define TEXT(n,d,s,r) STR(FUNS(n,d,s,r,callee,callee2,caller))
#define ENT(n,d,s,r) {#n,TEXT(n,d,s,r),n##_a,n##_b,n##_c},
#elif MODE==3 // signatures: integers, floating values, a structure, an integer and a floating value, and perhaps variable arguments
typedef struct { double a,b; } T_dd; typedef struct { long a,b; } T_ll; typedef struct { float a,b; } T_ff; typedef struct { long a,b,c; } T_lll; typedef struct { char a[3]; } T_c3; typedef long double T_ld; typedef struct { float a,b,c; } T_fff;
#define SDEFS typedef struct { double a,b; } T_dd; typedef struct { long a,b; } T_ll; typedef struct { float a,b; } T_ff; typedef struct { long a,b,c; } T_lll; typedef struct { char a[3]; } T_c3; typedef long double T_ld; typedef struct { float a,b,c; } T_fff; 
#define SFUNS static T_dd mk_dd(long long*p){ T_dd s; s.a=D(p[0]); s.b=D(p[1]); return s; } static void rec_dd(T_dd s){ R(RD(s.a)); R(RD(s.b)); } static T_ll mk_ll(long long*p){ T_ll s; s.a=p[0]; s.b=p[1]; return s; } static void rec_ll(T_ll s){ R(s.a); R(s.b); } \
 static T_ff mk_ff(long long*p){ T_ff s; s.a=F(p[0]); s.b=F(p[1]); return s; } static void rec_ff(T_ff s){ R(RF(s.a)); R(RF(s.b)); } static T_lll mk_lll(long long*p){ T_lll s; s.a=p[0]; s.b=p[1]; s.c=p[2]; return s; } static void rec_lll(T_lll s){ R(s.a); R(s.b); R(s.c); } \
 static T_c3 mk_c3(long long*p){ T_c3 s; s.a[0]=p[0]; s.a[1]=p[1]; s.a[2]=p[2]; return s; } static void rec_c3(T_c3 s){ R(s.a[0]); R(s.a[1]); R(s.a[2]); } static T_ld mk_ld(long long*p){ return LD(p[0]); } static void rec_ld(T_ld s){ R(RL(s)); } static T_fff mk_fff(long long*p){ T_fff s; s.a=F(p[0]); s.b=F(p[1]); s.c=F(p[2]); return s; } static void rec_fff(T_fff s){ R(RF(s.a)); R(RF(s.b)); R(RF(s.c)); }
#define PI0
#define AI0
#define RI0
#define PI3 long i0,int i1,long i2,
#define AI3 p[0],p[1],p[2],
#define RI3 R(i0); R(i1); R(i2);
#define PI4 PI3 short i3,
#define AI4 AI3 p[3],
#define RI4 RI3 R(i3);
#define PI5 PI4 long i4,
#define AI5 AI4 p[4],
#define RI5 RI4 R(i4);
#define PI6 PI5 long i5,
#define AI6 AI5 p[5],
#define RI6 RI5 R(i5);
#define PI7 PI6 char i6,
#define AI7 AI6 p[6],
#define RI7 RI6 R(i6);
#define PD0
#define AD0
#define RD0
#define PD5 double d0,float d1,double d2,double d3,float d4,
#define AD5 D(p[1]),F(p[2]),D(p[3]),D(p[4]),F(p[5]),
#define RD5 R(RD(d0)); R(RF(d1)); R(RD(d2)); R(RD(d3)); R(RF(d4));
#define PD6 PD5 double d5,
#define AD6 AD5 D(p[6]),
#define RD6 RD5 R(RD(d5));
#define PD7 PD6 float d6,
#define AD7 AD6 F(p[7]),
#define RD7 RD6 R(RF(d6));
#define PD8 PD7 double d7,
#define AD8 AD7 D(p[0]),
#define RD8 RD7 R(RD(d7));
#define PD9 PD8 double d8,
#define AD9 AD8 D(p[2]),
#define RD9 RD8 R(RD(d8));
#define PV0
#define AV0(s)
#define RV0(s)
#define PV1 ,...
#define AV1(s) ,(int)p[5],D(p[6]),mk_##s(p+2),p[7],D(p[0])
#define RV1(s) __builtin_va_list v; __builtin_va_start(v,z); R(__builtin_va_arg(v,int)); R(RD(__builtin_va_arg(v,double))); rec_##s(__builtin_va_arg(v,T_##s)); R(__builtin_va_arg(v,long)); R(RD(__builtin_va_arg(v,double))); __builtin_va_end(v);
#define SIG(ni,nd,s,va,callee,callee2,caller) T_##s callee(PI##ni PD##nd T_##s s,int k,double z PV##va){ RI##ni RD##nd rec_##s(s); R(k); R(RD(z)); RV##va(s) return s; } int callee2(int a){ return a; } long long caller(long long*p,void*f,void*g){ T_##s (*c)(PI##ni PD##nd T_##s s,int k,double z PV##va)=f; T_##s r=c(AI##ni AD##nd mk_##s(p),((int(*)(int))g)(p[3]),D(p[4]) AV##va(s)); rec_##s(r); return *N; }
#define S1(X,ni,nd,s) X(s##ni##nd##0,ni,nd,s,0) X(s##ni##nd##1,ni,nd,s,1)
#define S2(X,ni,nd) S1(X,ni,nd,dd) S1(X,ni,nd,ll) S1(X,ni,nd,ff) S1(X,ni,nd,lll) S1(X,ni,nd,c3) S1(X,ni,nd,ld) S1(X,ni,nd,fff)
#define S3(X,ni) S2(X,ni,0) S2(X,ni,5) S2(X,ni,6) S2(X,ni,7) S2(X,ni,8) S2(X,ni,9)
#define ALL(X) S3(X,0) S3(X,3) S3(X,4) S3(X,5) S3(X,6) S3(X,7)
#define CODE(n,ni,nd,s,va) SIG(ni,nd,s,va,n##_a,n##_b,n##_c)
#define TEXT(n,ni,nd,s,va) STR(SIG(ni,nd,s,va,callee,callee2,caller))
#define ENT(n,ni,nd,s,va) {#n,TEXT(n,ni,nd,s,va),n##_a,n##_b,n##_c},
#else
#define P_ints(callee,callee2,caller) char callee(char a,signed char b,unsigned char c,short d,unsigned short e,int f,unsigned g,long h,unsigned long long i,_Bool j,short k){ R(a); R(b); R(c); R(d); R(e); R(f); R(g); R(h); R(i); R(j); R(k); return a+k; } \
   unsigned short callee2(int a){ R(a); return a; } \
   long long caller(long long*p,void*f,void*g){ char (*c)(char,signed char,unsigned char,short,unsigned short,int,unsigned,long,unsigned long long,_Bool,short)=f; unsigned short (*c2)(int)=g; R(c(p[0],p[1],p[2],p[3],p[4],p[5],p[6],p[7],p[0],p[1],p[2])); return c2(p[3])+c(c2(p[1]),c2(p[2]),3,4,c2(p[5]),6,c2(p[7]),8,9,10,c2(p[6])); }
#define P_returns(callee,callee2,caller) signed char callee(long long a){ return a; } _Bool callee2(long long a){ return a; } unsigned callee3(long long*p){ return *p; } long callee4(int*p){ return *p; } \
   long long caller(long long*p,void*f,void*g){ signed char (*c)(long long)=f; _Bool (*c2)(long long)=g; R(c(p[0])); R(c2(p[1])); R(c(p[2])+callee3(p+3)); R(callee4((int*)(p+5))-c2(p[4])); R(!c2(p[5])); R(c(p[6])<0); if(c2(p[7])) R(1); return c(c(p[0])+c2(p[1])); }
#define P_floats(callee,callee2,caller) double callee(float a,double b,float c,double d,float e,double f,float g,double h,float i,double j,int k){ R(RF(a)); R(RD(b)); R(RF(c)); R(RD(d)); R(RF(e)); R(RD(f)); R(RF(g)); R(RD(h)); R(RF(i)); R(RD(j)); R(k); return d; } \
   float callee2(double a,float b){ R(RD(a)); R(RF(b)); return b; } \
   long long caller(long long*p,void*f,void*g){ double (*c)(float,double,float,double,float,double,float,double,float,double,int)=f; float (*c2)(double,float)=g; R(RD(c(F(p[0]),D(p[1]),F(p[2]),D(p[3]),F(p[4]),D(p[5]),F(p[6]),D(p[7]),F(p[0]>>32),D(p[2]),p[6]))); R(RF(c2(D(p[5]),F(p[4])))); return RD(c(c2(D(p[1]),F(p[1])),D(p[2]),c2(D(p[0]),F(p[7])),D(p[4]),0,D(p[1]),F(p[3]),1,F(p[1]),2,p[2])); }
#define P_mixed(callee,callee2,caller) long callee(int a,double b,long c,float d,char e,double f,short g,float h,unsigned i,double j,long k,double l,int m,double n,char o,double q,long r){ R(a); R(RD(b)); R(c); R(RF(d)); R(e); R(RD(f)); R(g); R(RF(h)); R(i); R(RD(j)); R(k); R(RD(l)); R(m); R(RD(n)); R(o); R(RD(q)); R(r); return r-a; } \
   double callee2(long a,double b){ R(a); return b; } \
   long long caller(long long*p,void*f,void*g){ long (*c)(int,double,long,float,char,double,short,float,unsigned,double,long,double,int,double,char,double,long)=f; double (*c2)(long,double)=g; R(c(p[0],D(p[1]),p[2],F(p[3]),p[4],D(p[5]),p[6],F(p[7]),p[1],D(p[0]),p[3],D(p[2]),p[5],D(p[4]),p[7],D(p[6]),p[0])); return c(twice(p[0]),c2(p[1],D(p[2])),twice(p[3]),F(p[4]),1,c2(2,D(p[3])),3,F(p[5]),twice(p[6]),c2(p[7],D(p[7])),4,D(p[1]),5,D(p[0]),6,c2(p[0],D(p[1])),twice(p[2])); }
#define P_ldouble(callee,callee2,caller) long double callee(int a,long double b,double c,long double d,long e){ R(a); R(RL(b)); R(RD(c)); R(RL(d)); R(e); return d; } \
   int callee2(int a,int b,int c,int d,int e,int f,int g,long double h,int i){ R(a); R(b); R(c); R(d); R(e); R(f); R(g); R(RL(h)); R(i); return g; } \
   long long caller(long long*p,void*f,void*g){ long double (*c)(int,long double,double,long double,long)=f; int (*c2)(int,int,int,int,int,int,int,long double,int)=g; R(RL(c(p[0],LD(p[1]),D(p[2]),LD(p[3]),p[4]))); return c2(p[0],p[1],p[2],p[3],p[4],p[5],p[6],c(p[7],LD(p[6]),D(p[5]),LD(p[4]),p[3]),p[2]); }
#define P_pointers(callee,callee2,caller) void *callee(int*a,char*b,long (*c)(long),void**d){ R(*a); R(b[1]); R(c(*a)); *d=b+1; *a=5; return a; } long callee2(long a){ return a*3; } \
   long long caller(long long*p,void*f,void*g){ int x=p[0]; char b[3]={p[1],p[2],p[3]}; void*q; void *(*c)(int*,char*,long(*)(long),void**)=f; R(c(&x,b,(long(*)(long))g,&q)==&x); R(x); R((char*)q-b); R(((long(*)(long))g)(p[4])); R((*(long(**)(long))&g)(p[5])); return (****(long(*)(long))g)(p[6]); }
#define P_variadic(callee,callee2,caller) int callee(int a,...){ __builtin_va_list v; __builtin_va_start(v,a); R(a); for(int i=0;i<7;i++) R(__builtin_va_arg(v,int)); R(__builtin_va_arg(v,long)); R((long long)__builtin_va_arg(v,char*)); R(__builtin_va_arg(v,unsigned)); for(int i=0;i<10;i++) R(RD(__builtin_va_arg(v,double))); R(__builtin_va_arg(v,int)); __builtin_va_end(v); return a; } \
   double callee2(double a,int b,...){ __builtin_va_list v,w; __builtin_va_start(v,b); R(RD(a)); R(b); R(RL(__builtin_va_arg(v,long double))); __builtin_va_copy(w,v); R(__builtin_va_arg(v,int)); R(RD(__builtin_va_arg(v,double))); R(RL(__builtin_va_arg(v,long double))); R(__builtin_va_arg(v,long long)); R(__builtin_va_arg(w,int)); __builtin_va_end(w); __builtin_va_end(v); return a; } \
   long long caller(long long*p,void*f,void*g){ int (*c)(int,...)=f; double (*c2)(double,int,...)=g; R(c(p[0],(char)p[1],(short)p[2],(int)p[3],(_Bool)p[4],(unsigned char)p[5],(int)p[6],(int)p[7],p[0],(char*)p[1],(unsigned)p[2],D(p[0]),D(p[1]),D(p[2]),D(p[3]),D(p[4]),D(p[5]),D(p[6]),D(p[7]),D(p[1]),D(p[2]),(int)p[5])); return RD(c2(D(p[3]),p[4],LD(p[5]),(int)p[6],D(p[7]),LD(p[1]),p[2])); }
#define P_vlist(callee,callee2,caller) static void rest(int k,__builtin_va_list v){ while(k-->0){ R(__builtin_va_arg(v,long)); R(RD(__builtin_va_arg(v,double))); } } int callee(char*a,long b,long c,long d,long e,double f,...){ __builtin_va_list v; __builtin_va_start(v,f); R((long long)a); R(b); R(c); R(d); R(e); R(RD(f)); rest(9,v); __builtin_va_end(v); return 1; } \
   void callee2(__builtin_va_list v,int k){ rest(k,v); } static void va(void (*g)(__builtin_va_list,int),int k,...){ __builtin_va_list v; __builtin_va_start(v,k); R(__builtin_va_arg(v,long)); R(RD(__builtin_va_arg(v,double))); g(v,k); __builtin_va_end(v); } \
   long long caller(long long*p,void*f,void*g){ int (*c)(char*,long,long,long,long,double,...)=f; c((char*)p[0],p[1],p[2],p[3],p[4],D(p[5]),p[6],D(p[7]),p[0],D(p[1]),p[2],D(p[3]),p[4],D(p[5]),p[6],D(p[0]),p[7],D(p[2]),p[1],D(p[4]),p[3],D(p[6]),p[5],D(p[1])); va((void (*)(__builtin_va_list,int))g,4,p[0],D(p[1]),p[2],D(p[3]),p[4],D(p[5]),p[6],D(p[7]),p[1],D(p[0])); return *N; }
#define P_order(callee,callee2,caller) int callee(int a,int b,int c){ R(a); R(b); R(c); return a^b^c; } int callee2(int a){ R(a); return a^9; } \
   long long caller(long long*p,void*f,void*g){ int (*c)(int,int,int)=f,(*c2)(int)=g; int x=p[0],y=p[1]; long v[4]={p[2],p[3],p[4],p[5]}; return c(v[x&3],x+y,v[y&3]^c2(x))^x^c(c(x,y,1),y,c(y,x,c2(x+y)))^v[2]^c2(c2(c2(y))); }
#define P_recurse(callee,callee2,caller) int callee(int n,long a,double d){ R(n); R(a); R(RD(d)); char b[20]; for(int i=0;i<20;i++) b[i]=a+i; int r=(n&3)==0?b[n>>4&15]:callee(n-1,a^n,d); return r+b[3]-b[1]; } int callee2(int (*f)(int,long,double),int n){ return f(n,n,0); } \
   long long caller(long long*p,void*f,void*g){ int (*c)(int,long,double)=f,(*c2)(int (*)(int,long,double),int)=g; return c((int)(p[0]&3)|((int)p[1]&0xf0),p[2],D(p[3]))+c2(c,p[4]&3); }
#define P_oldstyle(callee,callee2,caller) int callee(a,b,c,d) int a; long b; double c; char d; { R(a); R(b); R(RD(c)); R(d); return a; } int callee2(){ return 3; } \
   long long caller(long long*p,void*f,void*g){ int (*c)()=(int(*)())f; int (*c2)()=(int(*)())g; R(c((int)p[0],p[1],D(p[2]),(char)p[3])); return c2(); }
#define P_locals(callee,callee2,caller) int callee(int a,long b){ long v[40]; int n=1; if(a&1) n=4; if(a&2) n+=9; char w[n]; for(int i=0;i<40;i++) v[i]=b+i; for(int i=0;i<n;i++) w[i]=a+i; R(v[b&31]); R(w[n-1]); R(w[0]); return v[39]-w[n>>1]; } long callee2(long a,long b,long c,long d,long e,long f,long g,long h){ long r=a; a=h; h=r; b+=g; g-=c; R(a); R(b); R(g); R(h); return d*e-f; } \
   long long caller(long long*p,void*f,void*g){ int (*c)(int,long)=f; long (*c2)(long,long,long,long,long,long,long,long)=g; return c(p[0],p[1])+c2(p[2],p[3],p[4],p[5],p[6],p[7],p[0],c(p[1]&7,p[2])); }
#define ALL(X) X(ints,,,) X(returns,,,) X(floats,,,) X(mixed,,,) X(ldouble,,,) X(pointers,,,) X(variadic,,,) X(vlist,,,) X(order,,,) X(recurse,,,) X(oldstyle,,,) X(locals,,,)
#define CODE(n,...) P_##n(n##_a,n##_b,n##_c)
#define TEXT(n,...) STR(P_##n(callee,callee2,caller))
#define ENT(n,...) {#n,TEXT(n),n##_a,n##_b,n##_c},
#endif
DEFS
#if MODE==3
SFUNS
#else
#define SDEFS
#define SFUNS
#endif
ALL(CODE)
typedef L (*cl)(L*,void*,void*);
static const struct { const char*name,*text; void*a,*b; cl c; } E[]={ ALL(ENT) };
#define NO 300
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"program"); static char text[60000]; char*q=text; if(MODE) q=c_put(c_put(q,rt_va_list),"void abort(void){ for(;;); } void *memset(void*d,int c,unsigned long n){ for(unsigned long i=0;i<n;i++) ((char*)d)[i]=c; return d; } void *memcpy(void*d,const void*s,unsigned long n){ for(unsigned long i=0;i<n;i++) ((char*)d)[i]=((char*)s)[i]; return d; }"); q=c_put(q,STR(SDEFS)); q=c_put(q,STR(DEFS)); q=c_put(q,STR(SFUNS)); q=c_put(q,E[k].text); c_compile(text); c_load();
  static L p[8],o[4][NO],r[4]; static int n[4]; for(int i=0;i<8;i++) p[i]=sx_u64("p"); cl c=(cl)c_sym("caller"); void*a=c_sym("callee"),*b=c_sym("callee2"); L**to=c_sym("O"); int**tn=c_sym("N");
  static const char*w[4]={0,"a call within compiled code","a call from compiled code to the system compiler's","a call from the system compiler's code to compiled code"};
  for(int m=0;m<4;m++){ *to=O=o[m]; *tn=N=n+m; L pp[8]; memcpy(pp,p,sizeof p); r[m]=m==0?E[k].c(pp,E[k].a,E[k].b):m==1?c(pp,a,b):m==2?c(pp,E[k].a,E[k].b):E[k].c(pp,a,b);
    if(m){ if(sx_native()) for(int i=0;i<n[0];i++) if(o[m][i]!=o[0][i]) sx_print(E[k].name,m*1000+i), sx_print("got",o[m][i]), sx_print("want",o[0][i]);
      int same=(n[m]==n[0])&(r[m]==r[0]); for(int i=0;i<n[0];i++) same&=o[m][i]==o[0][i]; sx_assert(same,c_msgf(E[k].name,w[m])); } }
  sx_cover("end"); }
