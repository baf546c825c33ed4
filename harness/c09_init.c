// C09: initialisers whose values are unknown: constants in static objects, parameters in automatic ones, against clang.
#include "c_common.h"
#define UN(...) __VA_ARGS__
#define g gobj
// X(name, declarations of T, initialiser, values read from x); g: an object to take addresses of
#define COMMON(X) \
 X(scalars,(typedef struct { char a; short b; int c; long long d; _Bool e; unsigned char f; unsigned short h; unsigned i; } T;),({A,B,C,A,B,C,A,B}),(x.a,x.b,x.c,x.d,x.e,x.f,x.h,x.i)) \
 X(partial,(typedef struct { short b; int c[3]; long long d; char e; } T;),({A,{B}}),(x.b,x.c[0],x.c[1],x.c[2],x.d,x.e)) \
 X(elision,(typedef struct { short b; struct { int p,q; } s[2]; char e; } T;),({A,B,C,A,B,C}),(x.b,x.s[0].p,x.s[0].q,x.s[1].p,x.s[1].q,x.e)) \
 X(nested,(typedef struct { struct { char a; struct { short b; long long c; } u; } s; int d; } T;),({{A,{B,C}},A}),(x.s.a,x.s.u.b,x.s.u.c,x.d)) \
 X(desig,(typedef struct { int a,b,c,d; } T;),({.c=A,.a=B,C}),(x.a,x.b,x.c,x.d)) \
 X(index,(typedef int T[7];),({[3]=A,[1]=B,C,[5]=A+B}),(x[0],x[1],x[2],x[3],x[4],x[5],x[6])) \
 X(range,(typedef short T[9];),({[1 ... 3]=A,[6 ... 7]=B,C}),(x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8])) \
 X(rangest,(typedef struct { int a,b; } T[5];),({[1 ... 3]={A,B},[4].b=C}),(x[0].a,x[0].b,x[1].a,x[1].b,x[2].a,x[2].b,x[3].a,x[3].b,x[4].a,x[4].b)) \
 X(again,(typedef int T[4];),({[1]=A,[2]=B,[1]=C}),(x[0],x[1],x[2],x[3])) \
 X(deep,(typedef struct { int z; struct { char a[3]; int b; } s[2]; } T;),({.s[1].a[2]=A,.s[0].b=B,.z=C}),(x.z,x.s[0].a[0],x.s[0].b,x.s[1].a[1],x.s[1].a[2],x.s[1].b)) \
 X(member,(typedef struct { struct { int p,q; } s; int r; } T;),({.s={A,B},.s.q=C,.r=A}),(x.s.p,x.s.q,x.r)) \
 X(onward,(typedef struct { struct { int p,q; } s[3]; int r; } T;),({.s[1]={A,B},{C},A}),(x.s[0].p,x.s[1].p,x.s[1].q,x.s[2].p,x.s[2].q,x.r)) \
 X(chain,(typedef struct { struct { int p,q; } s[3]; int r; } T;),({.s[0].q=A,B,C,.s[1].p=C,.r=A}),(x.s[0].p,x.s[0].q,x.s[1].p,x.s[1].q,x.s[2].p,x.r)) \
 X(chain2,(typedef struct { char a; struct { short m[2][2]; int t; } u[2]; char z; } T;),({.u[0].m[1][0]=A,B,C,A,B,.z=C}),(x.a,x.u[0].m[0][1],x.u[0].m[1][0],x.u[0].m[1][1],x.u[0].t,x.u[1].m[0][0],x.u[1].m[0][1],x.u[1].t,x.z)) \
 X(stop,(typedef struct { struct { short a,b; int v[3]; } s; char c; struct { int d; } e[2]; } T;),({A,B,C,.e[0]=A,B,.c=C}),(x.s.a,x.s.b,x.s.v[0],x.s.v[1],x.c,x.e[0].d,x.e[1].d)) \
 X(anon3,(typedef struct { int a; struct { short b,c; }; int d; } T;),({.b=A,B,C}),(x.a,x.b,x.c,x.d)) \
 X(anon4,(typedef struct { char a; union { int b; struct { short e,f; struct { char g1,h; }; }; }; int d; } T;),({.f=A,B,C,A}),(x.a,x.e,x.f,x.g1,x.h,x.d)) \
 X(anon5,(typedef struct { char a; union { short b; long long c; }; int d; } T;),({.b=A,B,.a=C}),(x.a,x.b,x.d)) \
 X(over,(typedef struct { struct { int p,q; } s; int v[3]; } T;),({.s={A,B},.v={A,B,C},.s={C},.v={[1]=A}}),(x.s.p,x.s.q,x.v[0],x.v[1],x.v[2])) \
 X(over2,(typedef struct { struct { int *p[2]; int k; } s; } T;),({.s={{g+1,g+2},A},.s.p[0]=g+3+(B&1)}),(x.s.p[0]-g,x.s.p[1]-g,x.s.k)) \
 X(over3,(typedef struct { unsigned a:5,b:9; int c:6; long long d:40; } T;),({.a=A,.b=B,.a=C,.d=A,.c=B,.d=C}),(x.a,x.b,x.c,x.d)) \
 X(over4,(typedef struct { int *p; char s[6]; int k; } T[2];),({[0]={g+1,"abcde",A},[1]={g+2,"xyz",B},[0]={0,"q"},[1].s="w",[1].k=C}),(!x[0].p,x[0].s[0],x[0].s[1],x[0].s[4],x[0].k,x[1].p-g,x[1].s[0],x[1].s[1],x[1].s[2],x[1].s[4],x[1].k)) \
 X(over5,(typedef struct { struct { int a; short b; } s; int k; } T[3];),({[0 ... 2]={{A,B},C},[2]={{B}}}),(x[0].s.a,x[0].s.b,x[0].k,x[1].s.a,x[1].s.b,x[1].k,x[2].s.a,x[2].s.b,x[2].k)) \
 X(union1,(typedef union { int a; char b[4]; short c; } T;),({A}),(x.a)) \
 X(union2,(typedef struct { union { char a; int b; long long c; } u; int k; } T;),({{.c=A},B}),(x.u.c,x.k)) \
 X(union3,(typedef struct { int k; union { struct { char a; short b; } s; int v; } u[2]; } T;),({A,{{{B,C}},{.v=A}}}),(x.k,x.u[0].s.a,x.u[0].s.b,x.u[1].v)) \
 X(bits,(typedef struct { unsigned a:3,b:7; int c:11; unsigned d:1; int :5; int e:4; } T;),({A,B,C,A,B}),(x.a,x.b,x.c,x.d,x.e)) \
 X(bits2,(typedef struct { char a; unsigned long long b:33,c:31; short d:9; unsigned char e:2; _Bool f:1; int g; } T;),({A,B,C,A,B,C,A}),(x.a,x.b,x.c,x.d,x.e,x.f,x.g)) \
 X(bits3,(typedef struct { int a:5,b:5,c:5; } T;),({.c=A,.a=B}),(x.a,x.b,x.c)) \
 X(bits4,(typedef struct { struct { unsigned p:6,q:26; } s[2]; int :0; unsigned t:13; } T;),({{{A,B},{C,A}},B}),(x.s[0].p,x.s[0].q,x.s[1].p,x.s[1].q,x.t)) \
 X(packed,(typedef struct __attribute__((packed)) { char a; int b; short c; long long d; } T;),({A,B,C,A}),(x.a,x.b,x.c,x.d)) \
 X(packbit,(typedef struct __attribute__((packed)) { char a; unsigned b:12,c:20; short d; } T;),({A,B,C,A}),(x.a,x.b,x.c,x.d)) \
 X(anon,(typedef struct { int a; union { int b; short c; }; struct { char d,e; }; int f; } T;),({A,{B},{C,A},B}),(x.a,x.b,x.d,x.e,x.f)) \
 X(anon2,(typedef struct { int a; union { int b; short c; }; struct { char d,e; }; int f; } T;),({.e=A,.f=B,.c=C}),(x.a,x.c,x.d,x.e,x.f)) \
 X(matrix,(typedef int T[2][3];),({{A},{B,C}}),(x[0][0],x[0][1],x[0][2],x[1][0],x[1][1],x[1][2])) \
 X(matrix2,(typedef short T[3][2];),({A,B,C,{A},[2][1]=B}),(x[0][0],x[0][1],x[1][0],x[1][1],x[2][0],x[2][1])) \
 X(unsized,(typedef int T[];),({A,[4]=B,C}),(x[0],x[1],x[3],x[4],x[5])) \
 X(unsized2,(typedef struct { char a; int b; } T[];),({A,B,C,A,{B}}),(x[0].a,x[0].b,x[1].a,x[1].b,x[2].a,x[2].b)) \
 X(string,(typedef struct { char a[4]; char b[6]; int c; } T;),({"abcd","xy",A}),(x.a[0],x.a[3],x.b[0],x.b[1],x.b[2],x.b[5],x.c)) \
 X(string2,(typedef struct { char s[3][4]; int c; } T;),({{"a","bcd",{A,B}},C}),(x.s[0][0],x.s[0][1],x.s[0][3],x.s[1][2],x.s[1][3],x.s[2][0],x.s[2][1],x.s[2][2],x.c)) \
 X(string3,(typedef char T[];),("hello\0w"),(x[0],x[4],x[5],x[6],x[7])) \
 X(string4,(typedef unsigned char T[5];),({"ab"}),(x[0],x[1],x[2],x[4])) \
 X(wide,(typedef struct { int w[4]; short k; } T;),({L"ab",A}),(x.w[0],x.w[1],x.w[2],x.w[3],x.k)) \
 X(braces,(typedef struct { int a; int *p; long long c; } T;),({{A},{0},{B}}),(x.a,!x.p,x.c)) \
 X(zero,(typedef struct { int a[5]; char b; long long c; } T;),({0}),(x.a[0],x.a[4],x.b,x.c)) \
 X(empty,(typedef struct { int a[5]; char b; long long c; } T;),({}),(x.a[0],x.a[4],x.b,x.c)) \
 X(floats,(typedef struct { float f; double d; int k; double e[2]; } T;),({A,B,C,{C}}),(FB(x.f),DB(x.d),x.k,DB(x.e[0]),DB(x.e[1]))) \
 X(addr,(typedef struct { int *p; char *q; long long k; int *r; } T;),({&g[A&7],(char*)g+(B&15),C,g+3}),(x.p-g,x.q-(char*)g,x.k,x.r-g)) \
 X(addr2,(typedef struct { unsigned char h; int *p[3]; } T;),({A,{g+(B&3),&g[7]-(C&3),0}}),(x.h,x.p[0]-g,x.p[1]-g,!x.p[2])) \
 X(ternary,(typedef struct { int a,b; char c; } T;),({A>B?A:B,(int)sizeof(long long)+C,(char)(A^B)}),(x.a,x.b,x.c)) \
 X(constant,(typedef struct { const int a; const char *s; enum { P=3,Q } e; } T;),({A,"str",Q}),(x.a,x.s[0],x.s[1],x.s[3],x.e)) \
 X(scalar1,(typedef unsigned short T;),(A),(x)) X(scalar2,(typedef _Bool T;),({A}),(x)) X(scalar3,(typedef long long T;),(A-B*3),(x)) X(scalar4,(typedef signed char T;),({A}),(x)) \
 X(align,(typedef struct { char a; int b __attribute__((aligned(16))); char c; } T;),({A,B,C}),(x.a,x.b,x.c)) \
 X(compound,(typedef struct { int a,b; } P; typedef struct { P p; P q[2]; short k; } T;),({(P){A,B},{(P){B,C},{C}},A}),(x.p.a,x.p.b,x.q[0].a,x.q[0].b,x.q[1].a,x.q[1].b,x.k)) \
 X(pointed,(typedef struct { int *p; short *q; } T;),({(int[]){A,B,C},&(short){C}}),(x.p[0],x.p[1],x.p[2],*x.q)) \
 X(rangep,(typedef struct { int *p[6]; int k; } T;),({{[1 ... 4]=g+2,[2]=g+(A&3)},B}),(!x.p[0],x.p[1]-g,x.p[2]-g,x.p[3]-g,x.p[4]-g,!x.p[5],x.k)) \
 X(rangeo,(typedef short T[9];),({[1 ... 6]=A,[2 ... 3]=B,[3]=C,[7]=A}),(x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8])) \
 X(rangez,(typedef int T[8];),({[1 ... 5]=A,[3]=0,[5]=B,[2 ... 2]=C}),(x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7])) \
 X(rangestr,(typedef char T[4][6];),({[0 ... 2]="abcd",[1]="z",[3][1]=A}),(x[0][0],x[0][3],x[1][0],x[1][1],x[1][2],x[2][3],x[2][5],x[3][0],x[3][1],x[3][2])) \
 X(rangebit,(typedef struct { int a:5,b:7; short c; } T[4];),({[0 ... 2]={A,B,C},[1].b=C,[2].a=B}),(x[0].a,x[0].b,x[0].c,x[1].a,x[1].b,x[1].c,x[2].a,x[2].b,x[2].c,x[3].a)) \
 X(rangecl,(typedef struct { int *p; int k; } S; typedef struct { S s[4]; int *q; } T;),({{[1 ... 2]=(S){g+1,A},[2]={g+(B&3)}},g+4}),(!x.s[0].p,x.s[1].p-g,x.s[1].k,x.s[2].p-g,x.s[2].k,!x.s[3].p,x.q-g)) \
 X(litlit,(typedef struct { int *p; } P; typedef struct { P a; int *q; P b; int k; } S; typedef struct { S s; int z; S t[2]; } T;),({(S){.k=A,.b=(P){g+5},.q=g+(B&3),.a=(P){g+1}},C,{{.q=g+6},(S){(P){g+2},g+3,(P){g+4},B}}}),(x.s.a.p-g,x.s.q-g,x.s.b.p-g,x.s.k,x.z,!x.t[0].a.p,x.t[0].q-g,x.t[1].a.p-g,x.t[1].q-g,x.t[1].b.p-g,x.t[1].k)) \
 X(oldstyle,(typedef struct { int a; short b; int v[4]; } T;),({b:A,a:B,v:{[2] C,[0] A}}),(x.a,x.b,x.v[0],x.v[1],x.v[2],x.v[3])) \
 X(unionov,(typedef struct { union { long long c; int b; char a; } u; char s[2][5]; } T;),({.u.c=A,.u.b=B,.s[0]="abcd",.s[1]="ef",.s[0]="z"}),(x.u.b,x.s[0][0],x.s[0][1],x.s[0][2],x.s[0][4],x.s[1][1],x.s[1][2])) \
 X(boolenum,(typedef struct { _Bool b[3]; enum { N1=-1,P1=1 } e; unsigned char c:1,d:1; } T;),({{A,!B,(_Bool)C},A>B?N1:P1,A!=C,B}),(x.b[0],x.b[1],x.b[2],x.e,x.c,x.d)) \
 X(longd,(typedef struct { long double a; float f[2]; double d; } T;),({1.5L,{0.25f,-3},A}),(x.a==1.5L,x.f[0]==0.25f,x.f[1]==-3,DB(x.d))) \
 X(matrix3,(typedef struct { short m[2][2][2]; char e; } T;),({{{A,B,C},{[1]={[1]=A}}},B}),(x.m[0][0][0],x.m[0][0][1],x.m[0][1][0],x.m[0][1][1],x.m[1][0][0],x.m[1][1][0],x.m[1][1][1],x.e)) \
 X(big,(typedef struct { char a; long long v[20]; char z; } T;),({A,{[7]=B,[19]=C},B}),(x.a,x.v[0],x.v[6],x.v[7],x.v[8],x.v[19],x.z))
// initialisers that are not constant
#define AUTOS(X) \
 X(copy,(typedef struct { int a; char b[3]; } P; typedef struct { P p; P q; } T;),({(P){A,{B,C}},.q=*(P*)(PP[]){mkpp(A,B)}}),(x.p.a,x.p.b[0],x.p.b[1],x.p.b[2],x.q.a,x.q.b[0],x.q.b[1],x.q.b[2])) \
 X(calls,(typedef struct { int a; long long b; short c; } T;),({f1(A,B),f1(B,C)+1,f1(C,A)}),(x.a,x.b,x.c)) \
 X(self,(typedef struct { int a,b; } T;),({A,sizeof(x)+B}),(x.a,x.b)) \
 X(comma,(typedef int T[3];),({(A+=2,A),(B^=A,B),A+B}),(x[0],x[1],x[2]))
#define STATICS(X) \
 X(flex,(typedef struct { short n; int v[]; } T;),({A,{B,C,A}}),(x.n,x.v[0],x.v[1],x.v[2])) \
 X(flex2,(typedef struct { char n; struct { char a; int b; } v[]; } T;),({A,{{B,C},{C,A}}}),(x.n,x.v[0].a,x.v[0].b,x.v[1].a,x.v[1].b)) \
 X(flexs,(typedef struct { int n; char v[]; } T;),({A,"hello"}),(x.n,x.v[0],x.v[4],x.v[5])) \
 X(reloc,(typedef struct { long k; char c; void *p; } T;),({A,B,(char*)&g[2]+(C&3)}),(x.k,x.c,(char*)x.p-(char*)g)) \
 X(funcs,(typedef struct { long long (*f)(long long,long long); int k; } T;),({f1,A}),(x.k))
static U FB(float f){ union { float f; unsigned u; } v={f}; return f!=f?1:v.u; } static U DB(double f){ union { double f; U u; } v={f}; return f!=f?1:v.u; }
#define HELP int g[10]; typedef struct { int a; char b[3]; } PP; static PP mkpp(long long a,long long b){ PP p; p.a=a-b; p.b[0]=a; p.b[1]=b; p.b[2]=a+b; return p; } long long f1(long long a,long long b){ return a*3-b; }
HELP
#define ACC(name,decl,init,acc) static int n_##name(void*v,int*gg,L*o){ UN decl int*g=gg; T*xp=v; L t[]={ACCX acc}; for(unsigned i=0;i<sizeof t/sizeof*t;i++) o[i]=t[i]; return sizeof t/sizeof*t; }
#define x (*xp)
#define ACCX(...) __VA_ARGS__
COMMON(ACC) AUTOS(ACC) STATICS(ACC)
#undef x
#define REF(name,decl,init,acc) static int r_##name(L A,L B,L C,L*o){ UN decl T x=UN init; n_##name(&x,g,o); return sizeof x; }
COMMON(REF) AUTOS(REF)
#define AUTO(name,decl,init,acc) int a_##name(long long A,long long B,long long C,char*out){ UN decl dirty(90); T x=UN init; cp(out,(char*)&x,sizeof x); return sizeof x; }
#define AUTOP(name,decl,init,acc) typedef int (*cb)(void*,int*,long long*); int a_##name(long long A,long long B,long long C,long long*o,cb f){ UN decl int n=0; for(int i=0;i<2;i++){ dirty(90+i); T x=UN init; n=sizeof x; f(&x,g,o+20*i); } return n; }
#define STAT(name,decl,init,acc) UN decl int z_##name; T s_##name=UN init; int e_##name=0x5a5a5a5a; static T t_##name=UN init; void*st_##name(void){ return &t_##name; } void*sl_##name(void){ static T loc=UN init; return &loc; }
#define SIZE(name) int size_##name=sizeof s_##name;
typedef struct { const char*name; int (*acc)(void*,int*,L*); int (*ref)(L,L,L,L*); const char*stat,*size,*autop; } ent;
#define EC(name,decl,init,acc) {#name,n_##name,r_##name,STR(STAT(name,decl,init,acc)),STR(SIZE(name)),STR(AUTOP(name,decl,init,acc))},
#define EA(name,decl,init,acc) {#name,n_##name,r_##name,0,0,STR(AUTOP(name,decl,init,acc))},
#define ES(name,decl,init,acc) {#name,n_##name,0,STR(STAT(name,decl,init,acc)),0,0},
static const ent E[]={ COMMON(EC) AUTOS(EA) STATICS(ES) };
#if MODE==0
// flexible members have no automatic counterpart: their values
static void flexref(const char*n,L A,L B,L C,L*o){ if(!strcmp(n,"flex")){ o[0]=(short)A; o[1]=(int)B; o[2]=(int)C; o[3]=(int)A; } else if(!strcmp(n,"flex2")){ o[0]=(signed char)A; o[1]=(signed char)B; o[2]=(int)C; o[3]=(signed char)C; o[4]=(int)A; } else if(!strcmp(n,"flexs")){ o[0]=(int)A; o[1]='h'; o[2]='o'; o[3]=0; } else if(!strcmp(n,"reloc")){ o[0]=A; o[1]=(signed char)B; o[2]=8+(C&3); } else o[0]=(int)A; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"initialiser"); const ent*e=E+k; if(!e->stat) sx_end(); static char text[9000]; char*p=text; L v[3]; for(int i=0;i<3;i++) v[i]=sx_u64("value");
  p=c_put(p,STR(HELP)); for(int i=0;i<3;i++){ p=c_put(p,"\n#define "); *p++='A'+i; p=c_put(p," ((long long)"); p=c_bin(p,v[i],"LL"); p=c_put(p,")"); } p=c_put(p,"\n"); p=c_put(p,e->stat); if(e->size) p=c_put(p,e->size); c_compile(text); c_load();
  static L want[24],got[24]; int sz=0; if(e->ref) sz=e->ref(v[0],v[1],v[2],want); else flexref(e->name,v[0],v[1],v[2],want); char nm[40]; int *gg=c_sym("gobj"); void*ob[3]; c_put(c_put(nm,"s_"),e->name); ob[0]=c_sym(nm); c_put(c_put(nm,"st_"),e->name); ob[1]=((void*(*)(void))c_sym(nm))(); c_put(c_put(nm,"sl_"),e->name); ob[2]=((void*(*)(void))c_sym(nm))();
  if(e->size){ c_put(c_put(nm,"size_"),e->name); sx_assert(*(int*)c_sym(nm)==sz,c_msgf(e->name,"the size of the object")); }
  for(int j=0;j<3;j++){ int n=e->acc(ob[j],gg,got); for(int i=0;i<n;i++){ if(sx_native()&&got[i]!=want[i]) sx_print(e->name,i), sx_print("want",want[i]), sx_print("got",got[i]); sx_assert(got[i]==want[i],c_msgf(e->name,j?"a member of an initialised static object":"a member of an initialised object")); } }
  c_put(c_put(nm,"e_"),e->name); sx_assert(*(int*)c_sym(nm)==0x5a5a5a5a,c_msgf(e->name,"the object after it is untouched")); c_put(c_put(nm,"z_"),e->name); sx_assert(*(int*)c_sym(nm)==0,c_msgf(e->name,"an uninitialised object is zero")); sx_cover("end"); }
#else
#define DIRTY static void dirty(int v){ volatile char b[900]; for(int i=0;i<900;i++) b[i]=v; } void*memcpy(void*d,const void*s,unsigned long n){ char*a=d; const char*b=s; while(n--) *a++=*b++; return d; } void*memmove(void*d,const void*s,unsigned long n){ return memcpy(d,s,n); } void*memset(void*d,int c,unsigned long n){ char*a=d; while(n--) *a++=c; return d; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"initialiser"); const ent*e=E+k; if(!e->autop) sx_end(); static char text[9000]; char*p=c_put(text,STR(DIRTY HELP)); c_put(p,e->autop); c_compile(text); c_load();
  static L want[24],got[44]; L A=sx_u64("value"),B=sx_u64("value"),C=sx_u64("value"); int sz=e->ref(A,B,C,want); char nm[40]; c_put(c_put(nm,"a_"),e->name); static int n; 
  int r=((int(*)(L,L,L,L*,void*))c_sym(nm))(A,B,C,got,e->acc); sx_assert(r==sz,c_msgf(e->name,"the size of the object")); if(!strcmp(e->name,"comma")){ A+=2; B^=A; }
  n=e->acc==0?0:20; for(int j=0;j<2;j++){ if(j&&!strcmp(e->name,"comma")) e->ref(A,B,C,want); for(int i=0;i<20;i++){ if(sx_native()&&got[20*j+i]!=want[i]) sx_print(e->name,i), sx_print("want",want[i]), sx_print("got",got[20*j+i]); sx_assert(got[20*j+i]==want[i],c_msgf(e->name,"a member of an initialised automatic object")); } } sx_cover("end"); }
#endif
