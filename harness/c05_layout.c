// C05: layout of and access to structures, unions, arrays and bit-fields, compared with clang on the same source:
// the program writes and reads members of an object laid over bytes of any content.
#include "c_common.h"
typedef L (*fn)(L,L,L*,unsigned char*);
#define NO 120
#define NB 160
// M: a plain member (address, size, value, store); B: a bit-field (read, store, value of the store, update, neighbours by comparing all bytes)
#define M(m) o[k++]=(char*)&p->m-(char*)p; o[k++]=sizeof p->m; o[k++]=p->m; p->m=x+k; o[k++]=(p->m=y)
#define A(m) o[k++]=(char*)&p->m-(char*)p; o[k++]=sizeof p->m; o[k++]=sizeof(p->m[0]); o[k++]=p->m[i]; p->m[j]=x+k; o[k++]=*(p->m+j)
#define B(m) o[k++]=p->m; o[k++]=(p->m=x+3); o[k++]=p->m; p->m+=y; o[k++]=p->m
#define BU(m) o[k++]=p->m++; o[k++]=--p->m; p->m^=x; o[k++]=-p->m; o[k++]=p->m<y; o[k++]=~p->m>>1; o[k++]=p->m-5<0
#define SZ o[k++]=sizeof *p; o[k++]=__alignof__(*p)
#define PK __attribute__((packed))
#define AL(n) __attribute__((aligned(n)))
#define COPY { __typeof__(*p) t=*p, u[2]; u[1]=t; ((char*)&t)[0]^=1; p[1]=u[1]; o[k++]=(char*)(p+1)-(char*)p; o[k++]=(char*)&u[1]-(char*)u; }
#define CASES(X) \
 X(p1, struct { char a; int b; short c; long d; char e; } ,SZ; M(a); M(b); M(c); M(d); M(e); COPY) \
 X(p2, struct { char a; struct { short x; char y; } s[2]; long long b; char c[3]; } ,SZ; M(a); M(s[0].x); M(s[1].y); M(b); A(c); COPY) \
 X(p3, union { char a; int b; long c; struct { char x; short y; } d; unsigned char e[11]; } ,SZ; M(a); M(b); M(c); M(d.x); M(d.y); A(e); COPY) \
 X(p4, struct { _Bool a; enum { E1=-1 } b; unsigned char c; union { short d; char e; }; struct { int f; char g; }; } ,SZ; M(a); M(b); M(c); M(d); M(e); M(f); M(g); COPY) \
 X(p5, struct { char a; double b; float c; char d; long double e; char f; } ,SZ; M(a); o[k++]=(char*)&p->b-(char*)p; o[k++]=(char*)&p->c-(char*)p; M(d); o[k++]=(char*)&p->e-(char*)p; M(f); o[k++]=sizeof p->e) \
 X(p6, struct PK { char a; int b; short c; long d; char e; } ,SZ; M(a); M(b); M(c); M(d); M(e); COPY) \
 X(p7, struct { char a; int b PK; short c; long d PK; char e; } ,SZ; M(a); M(b); M(c); M(d); M(e); COPY) \
 X(p8, struct { char a; int b AL(8); short c AL(16); char e; } ,SZ; M(a); M(b); M(c); M(e)) \
 X(p9, struct AL(8) { char a; short c; } ,SZ; M(a); M(c); COPY) \
 X(p10, struct { int n; short f[]; } ,SZ; M(n); o[k++]=(char*)p->f-(char*)p; o[k++]=p->f[i]; p->f[j]=x; o[k++]=sizeof p->f[0]) \
 X(p11, struct { short m[2][3]; char *q; int (*z)(void); char t[0]; } ,SZ; A(m[1]); o[k++]=sizeof p->m[0]; o[k++]=(char*)&p->m[i&1][j]-(char*)p; p->m[i&1][j]=y; o[k++]=(char*)&p->q-(char*)p; o[k++]=(char*)&p->z-(char*)p; p->q=(char*)y; o[k++]=(long long)&p->q[i]; COPY) \
 X(p12, struct { unsigned short a; signed char b; unsigned c; unsigned long long d; } ,SZ; M(a); M(b); M(c); M(d); p[1].c=x; p[i&1].a=y; (p+1)->b++; COPY) \
 X(p13, struct { char a; struct PK { char b; int c; } s; int d; } ,SZ; M(a); M(s.b); M(s.c); M(d); COPY) \
 X(p14, struct PK { char a; struct { char b; int c; } s; short d; } ,SZ; M(a); M(s.b); M(s.c); M(d); COPY) \
 X(p15, struct PK AL(2) { char a; int b; } ,SZ; M(a); M(b); COPY) \
 X(p16, struct { char a[5]; } ,SZ; A(a); COPY; A(a)) \
 X(p17, struct { char a[17]; short b; } ,SZ; A(a); M(b); COPY; p[1]=p[0]; o[k++]=p[1].a[i]) \
 X(p18, struct {} , o[k++]=sizeof *p; o[k++]=__alignof__(*p)) \
 X(p19, union { struct { unsigned char a; unsigned char b; short c; }; int d; long long e:40; } ,SZ; M(a); M(b); M(c); M(d); B(e)) \
 X(b1, struct { int a:3; unsigned b:5; int c:24; } ,SZ; B(a); B(b); B(c); BU(a); BU(b); COPY) \
 X(b2, struct { unsigned a:1; unsigned b:31; unsigned c:32; unsigned d:7; char e; } ,SZ; B(a); B(b); B(c); B(d); M(e); COPY) \
 X(b3, struct { char a:4; char b:5; short c:9; short d:8; int e:20; } ,SZ; B(a); B(b); B(c); B(d); B(e); BU(c); COPY) \
 X(b4, struct { long long a:40; long long b:24; unsigned long long c:33; unsigned d:31; } ,SZ; B(a); B(b); B(c); B(d); BU(a)) \
 X(b5, struct { unsigned long long a:63; unsigned long long b:2; unsigned long long c:64; long long d:1; } ,SZ; B(a); B(b); B(c); B(d); BU(c)) \
 X(b6, struct { int a:5; int:0; int b:7; char:0; char c:2; int:3; int d:4; } ,SZ; B(a); B(b); B(c); B(d); COPY) \
 X(b7, struct { _Bool a:1; _Bool b:1; unsigned char c:6; _Bool d; enum { F2=5 } e:3; } ,SZ; B(a); B(b); B(c); M(d); B(e)) \
 X(b8, struct PK { int a:3; int b:30; char c; unsigned d:17; long long e:50; } ,SZ; B(a); B(b); M(c); B(d); B(e); COPY) \
 X(b9, struct PK { unsigned a:12; unsigned b:12; unsigned c:12; unsigned char d; } ,SZ; B(a); B(b); B(c); M(d); BU(b); COPY) \
 X(b10, union { int a:7; unsigned b:13; char c; unsigned long long d:37; } ,SZ; B(a); B(b); M(c); B(d); COPY) \
 X(b11, struct { char a; int b:9; char c; int d:20; short e:3; } ,SZ; M(a); B(b); M(c); B(d); B(e); COPY) \
 X(b12, struct { short a; int b:16; int c:1; char d; long long e:17; } ,SZ; M(a); B(b); B(c); M(d); B(e); BU(e)) \
 X(b13, struct { char a:1; int b:31 PK; char c:7; int d:8; } ,SZ; B(a); B(b); B(c); B(d)) \
 X(b14, struct { int a:3; int b:4 AL(4); int c:5; char d AL(2); int e:1; } ,SZ; B(a); B(b); B(c); M(d); B(e)) \
 X(b15, struct { unsigned a:8; unsigned b:16; unsigned c:8; int d:8; int e:16; } ,SZ; B(a); B(b); B(c); B(d); B(e); BU(b); BU(e)) \
 X(b16, struct { long a:33; int b:3; struct { int c:5; char d:3; } s; } ,SZ; B(a); B(b); B(s.c); B(s.d); COPY) \
 X(b17, struct { unsigned short a:16; unsigned short b:1; unsigned short c:15; signed char d:8; } ,SZ; B(a); B(b); B(c); B(d); BU(d); BU(a))
#define CASES2(X) \
 X(q1, struct { char a; int b; long long c; } ,SZ; M(a); M(b); M(c); COPY) \
 X(q2, struct { char a; int b:9; int c:20; short d; long long e:40; } ,SZ; M(a); B(b); B(c); M(d); B(e); COPY) \
 X(q3, struct { short a; struct { char b; int c; } s; double d; } ,SZ; M(a); M(s.b); M(s.c); o[k++]=(char*)&p->d-(char*)p; COPY)
#define F(n,T,...) long long f_##n(long long x,long long y,long long*o,unsigned char*b){ typedef T T0; T0 *p=(T0*)(b+16); int k=0,i=x&1,j=1+(y&1); __VA_ARGS__; return k; }
CASES(F)
#pragma pack(push,1)
#define F1(n,T,...) F(n##_1,T,__VA_ARGS__)
CASES2(F1)
#pragma pack(2)
#define F2(n,T,...) F(n##_2,T,__VA_ARGS__)
CASES2(F2)
#pragma pack(4)
#define F4(n,T,...) F(n##_4,T,__VA_ARGS__)
CASES2(F4)
#pragma pack(pop)
static const struct { const char*name,*pre,*text; fn ref; } E[]={
#define EE(n,T,...) {"f_" #n,"",STR(F(n,T,__VA_ARGS__)),f_##n},
CASES(EE)
#define EE1(n,T,...) {"f_" #n "_1","#pragma pack(push,1)\n",STR(F(n##_1,T,__VA_ARGS__)),f_##n##_1},
CASES2(EE1)
#define EE2(n,T,...) {"f_" #n "_2","#pragma pack(8)\n#pragma pack(push)\n#pragma pack(2)\n",STR(F(n##_2,T,__VA_ARGS__)),f_##n##_2},
CASES2(EE2)
#define EE4(n,T,...) {"f_" #n "_4","#pragma pack(4)\n",STR(F(n##_4,T,__VA_ARGS__)),f_##n##_4},
CASES2(EE4)
};
static char text[20000];
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"case"); char*t=c_put(text,E[k].pre); c_put(t,E[k].text); c_compile(text); c_load(); fn f=(fn)c_sym(E[k].name);
  L x=sx_u64("x"),y=sx_u64("y"); static L o1[NO],o2[NO]; static unsigned char b1[NB] __attribute__((aligned(32))),b2[NB] __attribute__((aligned(32))); sx_symbolic(b1,NB,"bytes"); memcpy(b2,b1,NB);
  for(int i=16;i<NB;i++) if(strstr(E[k].text,"_Bool")) b1[i]&=1,b2[i]=b1[i];
  L r=E[k].ref(x,y,o1,b1), v=f(x,y,o2,b2); sx_assert(r==v,c_msgf(E[k].name,"the compiled access yields the ABI's value"));
  for(int i=0;i<NO;i++){ if(sx_native()&&o1[i]!=o2[i]) sx_print(E[k].name,i), sx_print("want",o1[i]), sx_print("got",o2[i]); sx_assert(o1[i]==o2[i],c_msgf(E[k].name,"sizes, offsets, alignments and member values are the ABI's")); }
  for(int i=0;i<NB;i++) sx_assert(b1[i]==b2[i],c_msgf(E[k].name,"a store changes the bytes the ABI prescribes and no others")); sx_cover("end"); }
