// C04: control flow: the same function compiled by the compiler under test and by clang, for every value of its arguments.
#include "c_common.h"
typedef L (*fn)(L,L,L*);
#define NO 40
#define T(n) (o[o[0]<NO-2?++o[0]:NO-1]=(n))
#define TT(n,v) (T(n),(v))
#if MODE==0
// name, body: x and y are any 64-bit values; o[0] counts the trace entries
#define FUNS(X) \
 X(if1, int a=x,b=y; if(a<b) T(1); else if(a==b) T(2); else if((unsigned)a>(unsigned)b) T(3); else T(4); if(a) if(b) T(5); else T(6); return a) \
 X(if2, if(x&1){ if(y&1){ T(1); if(x&2) T(2); } else T(3); T(4); } else { T(5); if(!(y&1)) return 7; T(6); } return x&y) \
 X(loop1, int n=x&7,i,s=0; for(i=0;i<n;i++){ if(i==(y&7)) continue; if(i==(y>>3&7)) break; s+=T(i); } T(i); return s) \
 X(loop2, int n=x&7,s=0; while(n--){ T(n); if(n==(y&7)) continue; if(n==2&&(y&8)) break; s+=n; } return s+n) \
 X(loop3, int n=x&7,s=0; do { T(n); if(n==(y&7)) continue; if((n^(int)(y>>4))==0) break; s+=2; } while(n-->0); return s*16+n) \
 X(loop4, int i,j,s=0; for(i=0;i<(x&3);i++) for(j=i;j<(y&3);j++){ if(i+j==3) goto out; if(i==j) continue; s+=T(i*4+j); } T(30); out: return s*8+i+j) \
 X(loop5, int i=0,s=0; for(;;){ if(i>=(x&7)) break; for(int j=0;;j++){ if(j>(y&1)) break; if(i&1) continue; s++; } i++; T(s); } return s) \
 X(loop6, unsigned n=x; int c=0; n&=31; while(n){ if(n&1) c++; n>>=1; T(n); } for(;n<(y&3);n++,c+=2); return c) \
 X(goto1, int n=x&3; top: T(n); if(n==0) goto end; if(n==(y&3)) { n--; goto top; } n--; if(n<0) goto neg; goto top; neg: T(20); end: return n) \
 X(goto2, int k=x&3; goto in; while(k<3){ T(k); if(k==(y&3)) break; in: k++; T(10+k); } { if(k&1) { a: T(21); } else goto b; goto c; b: T(22); if(y&4) goto a; c:; } return k) \
 X(goto3, GOTO3((x&1)+(y&1)) a: T(1); if(y&2) goto c; b: T(2); c: T(3); return o[0]) \
 X(sw1, switch((int)x){ case 1: T(1); case 2: T(2); break; case -1: T(3); break; default: T(4); case 7: T(5); } return 3) \
 X(sw2, switch((unsigned char)x){ default: T(9); break; case 0: T(0); break; case 255: T(1); case 128: T(2); break; case 1 ... 5: T(3); } return x) \
 X(sw3, switch(x){ case 0x100000000LL: T(1); break; case -0x100000000LL: T(2); break; case 0: T(3); case 5: T(4); break; case 0x7fffffffffffffffLL: T(5); break; case -0x7fffffffffffffffLL-1: T(6); } return 1) \
 X(sw4, switch((unsigned long long)x){ case 0 ... 9: T(1); break; case 0x8000000000000000ULL ... 0xfffffffffffffffeULL: T(2); break; case 0xffffffffffffffffULL: T(3); break; default: T(4); } return 2) \
 X(sw5, switch((int)x){ case 10: T(10); break; case 3: T(3); break; case -7: T(-7); case 100 ... 200: T(100); break; case 5: T(5); break; case 1000: T(1000); break; case 0: T(0); case 77: T(77); break; case -2147483647-1: T(1); break; case 2147483647: T(2); break; case 8: case 9: T(8); break; case 50: T(50); break; case 300 ... 301: T(300); break; default: T(33); case 99: T(99); } return 5) \
 X(sw6, switch((unsigned)x){ case 0x80000000u: T(1); break; case 0xffffffffu: T(2); break; case 7: T(3); break; case 0x7fffffff: T(4); break; case 1: T(11); break; case 2: T(12); break; case 3: T(13); break; case 4: T(14); break; case 0x80000001u ... 0x80000010u: T(15); break; case 90: T(16); } return 6) \
 X(sw7, switch((short)x){ case -32768: T(1); break; case 32767: T(2); break; case -5 ... 5: switch((char)y){ case -128: T(3); break; case 'a' ... 'z': T(4); goto out; default: T(5); } T(6); break; default: if(y&1) break; T(7); } T(8); out: return 7) \
 X(sw8, int i; for(i=0;i<3;i++) switch((int)(x>>i&3)){ case 0: continue; case 1: T(i); break; case 2: T(10+i); goto e; case 3: { case 9: T(20+i); } } e: return i) \
 X(sw9, int n=y&3; switch((int)(x&3)){ case 0: do{ T(0); case 3: T(3); case 2: T(2); case 1: T(1); } while(n-->0); } return n) \
 X(sw10, switch(x>y){ case 0: T(1); break; case 1: T(2); } switch(x&&y){ case 1: T(3); break; default: T(4); } switch(!x){ case 1: T(5); } switch((_Bool)y){ case 0: T(6); } return 0) \
 X(sw11, switch((int)x){ } switch((int)x){ default: T(1); } switch((int)x){ case 4: ; } switch((int)(x&1)) case 1: T(2); switch(T(3),(int)y){ T(4); case 6: T(6); } return 1) \
 X(sw12, struct { unsigned a:3; int b:4; unsigned c:25; } s; s.a=x; s.b=y; s.c=x>>3; switch(s.a){ case 7: T(7); break; case 0: T(0); } switch(s.b){ case -8: T(1); break; case 7: T(2); break; default: T(3); } switch(s.c){ case 0x1ffffff: T(4); break; case 1: T(5); } return 1) \
 X(sw13, struct { unsigned a:3; unsigned b:32; signed char c:8; } s; s.a=x; s.b=x>>8; s.c=y; switch(s.a){ case -2 ... 3: T(1); break; case 6: T(2); } switch(s.b){ case -5 ... -1: T(3); break; case 0x80000000 ... 0x80001000: T(4); break; case 5: T(5); } switch(s.c){ case -128 ... -3: T(6); break; case 0xffffffff: T(7); break; case 127: T(8); } return 1) \
 X(and1, return (TT(1,x&1)&&TT(2,y&1))+2*(TT(3,x&2)||TT(4,y&2))+4*!(TT(5,x&4)&&!TT(6,y&4))) \
 X(and2, if((TT(1,x&1)&&(TT(2,x&2)||TT(3,y&1)))||(!TT(4,y&2)&&TT(5,y&4))) T(6); else T(7); while(TT(8,x&8)&&TT(9,o[0]<11)); return 1) \
 X(and3, int a=x,b=y; a&&(b=a+1); a||(b=9); int c=(a>b&&b>0)||a<-b; c+=(a,b)&&(TT(1,a)); return c*4+(b==9)) \
 X(cond1, int a=x,b=y; int r=a<b?TT(1,a):TT(2,b); long long q=(a&1)?(unsigned)a:(long long)b; r+=(x?y?1:2:y?3:4); return r+q) \
 X(cond2, char *p=x&1?(char*)o:0; return (p?1:0)+((x&2)?T(4):(x&4)?T(5):T(6))*2+(y<0?-1:y>0?1:0)+(x?:y)) \
 X(comma1, int a=x&7,i; for(i=0,T(1);T(2),i<a;i++,T(3)) if((y>>i)&1) break; return (T(4),i,a-i)) \
 X(ret1, for(int i=0;;i++){ if(i==(x&7)) return i; if(i==(y&7)) return -i; T(i); }) \
 X(vla1, int n=(x&3)+1; { int v[n]; int i; for(i=0;i<n;i++) v[i]=i*y; if(y&1) goto out; T(v[n-1]); for(i=0;i<2;i++){ int w[n+i]; w[n+i-1]=i; if(v[0]+w[n+i-1]==1) break; T(w[n+i-1]); } T(i); } out: return sizeof(int[n])) \
 X(stmt1, int a=({ int q=x; q<0?-q:q; }); a+=({ if(y&1) T(1); else T(2); 5; }); return a) \
 X(nest1, int a=x&1,b=y&1,c=x>>1&1,d=y>>1&1; if(a){ if(b) T(1); } else if(c){ if(d) T(2); else T(3); } else { if(a||b||c||d) T(4); } if(!(a&&b&&c&&d)) T(5); if(!(a||b)&&!(c||d)) T(6); return a+b+c+d) \
 X(fcond, double d=(int)x,e=(int)y; if(d<e) T(1); if(d>=e||e==0) T(2); if(!(d!=e)) T(3); T((d?4:5)+(d&&e?10:20)); if(!d) T(30); return d>e?1:2) \
 X(ptr1, long long v[3],*p=v,*q=v+(x&3)%3; if(p==q) T(1); if(p<q) T(2); if(q-p>1) T(3); if(!q) T(4); return p&&q) \
 X(call1, extern int abs(int); int i=0; while(i<3&&(TT(i,(x>>i)&1)?(y>>i)&1:1)) i++; return i) \
 X(narrow1, char c=x; unsigned char u=y; short s=x>>8; if(c<0) T(1); if(u<0) T(2); if(c==u) T(3); if(s>u) T(4); if((unsigned short)s>u) T(5); while(c>0){ c+=64; T(c); } return c) \
 X(dead1, if(0){ T(1); in: T(2); } else T(3); if(1) T(4); else { T(5); } while(0) T(6); do { T(7); } while(0); for(;0;) T(8); switch(3){ case 3: T(9); break; case 4: T(10); } if(x&1&&o[0]<9) goto in; return 0&&T(11)) \
 X(dead2, return 1?x:T(1); T(2); while(1){ T(3); } ) \
 X(dead3, int r=0; for(;;){ r++; if(r>(x&3)) break; if(0) break; continue; r=77; } do { if(y&1) break; r+=10; } while(1&&r<30); if(1||T(1)) r++; if(0&&T(2)) r=0; return r+(1?0:T(3)))
#define GOTO3(k) switch(k){ case 0: goto a; case 1: goto b; default: goto c; }
#define GOTO3T(k) static void *t[]={&&a,&&b,&&c}; goto *t[k];
#define F(n,...) long long f_##n(long long x,long long y,long long*o){ __VA_ARGS__; }
#define TX(n,...) STR(F(n,__VA_ARGS__))
FUNS(F)
#undef GOTO3
#define GOTO3 GOTO3T
static const struct { const char*name,*text; fn ref; } E[]={
#define EE(n,...) {"f_" #n,TX(n,__VA_ARGS__),f_##n},
FUNS(EE) };
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"function"); c_compile(E[k].text); c_load(); fn f=(fn)c_sym(E[k].name);
  L x=sx_u64("x"),y=sx_u64("y"); static L o1[NO],o2[NO]; L r=E[k].ref(x,y,o1), v=f(x,y,o2); if(sx_native()&&r!=v) sx_print(E[k].name,r), sx_print("got",v);
  sx_assert(r==v,c_msgf(E[k].name,"the compiled control flow returns what the source prescribes")); for(int i=0;i<NO;i++) sx_assert(o1[i]==o2[i],c_msgf(E[k].name,"the compiled control flow has the source's side effects in order")); sx_cover("end"); }
#else // switch over unknown labels
#define TYPES(X) X(int,int) X(unsigned,unsigned) X(long long,L) X(unsigned long long,U) X(char,int) X(unsigned char,int) X(short,int) X(unsigned short,int)
static char text[4000]; static char *tp=text; static void W(const char*s){ tp=c_put(tp,s); }
#define NT(t,p) {#t,(p)-1<0,sizeof(p)},
static const struct { const char*name; int sgn,size; } TY[]={
#define TE(t,p) {#t,(p)-1<(p)0,sizeof(p)},
TYPES(TE) };
static L conv(int t,L v){ return TY[t].size==8?v:TY[t].sgn?(L)(int)v:(L)(unsigned)v; }
static int le(int t,L a,L b){ return TY[t].sgn?a<=b:(U)a<=(U)b; }
static L cast(int t,L x){ switch(t){
#define TC(t,p) case __COUNTER__: return (L)(p)(t)x;
 TYPES(TC) } return 0; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); static const int quick[]={0,1,3,5,6}; unsigned t=TIER_QUICK&&MODE==1?quick[sx_choose(5,"type")]:sx_choose(8,"type"), shape=sx_choose(MODE==1?4:9,"shape"); if(TIER_QUICK&&MODE==2&&shape>2&&!(shape<6?t==3||t==6:t==0)) sx_end(); static L lo[24],hi[24]; int n=0; int def=0;
#if MODE==1 // up to three unknown labels, one a range, with or without default
  int nu=shape==0?1:2; for(int i=0;i<nu;i++) lo[n]=sx_u64("label"), hi[n]=lo[n], n++; if(shape>=2) hi[0]=sx_u64("end"); if(shape==3) lo[n]=hi[n]=5, n++; def=shape&1;
#else // twelve fixed labels and one unknown: the search is a tree; shapes 3-5: every second label a range, 6-8: the others and the unknown one
  static const L fix[3][12]={{10,-20,30,40,-50,60,70,-80,90,100,110,120},{0,1,2,3,-1,-2,-3,-4,-5,-6,-7,-8},{0xffffffff,0x7fffffff,-0x80000000LL,0x80000001,100,0xfffffff0,-6,5,3,0xffff,0xff80,0x8000}}; static const L fix2[12]={-1000,-30,-9,0,8,14,22,100,120,250,1000,30000}, end2[12]={-900,-30,-1,5,9,20,99,110,121,254,1001,32767};
  int kind=shape/3; for(int i=0;i<12;i++){ L f=shape%3<2&&!kind?fix[shape][i]:kind?fix2[shape%3==1?11-i:shape%3==2?i*5%12:i]:fix[shape][i]; lo[n]=hi[n]=f; if(kind&&(i&1)==kind-1) hi[n]=end2[shape%3==1?11-i:shape%3==2?i*5%12:i]; n++; }
  lo[n]=hi[n]=sx_u64("label"); if(kind==2) hi[n]=sx_u64("end"); n++; def=1;
#endif
  // the labels are converted to the promoted type; they must not overlap
  for(int i=0;i<n;i++){ L a=conv(t,lo[i]),b=conv(t,hi[i]); sx_assume(le(t,a,b)); for(int j=0;j<i;j++){ L c=conv(t,lo[j]),d=conv(t,hi[j]); sx_assume(!(le(t,a,d)&le(t,c,b))); } }
  W("long long f(long long x,long long y){ long long r=1; switch(("); W(TY[t].name); W(")x){ "); for(int i=0;i<n;i++){ W("case "); tp=c_bin(tp,lo[i],"ULL"); if(MODE==1?shape>=2&&i==0:i==12?shape>5:hi[i]!=lo[i]){ W(" ... "); tp=c_bin(tp,hi[i],"ULL"); } W(": r="); tp=c_num(tp,100+i); W("; break; "); if(def&&i==0) W("default: r=2; break; "); } W("} return r; }");
  c_compile(text); c_load(); L x=sx_u64("x"); L v=((fn)c_sym("f"))(x,0,0); L c=cast(t,x), r=def?2:1; for(int i=0;i<n;i++){ L a=conv(t,lo[i]),b=conv(t,hi[i]); r=sx_ite32(le(t,a,c)&le(t,c,b),100+i,(int)r); }
  if(sx_native()) sx_print(TY[t].name,shape), sx_print("got",v), sx_print("want",r); sx_assert(r==v,"a switch selects the case whose value matches"); sx_cover("end"); }
#endif
