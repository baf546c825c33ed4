// C01: constant expressions: operands are unknown 64-bit literals in the compiled text.
#include "c_common.h"
#if TIER_QUICK && (MODE==3||MODE==5)
#define TYPES(X,...) X(s,short,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__)
#define TYPES2(X,...) X(c,char,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__)
#elif TIER_QUICK && MODE!=4
#define TYPES(X,...) X(h,unsigned char,__VA_ARGS__) X(s,short,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__)
#define TYPES2(X,...) X(c,char,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__) X(b,_Bool,__VA_ARGS__)
#else
#define TYPES(X,...) X(c,char,__VA_ARGS__) X(h,unsigned char,__VA_ARGS__) X(s,short,__VA_ARGS__) X(t,unsigned short,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__) X(b,_Bool,__VA_ARGS__)
#define TYPES2(X,...) X(c,char,__VA_ARGS__) X(h,unsigned char,__VA_ARGS__) X(s,short,__VA_ARGS__) X(t,unsigned short,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__) X(b,_Bool,__VA_ARGS__)
#endif
#if MODE==0||MODE==5
#define NOOPT __attribute__((optnone,noinline))
#else
#define NOOPT
#endif
#define OK(a,b) 1
#define DIVOK(a,b) ((b)!=0&&!((L)(b)==-1&&((L)(a)==(-2147483647-1)||(L)(a)==(-9223372036854775807LL-1))))
#define SHOK(a,b) ((U)(b)<8*sizeof(+(a)))
#define PLAIN(op,a,b) (a op b)
// division of the promoted operands by magnitudes and signs
NOOPT static U mag(L a){ return a<0?-(U)a:(U)a; }
NOOPT static L sdiv(L a,L b){ U q=mag(a)/mag(b); return (a<0)!=(b<0)?-q:q; }
NOOPT static L smod(L a,L b){ return (L)((U)a-(U)b*(U)sdiv(a,b)); }
#define SIGNED(a,b) ((__typeof__((a)+(b)))-1<0)
#define RDIV(op,a,b) ((__typeof__((a)+(b)))(SIGNED(a,b)?(U)sdiv((__typeof__((a)+(b)))(a),(__typeof__((a)+(b)))(b)):(U)(__typeof__((a)+(b)))(a)/(U)(__typeof__((a)+(b)))(b)))
#define RMOD(op,a,b) ((__typeof__((a)+(b)))(SIGNED(a,b)?(U)smod((__typeof__((a)+(b)))(a),(__typeof__((a)+(b)))(b)):(U)(__typeof__((a)+(b)))(a)%(U)(__typeof__((a)+(b)))(b)))
typedef L (*fn)(L,L);
typedef struct { const char*op,*t1,*t2; fn ref; int (*ok)(L,L); } ent;
#if MODE==0||MODE==5
#define OPS(X) X(add,+,OK,PLAIN) X(sub,-,OK,PLAIN) X(mul,*,OK,PLAIN) X(div,/,DIVOK,RDIV) X(mod,%,DIVOK,RMOD) X(and,&,OK,PLAIN) X(or,|,OK,PLAIN) X(xor,^,OK,PLAIN) X(shl,<<,SHOK,PLAIN) X(shr,>>,SHOK,PLAIN) X(lt,<,OK,PLAIN) X(gt,>,OK,PLAIN) X(le,<=,OK,PLAIN) X(ge,>=,OK,PLAIN) X(eq,==,OK,PLAIN) X(ne,!=,OK,PLAIN) X(land,&&,OK,PLAIN) X(lor,||,OK,PLAIN)
#elif MODE==1||MODE==2
#define OPS(X) X(add,+,OK,PLAIN) X(sub,-,OK,PLAIN) X(and,&,OK,PLAIN) X(or,|,OK,PLAIN) X(xor,^,OK,PLAIN) X(shl,<<,SHOK,PLAIN) X(shr,>>,SHOK,PLAIN) X(lt,<,OK,PLAIN) X(gt,>,OK,PLAIN) X(le,<=,OK,PLAIN) X(ge,>=,OK,PLAIN) X(eq,==,OK,PLAIN) X(ne,!=,OK,PLAIN) X(land,&&,OK,PLAIN) X(lor,||,OK,PLAIN)
#elif MODE==3
#define OPS(X) X(mul,*,OK,PLAIN) X(div,/,DIVOK,PLAIN) X(mod,%,DIVOK,PLAIN)
#else
#define OPS(X) X(neg,-,OK,PLAIN) X(not,~,OK,PLAIN) X(lnot,!,OK,PLAIN) X(plus,+,OK,PLAIN) X(cast,(__typeof__(b)),OK,PLAIN)
#undef PLAIN
#define PLAIN(op,a,b) ((__typeof__(b))(op a))
#endif
#define F1(n2,T2,n1,T1,nm,op,ok,how) NOOPT static L nm##_##n1##n2(L x,L y){ T1 a=x; T2 b=y; return (L)how(op,a,b); } static int g_##nm##_##n1##n2(L x,L y){ T1 a=x; T2 b=y; return ok(a,b); }
#define R1(n1,T1,nm,op,ok,how) TYPES2(F1,n1,T1,nm,op,ok,how)
#define E1(n2,T2,n1,T1,nm,op,ok,how) {#op,#T1,#T2,nm##_##n1##n2,g_##nm##_##n1##n2},
#define RE(n1,T1,nm,op,ok,how) TYPES2(E1,n1,T1,nm,op,ok,how)
#define ALL(nm,op,ok,how) TYPES(R1,nm,op,ok,how)
#define TAB(nm,op,ok,how) TYPES(RE,nm,op,ok,how)
OPS(ALL)
static const ent E[]={OPS(TAB)};
static char text[3000]; static char *tp=text;
static void W(const char*s){ tp=c_put(tp,s); } static void K(const ent*e,int second,U v){ W("(("); W(second?e->t2:e->t1); W(")"); tp=c_bin(tp,v,"ULL"); W(")"); }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY);
  unsigned k=sx_choose(sizeof E/sizeof*E,"operation"); const ent*e=&E[k]; U x=sx_u64("x"),y=sx_u64("y");
#if MODE==5
  if(e->op[0]=='*'||e->op[0]=='/'||e->op[0]=='%') x&=0xff, y&=0x1f; // products of wide operands as enumerators: the range test is out of reach
#endif
  sx_assume(e->ok(x,y));
#if MODE==0||MODE==5
  unsigned form=MODE==0?sx_choose(2,"form"):2+sx_choose(4,"form"); L r=e->ref(x,y);
#define EX (K(e,0,x),W(e->op),K(e,1,y))
  if(form==0){ W("long long f(long long x,long long y){ return "); EX; W("; }"); }
  else if(form==1){ W("static long long g="); EX; W("; long long f(long long x,long long y){ return g; }"); }
  else if(form==2){ W("enum{E="); EX; W("}; long long f(long long x,long long y){ return E; }"); sx_assume(r==(int)r); }
  else if(form==3){ W("long long f(long long x,long long y){ return sizeof(char[("); EX; W(")?3:5]); }"); r=r?3:5; }
  else if(form==4){ W("long long f(long long x,long long y){ int q=3; if("); EX; W(") q=4; else q+=2; return q*2+!("); EX; W("); }"); r=r?8:11; }
  else { W("long long f(long long x,long long y){ return ("); EX; W(")?x:y; }"); }
  L a=x,b=y; if(form==5){ a=sx_u64("a"); b=sx_u64("b"); r=r?a:b; } c_compile(text); c_load(); L v=((fn)c_sym("f"))(a,b);
#elif MODE==1 // variable op constant
  W("long long f(long long x,long long y){ "); W(e->t1); W(" a=x; return a "); W(e->op); W(" "); K(e,1,y); W("; }"); c_compile(text); c_load(); L r=e->ref(x,y), v=((fn)c_sym("f"))(x,y);
#elif MODE==2 // constant op variable
  W("long long f(long long x,long long y){ "); W(e->t2); W(" b=y; return "); K(e,0,x); W(e->op); W("b; }"); c_compile(text); c_load(); L r=e->ref(x,y), v=((fn)c_sym("f"))(x,y);
#elif MODE==3 // multiplication, division: either operand constant
  unsigned side=e->op[0]=='*'?sx_choose(2,"side"):0; W("long long f(long long x,long long y){ "); W(e->t1); W(" a=x; "); W(e->t2); W(" b=y; return "); if(side) { K(e,0,x); W("*b; }"); } else { W("a"); W(e->op); K(e,1,y); W("; }"); } c_compile(text); c_load(); L r=e->ref(x,y), v=((fn)c_sym("f"))(x,y);
#else // unary operators and casts
  L r=e->ref(x,y); unsigned form=sx_choose(2,"form"); if(form) W("static long long g=("); else W("long long f(long long x,long long y){ return ("); W(e->t2); W(")("); W(e->op[0]=='('?"":e->op); K(e,0,x); W(");"); W(form?" long long f(long long x,long long y){ return g; }":" }"); c_compile(text); c_load(); L v=((fn)c_sym("f"))(x,y);
#endif
  sx_assert(r==v,"a constant expression has the value the program would compute"); sx_cover("end"); }
