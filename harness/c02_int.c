// C02: integer operations at run time, for every operand value.
#include "c_common.h"
#define TYPES(X,...) X(c,char,__VA_ARGS__) X(a,signed char,__VA_ARGS__) X(h,unsigned char,__VA_ARGS__) X(s,short,__VA_ARGS__) X(t,unsigned short,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(m,unsigned long,__VA_ARGS__) X(x,long long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__) X(b,_Bool,__VA_ARGS__)
#define TYPES2(X,...) X(c,char,__VA_ARGS__) X(a,signed char,__VA_ARGS__) X(h,unsigned char,__VA_ARGS__) X(s,short,__VA_ARGS__) X(t,unsigned short,__VA_ARGS__) X(i,int,__VA_ARGS__) X(j,unsigned,__VA_ARGS__) X(l,long,__VA_ARGS__) X(m,unsigned long,__VA_ARGS__) X(x,long long,__VA_ARGS__) X(y,unsigned long long,__VA_ARGS__) X(b,_Bool,__VA_ARGS__)
#define OK(a,b) 1
#define DIVOK(a,b) ((b)!=0&&!((L)(b)==-1&&((L)(a)==(-2147483647-1)||(L)(a)==(-9223372036854775807LL-1))))
#define SHOK(a,b) ((U)(b)<8*sizeof(+(a)))
#define SHOKA(a,b) SHOK(a,b)
typedef L (*fn)(L,L,L*); enum { NO=10 };
typedef struct { const char*name; fn ref; int (*ok)(L,L); } ent;
typedef struct { const char*text; const ent*e; int n; } grp;
#if MODE==0 // binary operators, every pair of operand types
#define OPS(X) X(add,+,OK) X(sub,-,OK) X(mul,*,OK) X(div,/,DIVOK) X(mod,%,DIVOK) X(and,&,OK) X(or,|,OK) X(xor,^,OK) X(shl,<<,SHOK) X(shr,>>,SHOK) X(lt,<,OK) X(gt,>,OK) X(le,<=,OK) X(ge,>=,OK) X(eq,==,OK) X(ne,!=,OK) X(land,&&,OK) X(lor,||,OK)
#define BODY(op) return a op b;
#elif MODE==1 // compound assignment
#define OPS(X) X(add,+=,OK) X(sub,-=,OK) X(mul,*=,OK) X(div,/=,DIVOK) X(mod,%=,DIVOK) X(and,&=,OK) X(or,|=,OK) X(xor,^=,OK) X(shl,<<=,SHOK) X(shr,>>=,SHOK) X(set,=,OK)
#define BODY(op) o[0]=(a op b); return a;
#elif MODE==2 // unary operators, increments, casts (the second operand type is the destination)
#define OPS(X) X(neg,-,OK) X(not,~,OK) X(lnot,!,OK) X(plus,+,OK) X(cast,(__typeof__(b)),OK) X(preinc,++,OK) X(predec,--,OK)
#define BODY(op) o[0]=(b=op a); o[1]=b; return a;
#elif MODE==3 // used as conditions
#define OPS(X) X(lt,<,OK) X(gt,>,OK) X(le,<=,OK) X(ge,>=,OK) X(eq,==,OK) X(ne,!=,OK) X(land,&&,OK) X(lor,||,OK) X(and,&,OK) X(sub,-,OK)
#define BODY(op) long long r=0; if(a op b) r=1; if(!(a op b)) r+=2; r+=(a op b)?4:8; while(a op b){ r+=16; break; } return r;
#elif MODE==4 // through memory: arrays and pointers of the types, postfix operators
#define OPS(X) X(add,+,OK) X(sub,-,OK) X(xor,^,OK) X(mul,*,OK)
#define BODY(op) __typeof__(a) v[3],*p=v+1; __typeof__(b) w[2]; v[0]=a; v[2]=b; *p=a; w[0]=b; w[1]=a; o[0]=p[-1] op *w; o[1]=(*p)++ op w[0]--; (*p) -= 5; p[1]+=w[1]; *p++ *= 3; o[2]=v[0]; o[3]=v[1]; o[4]=*p; o[5]=w[0]; return p-v;
#endif
#if MODE==5 // nested expressions: registers, spills, calls and side effects inside expressions
static L twice(L v){ return v+v; } static L last(L a,L b,L c,L d,L e,L f,L g,L h){ return a-b+c-d+e-f+g*2-h*3; }
#define HELP static long long twice(long long v){ return v+v; } static long long last(long long a,long long b,long long c,long long d,long long e,long long f,long long g,long long h){ return a-b+c-d+e-f+g*2-h*3; }
#define EXPRS(X) X(1,(a+b)*((c^d)+((e|f)-(a*c)/(b|1)))) X(2,((a-b)*(c-d))-((a+c)*(b+d)-((e^f)&(a|d)))) X(3,(a%(b|1))+((c/(d|1))^((e%(f|1))-(a/(c|1))))) X(4,(a<<(b&7))|((c>>(d&7))+((e<<(f&3))-(a>>(c&3))))) \
 X(5,a-(b-(c-(d-(e-(f-(a-(b-(c-d))))))))) X(6,(((((a*b)+c)*d)+e)*f)+a) X(7,(a<b)+((c<d)*2)+((e<f)*4)+(((a>c)^(b>d))*8)) X(8,a<b?c<d?e:f:e<f?a-c:b-d) X(9,(a&&b)||(c&&(d||e))||!f) X(10,a?b:c?d:e?f:a+b+c) \
 X(11,twice(a+b)*(c-d)+twice(twice(e)-f)) X(12,last(a,b,c,d,e,f,a+b,c-d)-last(f,e,d,c,b,a,a*b,twice(c))) X(13,(a+b)/(twice(c)|1)-(d-e)%(twice(f)|1)) X(14,(a/(b|1))/(c|1)*(d/(e|1))/(f|1)) X(15,a/((b/(c|1))|1)-((d/(e|1))/((f/(a|1))|1))) \
 X(16,((a+b)*(c+d)+(e+f)*(a-b))*((c-d)*(e-f)+(a+f)*(b+e))) X(17,(a+=b,c-=a,a*c+d)) X(18,(a=b+(c=d+(e=f+1))),a+c*e) X(19,a++ + b-- - ++c + --d) X(20,v[b&3]+v[c&3]*(v[d&3]-v[e&3])+v[(a+f)&3]) X(21,(v[a&3]=b+c)+(v[1]+=d)*v[e&3]+*v) \
 X(22,(unsigned char)(a+b)*(short)(c-d)+(char)(e^f)) X(23,-(a-~b)+!(c&d)-~(e|-f)) X(24,(a<(T0)0?-1:1)*(b>c)+(d==e)-(f!=a)) X(25,(v+(b&3))[0]+*(v+(c&1)+1)+(&v[d&3]-v)+(long long)(&v[3]-&v[e&3])) X(26,(c=a*3,d=a*5,e=a*7,b=a*9,c+d*e-b)) \
 X(27,a*1+b*2+c*8+d*10+e*-4+f*255) X(28,(a&0xff)+(b&0xffff)+((c>>3)&0x1f)+((d<<5)^e)+(f|0x100)) X(29,a/2+b/8+c/10+d%16+e%10+f/-3) X(30,((a+b)-(a-b))+((c+1)*(c-1))+(d-d)+(e^e)+(f|f)) X(31,(a<=b)&(b<=c)&(c<=d)|(d>=e)&(e!=f)) X(32,(a>0&&b>0&&c>0)?d:(a<0||b<0||c<0)?e:f)
#define FX(T,n,k,X) long long x_##n##k(long long*p,long long*o){ T a=p[0],b=p[1],c=p[2],d=p[3],e=p[4],f=p[5],v[4]; typedef T T0; v[0]=p[0]+1; v[1]=p[1]-1; v[2]=p[2]^3; v[3]=p[3]*2; o[0]=(X); o[1]=a; o[2]=b; o[3]=c; o[4]=d; o[5]=e; o[6]=v[0]+v[1]; o[7]=v[2]; o[8]=v[3]; return (X); }
#define FI(k,...) FX(int,i,k,(__VA_ARGS__))
#define FU(k,...) FX(unsigned,u,k,(__VA_ARGS__))
#define FL(k,...) FX(long,l,k,(__VA_ARGS__))
#define FH(k,...) FX(unsigned short,h,k,(__VA_ARGS__))
typedef L (*fx)(L*,L*); EXPRS(FI) EXPRS(FU) EXPRS(FL) EXPRS(FH)
typedef struct { const char*name; fx ref; } ex; 
#define EI(k,...) {"x_i" #k,x_i##k},
#define EU(k,...) {"x_u" #k,x_u##k},
#define EL(k,...) {"x_l" #k,x_l##k},
#define EH(k,...) {"x_h" #k,x_h##k},
static const ex E5[4][40]={{EXPRS(EI)},{EXPRS(EU)},{EXPRS(EL)},{EXPRS(EH)}};
static const char*const T5[4]={STR(HELP EXPRS(FI)),STR(HELP EXPRS(FU)),STR(HELP EXPRS(FL)),STR(HELP EXPRS(FH))};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned t=sx_choose(4,"type"); c_compile(T5[t]); c_load(); unsigned k=sx_choose(32,"expression"); const ex*e=&E5[t][k]; fx f=(fx)c_sym(e->name);
  static L p[6],q[6],o1[NO],o2[NO]; for(int i=0;i<6;i++){ p[i]=sx_u64("operand"); if(k+1==3||k+1==13||k+1==14||k+1==15||k+1==1||k+1==29) p[i]=p[i]&0x7fff; q[i]=p[i]; }
  L r=e->ref(p,o1), g=f(q,o2); if(sx_native()&&r!=g) sx_print(e->name,r), sx_print("got",g); sx_assert(r==g,"the compiled expression yields the value C prescribes"); for(int i=0;i<NO;i++) sx_assert(o1[i]==o2[i],"the compiled expression yields the value C prescribes"); sx_cover("end"); }
#else
#define F1(n2,T2,n1,T1,nm,op,ok) long long nm##_##n1##n2(long long x,long long y,long long*o){ T1 a=x; T2 b=y; BODY(op) }
#define R1(n1,T1,nm,op,ok) TYPES2(F1,n1,T1,nm,op,ok)
#define G1(n2,T2,n1,T1,nm,op,ok) static int g_##nm##_##n1##n2(L x,L y){ T1 a=x; T2 b=y; return ok(a,b); }
#define RG(n1,T1,nm,op,ok) TYPES2(G1,n1,T1,nm,op,ok)
#define E1(n2,T2,n1,T1,nm,op,ok) {#nm "_" #n1 #n2,nm##_##n1##n2,g_##nm##_##n1##n2},
#define RE(n1,T1,nm,op,ok) TYPES2(E1,n1,T1,nm,op,ok)
#define ALL(nm,op,ok) TYPES(R1,nm,op,ok)
#define ALLG(nm,op,ok) TYPES(RG,nm,op,ok) static const ent e_##nm[]={TYPES(RE,nm,op,ok)}; 
#define TXT(nm,op,ok) {STR(ALL(nm,op,ok)),e_##nm,sizeof e_##nm/sizeof*e_##nm},
OPS(ALL)
OPS(ALLG)
static const grp G[]={OPS(TXT)};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY);
  unsigned g=sx_choose(sizeof G/sizeof*G,"operator"); c_compile(G[g].text); c_load(); 
  unsigned k=sx_choose(G[g].n,"types"); const ent*e=&G[g].e[k]; fn f=(fn)c_sym(e->name);
  L x=sx_u64("x"),y=sx_u64("y"); sx_assume(e->ok(x,y)); static L o1[NO],o2[NO]; L r=e->ref(x,y,o1), v=f(x,y,o2);
  if(sx_native()&&r!=v) sx_print(e->name,r), sx_print("got",v); sx_assert(r==v,"the compiled operation yields the value C prescribes"); for(int i=0;i<NO;i++) sx_assert(o1[i]==o2[i],"the compiled operation yields the value C prescribes"); sx_cover("end"); }
#endif
