// C10: floating arithmetic and comparison at run time (0) and of constants (1), against clang, every operand value.
#pragma STDC FP_CONTRACT OFF
#include "c_common.h"
#include "rt_ref.h"
#define TD "typedef float f32; typedef double f64; typedef long double f80;"
typedef float f32; typedef double f64; typedef long double f80; typedef float f32_; 
#if MODE==0
// x,y: any two values of type T; p: integers; o: results of type T; returns comparisons
#define FUNS(X,T) \
 X(T,arith, o[0]=x+y; o[1]=x-y; o[2]=x*y; o[3]=x/y; o[4]=-x; o[5]=+y; o[6]=-(x-y); o[7]=x+x; return 0) \
 X(T,assign, T a=x; a+=y; o[0]=a; a=x; a-=y; o[1]=a; a=x; a*=y; o[2]=a; a=x; a/=y; o[3]=a; a=x; o[4]=a++; o[5]=a--; o[6]=++a; o[7]=--a; return 0) \
 X(T,ints, o[0]=x+(int)p[0]; o[1]=x*(unsigned)p[1]; o[2]=(int)p[0]-y; o[3]=(char)p[1]/y; o[4]=x-(long)p[0]; o[5]=-(int)p[1]*x; int i=p[0]&15; i+=1.5; o[6]=i; T a=(short)p[1]; a*=2; o[7]=a; return i) \
 X(T,compare, int r=0,k=0; r|=(x<y)<<k++; r|=(x<=y)<<k++; r|=(x>y)<<k++; r|=(x>=y)<<k++; r|=(x==y)<<k++; r|=(x!=y)<<k++; r|=!(x<y)<<k++; r|=!(x>=y)<<k++; r|=!x<<k++; r|=!!y<<k++; r|=(x&&y)<<k++; r|=(x||y)<<k++; r|=(x==0)<<k++; r|=(x!=x)<<k++; r|=((x<y)==(y>x))<<k++; return r) \
 X(T,branch, int r=0; if(x<y) r|=1; if(x<=y) r|=2; if(x>y) r|=4; if(x>=y) r|=8; if(x==y) r|=16; if(x!=y) r|=32; if(!(x<y)) r|=64; if(!(x>y)) r|=128; if(x) r|=256; if(!y) r|=512; r|=x<y?1024:2048; r|=!(x==y)?4096:0; return r) \
 X(T,loops, int r=0; if(x<y&&y<3||x!=x) r=1; if(!(x<=y||y!=0)) r|=2; while(!(x>y)&&r<64) r+=8; for(;x==y&&r<200;r+=100); do r++; while(x>=y&&!(r&1)); return r) \
 X(T,chain, T t=(x+y)*(x-y), u=x*y+y/x; o[0]=t-u; o[1]=(x+1)*(y-1); o[2]=x-(y-(x-y)); o[3]=x*2+y*.5; o[4]=1/x; o[5]=(x<y?t:u); o[6]=(x,y); o[7]=x*x-y; return x==y) \
 X(T,mem, T v[3]={x,y,x}; struct { T a; T b[2]; } s={y,{x,-y}}; int i=p[0]&1; o[0]=v[i]; o[1]=s.b[i]; v[i]=-v[i+1]; o[2]=v[i]; s.a+=v[2]; o[3]=s.a; T*q=&s.b[i]; *q-=1; o[4]=s.b[0]; o[5]=s.b[1]; s.b[1-i]++; o[6]=s.b[1]; o[7]=s.b[0]; return s.a>v[0]) \
 X(T,widen, float f=x; double d=y; long double l=x; o[0]=f; o[1]=d; o[2]=(float)l; o[3]=(double)l; o[4]=(float)x+(float)y; o[5]=(double)f; o[6]=f<d; o[7]=l==f; return (f==x)+(d>f)*2+(f+d<l)*4+(f+d>=l-f)*8+((double)x/y!=l/d)*16+(f-l<=d)*32+(-d<-l)*64+(f*d>=l*f)*128) \
 X(T,call, T (*m)(T,int)=mul_##T; int n=p[0],k=p[1]; o[0]=mul_##T(x,n); o[1]=m(y,k); o[2]=mul_##T(x,k)+mul_##T(y,n)*x; o[3]=x-m(mul_##T(x-y,n),k); o[4]=o[5]=o[6]=o[7]=0; return 0)
#define PRE(T) static T mul_##T(T x,int n){ return x*n; }
#define F(T,n,...) long long n##_##T(T x,T y,long long*p,T*o){ __VA_ARGS__; }
PRE(f32) PRE(f64) PRE(f80) FUNS(F,f32) FUNS(F,f64) FUNS(F,f80)
#define E_(T,n,...) {#n "_" #T,STR(PRE(T) F(T,n,__VA_ARGS__)),n##_##T,sizeof(T)},
static const struct { const char*name,*text; void*ref; int size; } E[]={ FUNS(E_,f32) FUNS(E_,f64) FUNS(E_,f80) };
static int same32(unsigned a,unsigned b){ return (a==b)|(((a&0x7fffffff)>0x7f800000)&((b&0x7fffffff)>0x7f800000)); }
static int same64(U a,U b){ return (a==b)|(((a<<1)>0xffe0000000000000)&((b<<1)>0xffe0000000000000)); }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"function"); static char text[40000]; c_put(c_put(c_put(c_put(text,TD),rt_libtcc1),"void *memset(void*d,int c,unsigned long n){ for(unsigned long i=0;i<n;i++) ((char*)d)[i]=c; return d; }"),E[k].text); c_compile(text); c_load(); void*f=c_sym(E[k].name);
  static L p[2],pp[2]; p[0]=pp[0]=E[k].name[0]=='m'?sx_choose(2,"p"):sx_u64("p"); p[1]=pp[1]=sx_u64("p"); L r,v; int ok=1;
  if(E[k].size==4){ f32 x,y,o[8],u[8]; for(int i=0;i<8;i++) o[i]=u[i]=0; unsigned a=sx_u32("x"),b=sx_u32("y"); memcpy(&x,&a,4); memcpy(&y,&b,4); r=((L(*)(f32,f32,L*,f32*))E[k].ref)(x,y,p,o); v=((L(*)(f32,f32,L*,f32*))f)(x,y,pp,u); for(int i=0;i<8;i++){ memcpy(&a,o+i,4); memcpy(&b,u+i,4); if(sx_native()&&!same32(a,b)) sx_print("item",i), sx_print("want",a), sx_print("got",b); sx_assert(same32(a,b),c_msgf(E[k].name,"a floating result")); } }
  else if(E[k].size==8){ f64 x,y,o[8],u[8]; for(int i=0;i<8;i++) o[i]=u[i]=0; U a=sx_u64("x"),b=sx_u64("y"); memcpy(&x,&a,8); memcpy(&y,&b,8); r=((L(*)(f64,f64,L*,f64*))E[k].ref)(x,y,p,o); v=((L(*)(f64,f64,L*,f64*))f)(x,y,pp,u); for(int i=0;i<8;i++){ memcpy(&a,o+i,8); memcpy(&b,u+i,8); if(sx_native()&&!same64(a,b)) sx_print("item",i), sx_print("want",a), sx_print("got",b); sx_assert(same64(a,b),c_msgf(E[k].name,"a floating result")); } }
  else { f80 x,y; static f80 o[8],u[8]; U a=sx_u64("x"),b=sx_u64("y"); f64 d; memcpy(&d,&a,8); x=d; memcpy(&d,&b,8); y=d; r=((L(*)(f80,f80,L*,f80*))E[k].ref)(x,y,p,o); v=((L(*)(f80,f80,L*,f80*))f)(x,y,pp,u); for(int i=0;i<8;i++){ U c,d; unsigned short e,g; memcpy(&c,o+i,8); memcpy(&d,u+i,8); memcpy(&e,(char*)(o+i)+8,2); memcpy(&g,(char*)(u+i)+8,2); int nan=((e&0x7fff)==0x7fff)&((g&0x7fff)==0x7fff)&((c<<1)!=0)&((d<<1)!=0); if(sx_native()) sx_print("item",i), sx_print("want",c), sx_print("got",d); sx_assert(nan|((c==d)&(e==g)),c_msgf(E[k].name,"a floating result")); } }
  if(sx_native()) sx_print("want",r), sx_print("got",v); sx_assert(r==v,c_msgf(E[k].name,"a floating comparison")); sx_cover("end"); }
#else // constant expressions over integers of unknown value converted to a floating type
#define OPS(X) X(+) X(-) X(*) X(/) X(<) X(<=) X(>) X(>=) X(==) X(!=) X(&&) X(||)
static char text[60000]; static char *tp=text; static void W(const char*s){ tp=c_put(tp,s); }
#define NM(o) #o,
static const char*const ON[]={ OPS(NM) };
#define C1(o) case __COUNTER__-B1: return (double)(x o y);
#define C2(o) case __COUNTER__-B2: return (double)(float)(x o y);
enum { B1=__COUNTER__+1 }; static double ev64(int k,f64 x,f64 y){ switch(k){ OPS(C1) } return 0; }
enum { B2=__COUNTER__+1 }; static double ev32(int k,f32 x,f32 y){ switch(k){ OPS(C2) } return 0; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(12,"operator"),t=sx_choose(2,"type"),neg=sx_choose(3,"sign"); U a=sx_u64("a"),b=sx_u64("b"); if(k==3) sx_assume(b!=0); // division by zero: see the run-time part
  const char*T=t?"double":"float"; double want; if(t){ f64 x=(f64)a,y=(f64)b; if(neg==1) x=-x; if(neg==2) y=y*0x1p-60; want=ev64(k,x,y); } else { f32 x=(f32)a,y=(f32)b; if(neg==1) x=-x; if(neg==2) y=y*0x1p-60f; want=ev32(k,x,y); }
  W("double r=("); if(neg==1) W("-"); W("("); W(T); W(")"); tp=c_bin(tp,a,"ULL"); W(")"); W(ON[k]); W("("); W("("); W(T); W(")"); tp=c_bin(tp,b,"ULL"); if(neg==2) W(t?"*0x1p-60":"*0x1p-60f"); W("); ");
  c_compile(text); c_load(); double got=*(double*)c_sym("r"); U g,w; memcpy(&g,&got,8); memcpy(&w,&want,8); if(sx_native()) sx_print(ON[k],t), sx_print("got",g), sx_print("want",w);
  sx_assert(g==w,c_msgf(T,c_msgf(ON[k],"a folded floating expression"))); sx_cover("end"); }
#endif
