// C13: the routines of libtcc1 that programs call for bit counting (0), atomic operations (1), variable arguments (2), alloca (3) and 64-bit
// arithmetic (4), compiled by the compiler under test, compared with their specification for every argument value.
#include "c_common.h"
#include "rt_ref.h"
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned u32;
static char text[120000]; static char *tp=text; static void W(const char*s){ tp=c_put(tp,s); }
#if MODE==0
enum { bffs,bclz,bctz,bclrsb,bpopcount,bparity };
static const char*const N[]={"ffs","clz","ctz","clrsb","popcount","parity"}, *const SF[]={"","l","ll"}, *const TS[]={"int","long","long long"}, *const TU[]={"unsigned","unsigned long","unsigned long long"};
static U bit(U x,int i){ return x>>i&1; }
static int sumbits(U x,int n){ U c[64]; for(int i=0;i<n;i++) c[i]=x>>i&1; for(int s=1;s<n;s*=2) for(int i=0;i<n;i+=2*s) c[i]+=c[i+s]; return c[0]; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned f=sx_choose(6,"routine"),w=sx_choose(3,"width"); int n=w?64:32;
  W(rt_builtin); W(" int w("); W(f==bffs||f==bclrsb?TS[w]:TU[w]); W(" x){ return __builtin_"); W(N[f]); W(SF[w]); W("(x); }"); c_compile(text); c_load();
  U x; int want; if(f==bpopcount){ x=sx_bits("x",n); want=sumbits(x,n); } else if(f==bparity){ x=sx_bits("x",n); want=sumbits(x,n)&1; }
  else { int k=sx_choose(n+1,"position"); U r=k<n?sx_bits("rest",n):0; // the deciding bit is at position k, k==n: none
    U m=n==64?~0ull:0xffffffffull;
    switch(f){ case bffs: x=k==n?0:(r<<k|1ull<<k)&m; want=k==n?0:k+1; break; case bctz: if(k==n) sx_end(); x=(r<<k|1ull<<k)&m; want=k; break;
      case bclz: if(k==n) sx_end(); x=((r&m)|1ull<<(n-1))>>k; want=k; break;
      default: { if(k==0) sx_end(); // k leading bits equal to the sign
        int s=sx_choose(2,"sign"); x=k==n?0:(((r&m)|1ull<<(n-1))>>k); if(k<n) x=x&m; if(s) x=~x&m; want=k-1; } } }
  int g; if(w==0) g=((int(*)(u32))c_sym("w"))((u32)x); else g=((int(*)(U))c_sym("w"))(x);
  char nm[40]; c_put(c_put(c_put(nm,"__builtin_"),N[f]),SF[w]); int h; if(w==0) h=((int(*)(u32))c_sym(nm))((u32)x); else h=((int(*)(U))c_sym(nm))(x);
  if(sx_native()) sx_print(nm,x), sx_print("want",want), sx_print("got",g); sx_assert((g==want)&(h==want),c_msgf(nm,"the number of bits it is specified to return")); sx_cover("end"); }
#elif MODE==1
enum { exchange,add_fetch,sub_fetch,and_fetch,or_fetch,xor_fetch,nand_fetch,fetch_add,fetch_sub,fetch_and,fetch_or,fetch_xor,fetch_nand, NOP };
static const char*const N[]={"exchange","add_fetch","sub_fetch","and_fetch","or_fetch","xor_fetch","nand_fetch","fetch_add","fetch_sub","fetch_and","fetch_or","fetch_xor","fetch_nand","load","store","compare_exchange"};
static const char*const T[]={"unsigned char","unsigned short","unsigned int","unsigned long long"}, *const TSG[]={"signed char","short","int","long long"};
static U op(int f,U o,U v){ switch(f){ case exchange: return v; case add_fetch: case fetch_add: return o+v; case sub_fetch: case fetch_sub: return o-v; case and_fetch: case fetch_and: return o&v; case or_fetch: case fetch_or: return o|v; case xor_fetch: case fetch_xor: return o^v; default: return ~(o&v); } }
static U call2(int s,void*f,void*p,U v){ switch(s){ case 0: return ((u8(*)(void*,u8,int))f)(p,v,5); case 1: return ((u16(*)(void*,u16,int))f)(p,v,5); case 2: return ((u32(*)(void*,u32,int))f)(p,v,5); default: return ((U(*)(void*,U,int))f)(p,v,5); } }
static void lib(void){ W("void __atomic_thread_fence(int);\n"); W(rt_stdatomic); }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned f=sx_choose(NOP+3,"operation"),s=sx_choose(4,"size"),how=sx_choose(3,"form"); int n=1<<s; U m=n==8?~0ull:(1ull<<8*n)-1;
  char nm[60],*q=c_put(c_put(c_put(nm,"__atomic_"),N[f]),"_"); *q++='0'+n; *q=0; W(rt_stdatomic); W("\n typedef ");
  W(how==2?TSG[s]:T[s]); W(" T; T w(T*p,T v){ "); // through the generic builtin of the language
  if(f<NOP&&f!=exchange){ W("return __atomic_"); W(N[f]); W("(p,v,5); }"); } else if(f==exchange) W("T r; __atomic_exchange(p,&v,&r,5); return r; }"); else if(f==NOP) W("T r; __atomic_load(p,&r,5); return r; }"); else if(f==NOP+1) W("__atomic_store(p,&v,5); return v; }"); else W("return 0; }");
  W(" _Bool x(T*p,T*e,T v){ return __atomic_compare_exchange(p,e,&v,0,5,5); }");
  c_compile(text); c_load();
  static unsigned char mem[32]; U old=sx_u64("value")&m,v=sx_u64("operand"); u8 c=sx_u8("around"); for(int i=0;i<32;i++) mem[i]=c+i; memcpy(mem+8,&old,n); U nw=0; void*fn=c_sym(nm);
  if(f<NOP){ U res=op(f,old,v)&m, want=f==exchange||f>=fetch_add?old:res; U r=how?call2(s,c_sym("w"),mem+8,v)&m:call2(s,fn,mem+8,v)&m; memcpy(&nw,mem+8,n); if(sx_native()) sx_print(nm,old), sx_print("operand",v), sx_print("returned",r), sx_print("stored",nw); sx_assert(r==want,c_msgf(nm,"the returned value")); sx_assert(nw==res,c_msgf(nm,"the stored value")); }
  else if(f==NOP){ U r=how?call2(s,c_sym("w"),mem+8,v)&m:(s==0?((u8(*)(void*,int))fn)(mem+8,5):s==1?((u16(*)(void*,int))fn)(mem+8,5):s==2?((u32(*)(void*,int))fn)(mem+8,5):((U(*)(void*,int))fn)(mem+8,5)); memcpy(&nw,mem+8,n); sx_assert((r==old)&(nw==old),c_msgf(nm,"the loaded value")); }
  else if(f==NOP+1){ if(how) call2(s,c_sym("w"),mem+8,v); else switch(s){ case 0: ((void(*)(void*,u8,int))fn)(mem+8,v,5); break; case 1: ((void(*)(void*,u16,int))fn)(mem+8,v,5); break; case 2: ((void(*)(void*,u32,int))fn)(mem+8,v,5); break; default: ((void(*)(void*,U,int))fn)(mem+8,v,5); } memcpy(&nw,mem+8,n); sx_assert(nw==(v&m),c_msgf(nm,"the stored value")); }
  else { static unsigned char ex[24]; U e=sx_u64("expected")&m; for(int i=0;i<24;i++) ex[i]=c-i; memcpy(ex+8,&e,n); int r;
    if(how){ void*x=c_sym("x"); switch(s){ case 0: r=((_Bool(*)(void*,void*,u8))x)(mem+8,ex+8,v); break; case 1: r=((_Bool(*)(void*,void*,u16))x)(mem+8,ex+8,v); break; case 2: r=((_Bool(*)(void*,void*,u32))x)(mem+8,ex+8,v); break; default: r=((_Bool(*)(void*,void*,U))x)(mem+8,ex+8,v); } }
    else switch(s){ case 0: r=((_Bool(*)(void*,void*,u8,_Bool,int,int))fn)(mem+8,ex+8,v,0,5,5); break; case 1: r=((_Bool(*)(void*,void*,u16,_Bool,int,int))fn)(mem+8,ex+8,v,0,5,5); break; case 2: r=((_Bool(*)(void*,void*,u32,_Bool,int,int))fn)(mem+8,ex+8,v,0,5,5); break; default: r=((_Bool(*)(void*,void*,U,_Bool,int,int))fn)(mem+8,ex+8,v,0,5,5); }
    U e2=0; memcpy(&nw,mem+8,n); memcpy(&e2,ex+8,n); int eq=e==old; if(sx_native()) sx_print(nm,old), sx_print("expected",e), sx_print("desired",v), sx_print("result",r); sx_assert((r&255)==eq,c_msgf(nm,"the result")); sx_assert(nw==(eq?v&m:old),c_msgf(nm,"the stored value")); sx_assert(e2==old,c_msgf(nm,"the expected value afterwards"));
    int same=1; for(int i=0;i<24;i++) if(i<8||i>=8+n) same&=ex[i]==(unsigned char)(c-i); sx_assert(same,c_msgf(nm,"memory around the expected value is untouched")); }
  int same=1; for(int i=0;i<32;i++) if(i<8||i>=8+n) same&=mem[i]==(unsigned char)(c+i); sx_assert(same,c_msgf(nm,"memory around the object is untouched")); sx_cover("end"); }
#elif MODE==2
// __va_arg against figure 3.34 of the psABI: an argument is in registers if all of it fits, else in the overflow area at its alignment
typedef struct { u32 gp,fp; char*ov,*save; } va[1];
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); W("void abort(void){} void*memcpy(void*d,const void*s,unsigned long n){ char*a=d; const char*b=s; while(n--) *a++=*b++; return d; }\n"); W(rt_va_list); c_compile(text); c_load(); void*fn=c_sym("__va_arg");
  unsigned type=sx_choose(3,"class"); int size,align; if(type<2){ size=1+sx_choose(16,"size"); align=1<<sx_choose(4,"alignment"); } else { size=1+sx_choose(40,"size"); align=1<<sx_choose(5,"alignment"); }
  static unsigned char save[176+16] __attribute__((aligned(16))),ref[176+16],ov[160] __attribute__((aligned(16))); va ap; unsigned gp=type==0?sx_choose(7,"gp"):sx_u8("gp")&7,fp=type==1?sx_choose(9,"fp"):sx_u8("fp")&15; sx_assume(gp<=6&fp<=8); unsigned off=sx_choose(4,"overflow");
  for(int i=0;i<176;i++) ref[i]=save[i]=sx_u8("save"); ap->gp=8*gp; ap->fp=48+16*fp; ap->ov=(char*)ov+8*off; ap->save=(char*)save;
  if(align>8&&size%16) sx_end(); // an argument's size is a multiple of its alignment
  unsigned char*r=((void*(*)(va,int,int,int))fn)(ap,type,size,align); int n=(size+7)/8, a16=align>8; u32 wg=8*gp,wf=48+16*fp; char*wo=(char*)ov+8*off; 
  if(sx_native()) sx_print("class",type), sx_print("size",size), sx_print("align",align), sx_print("gp_offset",wg), sx_print("fp_offset",wf), sx_print("gp after",ap->gp), sx_print("fp after",ap->fp);
  if(type==0&&gp+n<=6){ sx_assert(r==save+wg,"an integer argument in registers"); wg+=8*n; sx_cover("gp"); }
  else if(type==1&&fp+n<=8){ int ok=1; for(int i=0;i<n*8;i++) ok&=r[i]==ref[wf+i/8*16+i%8]; sx_assert(ok,"a floating argument in registers"); wf+=16*n; sx_cover("fp"); }
  else { if(a16) wo=(char*)(((U)wo+15)&~15ull); sx_assert((char*)r==wo,"an argument in memory"); wo+=8*n; sx_cover("memory"); }
  sx_assert(ap->gp==wg&&ap->fp==wf,"the registers left for the arguments after it"); sx_assert(ap->ov==wo,"the overflow area left for the arguments after it"); sx_assert(ap->save==(char*)save,"the register save area"); 
  int ok=1; for(int i=0;i<176;i++) if(!(type==1&&i>=48+16*fp&&i<48+16*fp+16)) ok&=save[i]==ref[i]; sx_assert(ok,"the saved registers of other arguments"); }
#endif
#if MODE==3
// alloca and the assembler routines of atomic.S
void harness(void){ c_begin(); mfs_add("/work/alloca.S",MT_FILE,rt_alloca,sizeof rt_alloca-1); mfs_add("/work/atomic.S",MT_FILE,rt_atomic,sizeof rt_atomic-1); c_new(TCC_OUTPUT_MEMORY);
  W("void*alloca(unsigned long); unsigned char __atomic_test_and_set(void*,int); void __atomic_clear(void*,int); int tas(char*p){ return __atomic_test_and_set(p,5); } void clr(char*p){ __atomic_clear(p,5); }"
    "static void fill(char*p,int n,int v){ for(int i=0;i<n;i++) p[i]=v+i; } static int is(char*p,int n,int v){ for(int i=0;i<n;i++) if(p[i]!=(char)(v+i)) return 0; return 1; }"
    "int f(int a,int b,int v,long long x,int*o){ char l[20]; long long y=x*3; fill(l,20,v); char*p=alloca(a); fill(p,a,v+1); long long z=x-v; char*q=alloca(b); fill(q,b,v+2); int r=is(l,20,v)+2*is(p,a,v+1)+4*is(q,b,v+2)+8*(y==x*3)+16*(z==x-v); o[0]=(unsigned long)p&15; o[1]=(unsigned long)q&15; o[2]=a&&b&&p<q+b&&q<p+a; for(int i=0;i<3;i++){ char*s=alloca(a+i); fill(s,a+i,v+3+i); if(!is(p,a,v+1)||!is(q,b,v+2)||!is(l,20,v)) o[2]=2; } return r; }"
    "static long long f1(int n,long long v){ long long*p=alloca(8*n+8); for(int i=0;i<=n;i++) p[i]=v+i; long long s=0; for(int i=0;i<=n;i++) s+=p[i]; return s; } long long g(int n,long long v){ long long*p=alloca(24); p[0]=v; p[1]=n?g(n-1,v*2):5; p[2]=f1(n,p[1]); return p[0]-p[1]+p[2]; }");
  c_compile(text); sx_assert(tcc_add_file(S,"/work/alloca.S")==0&&tcc_add_file(S,"/work/atomic.S")==0,"the assembler sources assemble"); c_load(); unsigned part=sx_choose(3,"part");
  if(part==0){ int a=sx_choose(LA,"size"),b=sx_choose(LA,"size"); static int o[4]; int v=sx_u8("byte"); U x=sx_u64("value"); int r=((int(*)(int,int,int,U,int*))c_sym("f"))(a,b,v,x,o); sx_assert(r==31,"objects in the frame keep their values"); sx_assert((!a||!o[0])&&(!b||!o[1]),"allocated memory is aligned to 16"); sx_assert(o[2]==0,"allocated objects do not overlap"); sx_cover("alloca"); }
  else if(part==1){ int n=sx_choose(5,"depth"); U v=sx_u64("value"); 
    U p1=5,w=v<<n,s=0; for(int i=0;i<=n;i++){ U t=0; for(int j=0;j<=i;j++) t+=p1+j; s=w-p1+t; p1=s; w=v<<(n-i-1&63); } U r=((U(*)(int,U))c_sym("g"))(n,v); sx_assert(r==s,"recursive functions with allocated memory"); sx_cover("recursive"); }
  else { static unsigned char m[9]; for(int i=0;i<9;i++) m[i]=sx_u8("m"); unsigned char c[9]; memcpy(c,m,9); if(sx_choose(2,"clear")){ ((void(*)(void*))c_sym("clr"))(m+4); sx_assert(m[4]==0,"clear"); } else { int r=((int(*)(void*))c_sym("tas"))(m+4); sx_assert(m[4]==1,"test and set sets the flag"); sx_assert(r==c[4],"test and set returns the previous state"); } m[4]=c[4]; sx_assert(!memcmp(m,c,9),"memory around the flag is untouched"); sx_cover("flag"); } }
#endif
