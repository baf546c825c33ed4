// C14: a program compiled directly in memory (D) and through an object file (O): the same results for all arguments and all constants in it (0, 1);
// what is not an x86-64 ELF object is refused (2).
#include "c_common.h"
#include "rt_ref.h"
#define LIB 1
static const struct { int lib; const char*text; } PR[]={
 {0,"int g[4]={K1,K2,1}; static short h[3]={K2,K1}; const char c[]={K1,2,K2}; int z[5]; static long zz; long long run(long long a,long long b){ g[2]+=b; h[1]^=a; z[3]=b; h[0]+=b; zz+=a; return g[0]*3+g[1]*5+g[2]*7+g[3]*11+h[0]+h[1]+h[2]+c[1]*3+c[0]+z[0]+z[3]+zz; }"},
 {0,"int g[9]={K1,2,3,K2,5,6,7,8,9}; struct { char k; int*p; void*q[3]; const char*s; } t={K2,g+2,{&g[4],(char*)g+5,&t.s},\"text\"+1}; static struct { int a; int*b; } u[2]={{K1,&g[8]},{2,&u[0].a}}; long long run(long long a,long long b){ t.p[1]=b; *u[1].b+=a; return *t.p+*(int*)t.q[0]+*(char*)t.q[1]+(t.q[2]==(void*)&t.s)*100+t.s[1]+*u[0].b+u[0].a+u[1].a+t.k; }"},
 {0,"static long long f1(long long x){return x+K1;} long long f2(long long x){return f1(x)*3;} static long long f3(long long x); long long (*tab[4])(long long)={f1,f2,f3,0}; struct s { long long (*f)(long long); int k; }; static const struct s st[2]={{f3,K2},{f1,2}}; long long run(long long a,long long b){ long long(*p)(long long)=f3; return tab[1](b)+tab[0](a)*5+st[1].f(a)*st[1].k+st[0].f(b)*st[0].k+p(a)+(tab[2]==p)+(tab[3]==0); } static long long f3(long long x){return x^f2(x);}"},
 {0,"int sw(int x){ switch(x){ case 0: return K1; case 1: return 5; case 2: case 3: return 9; case 100 ... 200: return K2; case -4: return 1; case 7: return 12; case 8: return 13; case 9: return 14; case 10: return 15; default: return x; } } long long run(long long a,long long b){ static void*const l[]={&&x,&&y,&&z}; long long r=sw(a)*7+sw(5)+b; int n=3; while(n--){ goto *l[n]; x: r+=K1; continue; y: r^=K2; continue; z: r*=3; } return r; }"},
 {0,"float f=1.5f; double d[2]={-2.25,1e10}; long double ld=3.5L; static const float*const pf=&f; long long run(long long a,long long b){ double x=(int)a; x=x*d[0]+d[1]; float y=(int)b; y=y**pf-7.125f; long double w=(short)a; w=w*ld+0.5L; union { double d; long long l; } u={x}; union { float f; int i; } v={y}; return u.l+v.i+(long long)w+(d[1]>x)+(y!=f); }"},
 {0,"int al1 __attribute__((aligned(64)))=K1; char c1=1; struct { char a; long long b __attribute__((aligned(32))); } al2={K2,K1}; char c2; double al3[3] __attribute__((aligned(128))); int s __attribute__((section(\".mine\")))=K2; int s2 __attribute__((section(\".mine\")))=3; long long run(long long a,long long b){ s+=a; s2^=b; al3[1]=1; c2=b; return ((unsigned long)&al1&63)+((unsigned long)&al2&31)*3+((unsigned long)al3&127)*5+al1+al2.a+al2.b+s*2+s2*3+c1+c2+(al3[0]>0)+(al3[1]>0)*2; }"},
 {0,"static int ctr(int k){ static int n=K1; static int*p=&n; static struct { int a[2]; const char*s; } t={{1,K2},\"abc\"}; *p+=k; t.a[0]+=n; return t.a[0]+t.a[1]+t.s[1]; } static int other(void){ static int n=K2; return n++; } long long run(long long a,long long b){ long long r=ctr(a); r=r*3+ctr(b); r=r*3+ctr(1); return r+other()*5+other(); }"},
 {0,"int st1=K1; extern int al1 __attribute__((alias(\"st1\"))); int wf(int x) __attribute__((weak)); int wf(int x){return x+K2;} int af(int x) __attribute__((alias(\"wf\"))); extern int miss(int) __attribute__((weak)); extern int missv __attribute__((weak)); int (*pm)(int)=miss; int*pv=&missv; long long run(long long a,long long b){ al1+=a; return st1+wf(b)*3+af(a)*5+(miss==0)+(pm==0)*2+(&missv==0)*4+(pv==0)*8; }"},
 {0,"extern int late[]; int get(int k){return late[k];} int tent; int tent; extern int later; int late[3]={K1,2,K2}; static int sf(void); int tent; long long run(long long a,long long b){ int r; tent+=a; later=b; r=get(1)+late[2]+tent+later*3; return r+sf(); } int later=K2; static int sf(void){ return later^tent; }"},
 {0,"inline static int in1(int x){return x*3+K1;} static inline int in2(int x){return in1(x)-K2;} int (*pi)(int)=in2; long long run(long long a,long long b){ return in1(a)+pi(b)+in2(a^b); }"},
 {0,"struct b { unsigned a:5; int b:11; long long c:40; unsigned char d:3; } bf={K1,K2,K1,K2}; union u { char c[8]; int i; double d; } un[2]={{.i=K1},{.c={1,K2,3}}}; struct fl { int n; short v[]; } fl={3,{K1,K2,7}}; int*cl=(int[]){K1,2,K2}; int*w=(int*)L\"wide\"; const char*const str[]={\"a\",\"bc\",\"\",\"def\"}; char m[2][3]={\"ab\",{K1,'x'}}; long long run(long long a,long long b){ bf.b+=a; un[1].c[3]=b; return bf.a+bf.b*3+bf.c*5+bf.d*7+un[0].i+un[1].i+fl.v[0]+fl.v[1]+fl.v[2]+cl[0]+cl[2]+w[2]+str[1][1]+str[3][1]+m[0][1]+m[1][0]+m[1][1]; }"},
 {0,"struct s { long long a; int b; char c; }; struct s mk(long long a,int b){ struct s s={a+K1,b,K2}; return s; } struct big { int v[10]; }; struct big mb(int a){ struct big b={{a,K1,[9]=K2}}; return b; } static long long use(struct s s,struct big b,struct s*p){ return s.a+s.b+s.c+b.v[0]+b.v[1]+b.v[9]+p->b; } long long run(long long a,long long b){ struct s s=mk(a,b),t; t=s; t.b=7; return use(t,mb(b),&s); }"},
 {1,"#include_va\nlong long sum(int n,...){ __builtin_va_list ap; __builtin_va_start(ap,n); long long r=0; for(int i=0;i<n;i++){ r=r*3+__builtin_va_arg(ap,long long); r+=(long long)__builtin_va_arg(ap,double); } __builtin_va_end(ap); return r; } long long run(long long a,long long b){ return sum(5,a,1.0,b,2.0,K1+0LL,3.5,K2+0LL,(double)(int)a,a,8.0); }"},
 {0,"asm(\".globl afun\\nafun: leaq (%rdi,%rsi,2),%rax\\n ret\\n.data\\n.globl adat\\nadat: .long 77,99\\n.quad adat+4\\n.text\\n\"); long long afun(long long,long long); extern int adat[4]; long long run(long long a,long long b){ long long r; asm(\"movq %1,%0\\n addq %2,%0\":\"=&r\"(r):\"r\"(a),\"r\"(b)); return r*3+afun(a,b)+adat[0]+**(int**)&adat[2]+K1+K2; }"},
 {0,"int big[3000]={[7]=K1,[2999]=K2}; char pad[5000]; int bb[2000]; int run2(int i){ return big[i%3000u]+pad[i%5000u]+bb[i%2000u]; } long long run(long long a,long long b){ pad[4999]=a; bb[1999]=b; return run2(7)+run2(2999)+run2(4999)*3+run2(1999)*5; }"},
 {0,"int vla(int n,int k){ int v[n+1]; for(int i=0;i<=n;i++) v[i]=i*k; int s=0; for(int i=0;i<=n;i++) s+=v[i]; return s+sizeof v; } int rec(int n,int k){ return n<=0?K1:rec(n-1,k+1)*3+k; } long long run(long long a,long long b){ return vla(5,a)+rec(6,b)+K2; }"},
};
#define NP (sizeof PR/sizeof*PR)
static char text[40000];
static void source(const char*t,int lib,L k1,L k2){ char*p=c_put(text,"#define K1 "); p=c_put(p,"((long long)"); p=c_bin(p,k1,"LL"); p=c_put(p,")\n#define K2 ((long long)"); p=c_bin(p,k2,"LL"); p=c_put(p,")\n"); if(lib){ p=c_put(p,"void abort(void){ for(;;); } void*memcpy(void*d,const void*s,unsigned long n){ char*a=d; const char*b=s; while(n--) *a++=*b++; return d; }\n"); p=c_put(p,rt_va_list); *p++='\n'; t+=12; } p=c_put(p,"void*memset(void*,int,unsigned long); void*memmove(void*,const void*,unsigned long);\n"); c_put(p,t); }
static const char HELP[]="void*memset(void*d,int c,unsigned long n){ char*a=d; while(n--) *a++=c; return d; } void*memmove(void*d,const void*s,unsigned long n){ char*a=d; const char*b=s; if(a<b) while(n--) *a++=*b++; else while(n--) a[n]=b[n]; return d; }";
static const char HELPC[]="void*memcpy(void*d,const void*s,unsigned long n){ char*a=d; const char*b=s; while(n--) *a++=*b++; return d; }";
typedef L (*run)(L,L);
static TCCState *object(const char*name){ TCCState*o=tcc_new(); tcc_set_error_func(o,0,c_err); tcc_set_options(o,"-nostdlib -nostdinc"); tcc_set_output_type(o,TCC_OUTPUT_OBJ); sx_assert(tcc_compile_string(o,text)==0,"a valid program compiles"); sx_assert(tcc_output_file(o,name)==0,"the object is written"); tcc_delete(o); return 0; }
#if MODE==0
void harness(void){ c_begin(); mfs_add("/work",MT_DIR,"",0); unsigned k=sx_choose(NP,"program"),w=sx_choose(3,"way"); L k1=sx_u64("constant"),k2=sx_u64("constant"); char nm[60]; c_num(c_put(nm,"program "),k); source(PR[k].text,PR[k].lib,k1,k2);
  // way: 0 the object alone, 1 after another module, 2 through two objects (the object linked again into an object)
  object("/work/p.o"); if(w==2){ TCCState*o=tcc_new(); tcc_set_error_func(o,0,c_err); tcc_set_options(o,"-nostdlib -nostdinc"); tcc_set_output_type(o,TCC_OUTPUT_OBJ); sx_assert(tcc_compile_string(o,"static int zzz[3]={1,2,3}; char zzc=5; static const double zzd=1; int*zzp=zzz+1;")==0,"a valid program compiles"); sx_assert(tcc_add_file(o,"/work/p.o")==0,"the object is loaded"); sx_assert(tcc_output_file(o,"/work/q.o")==0,"the object is written"); tcc_delete(o); }
  c_new(TCC_OUTPUT_MEMORY); TCCState*d=S; c_compile(HELP); if(!PR[k].lib) c_compile(HELPC); c_compile(text); c_load(); run rd=(run)c_sym("run");
  c_new(TCC_OUTPUT_MEMORY); if(w==1) c_compile("char zzc=5; static short zzs[3]={1,2,3}; int zzb; int zzf(int x){ return x+zzs[0]; } int*zzp=&zzb; double zzd(double x){ return x*1.25; }"); c_compile(HELP); if(!PR[k].lib) c_compile(HELPC); sx_assert(tcc_add_file(S,w==2?"/work/q.o":"/work/p.o")==0,"the object is loaded"); c_load(); run ro=(run)c_sym("run");
  sx_assert(c_nerr==0&&c_nwarn==0,"no diagnostics"); for(int i=0;i<2;i++){ L a=sx_u64("a"),b=sx_u64("b"); L x=rd(a,b),y=ro(a,b); if(sx_native()) sx_print(nm,a), sx_print("direct",x), sx_print("object",y); sx_assert(x==y,c_msgf(nm,"the result is the same through an object file")); }
  S=d; sx_cover("end"); }
#endif
#if MODE==1
void harness(void){ c_begin(); mfs_add("/work",MT_DIR,"",0); c_put(text,"int x=5; int run(void){return x;}"); object("/work/p.o"); mnode*o=mfs_find("/work/p.o"); static const unsigned char at[]={0,1,2,3,4,5,16,17,18,19}; int k=at[sx_choose(sizeof at,"place")]; unsigned char b=sx_u8("byte"); sx_assume(b!=o->data[k]); if(k==16) sx_assume(b!=3); /* a shared library goes to the dynamic linker */ o->data[k]=b; const char*f="/work/p.o";
  if(sx_choose(2,"in an archive")){ static unsigned char ar[9000]; char*p=c_put((char*)ar,"!<arch>\n"); char*q=c_put(p,"p.o/"); while(q<p+48) *q++=' '; q=c_num(q,o->size); while(q<p+58) *q++=' '; *q++='`'; *q++='\n'; memcpy(q,o->data,o->size); mfs_add("/work/lib.a",MT_FILE,ar,q+o->size-(char*)ar); f="/work/lib.a"; }
  c_new(TCC_OUTPUT_MEMORY); int r=tcc_add_file(S,f); if(f[6]=='p') sx_assert(r!=0&&c_nerr>0,"a file that is no object of this machine is refused"); else if(r==0) sx_assert(tcc_get_symbol(S,"run")==0,"a member that is no object of this machine is not linked"); sx_cover(f[6]=='p'?"file":"archive"); }
#endif
