// symx: symbolic executor for LLVM bitcode. One OS process per path, memory copy-on-write through fork().
#include "ir.hpp"
#include "solver.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <set>
#include <malloc.h>
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
// ------------------------------------------------------------------ shared state
enum { NINC=24 };
struct Shared {
  volatile int tokens; volatile int stop; SolverStats ss;
  u64 paths, ended, forks, insts, fails, incomplete, crashes, asserts, assertq; u64 maxrss;
  struct { char why[96]; u64 n; } inc[NINC];
  struct { char name[64]; u64 n; } cov[256]; int ncov;
  struct { u64 key; u64 n; } fail[512]; int nfail;
  volatile int lock;
  u8 fhit[1<<16]; u64 nwit, wstride, wseen;
};
static Shared *S; static int outfd=-1; static bool myconc=false; static std::vector<pid_t> kids; static double deadline; static u64 maxIteR=320,maxIteW=40,maxFork=300;
static void lock(){ while(__sync_lock_test_and_set(&S->lock,1)) usleep(50); } static void unlock(){ __sync_lock_release(&S->lock); }
static u64 insts=0, instLimit=400000000ULL; static int instErr=0; static int heapFill=0xA5;
static void noteInc(const char*why){ lock(); S->incomplete++; int i; for(i=0;i<NINC&&S->inc[i].n;i++) if(!strncmp(S->inc[i].why,why,95)) break; if(i<NINC){ strncpy(S->inc[i].why,why,95); S->inc[i].n++; } unlock(); }
[[noreturn]] static void endPath(){
  __sync_fetch_and_add(&S->insts,insts); __sync_fetch_and_add(&S->ended,1);
  if(myconc) __sync_fetch_and_add(&S->tokens,1);
  _exit(0); }
[[noreturn]] static void giveUp(const char*why){ noteInc(why); endPath(); }
static void reap(){ for(size_t i=0;i<kids.size();){ int st; pid_t r=waitpid(kids[i],&st,WNOHANG); if(r==kids[i]||r<0){ if(r>0&&WIFSIGNALED(st)){ __sync_fetch_and_add(&S->crashes,1); __sync_fetch_and_add(&S->tokens,1);} kids.erase(kids.begin()+i);} else i++; } }
static int witfd=-1; static u64 witMax=12;
// record a model of a path that ran to its end, or reached a cover point, for native validation
static void witness(const char*cover){
  if(witfd<0) return; u64 k=__sync_fetch_and_add(&S->wseen,1); if(!cover&&k>=4&&(k&(k-1))) return; if(!cover&&__sync_fetch_and_add(&S->nwit,1)>=witMax) return;
  std::string o="{\"cover\":"; if(cover){ o+='"'; o+=cover; o+='"'; } else o+="null"; o+=",\"inputs\":"+dumpModel()+"}\n"; if(write(witfd,o.data(),o.size())<0){} }
static bool doFork(){ // true in the child
  if(S->stop) { noteInc("time budget: branch not explored"); return false; }
  if(kids.size()>16) reap();
  bool conc=false; int t=S->tokens; while(t>0){ if(__sync_bool_compare_and_swap(&S->tokens,t,t-1)){ conc=true; break; } t=S->tokens; }
  __sync_fetch_and_add(&S->forks,1);
  pid_t p=fork();
  if(p==0){ myconc=conc; kids.clear(); insts=0; __sync_fetch_and_add(&S->paths,1); return true; }
  if(p<0){ if(conc) __sync_fetch_and_add(&S->tokens,1); noteInc("fork failed"); return false; }
  if(conc) kids.push_back(p); else { int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(WIFSIGNALED(st)) __sync_fetch_and_add(&S->crashes,1); }
  return false; }
// ------------------------------------------------------------------ frames
struct Frame { Func*f; u32 pc; Val*R; u64 sp0; int hook; u64 harg; const CallSite*cs; u64 va_reg,va_ovf; u32 gp,fp; u64 uid; };
enum { H_NONE=0, H_X86RET, H_NATIVERET };
static Val *vstack; static std::vector<Frame> fr; static u64 nextuid=1; static u64 stk_top;
struct JB { u64 uid; u32 depth, pc; int dst; }; static std::vector<JB> jbs;
static std::string locStr(bool full){
  std::string s; int n=0; for(size_t i=fr.size();i-->0&&n<(full?14:3);n++){ Frame&F=fr[i]; u32 pc=F.pc?F.pc-1:0; if(i+1==fr.size()) pc=F.pc; u32 ln=pc<F.f->lines.size()?F.f->lines[pc]:0; char b[32]; snprintf(b,sizeof b,":%u",ln); if(n) s+=" < "; s+=F.f->name+b; } return s; }
static void jstr(std::string&o,const std::string&s){ o+='"'; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else o+=c; } o+='"'; }
static void report(const char*kind,const std::string&msg){ // current model satisfies the path
  std::string loc=locStr(false); u64 key=1469598103934665603ULL; std::string ks=std::string(kind)+"|"+ (strcmp(kind,"assert")==0? msg: msg.substr(0,24)+loc); for(char c:ks){ key^=(u8)c; key*=1099511628211ULL; }
  lock(); S->fails++; int i; for(i=0;i<S->nfail;i++) if(S->fail[i].key==key) break; bool emit=false; if(i<512){ if(i==S->nfail){ S->nfail++; S->fail[i].key=key; } S->fail[i].n++; emit=S->fail[i].n<=3; } unlock();
  if(!emit) return;
  std::string o="{\"kind\":"; jstr(o,kind); o+=",\"msg\":"; jstr(o,msg); o+=",\"where\":"; jstr(o,locStr(true)); o+=",\"inputs\":"+dumpModel()+"}\n";
  if(write(outfd,o.data(),o.size())<0){} 
  if(getenv("SX_DEBUG")) fprintf(stderr,"%s",o.c_str());
}
[[noreturn]] static void failPath(const char*kind,const std::string&msg){ report(kind,msg); endPath(); }
// ------------------------------------------------------------------ branching
static void take(Expr*c){ addConstraint(c); }
static bool branchE(Expr*c){
  if(isc(c)) return c->k!=0;
  bool v=evalE(c)!=0; Expr*oth=v?mknot(c):c; Model m; Res r=solve(oth,&m);
  if(r==R_SAT){ if(doFork()){ setModel(m); take(oth); return !v; } take(v?c:mknot(c)); }
  else if(r==R_UNKNOWN) { noteInc("solver gave up on a branch"); take(v?c:mknot(c)); }
  return v; }
static u64 concretize(Expr*e){
  u64 tries=0;
  for(;;){ u64 v=(u64)evalE(e); Expr*eq=mk2(E_EQ,e,mkc(v,e->w)); if(isc(eq)) return v; Model m; Res r=solve(mknot(eq),&m);
    if(r==R_SAT){ if(++tries>maxFork){ noteInc("too many values for one expression"); take(eq); return v; } 
      if(doFork()){ setModel(m); take(mknot(eq)); continue; } take(eq); return v; }
    if(r==R_UNKNOWN) noteInc("solver gave up on a value"); 
    if(r!=R_UNSAT) take(eq); 
    return v; } }
static inline u64 conc(const Val&x){ return x.e? (isc(x.e)?(u64)x.e->k:concretize(x.e)) : x.v; }
static inline Expr *toE(const Val&x,unsigned w){ if(x.e){ return x.e; } return mkc(x.v,w); }
static inline Val fromE(Expr*e){ if(e->op==E_CONST&&e->w<=64) return {(u64)e->k,nullptr}; return {0,e}; }
// ------------------------------------------------------------------ memory
static u64 glob_top=MEM+4096, stack_base=MEM+(256ull<<20); u64 heap_top=MEM+(384ull<<20);
static const u64 STACK_END=MEM+(384ull<<20), HEAP_END=MEM+MEMSZ-4096;
u64 galloc(u64 size,u64 align,bool ro){ glob_top=(glob_top+align-1)&~(align-1); u64 p=glob_top; glob_top+=((size+15)&~15ull)+32; if(glob_top>stack_base){ fprintf(stderr,"globals overflow\n"); exit(2);} memset(sh(p),ro?SH_R:SH_R|SH_W,size); return p; }
static const u64 HM=0x4865617048656170ULL;
static u64 hmalloc(u64 n){ u64 p=(heap_top+32+15)&~15ull; if(p+n+64>HEAP_END||n>HEAP_END-MEM) return 0; heap_top=p+n+16; *(u64*)(p-16)=n; *(u64*)(p-8)=HM; memset((void*)p,heapFill,n); memset(sh(p),SH_R|SH_W,n); return p; }
static u64 hsize(u64 p){ if(!inarena(p)||p<MEM+4096||(p&15)||*(u64*)(p-8)!=HM||*sh(p-1)!=0) return ~0ull; return *(u64*)(p-16); }
static const char*memKind(u64 p){ if(p<4096) return "null-deref"; if(!inarena(p)) return "wild-pointer"; u8 s=*sh(p); if(s&SH_FREED) return "use-after-free"; if(s&SH_R) return "write-to-readonly"; return "out-of-bounds"; }
[[noreturn]] static void memErr(u64 p,u64 n,bool wr){ char b[128]; snprintf(b,sizeof b,"%s %s of %llu bytes",memKind(p),wr?"write":"read",(unsigned long long)n); if(getenv("SX_DEBUG")) fprintf(stderr,"addr %llx\n",(unsigned long long)p); failPath("memory",b); }
static inline void checkR(u64 p,u64 n){ for(u64 i=0;i<n;i++) if(!inarena(p+i)||!(*sh(p+i)&SH_R)||(*sh(p+i)&SH_FREED)) memErr(p+i,n,false); }
static inline void checkW(u64 p,u64 n){ for(u64 i=0;i<n;i++) if(!inarena(p+i)||(*sh(p+i)&(SH_R|SH_W))!=(SH_R|SH_W)||(*sh(p+i)&SH_FREED)) memErr(p+i,n,true); }
static Expr *loadE(u64 p,unsigned n){ // bytes already checked
  if(*sh(p)&SH_SYM){ Expr*e0=*st(p); if(e0->op==E_EXTRACT&&e0->lo==0&&e0->a->w==n*8&&e0->a->bytes){ Expr*E=e0->a; bool ok=true; for(unsigned i=0;i<n&&ok;i++) ok=(*sh(p+i)&SH_SYM)&&*st(p+i)==E->bytes[i]; if(ok) return E; } }
  Expr*r=nullptr; for(unsigned i=0;i<n;){
    Expr*b; if(*sh(p+i)&SH_SYM){ b=*st(p+i); i++; } else { unsigned j=i; u128 v=0; while(j<n&&!(*sh(p+j)&SH_SYM)){ v|=(u128)*(u8*)(p+j)<<(8*(j-i)); j++; } b=mkc(v,8*(j-i)); i=j; }
    r=r?mkconcat(b,r):b; }
  return r; }
static inline Val loadC(u64 p,unsigned w){
  unsigned n=(w+7)>>3;
  if(__builtin_expect(n<=8&&inarena(p),1)){
    u64 s; memcpy(&s,sh(p),8); u64 m=n==8?~0ull:((1ull<<(8*n))-1); 
    if(__builtin_expect(((s&0x0d0d0d0d0d0d0d0dULL)&m)==(0x0101010101010101ULL&m),1)){ u64 v; memcpy(&v,(void*)p,8); v&=m; if(w&7) v&=mask64(w); return {v,nullptr}; } }
  checkR(p,n); Expr*e=loadE(p,n); if(e->w>w) e=mktrunc(e,w); return fromE(e); }
static void storeE(u64 p,Expr*e){ // permissions checked; width multiple of 8
  unsigned n=e->w/8;
  if(e->op==E_CONST){ for(unsigned i=0;i<n;i++){ *(u8*)(p+i)=(u8)(e->k>>(8*i)); *sh(p+i)=SH_R|SH_W; } return; }
  if(n==1){ *st(p)=e; *sh(p)=SH_R|SH_W|SH_SYM; return; }
  if(!e->bytes){ e->bytes=(Expr**)X.alloc(sizeof(Expr*)*n); for(unsigned i=0;i<n;i++) e->bytes[i]=mkextract(e,8*i,8); }
  for(unsigned i=0;i<n;i++){ Expr*b=e->bytes[i]; if(b->op==E_CONST){ *(u8*)(p+i)=(u8)b->k; *sh(p+i)=SH_R|SH_W; } else { *st(p+i)=b; *sh(p+i)=SH_R|SH_W|SH_SYM; } } }
static inline void storeC(u64 p,const Val&x,unsigned w){
  unsigned n=(w+7)>>3;
  if(__builtin_expect(!x.e&&inarena(p),1)){
    u64 s; memcpy(&s,sh(p),8); u64 m=n==8?~0ull:((1ull<<(8*n))-1);
    if(__builtin_expect(((s&0x0b0b0b0b0b0b0b0bULL)&m)==(0x0303030303030303ULL&m),1)){
      switch(n){ case 1:*(u8*)p=x.v;break; case 2:*(uint16_t*)p=x.v;break; case 4:*(u32*)p=x.v;break; case 8:*(u64*)p=x.v;break; default: memcpy((void*)p,&x.v,n); }
      if(__builtin_expect((s&m)&0x0404040404040404ULL,0)) memset(sh(p),SH_R|SH_W,n); return; } }
  checkW(p,n); Expr*e=toE(x,w); if(e->w!=n*8) e=mkzext(e,n*8); storeE(p,e); }
// object extent around p by permission scan
static void extent(u64 p,u64&lo,u64&hi){ lo=p; while(inarena(lo-1)&&(*sh(lo-1)&SH_R)&&!(*sh(lo-1)&SH_FREED)&&p-lo<(4u<<20)) lo--; hi=p; while(inarena(hi)&&(*sh(hi)&SH_R)&&!(*sh(hi)&SH_FREED)&&hi-p<(4u<<20)) hi++; }
extern unsigned knownTZ(Expr*);
static bool feasible(Expr*c){ Res r=solve(c,nullptr); if(r==R_UNKNOWN) noteInc("solver gave up on a bound"); return r!=R_UNSAT; }
// resolve a symbolic address; returns candidate offsets
static u64 resolve(Expr*a,unsigned n,bool wr,Expr*&off,u64&mn,u64&mx,u64&al,u64 maxIte){
  for(;;){
    u64 v=(u64)evalE(a);
    if(!inarena(v)||!(*sh(v)&SH_R)||(*sh(v)&SH_FREED)||(wr&&!(*sh(v)&SH_W))) memErr(v,n,wr);
    u64 lo,hi; extent(v,lo,hi); if(v+n>hi) memErr(hi,n,wr);
    Expr*o=mk2(E_SUB,a,mkc(lo,64)); Expr*inb=mk2(E_ULE,o,mkc(hi-lo-n,64)); Model m; Res r=isc(inb)?R_UNSAT:solve(mknot(inb),&m);
    if(r==R_SAT){ if(doFork()){ setModel(m); take(mknot(inb)); continue; } take(inb); }
    else if(r==R_UNKNOWN){ noteInc("solver gave up on an address"); take(inb); }
    off=o; al=1ull<<std::min(12u,knownTZ(o)); mn=0; mx=hi-lo-n;
    if((mx-mn)/al+1>16){ // narrow by queries
      u64 cv=(u64)evalE(o); u64 L=0,H=cv; while(L<H){ u64 mid=L+(H-L)/2; if(feasible(mk2(E_ULE,o,mkc(mid,64)))) H=mid; else L=mid+1; } mn=L;
      L=cv;H=mx; while(L<H){ u64 mid=L+(H-L+1)/2; if(feasible(mk2(E_ULE,mkc(mid,64),o))) L=mid; else H=mid-1; } mx=L; }
    u64 a0=mn&(al-1); mn-=a0; // offsets are multiples of al
    if((mx-mn)/al+1>maxIte) return 0; // caller concretises
    return lo; } }
static Expr *mux(Expr*off,u64 base,u64 lo,u64 hi,u64 al,unsigned n){ if(lo==hi){ for(unsigned i=0;i<n;i++) if(!inarena(base+lo+i)||!(*sh(base+lo+i)&SH_R)) return mkc(0,n*8); return loadE(base+lo,n); } u64 cnt=(hi-lo)/al+1; u64 mid=lo+(cnt/2)*al; Expr*a=mux(off,base,lo,mid-al,al,n),*b=mux(off,base,mid,hi,al,n); return mkite(mk2(E_ULT,off,mkc(mid,off->w)),a,b); }
// a constant table that is affine over GF(2) (CRC tables are): encoded as an exclusive-or of per-bit terms
static Expr *lintab(Expr*off,u64 base,u64 mn,u64 mx,u64 al,unsigned n){ u64 cnt=(mx-mn)/al+1; if(cnt<8||(cnt&(cnt-1))||n<2||n>8||mn!=0) return nullptr; unsigned k=__builtin_ctzll(cnt),sh_=__builtin_ctzll(al);
  std::vector<u64> T(cnt); for(u64 i=0;i<cnt;i++) for(unsigned j=0;j<n;j++){ u64 p=base+i*al+j; if(!inarena(p)||(*sh(p)&(SH_R|SH_SYM))!=SH_R) return nullptr; T[i]|=(u64)*(u8*)p<<(8*j); }
  for(u64 i=1;i<cnt;i++){ u64 b=i&-i; if((i^b)&&(T[i]^T[0])!=((T[b]^T[0])^(T[i^b]^T[0]))) return nullptr; }
  Expr*e=mkc(T[0],n*8); for(unsigned b=0;b<k;b++) e=mk2(E_XOR,e,mkite(mkextract(off,sh_+b,1),mkc(T[1ull<<b]^T[0],n*8),mkc(0,n*8))); return e; }
static Val loadV(const Val&p,unsigned w){
  if(!p.e||isc(p.e)) return loadC(p.e?(u64)p.e->k:p.v,w);
  unsigned n=(w+7)>>3; Expr*off; u64 mn,mx,al; u64 base=resolve(p.e,n,false,off,mn,mx,al,maxIteR);
  if(!base) return loadC(concretize(p.e),w);
  mx=mn+((mx-mn)/al)*al;
  if(Expr*l=lintab(off,base,mn,mx,al,n)) return fromE(l->w>w?mktrunc(l,w):l);
  Expr*e=mux(off,base,mn,mx,al,n); if(e->w>w) e=mktrunc(e,w); return fromE(e); }
static void storeV(const Val&p,const Val&x,unsigned w){
  if(!p.e||isc(p.e)){ storeC(p.e?(u64)p.e->k:p.v,x,w); return; }
  unsigned n=(w+7)>>3; Expr*off; u64 mn,mx,al; u64 base=resolve(p.e,n,true,off,mn,mx,al,maxIteW);
  if(!base){ storeC(concretize(p.e),x,w); return; }
  Expr*e=toE(x,w); if(e->w!=n*8) e=mkzext(e,n*8);
  for(u64 o=mn;o<=mx;o+=al){ Expr*c=mk2(E_EQ,off,mkc(o,64)); if(isz(c)) continue; Expr*old=loadE(base+o,n); storeE(base+o,mkite(c,e,old)); } }
static u64 stackAlloc(u64 n,u64 align){ if(align<16) align=16; u64 p=(stk_top+16+align-1)&~(align-1); stk_top=p+n; if(stk_top+64>STACK_END) failPath("memory","stack overflow"); memset(sh(p),SH_R|SH_W,n); memset((void*)p,heapFill,n); return p; }
static void copyMem(u64 d,u64 s,u64 n){ checkR(s,n); checkW(d,n);
  if(n==0) return; bool sym=memchr(sh(s),7,n)||memchr(sh(s),5,n)||memchr(sh(d),7,n);
  if(!sym){ memmove((void*)d,(void*)s,n); return; }
  std::vector<Expr*> t(n,nullptr); std::vector<u8> v(n); for(u64 i=0;i<n;i++){ if(*sh(s+i)&SH_SYM) t[i]=*st(s+i); v[i]=*(u8*)(s+i); }
  for(u64 i=0;i<n;i++){ if(t[i]){ *st(d+i)=t[i]; *sh(d+i)=SH_R|SH_W|SH_SYM; } else { *(u8*)(d+i)=v[i]; *sh(d+i)=SH_R|SH_W; } } }
// concrete C string length, -1 when a symbolic byte comes first
static i64 cstrlen(u64 p,u64 max=~0ull){ u64 i=0; for(;i<max;i++){ if(!inarena(p+i)||!(*sh(p+i)&SH_R)||(*sh(p+i)&SH_FREED)) memErr(p+i,1,false); if(*sh(p+i)&SH_SYM) return -1; if(!*(u8*)(p+i)) break; } return i; }
static std::string cstr(u64 p){ std::string s; for(u64 i=0;;i++){ checkR(p+i,1); if(*sh(p+i)&SH_SYM) giveUp("symbolic text where a concrete string is needed"); u8 c=*(u8*)(p+i); if(!c) break; s+=(char)c; } return s; }
// ------------------------------------------------------------------ builtins
enum { B_NONE=-1, B_malloc,B_calloc,B_realloc,B_free,B_memcpy,B_memset,B_strlen,B_strcmp,B_strncmp,B_memcmp,B_strchr,B_strrchr,B_strcpy,B_strncpy,B_memchr,B_setjmp,B_longjmp,B_abort,B_strtold,B_strtod,B_strtof,B_ldexpl,B_ldexp,B_fmtd,
  B_sym,B_u64,B_u32,B_u16,B_u8,B_bits,B_choose,B_assume,B_assert,B_cover,B_conc,B_issym,B_end,B_fail,B_print,B_heapfill,B_instlimit,B_native,B_readable,B_objsize,B_fnptr,B_giveup,B_unsup,B_natcall,B_mulhu,B_mulhs,
  B_vastart,B_vaend,B_vacopy,B_stacksave,B_stackrestore,B_trap,B_ctlz,B_cttz,B_ctpop,B_bswap,B_fabs,B_fshl,B_fshr,B_umin,B_umax,B_smin,B_smax,B_abs,B_uaddo,B_umulo,B_usubo,B_saddo,B_ssubo,B_smulo,B_objectsize,B_isconst,B_sqrt,B_ite32,B_strtonum,B_allocfail,B_nullok,B_frameaddr,B_lim,B_usat,B_fneg,B_ptrmask };
static const struct{const char*n;int id;} btab[]={ {"malloc",B_malloc},{"calloc",B_calloc},{"realloc",B_realloc},{"free",B_free},{"memcpy",B_memcpy},{"memmove",B_memcpy},{"memset",B_memset},{"strlen",B_strlen},{"strcmp",B_strcmp},{"strncmp",B_strncmp},{"memcmp",B_memcmp},{"strchr",B_strchr},{"strrchr",B_strrchr},{"strcpy",B_strcpy},{"memchr",B_memchr},
 {"_setjmp",B_setjmp},{"setjmp",B_setjmp},{"__sigsetjmp",B_setjmp},{"longjmp",B_longjmp},{"_longjmp",B_longjmp},{"abort",B_abort},{"sx_host_strtold",B_strtold},{"sx_host_strtod",B_strtod},{"sx_host_strtof",B_strtof},{"sx_host_ldexpl",B_ldexpl},{"sx_host_ldexp",B_ldexp},{"sx_host_fmt_double",B_fmtd},
 {"sx_symbolic",B_sym},{"sx_u64",B_u64},{"sx_u32",B_u32},{"sx_u16",B_u16},{"sx_u8",B_u8},{"sx_bits",B_bits},{"sx_choose",B_choose},{"sx_assume",B_assume},{"sx_assert",B_assert},{"sx_cover",B_cover},{"sx_conc",B_conc},{"sx_is_symbolic",B_issym},{"sx_end",B_end},{"sx_fail",B_fail},{"sx_print",B_print},{"sx_heapfill",B_heapfill},{"sx_instlimit",B_instlimit},{"sx_native",B_native},{"sx_readable",B_readable},{"sx_objsize",B_objsize},{"sx_fnptr",B_fnptr},{"sx_giveup",B_giveup},{"sx_unsupported",B_unsup},{"sx_native_call",B_natcall},{"sx_mulhu",B_mulhu},{"sx_mulhs",B_mulhs},{"sx_ite32",B_ite32},{"sx_limits",B_lim} };
int builtinId(const std::string&n){
  for(auto&b:btab) if(n==b.n) return b.id;
  if(n.compare(0,5,"llvm.")==0){ auto st=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
    if(st("llvm.memcpy")||st("llvm.memmove")) return B_memcpy; if(st("llvm.memset")) return B_memset; if(st("llvm.va_start")) return B_vastart; if(st("llvm.va_end")) return B_vaend; if(st("llvm.va_copy")) return B_vacopy; if(st("llvm.stacksave")) return B_stacksave; if(st("llvm.stackrestore")) return B_stackrestore; if(st("llvm.trap")||st("llvm.ubsantrap")) return B_trap; if(st("llvm.ctlz")) return B_ctlz; if(st("llvm.cttz")) return B_cttz; if(st("llvm.ctpop")) return B_ctpop; if(st("llvm.bswap")) return B_bswap; if(st("llvm.fabs")) return B_fabs; if(st("llvm.fshl")) return B_fshl; if(st("llvm.fshr")) return B_fshr; if(st("llvm.umin")) return B_umin; if(st("llvm.umax")) return B_umax; if(st("llvm.smin")) return B_smin; if(st("llvm.smax")) return B_smax; if(st("llvm.abs.")) return B_abs; if(st("llvm.uadd.with")) return B_uaddo; if(st("llvm.umul.with")) return B_umulo; if(st("llvm.usub.with")) return B_usubo; if(st("llvm.sadd.with")) return B_saddo; if(st("llvm.ssub.with")) return B_ssubo; if(st("llvm.smul.with")) return B_smulo; if(st("llvm.objectsize")) return B_objectsize; if(st("llvm.is.constant")) return B_isconst; if(st("llvm.sqrt")) return B_sqrt; if(st("llvm.frameaddress")||st("llvm.returnaddress")) return B_frameaddr; if(st("llvm.usub.sat")) return B_usat; if(st("llvm.ptrmask")) return B_ptrmask; }
  return -1; }
static int nchoose=0;
static u64 rndst=0x243F6A8885A308D3ULL;
static u64 rnd(){ u64 z=(rndst+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
// a new unknown starts with a varied (deterministic) value in the current model
static Expr *newVar(const std::string&n,unsigned w,u64 mod=0){ size_t k=varinfo.size(); Expr*e=mkvar(n,w); if(varinfo.size()>k){ if(cur.v.size()<varinfo.size()) cur.v.resize(varinfo.size(),0); u64 r=rnd(),v; if(mod) v=r%mod; else { switch(r>>61){ case 0: v=0; break; case 1: v=rnd()&255; break; case 2: v=~0ull; break; case 3: v=1ull<<(rnd()%w); break; default: v=rnd(); } if(w==8&&(r&1)) v=32+rnd()%95; } cur.v[k]=v&mask64(w); curgen++; } return e; }
static Val freshVar(const std::string&n,unsigned w){ return {0,newVar(n,w)}; }
static void pushCall(Func*f,const Val*args,size_t na,int hook,u64 harg,const CallSite*cs,const std::vector<uint16_t>*vaw=nullptr,const std::vector<u32>*vab=nullptr,u64 vareg=0,u64 vaovf=0,u32 gp=48,u32 fp=176);
static int doBuiltin(int id,Val*A,int na,const CallSite*cs,Val*ret,int&nret); // 1 done, 0 fall back, 2 control transferred
static Val cload(u64 p,unsigned w){ return loadC(p,w); }
static int doBuiltin(int id,Val*A,int na,const CallSite*cs,Val*ret,int&nret){
  nret=1; auto c=[&](int i){ Val v=A[i]; u64 r=conc(v); A[i]={r,nullptr}; return r; }; auto W=[&](int i){ return cs&&i<(int)cs->argw.size()?cs->argw[i]:64; };
  switch(id){
  case B_malloc: { u64 n=c(0); u64 p=hmalloc(n); ret[0]={p,0}; return 1; }
  case B_calloc: { u64 n=c(0),m=c(1); u128 t=(u128)n*m; u64 p=t>>40?0:hmalloc((u64)t); if(p) memset((void*)p,0,(u64)t); ret[0]={p,0}; return 1; }
  case B_realloc: { u64 p=c(0),n=c(1); if(!p){ ret[0]={hmalloc(n),0}; return 1; } u64 o=hsize(p); if(o==~0ull) failPath("memory","realloc of a pointer that is not a heap block"); if(*sh(p)&SH_FREED&&o) failPath("memory","realloc of freed memory"); u64 q=hmalloc(n); if(q){ copyMem(q,p,std::min(o,n)); memset(sh(p),SH_FREED,o); *(u64*)(p-8)=~HM; } ret[0]={q,0}; return 1; }
  case B_free: { u64 p=c(0); nret=0; if(!p) return 1; if(inarena(p)&&p>MEM+64&&*(u64*)(p-8)==~HM&&!(p&15)) failPath("memory","double free"); u64 o=hsize(p); if(o==~0ull) failPath("memory","free of a pointer that is not a heap block"); memset(sh(p),SH_FREED,o); *(u64*)(p-8)=~HM; return 1; }
  case B_memcpy: { u64 n=c(2); if(n==0){ ret[0]=A[0]; return 1; } u64 d=c(0),s=c(1); copyMem(d,s,n); ret[0]={d,0}; return 1; }
  case B_memset: { u64 n=c(2); if(n==0){ ret[0]=A[0]; return 1; } u64 d=c(0); checkW(d,n); Val b=A[1]; if(b.e){ Expr*e=b.e->w>8?mktrunc(b.e,8):b.e; for(u64 i=0;i<n;i++) storeE(d+i,e); } else { memset((void*)d,(int)b.v,n); memset(sh(d),SH_R|SH_W,n); } ret[0]={d,0}; return 1; }
  case B_strlen: { u64 p=c(0); i64 n=cstrlen(p); if(n<0) return 0; ret[0]={(u64)n,0}; return 1; }
  case B_strcmp: case B_strncmp: { u64 a=c(0),b=c(1),n=id==B_strncmp?c(2):~0ull; for(u64 i=0;i<n;i++){ checkR(a+i,1); checkR(b+i,1); if((*sh(a+i)|*sh(b+i))&SH_SYM) return 0; u8 x=*(u8*)(a+i),y=*(u8*)(b+i); if(x!=y){ ret[0]={(u64)(u32)((int)x-(int)y),0}; return 1; } if(!x) break; } ret[0]={0,0}; return 1; }
  case B_memcmp: { u64 a=c(0),b=c(1),n=c(2); checkR(a,n); checkR(b,n); for(u64 i=0;i<n;i++){ if((*sh(a+i)|*sh(b+i))&SH_SYM) return 0; int d=(int)*(u8*)(a+i)-(int)*(u8*)(b+i); if(d){ ret[0]={(u64)(u32)d,0}; return 1; } } ret[0]={0,0}; return 1; }
  case B_strchr: case B_strrchr: { if(A[1].e) return 0; u64 p=c(0); i64 n=cstrlen(p); if(n<0) return 0; char*r= id==B_strchr?strchr((char*)p,(int)A[1].v):strrchr((char*)p,(int)A[1].v); ret[0]={(u64)r,0}; return 1; }
  case B_memchr: { if(A[1].e) return 0; u64 p=c(0),n=c(2); for(u64 i=0;i<n;i++){ checkR(p+i,1); if(*sh(p+i)&SH_SYM) return 0; if(*(u8*)(p+i)==(u8)A[1].v){ ret[0]={p+i,0}; return 1; } } ret[0]={0,0}; return 1; }
  case B_strcpy: { u64 d=c(0),s=c(1); i64 n=cstrlen(s); if(n<0) return 0; copyMem(d,s,n+1); ret[0]={d,0}; return 1; }
  case B_setjmp: { u64 b=c(0); Frame&F=fr.back(); JB j{F.uid,(u32)fr.size(),F.pc,cs?cs->dst:-1}; jbs.push_back(j); checkW(b,8); *(u64*)b=jbs.size(); ret[0]={0,0}; return 1; }
  case B_longjmp: { u64 b=c(0),v=c(1); checkR(b,8); u64 k=*(u64*)b; if(k==0||k>jbs.size()) failPath("memory","longjmp with an invalid buffer"); JB j=jbs[k-1]; if(j.depth>fr.size()||fr[j.depth-1].uid!=j.uid) failPath("memory","longjmp to a dead frame");
      while(fr.size()>j.depth){ Frame&F=fr.back(); memset(sh(F.sp0),0,stk_top-F.sp0); stk_top=F.sp0; fr.pop_back(); } Frame&F=fr.back(); F.pc=j.pc; if(j.dst>=0) F.R[j.dst]={v?v:1,0}; return 2; }
  case B_abort: failPath("abort","abort() called");
  case B_trap: failPath("abort","trap");
  case B_strtold: case B_strtod: case B_strtof: { u64 p=c(0),e=c(1); std::string s=cstr(p); char*ep; if(id==B_strtold){ long double d=strtold(s.c_str(),&ep); u128 v=0; memcpy(&v,&d,10); ret[0]={(u64)v,mkc(v,80)}; } else if(id==B_strtod){ double d=strtod(s.c_str(),&ep); memcpy(&ret[0].v,&d,8); ret[0].e=0; } else { float d=strtof(s.c_str(),&ep); u32 x; memcpy(&x,&d,4); ret[0]={x,0}; } if(e) storeC(e,{p+(ep-s.c_str()),0},64); return 1; }
  case B_ldexpl: { u64 n=c(1); if(A[0].e&&!isc(A[0].e)) giveUp("symbolic ldexpl"); u128 v=A[0].e?A[0].e->k:0; long double d=0; memcpy(&d,&v,10); d=ldexpl(d,(int)n); v=0; memcpy(&v,&d,10); ret[0]={(u64)v,mkc(v,80)}; return 1; }
  case B_ldexp: { u64 v=c(0); double d; memcpy(&d,&v,8); d=ldexp(d,(int)c(1)); memcpy(&ret[0].v,&d,8); ret[0].e=0; return 1; }
  case B_fmtd: { u64 buf=c(0),n=c(1); std::string f=cstr(c(2)); u64 v=c(3); double d; memcpy(&d,&v,8); char t[512]; int k=snprintf(t,sizeof t,f.c_str(),d); if(k>=(int)n) k=n-1; checkW(buf,k+1); memcpy((void*)buf,t,k); *(char*)(buf+k)=0; memset(sh(buf),3,k+1); ret[0]={(u64)k,0}; return 1; }
  case B_sym: { u64 p=c(0),n=c(1); std::string s=cstr(c(2)); checkW(p,n); for(u64 i=0;i<n;i++){ char b[24]; snprintf(b,sizeof b,"[%llu]",(unsigned long long)i); storeE(p+i,newVar(s+b,8)); } nret=0; return 1; }
  case B_u64: ret[0]=freshVar(cstr(c(0)),64); return 1; case B_u32: ret[0]=freshVar(cstr(c(0)),32); return 1; case B_u16: ret[0]=freshVar(cstr(c(0)),16); return 1; case B_u8: ret[0]=freshVar(cstr(c(0)),8); return 1;
  case B_bits: { unsigned w=c(1); Expr*v=newVar(cstr(c(0)),w); ret[0]=fromE(mkzext(v,64)); return 1; }
  case B_choose: { u64 n=c(0); std::string s=cstr(c(1)); if(n==0) endPath(); Expr*v=newVar(s,32,n); u64 id=varinfo.size()-1,mine=cur.v[id]; // a fresh unknown: every value is feasible, no query needed
      for(u64 k=0;k<n;k++){ if(k==mine) continue; if(doFork()){ Model m=cur; m.v[id]=k; setModel(m); mine=k; break; } }
      take(mk2(E_EQ,v,mkc(mine,32))); ret[0]={mine,0}; return 1; }
  case B_assume: { nret=0; if(!A[0].e){ if(!(u32)A[0].v) endPath(); return 1; } Expr*t=mknot(mk2(E_EQ,A[0].e,mkc(0,A[0].e->w))); if(isc(t)){ if(!t->k) endPath(); return 1; } if(evalE(t)){ take(t); return 1; } Model m; Res r=solve(t,&m); if(r==R_UNSAT) endPath(); if(r==R_UNKNOWN) giveUp("solver gave up on an assumption"); setModel(m); take(t); return 1; }
  case B_assert: { nret=0; __sync_fetch_and_add(&S->asserts,1); std::string msg=cstr(c(1)); if(!A[0].e){ if(!(u32)A[0].v) failPath("assert",msg); return 1; }
      Expr*t=mknot(mk2(E_EQ,A[0].e,mkc(0,A[0].e->w))); if(isc(t)){ if(!t->k) failPath("assert",msg); return 1; }
      __sync_fetch_and_add(&S->assertq,1);
      Model m; g_inassert=true; Res r=solve(underPath(mknot(t),pathc),&m); g_inassert=false; if(r==R_UNSAT) return 1; if(r==R_UNKNOWN){ std::string w="solver gave up on assertion: "+msg; noteInc(w.c_str()); if(!evalE(t)) endPath(); take(t); return 1; }
      Model keep=cur; setModel(m); report("assert",msg); setModel(keep);
      if(evalE(t)){ take(t); return 1; } r=solve(t,&m); if(r!=R_SAT) endPath(); setModel(m); take(t); return 1; }
  case B_cover: { nret=0; std::string s=cstr(c(0)); lock(); int i; for(i=0;i<S->ncov;i++) if(!strncmp(S->cov[i].name,s.c_str(),63)) break; bool nw=false; if(i==S->ncov&&i<256){ strncpy(S->cov[i].name,s.c_str(),63); S->ncov++; nw=true; } if(i<256) S->cov[i].n++; unlock(); if(nw) witness(s.c_str()); return 1; }
  case B_conc: { ret[0]={conc(A[0]),0}; return 1; }
  case B_issym: ret[0]={A[0].e&&!isc(A[0].e),0}; return 1;
  case B_end: witness(nullptr); endPath();
  case B_fail: failPath("assert",cstr(c(0)));
  case B_print: { nret=0; std::string s=cstr(c(0)); if(A[1].e) fprintf(stderr,"[%d] %s %s\n",getpid(),s.c_str(),exprStr(A[1].e,8).c_str()); else fprintf(stderr,"[%d] %s 0x%llx (%lld)\n",getpid(),s.c_str(),(unsigned long long)A[1].v,(long long)A[1].v); return 1; }
  case B_heapfill: heapFill=(int)c(0)&255; nret=0; return 1;
  case B_instlimit: instLimit=insts+c(0); instErr=(int)c(1); nret=0; return 1;
  case B_lim: maxIteR=c(0); maxIteW=c(1); maxFork=c(2); nret=0; return 1;
  case B_native: ret[0]={0,0}; return 1;
  case B_readable: { u64 p=c(0),n=c(1); bool ok=true; for(u64 i=0;i<n&&ok;i++) ok=inarena(p+i)&&(*sh(p+i)&SH_R)&&!(*sh(p+i)&SH_FREED); ret[0]={ok,0}; return 1; }
  case B_objsize: ret[0]={hsize(c(0)),0}; return 1;
  case B_fnptr: { auto it=fbyname.find(cstr(c(0))); Func*f=it==fbyname.end()?nullptr:it->second; ret[0]={f?f->addr:0,0}; return 1; }
  case B_giveup: giveUp(cstr(c(0)).c_str());
  case B_unsup: { char b[160]; snprintf(b,sizeof b,"%s 0x%llx",cstr(c(0)).c_str(),(unsigned long long)conc(A[1])); giveUp(b); }
  case B_mulhu: case B_mulhs: ret[0]=fromE(mk2(id==B_mulhu?E_MULHU:E_MULHS,toE(A[0],64),toE(A[1],64))); return 1;
  case B_ite32: ret[0]=A[0].e?fromE(mkite(mknot(mk2(E_EQ,A[0].e,mkc(0,32))),toE(A[1],32),toE(A[2],32))):((u32)A[0].v?A[1]:A[2]); return 1;
  case B_vastart: { nret=0; u64 p=c(0); Frame&F=fr.back(); storeC(p,{F.gp,0},32); storeC(p+4,{F.fp,0},32); storeC(p+8,{F.va_ovf,0},64); storeC(p+16,{F.va_reg,0},64); return 1; }
  case B_vaend: nret=0; return 1;
  case B_vacopy: nret=0; copyMem(c(0),c(1),24); return 1;
  case B_stacksave: ret[0]={stk_top,0}; return 1;
  case B_stackrestore: { nret=0; u64 t=c(0); if(t<stk_top){ memset(sh(t),0,stk_top-t); stk_top=t; } return 1; }
  case B_frameaddr: ret[0]={stk_top,0}; return 1;
  case B_objectsize: ret[0]={~0ull,0}; return 1; case B_isconst: ret[0]={0,0}; return 1;
  case B_fabs: { unsigned w=W(0); Expr*e=toE(A[0],w); ret[0]=fromE(mk2(E_AND,e,mkc(maskw(w-1),w))); return 1; }
  case B_sqrt: ret[0]=fromE(mkfp1(E_FSQRT,toE(A[0],W(0)),W(0))); return 1;
  case B_umin: case B_umax: case B_smin: case B_smax: { unsigned w=W(0); Expr*a=toE(A[0],w),*b=toE(A[1],w); Op o=(id==B_umin||id==B_umax)?E_ULT:E_SLT; Expr*l=mk2(o,a,b); ret[0]=fromE((id==B_umin||id==B_smin)?mkite(l,a,b):mkite(l,b,a)); return 1; }
  case B_ptrmask: ret[0]=fromE(mk2(E_AND,toE(A[0],64),toE(A[1],64))); return 1;
  case B_usat: { unsigned w=W(0); Expr*a=toE(A[0],w),*b=toE(A[1],w); ret[0]=fromE(mkite(mk2(E_ULT,a,b),mkc(0,w),mk2(E_SUB,a,b))); return 1; }
  case B_abs: { unsigned w=W(0); Expr*a=toE(A[0],w); ret[0]=fromE(mkite(mk2(E_SLT,a,mkc(0,w)),mk2(E_SUB,mkc(0,w),a),a)); return 1; }
  case B_fshl: case B_fshr: { unsigned w=W(0); Expr*a=toE(A[0],w),*b=toE(A[1],w),*s=mk2(E_UREM,toE(A[2],w),mkc(w,w)); Expr*z=mk2(E_EQ,s,mkc(0,w)); Expr*r=mk2(E_SUB,mkc(w,w),s);
      ret[0]=fromE(id==B_fshl? mkite(z,a,mk2(E_OR,mk2(E_SHL,a,s),mk2(E_LSHR,b,r))) : mkite(z,b,mk2(E_OR,mk2(E_SHL,a,r),mk2(E_LSHR,b,s)))); return 1; }
  case B_bswap: { unsigned w=W(0); Expr*a=toE(A[0],w),*r=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*b=mkextract(a,i,8); r=r?mkconcat(r,b):b; } ret[0]=fromE(r); return 1; }
  case B_ctpop: { unsigned w=W(0); Expr*a=toE(A[0],w),*r=mkc(0,w); for(unsigned i=0;i<w;i++) r=mk2(E_ADD,r,mkzext(mkextract(a,i,1),w)); ret[0]=fromE(r); return 1; }
  case B_ctlz: { unsigned w=W(0); Expr*a=toE(A[0],w),*r=mkc(w,w); for(unsigned i=0;i<w;i++) r=mkite(mkextract(a,i,1),mkc(w-1-i,w),r); ret[0]=fromE(r); return 1; }
  case B_cttz: { unsigned w=W(0); Expr*a=toE(A[0],w),*r=mkc(w,w); for(unsigned i=w;i-->0;) r=mkite(mkextract(a,i,1),mkc(i,w),r); ret[0]=fromE(r); return 1; }
  case B_uaddo: case B_usubo: case B_umulo: case B_saddo: case B_ssubo: case B_smulo: { unsigned w=W(0); bool sg=id==B_saddo||id==B_ssubo||id==B_smulo; unsigned ww=w*2>128?128:w*2; Expr*a=toE(A[0],w),*b=toE(A[1],w); Expr*A2=sg?mksext(a,ww):mkzext(a,ww),*B2=sg?mksext(b,ww):mkzext(b,ww); Op o=(id==B_uaddo||id==B_saddo)?E_ADD:(id==B_usubo||id==B_ssubo)?E_SUB:E_MUL; Expr*r=mk2(o,A2,B2),*t=mktrunc(r,w); Expr*x=sg?mksext(t,ww):mkzext(t,ww); ret[0]=fromE(t); ret[1]=fromE(mknot(mk2(E_EQ,x,r))); nret=2; return 1; }
  case B_natcall: { // emulated code calls a compiled function; state: regs[16] at 0, xmm[16][2] at 128, fpret at 384
      u64 t=c(0),s=c(1); Func*f=funcAt(t); if(!f) failPath("memory","emulated call to an address that is not a function");
      static const int gi[6]={7,6,2,1,8,9}; u64 rsp=conc(cload(s+4*8,64)); u64 sa=rsp+8; // after the pushed return address
      Func*g=f; if(f->decl&&f->impl&&f->builtin<0) g=f->impl;
      if(g->decl){ if(g->builtin<0){ std::string w="unmodelled external "+g->name; giveUp(w.c_str()); } Val a[6]; for(int i=0;i<6;i++) a[i]=cload(s+gi[i]*8,64); Val r[4]={{0,0}}; int nr=0; CallSite tmp; tmp.dst=-1; for(int i=0;i<6;i++) tmp.argw.push_back(64);
        if(g->builtin==B_memset&&a[1].e) a[1]=fromE(mktrunc(a[1].e,32));
        if((g->builtin==B_strcmp||g->builtin==B_strncmp||g->builtin==B_memcmp||g->builtin==B_strlen||g->builtin==B_strchr)){ int rc=doBuiltin(g->builtin,a,6,&tmp,r,nr); if(rc==0&&f->impl){ std::vector<Val> v; for(size_t i=0;i<f->impl->argw.size();i++) v.push_back(f->impl->argw[i]<64&&a[i].e?fromE(mktrunc(a[i].e,f->impl->argw[i])):Val{a[i].v&mask64(f->impl->argw[i]),a[i].e}); pushCall(f->impl,v.data(),v.size(),H_NATIVERET,s,nullptr); return 2; } storeC(s,r[0],64); nret=0; return 1; }
        int rc=doBuiltin(g->builtin,a,6,&tmp,r,nr); if(rc==0) giveUp("builtin fallback from emulated code"); if(rc==2) return 2; if(nr) storeC(s,r[0],64); nret=0; return 1; }
      int ni=0,nf=0; std::vector<Val> v; for(size_t i=0;i<g->argw.size();i++){ unsigned w=g->argw[i]; 
          if(u32 bv=g->argbyval[i]){ if(bv>>31) sa=(sa+15)&~15ull; bv&=~(1u<<31); v.push_back({sa,0}); sa+=(bv+7)&~7ull; }
          else if(w==80){ sa=(sa+15)&~15ull; v.push_back(cload(sa,80)); sa+=16; }
          else if(g->argfp[i]){ if(nf<8){ v.push_back(cload(s+128+16*nf,w)); nf++; } else { v.push_back(cload(sa,w)); sa+=8; } }
          else { if(ni<6){ v.push_back(cload(s+gi[ni]*8,w)); ni++; } else { v.push_back(cload(sa,w)); sa+=8; } } }
      u64 reg=0; if(g->vararg){ reg=stackAlloc(176,16); for(int i=0;i<6;i++) storeC(reg+8*i,cload(s+gi[i]*8,64),64); for(int i=0;i<8;i++) copyMem(reg+48+16*i,s+128+16*i,16); }
      pushCall(g,v.data(),v.size(),H_NATIVERET,s,nullptr,nullptr,nullptr,reg,sa,8*ni,48+16*nf); return 2; }
  default: return 0; } }
// ------------------------------------------------------------------ calls
static void pushCall(Func*f,const Val*args,size_t na,int hook,u64 harg,const CallSite*cs,const std::vector<uint16_t>*vaw,const std::vector<u32>*vab,u64 vareg,u64 vaovf,u32 gp,u32 fp){
  if(fr.size()>20000) failPath("memory","unbounded recursion");
  Frame n; n.f=f; n.pc=0; n.sp0=stk_top; n.hook=hook; n.harg=harg; n.cs=cs; n.uid=nextuid++; n.va_reg=vareg; n.va_ovf=vaovf; n.gp=gp; n.fp=fp;
  n.R= fr.empty()? vstack : fr.back().R+fr.back().f->nslots;
  if((char*)(n.R+f->nslots+16)>(char*)vstack+(255ull<<20)) failPath("memory","unbounded recursion");
  size_t nfx=f->argslot.size();
  Val tmp[64]; size_t m=std::min(na,(size_t)64); for(size_t i=0;i<m;i++) tmp[i]=args[i];
  for(size_t i=0;i<nfx;i++){ Val v= i<m?tmp[i]:Val{0,nullptr}; 
    if(f->argw[i]<=64){ if(v.e){ if(v.e->w>f->argw[i]) v=fromE(mktrunc(v.e,f->argw[i])); else if(v.e->w<f->argw[i]) v=fromE(mkzext(v.e,f->argw[i])); } else v.v&=mask64(f->argw[i]); }
    if(u32 bv=f->argbyval[i]&~(1u<<31)){ u64 src=conc(v); u64 d=stackAlloc(bv,16); copyMem(d,src,bv); v={d,0}; }
    n.R[f->argslot[i]]=v; }
  if(f->vararg&&!vareg){ u64 sz=0; for(size_t i=nfx;i<m;i++) sz+= (vab&&(*vab)[i])? (((*vab)[i]&~(1u<<31))+15)&~7ull : ((vaw&&(*vaw)[i]==80)?24:8);
    u64 area=stackAlloc(sz+16,16); u64 o=area; for(size_t i=nfx;i<m;i++){ if(vab&&(*vab)[i]){ u32 bv=(*vab)[i]; if(bv>>31) o=(o+15)&~15ull; bv&=~(1u<<31); copyMem(o,conc(tmp[i]),bv); o+=(bv+7)&~7ull; } else { unsigned w=vaw?(*vaw)[i]:64; if(w==80){ o=(o+15)&~15ull; storeC(o,tmp[i],80); o+=16; } else { storeC(o,Val{0,0},64); storeC(o,tmp[i],w); o+=8; } } }
    n.va_ovf=area; n.va_reg=area; n.gp=48; n.fp=176; }
  if(f->idx<(1<<16)) S->fhit[f->idx]=1;
  fr.push_back(n); }
static u64 x86tab=0;
static void callX86(u64 target,const CallSite&cs,const Val*args){
  auto it=fbyname.find("x86_enter"); if(it==fbyname.end()||it->second->decl) failPath("memory","call through a pointer that is not a function");
  if(!inarena(target)||!(*sh(target)&SH_R)||(*sh(target)&SH_FREED)) failPath("memory","call through an invalid pointer");
  u64 st_=hmalloc(8*(1+6+16+2+96+2+4)+32); u64 a=st_; storeC(a,{target,0},64); int ni=0,nf=0,ns=0; u64 G=a+8,Xm=G+48,NF=Xm+128,NS=NF+8,ST=NS+8;
  memset((void*)(a+8),0,8*(6+16+2));
  auto pushst=[&](Val v,unsigned w){ if(ns>=96) giveUp("too many stack arguments"); storeC(ST+8*ns,{0,0},64); storeC(ST+8*ns,v,w); ns++; };
  for(size_t i=0;i<cs.args.size();i++){ Val v=args[i]; unsigned w=cs.argw[i]; if(u32 bv=cs.byval[i]){ u64 p=conc(v); if((bv>>31)&&(ns&1)) pushst({0,0},64); bv&=~(1u<<31); for(u32 o=0;o<bv;o+=8){ unsigned k=std::min(8u,bv-o); pushst({0,0},64); copyMem(ST+8*(ns-1),p+o,k); } }
    else if(w==80){ if(ns&1) pushst({0,0},64); pushst({0,0},64); pushst({0,0},64); storeC(ST+8*(ns-2),v,80); }
    else if(cs.isfp[i]){ if(nf<8){ storeC(Xm+16*nf,v,w); nf++; } else pushst(v,w); }
    else { // upper bits of narrow integer arguments are unspecified by the ABI (clang extends to 32 bits)
      if(w<64){ unsigned ew=w<32?32:w; Val x=v; if(v.e) x=fromE(mkzext(v.e,ew)); if(ni<6){ storeC(G+8*ni,x,ew); storeC(G+8*ni+4,{0xDEADBEEFu,0},32); ni++; } else { pushst(x,ew); storeC(ST+8*(ns-1)+4,{0xDEADBEEFu,0},32); } }
      else if(ni<6){ storeC(G+8*ni,v,w); ni++; } else pushst(v,w); } }
  storeC(NF,{(u64)nf,0},64); storeC(NS,{(u64)ns,0},64);
  Val A[1]={{st_,0}}; pushCall(it->second,A,1,H_X86RET,st_,&cs); }
static void x86Ret(u64 a,const CallSite&cs,Val*R){ u64 rax=a+8*(1+6+16+2+96); u64 x0=rax+16; u64 st0=x0+32; int ii=0,xi=0,si=0; for(int k=0;k<cs.nret;k++){ unsigned w=cs.retws[k]; Val v; if(w==80){ v=loadC(st0+16*si,80); si++; } else if(cs.retfps[k]){ v=loadC(x0+16*xi,w); xi++; } else { v=loadC(rax+8*ii,w); ii++; } if(cs.dst>=0) R[cs.dst+k]=v; } }
// ------------------------------------------------------------------ arithmetic helpers
static Val bin(Op o,const Val&a,const Val&b,unsigned w){ return fromE(mk2(o,toE(a,w),toE(b,w))); }
static bool icmpC(int p,u64 a,u64 b,unsigned w){ i64 x=sext64(a,w),y=sext64(b,w); switch(p){ case 32: return a==b; case 33: return a!=b; case 34: return a>b; case 35: return a>=b; case 36: return a<b; case 37: return a<=b; case 38: return x>y; case 39: return x>=y; case 40: return x<y; case 41: return x<=y; } abort(); }
static Expr *icmpE(int p,Expr*a,Expr*b){ switch(p){ case 32: return mk2(E_EQ,a,b); case 33: return mknot(mk2(E_EQ,a,b)); case 34: return mk2(E_ULT,b,a); case 35: return mk2(E_ULE,b,a); case 36: return mk2(E_ULT,a,b); case 37: return mk2(E_ULE,a,b); case 38: return mk2(E_SLT,b,a); case 39: return mk2(E_SLE,b,a); case 40: return mk2(E_SLT,a,b); case 41: return mk2(E_SLE,a,b); } abort(); }
static Expr *fcmpE(int p,Expr*a,Expr*b){ Expr*un=mk2(E_OR,mkfp1(E_FNAN,a,1),mkfp1(E_FNAN,b,1)); switch(p){ case 0: return mkbool(0); case 1: return mk2(E_FEQ,a,b); case 2: return mk2(E_FLT,b,a); case 3: return mk2(E_FLE,b,a); case 4: return mk2(E_FLT,a,b); case 5: return mk2(E_FLE,a,b); case 6: return mk2(E_OR,mk2(E_FLT,a,b),mk2(E_FLT,b,a)); case 7: return mknot(un); case 8: return un; case 9: return mk2(E_OR,mk2(E_FEQ,a,b),un); case 10: return mknot(mk2(E_FLE,a,b)); case 11: return mknot(mk2(E_FLT,a,b)); case 12: return mknot(mk2(E_FLE,b,a)); case 13: return mknot(mk2(E_FLT,b,a)); case 14: return mknot(mk2(E_FEQ,a,b)); case 15: return mkbool(1); } abort(); }
static u32 doSwitch(const SwitchInfo&s,const Val&x,unsigned w){
  if(!x.e||isc(x.e)){ u64 v=x.e?(u64)x.e->k:x.v; auto it=s.map.find(v); return it==s.map.end()?s.def:it->second; }
  Expr*e=x.e; std::map<u32,std::vector<u64>> g; for(auto&c:s.cases) g[c.second].push_back(c.first);
  std::vector<std::pair<u32,Expr*>> cs; Expr*any=mkbool(false);
  for(auto&p:g){ auto&v=p.second; std::sort(v.begin(),v.end()); Expr*c=mkbool(false); for(size_t i=0;i<v.size();){ size_t j=i; while(j+1<v.size()&&v[j+1]==v[j]+1) j++; Expr*t= j==i? mk2(E_EQ,e,mkc(v[i],w)) : mk2(E_ULE,mk2(E_SUB,e,mkc(v[i],w)),mkc(v[j]-v[i],w)); c=mk2(E_OR,c,t); i=j+1; } 
    any=mk2(E_OR,any,c); if(p.first!=s.def) cs.push_back({p.first,c}); }
  Expr*dc=mknot(any); if(g.count(s.def)){ Expr*o=mkbool(false); for(auto&c:cs) o=mk2(E_OR,o,c.second); dc=mknot(o); } cs.push_back({s.def,dc});
  size_t mine=cs.size(); for(size_t i=0;i<cs.size();i++) if(evalE(cs[i].second)){ mine=i; break; }
  if(mine==cs.size()) giveUp("switch model");
  bool others=false; for(size_t i=0;i<cs.size();i++) if(i!=mine){ if(isz(cs[i].second)) continue; Model m; Res r=solve(cs[i].second,&m); if(r==R_SAT){ if(doFork()){ setModel(m); take(cs[i].second); return cs[i].first; } others=true; } else if(r==R_UNKNOWN){ noteInc("solver gave up on a switch"); others=true; } }
  if(others) take(cs[mine].second); return cs[mine].first; }
// ------------------------------------------------------------------ main loop
static void run(){
  Frame*F; Val*R; const Val*C; const Inst*code; u32 pc; u64 lastchk=0;
#define LOADF do{ F=&fr.back(); R=F->R; C=F->f->consts.data(); code=F->f->code.data(); pc=F->pc; }while(0)
#define V(i) ((i)>=0?R[i]:C[-(i)-1])
#define CC(x,y) (!(x).e&&!(y).e)
  LOADF;
  for(;;){
    const Inst&I=code[pc++]; insts++;
    if(__builtin_expect(insts-lastchk>2000000,0)){ lastchk=insts; if(insts>instLimit){ F->pc=pc-1; if(instErr) failPath("hang","step limit exceeded"); giveUp("step limit on a path"); } if(S->stop) giveUp("time budget"); }
    switch(I.op){
    case I_ADD: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={(a.v+b.v)&mask64(I.w),nullptr}; else R[I.dst]=bin(E_ADD,a,b,I.w); break; }
    case I_SUB: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={(a.v-b.v)&mask64(I.w),nullptr}; else R[I.dst]=bin(E_SUB,a,b,I.w); break; }
    case I_AND: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={a.v&b.v,nullptr}; else R[I.dst]=bin(E_AND,a,b,I.w); break; }
    case I_OR: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={a.v|b.v,nullptr}; else R[I.dst]=bin(E_OR,a,b,I.w); break; }
    case I_XOR: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={a.v^b.v,nullptr}; else R[I.dst]=bin(E_XOR,a,b,I.w); break; }
    case I_MUL: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={(a.v*b.v)&mask64(I.w),nullptr}; else R[I.dst]=bin(E_MUL,a,b,I.w); break; }
    case I_BIN: { Val a=V(I.a),b=V(I.b); Op o=(Op)I.sub;
        if(o==E_UDIV||o==E_SDIV||o==E_UREM||o==E_SREM){ F->pc=pc-1; if(b.e&&!isc(b.e)){ Expr*z=mk2(E_EQ,b.e,mkc(0,I.w)); if(branchE(z)) failPath("fpe","division by zero"); } else if(!(b.e?(u64)b.e->k:b.v)) failPath("fpe","division by zero");
          if((o==E_SDIV||o==E_SREM)&&(I.w==32||I.w==64)){ Expr*ov=mk2(E_AND,mk2(E_EQ,toE(a,I.w),mkc((u128)1<<(I.w-1),I.w)),mk2(E_EQ,toE(b,I.w),mkc(maskw(I.w),I.w))); if(!isz(ov)&&branchE(ov)) failPath("fpe","signed division overflow"); } }
        if(CC(a,b)&&I.w<=64){ u64 r; unsigned w=I.w; switch(o){ case E_SHL: r=b.v>=w?0:a.v<<b.v; break; case E_LSHR: r=b.v>=w?0:a.v>>b.v; break; case E_ASHR: r=(u64)(sext64(a.v,w)>>(b.v>=w?w-1:b.v)); break; case E_UDIV: r=a.v/b.v; break; case E_UREM: r=a.v%b.v; break; case E_SDIV: r=(u64)(sext64(a.v,w)/sext64(b.v,w)); break; case E_SREM: r=(u64)(sext64(a.v,w)%sext64(b.v,w)); break; default: abort(); } R[I.dst]={r&mask64(w),nullptr}; }
        else R[I.dst]=bin(o,a,b,I.w); break; }
    case I_EQ: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={a.v==b.v,nullptr}; else R[I.dst]=fromE(mk2(E_EQ,toE(a,I.w),toE(b,I.w))); break; }
    case I_NE: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={a.v!=b.v,nullptr}; else R[I.dst]=fromE(mknot(mk2(E_EQ,toE(a,I.w),toE(b,I.w)))); break; }
    case I_ICMP: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)) R[I.dst]={icmpC(I.sub,a.v,b.v,I.w),nullptr}; else R[I.dst]=fromE(icmpE(I.sub,toE(a,I.w),toE(b,I.w))); break; }
    case I_FCMP: R[I.dst]=fromE(fcmpE(I.sub,toE(V(I.a),I.w),toE(V(I.b),I.w))); break;
    case I_FBIN: { const Val&a=V(I.a),&b=V(I.b); if(CC(a,b)&&I.w<=64) R[I.dst]={(u64)fpop2((Op)I.sub,I.w,a.v,b.v),nullptr}; else R[I.dst]=bin((Op)I.sub,a,b,I.w); break; }
    case I_FNEG: R[I.dst]=fromE(mk2(E_XOR,toE(V(I.a),I.w),mkc((u128)1<<(I.w-1),I.w))); break;
    case I_FCVT: R[I.dst]=fromE(mkfp1((Op)I.sub,toE(V(I.a),I.b),I.w)); break;
    case I_LOAD: { const Val&a=V(I.a); F->pc=pc-1; if(!a.e) R[I.dst]=loadC(a.v,I.w); else { Val t=a; Val r=loadV(t,I.w); R[I.dst]=r; } break; }
    case I_STORE: { F->pc=pc-1; const Val&a=V(I.a); if(!a.e) storeC(a.v,V(I.b),I.w); else { Val p=a,x=V(I.b); storeV(p,x,I.w); } break; }
    case I_LOADA: { F->pc=pc-1; const AggInfo&g=F->f->aggs[I.b]; u64 p=conc(V(I.a)); for(size_t k=0;k<g.off.size();k++) R[I.dst+k]=loadC(p+g.off[k],g.w[k]); break; }
    case I_STOREA: { F->pc=pc-1; const AggInfo&g=F->f->aggs[I.b]; u64 p=conc(V(I.a)); for(size_t k=0;k<g.off.size();k++) storeC(p+g.off[k],R[I.c+k],g.w[k]); break; }
    case I_GEPC: { const Val&a=V(I.a),&b=V(I.b); if(!a.e) R[I.dst]={a.v+b.v,nullptr}; else R[I.dst]=bin(E_ADD,a,b,64); break; }
    case I_GEPN: { const GepInfo&g=F->f->geps[I.b]; Val b=V(I.a); u64 acc=g.off; Expr*e=nullptr; if(b.e) e=b.e; else acc+=b.v; for(size_t k=0;k<g.idx.size();k++){ const Val&x=V(g.idx[k].first); if(!x.e) acc+=(u64)(sext64(x.v,g.iw[k])*g.idx[k].second); else { Expr*t=mk2(E_MUL,mksext(x.e,64),mkc((u64)g.idx[k].second,64)); e=e?mk2(E_ADD,e,t):t; } } if(!e) R[I.dst]={acc,nullptr}; else R[I.dst]=fromE(mk2(E_ADD,e,mkc(acc,64))); break; }
    case I_ALLOCA: { F->pc=pc-1; u64 n=conc(V(I.a))*C[-I.b-1].v; if(n>(64u<<20)) failPath("memory","huge stack allocation"); R[I.dst]={stackAlloc(n?n:1,I.w),nullptr}; break; }
    case I_SELECT: { const Val&c=V(I.a); if(!c.e) R[I.dst]=c.v?V(I.b):V(I.c); else R[I.dst]=fromE(mkite(c.e,toE(V(I.b),I.w),toE(V(I.c),I.w))); break; }
    case I_TRUNC: { const Val&a=V(I.a); if(!a.e) R[I.dst]={a.v&mask64(I.w),nullptr}; else R[I.dst]=fromE(mktrunc(a.e,I.w)); break; }
    case I_ZEXT: { const Val&a=V(I.a); if(!a.e&&I.w<=64) R[I.dst]={a.v,nullptr}; else R[I.dst]=fromE(mkzext(toE(a,I.b),I.w)); break; }
    case I_SEXT: { const Val&a=V(I.a); if(!a.e&&I.w<=64) R[I.dst]={(u64)sext64(a.v,I.b)&mask64(I.w),nullptr}; else R[I.dst]=fromE(mksext(toE(a,I.b),I.w)); break; }
    case I_MOV: R[I.dst]=V(I.a); break;
    case I_EXTRELT: R[I.dst]=fromE(mkextract(toE(V(I.a),I.c),I.b,I.w)); break;
    case I_INSELT: { // a vec, b elt, c bit offset, sub elt width, w vec width
        unsigned ew=I.sub; Expr*v=toE(V(I.a),I.w),*x=toE(V(I.b),ew); Expr*r=x; if(I.c) r=mkconcat(r,mkextract(v,0,I.c)); if(I.c+ew<I.w) r=mkconcat(mkextract(v,I.c+ew,I.w-I.c-ew),r); R[I.dst]=fromE(r); break; }
    case I_ATOMICRMW: { F->pc=pc-1; Val p={conc(V(I.a)),0}; Val o=loadC(p.v,I.w); Expr*oe=toE(o,I.w),*x=toE(V(I.b),I.w),*n; switch(I.sub){ case 0: n=x; break; case 1: n=mk2(E_ADD,oe,x); break; case 2: n=mk2(E_SUB,oe,x); break; case 3: n=mk2(E_AND,oe,x); break; case 4: n=mk2(E_XOR,mk2(E_AND,oe,x),mkc(maskw(I.w),I.w)); break; case 5: n=mk2(E_OR,oe,x); break; case 6: n=mk2(E_XOR,oe,x); break; default: giveUp("atomicrmw kind"); } storeC(p.v,fromE(n),I.w); R[I.dst]=o; break; }
    case I_CMPXCHG: { F->pc=pc-1; u64 p=conc(V(I.a)); Val o=loadC(p,I.w); Expr*oe=toE(o,I.w),*eq=mk2(E_EQ,oe,toE(V(I.b),I.w)); storeC(p,fromE(mkite(eq,toE(V(I.c),I.w),oe)),I.w); R[I.dst]=o; R[I.dst+1]=fromE(eq); break; }
    case I_BR: case I_CBR: case I_SWITCH: {
        u32 ei; if(I.op==I_BR) ei=I.a; else if(I.op==I_CBR){ const Val&c=V(I.a); bool t; if(!c.e) t=c.v&1; else { F->pc=pc-1; t=branchE(c.e); } ei=t?I.b:I.c; } else { F->pc=pc-1; ei=doSwitch(F->f->sw[I.b],V(I.a),I.w); }
        const Edge&e=F->f->edges[ei]; if(e.nmv==1){ auto&m=F->f->moves[e.mv]; R[m.first]=V(m.second); } else if(e.nmv){ Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(e.nmv>64){ big.resize(e.nmv); t=big.data(); } for(u32 k=0;k<e.nmv;k++) t[k]=V(F->f->moves[e.mv+k].second); for(u32 k=0;k<e.nmv;k++) R[F->f->moves[e.mv+k].first]=t[k]; }
        pc=e.pc; break; }
    case I_RET: {
        Val rv[16]; int n=I.b; for(int k=0;k<n&&k<16;k++) rv[k]=V(I.a+ (I.a>=0?k:0));
        Frame old=*F; memset(sh(old.sp0),0,stk_top-old.sp0); stk_top=old.sp0; fr.pop_back();
        if(fr.empty()){ witness(nullptr); endPath(); }
        F=&fr.back();
        if(old.hook==H_NONE){ if(old.cs&&old.cs->dst>=0){ unsigned cw=old.cs->retw; for(int k=0;k<n;k++){ Val v=rv[k]; if(n==1&&cw&&cw<=64){ if(v.e){ if(v.e->w>cw) v=fromE(mktrunc(v.e,cw)); } else v.v&=mask64(cw); } F->R[old.cs->dst+k]=v; } } }
        else if(old.hook==H_X86RET){ x86Ret(old.harg,*old.cs,F->R); }
        else if(old.hook==H_NATIVERET){ u64 s=old.harg; int ii=0,xi=0; for(int k=0;k<n;k++){ unsigned w=old.f->retws[k]; if(w==80){ storeC(s+384,{1,0},64); storeC(s+392,rv[k],80); } else if(old.f->retfps[k]){ storeC(s+128+16*xi,{0,0},64); storeC(s+128+16*xi,rv[k],w); xi++; } else { u64 q=s+(ii?2*8:0); storeC(q,{0xDEADBEEFCAFEBABEull,0},64); Val v=rv[k]; if(w<32){ v=v.e?fromE(mkzext(v.e,32)):v; w=32; } storeC(q,v,w); ii++; } } }
        LOADF; break; }
    case I_CALL: case I_ICALL: {
        F->pc=pc; const CallSite&cs=F->f->calls[I.a]; Func*f; Val args[64]; size_t na=std::min(cs.args.size(),(size_t)64); for(size_t i=0;i<na;i++) args[i]=V(cs.args[i]);
        if(I.op==I_CALL) f=funcAt(cs.fn); else { u64 t=conc(V(cs.fnop)); F=&fr.back(); f=funcAt(t); if(!f){ F->pc=pc; callX86(t,cs,args); LOADF; break; } }
        if(f->decl){
          if(f->builtin>=0){ Val ret[4]={{0,0}}; int nr=0; int r=doBuiltin(f->builtin,args,na,&cs,ret,nr); F=&fr.back();
            if(r==1){ if(cs.dst>=0) for(int k=0;k<cs.nret&&k<4;k++){ Val v=ret[k]; unsigned cw=cs.retws.size()>(size_t)k?cs.retws[k]:64; if(v.e){ if(v.e->w>cw) v=fromE(mktrunc(v.e,cw)); else if(v.e->w<cw) v=fromE(mkzext(v.e,cw)); } else if(cw<=64) v.v&=mask64(cw); F->R[cs.dst+k]=v; } break; }
            if(r==2){ LOADF; break; } }
          if(f->impl) f=f->impl; else { std::string w="unmodelled external "+f->name; giveUp(w.c_str()); } }
        pushCall(f,args,na,H_NONE,0,&cs,&cs.argw,&cs.byval); LOADF; break; }
    case I_UNREACH: F->pc=pc-1; giveUp("reached unreachable code");
    case I_NOP: break;
    default: F->pc=pc-1; { std::string w="unsupported instruction in "+F->f->name; giveUp(w.c_str()); }
    } } }
// ------------------------------------------------------------------ main
static void onsegv(int,siginfo_t*si,void*){ char b[200]; int n=snprintf(b,sizeof b,"engine crash at %p in %s\n",si->si_addr,fr.empty()?"?":fr.back().f->name.c_str()); if(write(2,b,n)){} signal(SIGSEGV,SIG_DFL); raise(SIGSEGV); }
int main(int argc,char**argv){
  std::vector<std::string> files; std::string entry="harness",out="/tmp/symx"; int procs=8; double tmo=300; std::vector<std::string> repop; u64 rl=0;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto val=[&](const char*k,std::string&v){ size_t n=strlen(k); if(a.compare(0,n,k)==0){ v=a.substr(n); return true;} return false; }; std::string v;
    if(val("--entry=",v)) entry=v; else if(val("--out=",v)) out=v; else if(val("--procs=",v)) procs=atoi(v.c_str()); else if(val("--timeout=",v)) tmo=atof(v.c_str()); else if(val("--rlimit=",v)) rl=strtoull(v.c_str(),0,10); else if(val("--repo=",v)) repop.push_back(v); else files.push_back(a); }
  struct rlimit sl; getrlimit(RLIMIT_STACK,&sl); if(sl.rlim_cur!=RLIM_INFINITY&&sl.rlim_cur<(900ull<<20)){ rlim_t want=1ull<<30; if(sl.rlim_max!=RLIM_INFINITY&&sl.rlim_max<want) want=sl.rlim_max; sl.rlim_cur=want; if(!setrlimit(RLIMIT_STACK,&sl)&&!getenv("SX_REEXEC")){ setenv("SX_REEXEC","1",1); execv("/proc/self/exe",argv); } }
  mallopt(M_TRIM_THRESHOLD,512<<20); mallopt(M_MMAP_THRESHOLD,512<<20); mallopt(M_TOP_PAD,1<<20);
  double t0=now();
  auto mp=[&](u64 a,u64 n){ if(mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED){ perror("mmap"); exit(2);} };
  mp(MEM,MEMSZ+4096); mp(SHADOW,MEMSZ+4096); mp(SYMT,MEMSZ*8); vstack=(Val*)mmap(0,256ull<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sstats=&S->ss; if(rl) solver_rlimit=rl;
  loadBitcode(files); double tl=now()-t0;
  auto it=fbyname.find(entry); if(it==fbyname.end()||it->second->decl){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
  outfd=open((out+".fail").c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
  witfd=open((out+".wit").c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
  S->tokens=procs-1; prctl(PR_SET_CHILD_SUBREAPER,1); setpgid(0,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsegv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; static char alts[65536]; stack_t ss; ss.ss_sp=alts; ss.ss_size=sizeof alts; ss.ss_flags=0; sigaltstack(&ss,0); sigaction(SIGSEGV,&sa,0);
  S->paths=1; fflush(stdout);
  pid_t w=fork();
  if(w==0){ stk_top=stack_base; pushCall(it->second,nullptr,0,H_NONE,0,nullptr); run(); _exit(0); }
  bool killed=false; double stopAt=0; 
  for(;;){ int st; pid_t r=waitpid(-1,&st,WNOHANG); if(r>0){ if(WIFSIGNALED(st)&&!killed){ S->crashes++; __sync_fetch_and_add(&S->tokens,1);} continue; } if(r<0&&errno==ECHILD) break; usleep(3000);
    double n=now(); if(!S->stop&&n-t0>tmo){ S->stop=1; stopAt=n; } if(S->stop&&!killed&&n-stopAt>std::max(5.0,tmo*0.1)){ killed=true; S->incomplete++; // stop the leftovers: only processes of our own group
        signal(SIGTERM,SIG_IGN); kill(0,SIGTERM); usleep(200000); }
    static double lastmem=0; if(n-lastmem>0.5){ lastmem=n; FILE*f=fopen("/proc/meminfo","r"); char l[128]; long avail=1<<30; if(f){ while(fgets(l,sizeof l,f)) if(sscanf(l,"MemAvailable: %ld",&avail)==1) break; fclose(f);} if(avail<1500000&&!S->stop){ S->stop=1; stopAt=n; noteInc("memory budget"); } } }
  std::string o="{"; char b[512]; 
  snprintf(b,sizeof b,"\"paths\":%llu,\"ended\":%llu,\"forks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"fails\":%llu,\"incomplete\":%llu,\"crashes\":%llu,\"killed\":%d,",(unsigned long long)S->paths,(unsigned long long)S->ended,(unsigned long long)S->forks,(unsigned long long)S->insts,(unsigned long long)S->asserts,(unsigned long long)S->assertq,(unsigned long long)S->fails,(unsigned long long)S->incomplete,(unsigned long long)S->crashes,killed); o+=b;
  snprintf(b,sizeof b,"\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"small_domain\":%llu,\"solver_s\":%.3f,\"wall_s\":%.2f,\"load_s\":%.2f,\"stopped\":%d,",(unsigned long long)S->ss.queries,(unsigned long long)S->ss.sat,(unsigned long long)S->ss.unsat,(unsigned long long)S->ss.unknown,(unsigned long long)S->ss.cachehits,(unsigned long long)S->ss.modelhits,(unsigned long long)S->ss.small,S->ss.time_us/1e6,now()-t0,tl,S->stop); o+=b;
  o+="\"incomplete_reasons\":{"; bool first=true; for(int i=0;i<NINC&&S->inc[i].n;i++){ if(!first) o+=","; first=false; jstr(o,S->inc[i].why); snprintf(b,sizeof b,":%llu",(unsigned long long)S->inc[i].n); o+=b; }
  o+="},\"cover\":{"; first=true; for(int i=0;i<S->ncov;i++){ if(!first) o+=","; first=false; jstr(o,S->cov[i].name); snprintf(b,sizeof b,":%llu",(unsigned long long)S->cov[i].n); o+=b; }
  o+="},\"functions\":["; first=true; for(auto f:funcs) if(f->idx<(1<<16)&&S->fhit[f->idx]&&!f->decl){ bool rp=repop.empty(); for(auto&p:repop) if(f->src.find(p)!=std::string::npos) rp=true; if(!rp) continue; if(!first) o+=","; first=false; jstr(o,f->src.substr(f->src.rfind('/')==std::string::npos?0:f->src.rfind('/')+1)+":"+f->name); } o+="]}\n";
  FILE*sf=fopen((out+".sum").c_str(),"w"); fputs(o.c_str(),sf); fclose(sf); 
  if(getenv("SX_SUM")) fputs(o.c_str(),stdout);
  return S->nfail?1:0; }
