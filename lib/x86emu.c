// x86-64 instruction emulator, run inside the symbolic engine on the machine code the compiler under test emits.
// Native replay does not use it: there the real CPU executes the code.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef u16 __attribute__((aligned(1),may_alias)) mu16; typedef u32 __attribute__((aligned(1),may_alias)) mu32; typedef u64 __attribute__((aligned(1),may_alias)) mu64; typedef long double __attribute__((aligned(1),may_alias)) mld; typedef float __attribute__((aligned(1),may_alias)) mf; typedef double __attribute__((aligned(1),may_alias)) md;
enum { RAX,RCX,RDX,RBX,RSP,RBP,RSI,RDI };
enum { F_NONE, F_SUB, F_LOGIC, F_ADD, F_UCOMI32, F_UCOMI64, F_BITS, F_SZ, F_ADC, F_SBB };
typedef struct { u64 r[16]; u64 x[16][2]; u64 fpret; u8 fpv[16]; /* layout known to the engine up to here */
  u64 rip; int fl, fw; u64 fa, fb, fr; u64 fc; long double st[8]; int top; u16 fsw; u16 fcw; u64 sh[256]; int nsh; } X;
#define RETMAGIC 0x0000300000000000ULL
u64 x86_steps, x86_maxsteps=200000; int x86_depth;
static u64 msk(int n){ return n==8?~0ULL:(1ULL<<(8*n))-1; }
static u64 ld(u64 p,int n){ switch(n){ case 1: return *(u8*)p; case 2: return *(mu16*)p; case 4: return *(mu32*)p; default: return *(mu64*)p; } }
static void sto(u64 p,u64 v,int n){ switch(n){ case 1: *(u8*)p=(u8)v; break; case 2: *(mu16*)p=(u16)v; break; case 4: *(mu32*)p=(u32)v; break; default: *(mu64*)p=v; } }
static u64 sxt(u64 v,int n){ switch(n){ case 1: return (u64)(i64)(i8)v; case 2: return (u64)(i64)(i16)v; case 4: return (u64)(i64)(i32)v; default: return v; } }
static u64 zxt(u64 v,int n){ switch(n){ case 1: return (u8)v; case 2: return (u16)v; case 4: return (u32)v; default: return v; } }
// conditions. flags are kept as the operands of the instruction that set them
static int fZ(X*s){ switch(s->fl){ case F_SUB: switch(s->fw){case 1:return (u8)s->fa==(u8)s->fb;case 2:return (u16)s->fa==(u16)s->fb;case 4:return (u32)s->fa==(u32)s->fb;default:return s->fa==s->fb;}
  case F_LOGIC: case F_ADD: case F_SZ: case F_ADC: case F_SBB: switch(s->fw){case 1:return (u8)s->fr==0;case 2:return (u16)s->fr==0;case 4:return (u32)s->fr==0;default:return s->fr==0;}
  case F_UCOMI32: { float a=*(mf*)&s->fa,b=*(mf*)&s->fb; return !(a<b)&!(a>b); } case F_UCOMI64: { double a=*(md*)&s->fa,b=*(md*)&s->fb; return !(a<b)&!(a>b); } case F_BITS: return (s->fr>>6)&1; } sx_unsupported("Z flag undefined at",s->rip); }
static int fC(X*s){ switch(s->fl){ case F_SUB: switch(s->fw){case 1:return (u8)s->fa<(u8)s->fb;case 2:return (u16)s->fa<(u16)s->fb;case 4:return (u32)s->fa<(u32)s->fb;default:return s->fa<s->fb;}
  case F_LOGIC: return 0; case F_ADD: switch(s->fw){case 1:return (u8)s->fr<(u8)s->fa;case 2:return (u16)s->fr<(u16)s->fa;case 4:return (u32)s->fr<(u32)s->fa;default:return s->fr<s->fa;} case F_SZ: case F_ADC: case F_SBB: return (int)s->fc;
  case F_UCOMI32: { float a=*(mf*)&s->fa,b=*(mf*)&s->fb; return !(a>=b); } case F_UCOMI64: { double a=*(md*)&s->fa,b=*(md*)&s->fb; return !(a>=b); } case F_BITS: return s->fr&1; } sx_unsupported("C flag undefined at",s->rip); }
static int fS(X*s){ u64 v; switch(s->fl){ case F_SUB: v=s->fa-s->fb; break; case F_LOGIC: case F_ADD: case F_SZ: case F_ADC: case F_SBB: v=s->fr; break; case F_BITS: return (s->fr>>7)&1; case F_UCOMI32: case F_UCOMI64: return 0; default: sx_unsupported("S flag undefined at",s->rip); } switch(s->fw){case 1:return (i8)v<0;case 2:return (i16)v<0;case 4:return (i32)v<0;default:return (i64)v<0;} }
static int fO(X*s){ u64 v; switch(s->fl){ case F_SUB: v=(s->fa^s->fb)&(s->fa^(s->fa-s->fb)); break; case F_LOGIC: case F_UCOMI32: case F_UCOMI64: return 0; case F_ADD: v=~(s->fa^s->fb)&(s->fa^s->fr); break; default: sx_unsupported("O flag undefined at",s->rip); } switch(s->fw){case 1:return (i8)v<0;case 2:return (i16)v<0;case 4:return (i32)v<0;default:return (i64)v<0;} }
static int fL(X*s){ if(s->fl==F_SUB) switch(s->fw){case 1:return (i8)s->fa<(i8)s->fb;case 2:return (i16)s->fa<(i16)s->fb;case 4:return (i32)s->fa<(i32)s->fb;default:return (i64)s->fa<(i64)s->fb;} return fS(s)^fO(s); }
static int fLE(X*s){ if(s->fl==F_SUB) switch(s->fw){case 1:return (i8)s->fa<=(i8)s->fb;case 2:return (i16)s->fa<=(i16)s->fb;case 4:return (i32)s->fa<=(i32)s->fb;default:return (i64)s->fa<=(i64)s->fb;} return fL(s)|fZ(s); }
static int fBE(X*s){ if(s->fl==F_SUB) switch(s->fw){case 1:return (u8)s->fa<=(u8)s->fb;case 2:return (u16)s->fa<=(u16)s->fb;case 4:return (u32)s->fa<=(u32)s->fb;default:return s->fa<=s->fb;}
  if(s->fl==F_UCOMI32){ float a=*(mf*)&s->fa,b=*(mf*)&s->fb; return !(a>b); } if(s->fl==F_UCOMI64){ double a=*(md*)&s->fa,b=*(md*)&s->fb; return !(a>b); } return fC(s)|fZ(s); }
static int fP(X*s){ if(s->fl==F_UCOMI32){ float a=*(mf*)&s->fa,b=*(mf*)&s->fb; return __builtin_isunordered(a,b); } if(s->fl==F_UCOMI64){ double a=*(md*)&s->fa,b=*(md*)&s->fb; return __builtin_isunordered(a,b); }
  u64 v; switch(s->fl){ case F_SUB: v=s->fa-s->fb; break; case F_LOGIC: case F_ADD: case F_SZ: case F_ADC: case F_SBB: v=s->fr; break; case F_BITS: return (s->fr>>2)&1; default: sx_unsupported("P flag undefined at",s->rip); } v^=v>>4; v^=v>>2; v^=v>>1; return !(v&1); }
static int cond(X*s,int c){ int v; switch(c>>1){ case 0: v=fO(s); break; case 1: v=fC(s); break; case 2: v=fZ(s); break; case 3: v=fBE(s); break; case 4: v=fS(s); break; case 5: v=fP(s); break; case 6: v=fL(s); break; default: v=fLE(s); } return (c&1)?!v:v; }
typedef struct { int rex,w,rr,xx,bb,op66,f2,f3,lock; int mod,reg,rm; u64 ea; int isreg; } D;
static u64 rg(X*s,D*d,int i,int n){ if(n==1&&!d->rex&&i>=4&&i<8) return (u8)(s->r[i-4]>>8); return zxt(s->r[i],n); }
static void wg(X*s,D*d,int i,u64 v,int n){ switch(n){ case 8: s->r[i]=v; break; case 4: s->r[i]=(u32)v; break; case 2: s->r[i]=(s->r[i]&~0xffffULL)|(u16)v; break; case 1: if(!d->rex&&i>=4&&i<8) s->r[i-4]=(s->r[i-4]&~0xff00ULL)|((u64)(u8)v<<8); else s->r[i]=(s->r[i]&~0xffULL)|(u8)v; } }
static void modrm(X*s,D*d,int immlen){
  u8 m=*(u8*)s->rip++; d->mod=m>>6; d->reg=((m>>3)&7)|d->rr; int rm=m&7; d->isreg=d->mod==3; if(d->isreg){ d->rm=rm|d->bb; return; }
  u64 base=0; 
  if(rm==4){ u8 sib=*(u8*)s->rip++; int sc=sib>>6, ix=((sib>>3)&7)|d->xx, bs=(sib&7); if(bs==5&&d->mod==0){ base=(u64)(i64)*(i32*)s->rip; s->rip+=4; } else base=s->r[bs|d->bb]; if(ix!=4) base+=s->r[ix]<<sc; }
  else if(rm==5&&d->mod==0){ i64 dd=(i64)(i32)*(mu32*)s->rip; s->rip+=4; base=s->rip+immlen+dd; }
  else base=s->r[rm|d->bb];
  if(d->mod==1){ base+=(u64)(i64)*(i8*)s->rip; s->rip++; } else if(d->mod==2){ base+=(u64)(i64)(i32)*(mu32*)s->rip; s->rip+=4; }
  d->ea=base; }
static u64 rm_get(X*s,D*d,int n){ return d->isreg?rg(s,d,d->rm,n):ld(d->ea,n); }
static void rm_put(X*s,D*d,u64 v,int n){ if(d->isreg) wg(s,d,d->rm,v,n); else sto(d->ea,v,n); }
static u64 alu(X*s,int k,u64 a,u64 b,int n){ u64 r;
  switch(k){ case 0: switch(n){case 1: r=(u8)((u8)a+(u8)b);break;case 2:r=(u16)((u16)a+(u16)b);break;case 4:r=(u32)a+(u32)b;break;default:r=a+b;} s->fl=F_ADD; break;
  case 1: r=a|b; s->fl=F_LOGIC; break; case 4: r=a&b; s->fl=F_LOGIC; break; case 6: r=a^b; s->fl=F_LOGIC; break;
  case 5: case 7: switch(n){case 1: r=(u8)((u8)a-(u8)b);break;case 2:r=(u16)((u16)a-(u16)b);break;case 4:r=(u32)a-(u32)b;break;default:r=a-b;} s->fl=F_SUB; break;
  case 2: { u64 c=fC(s); r=zxt(a+b+c,n); s->fc= n==8? (c? r<=a : r<a) : (zxt(a,n)+zxt(b,n)+c)>>(8*n); s->fl=F_ADC; break; }
  default: { u64 c=fC(s); r=zxt(a-b-c,n); s->fc= c? zxt(a,n)<=zxt(b,n) : zxt(a,n)<zxt(b,n); s->fl=F_SBB; break; } }
  s->fw=n; s->fa=a; s->fb=b; s->fr=r; return r; }
static void shpush(X*s,u64 v){ if(s->nsh==256) sx_giveup("emulated call depth"); s->sh[s->nsh++]=v; }
static void push(X*s,u64 v){ s->r[RSP]-=8; *(mu64*)s->r[RSP]=v; }
static u64 pop(X*s){ u64 v=*(mu64*)s->r[RSP]; s->r[RSP]+=8; return v; }
static void fpush(X*s,long double v){ s->top=(s->top-1)&7; s->st[s->top]=v; }
static long double fpop(X*s){ long double v=s->st[s->top]; s->top=(s->top+1)&7; return v; }
static void fcmpx(X*s,long double a,long double b){ int un=__builtin_isunordered(a,b),lt=a<b,eq=a==b; s->fsw=(s->fsw&~0x4500)|(u16)((un|lt)<<8)|(u16)(un<<10)|(u16)((un|eq)<<14); }
static long double fop(int k,long double a,long double b){ switch(k){ case 0: return a+b; case 1: return a*b; case 4: return a-b; case 5: return b-a; case 6: return a/b; case 7: return b/a; } sx_giveup("x87 operation"); }
static u64 mul32(u32 a,u32 b){ return (u64)a*b; }
int x86_run(X*s);
// call of a function that may be compiled (engine) or emitted code
static int isemu(u64 a){ return (a>>28)!=(0x0000200000000000ULL>>28); }
static void docall(X*s,u64 t){ // return address already pushed
  if(isemu(t)){ s->rip=t; return; }
  s->fpret=0; sx_native_call(t,s); 
  // the callee may clobber caller-saved registers
  u64 *g=s->r; g[RCX]=0xC1C1C1C1C1C1C1C1ULL; g[RSI]=0xC6C6C6C6C6C6C6C6ULL; g[RDI]=0xC7C7C7C7C7C7C7C7ULL; for(int i=8;i<12;i++) g[i]=0xC8C8C8C8C8C8C8C8ULL; for(int i=2;i<16;i++) s->x[i][0]=s->x[i][1]=0x7ff7C9C9C9C9C9C9ULL; s->fl=F_NONE;
  if(s->fpret) fpush(s,*(mld*)s->fpv);
  s->rip=pop(s); if(s->nsh) s->nsh--; }
static u64 shift(X*s,int k,u64 v,u64 c,int n){ // c masked
  u64 r; switch(k){
   case 4: case 6: r= n==8? v<<c : n==4? (u64)((u32)v<<(u32)c) : zxt(v<<c,n); break;
   case 5: r= n==8? v>>c : n==4? (u64)((u32)v>>(u32)c) : zxt(v,n)>>c; break;
   case 7: r= n==8? (u64)((i64)v>>c) : n==4? (u64)(u32)((i32)v>>(u32)c) : zxt((u64)((i64)sxt(v,n)>>c),n); break;
   case 0: { unsigned b=8*n; c%=b; r= c? zxt((v<<c)|(zxt(v,n)>>(b-c)),n):v; break; }
   case 1: { unsigned b=8*n; c%=b; r= c? zxt((zxt(v,n)>>c)|(v<<(b-c)),n):v; break; }
   default: sx_unsupported("rotate through carry",s->rip); }
  s->fl=F_NONE; return r; }
int x86_run(X*s){
  for(;;){
    if(s->rip==RETMAGIC) return 0;
    if(++x86_steps>x86_maxsteps){ sx_fail("emitted code runs past the step limit"); }
    D d; memset(&d,0,sizeof d); u64 ip0=s->rip; u8 op;
    for(;;){ op=*(u8*)s->rip++; if(op==0x66) d.op66=1; else if(op==0xf2) d.f2=1; else if(op==0xf3) d.f3=1; else if(op==0xf0) d.lock=1; else break; }
    if((op&0xf0)==0x40){ d.rex=op; d.w=(op>>3)&1; d.rr=(op&4)<<1; d.xx=(op&2)<<2; d.bb=(op&1)<<3; op=*(u8*)s->rip++; }
    int n= d.w?8:d.op66?2:4;
    if(op<0x40&&(op&7)<6){ int k=op>>3; int m=op&1?n:1; u64 a,b;
      switch(op&7){ case 0: case 1: modrm(s,&d,0); a=rm_get(s,&d,m); b=rg(s,&d,d.reg,m); a=alu(s,k,a,b,m); if(k!=7) rm_put(s,&d,a,m); break;
        case 2: case 3: modrm(s,&d,0); a=rg(s,&d,d.reg,m); b=rm_get(s,&d,m); a=alu(s,k,a,b,m); if(k!=7) wg(s,&d,d.reg,a,m); break;
        case 4: b=*(u8*)s->rip++; a=alu(s,k,rg(s,&d,0,1),b,1); if(k!=7) wg(s,&d,0,a,1); break;
        default: { int il=n==2?2:4; b=sxt(ld(s->rip,il),il); s->rip+=il; a=alu(s,k,rg(s,&d,0,n),zxt(b,n),n); if(k!=7) wg(s,&d,0,a,n); } }
      continue; }
    if(op>=0x50&&op<0x58){ u64 v=s->r[(op&7)|d.bb]; push(s,v); continue; }
    if(op>=0x58&&op<0x60){ u64 v=pop(s); s->r[(op&7)|d.bb]=v; continue; }
    if(op>=0x70&&op<0x80){ i64 o=(i64)*(i8*)s->rip++; if(cond(s,op&15)) s->rip+=o; continue; }
    if(op>=0xb0&&op<0xb8){ u64 v=*(u8*)s->rip++; wg(s,&d,(op&7)|d.bb,v,1); continue; }
    if(op>=0xb8&&op<0xc0){ u64 v=ld(s->rip,n); s->rip+=n; wg(s,&d,(op&7)|d.bb,v,n); continue; }
    if(op>0x90&&op<0x98){ int r=(op&7)|d.bb; u64 a=rg(s,&d,0,n),b=rg(s,&d,r,n); wg(s,&d,0,b,n); wg(s,&d,r,a,n); continue; }
    switch(op){
    case 0x63: modrm(s,&d,0); { u64 v=rm_get(s,&d,4); wg(s,&d,d.reg,sxt(v,4),n); } break;
    case 0x68: push(s,sxt(ld(s->rip,4),4)); s->rip+=4; break; case 0x6a: push(s,(u64)(i64)*(i8*)s->rip); s->rip++; break;
    case 0x69: case 0x6b: { int il=op==0x6b?1:(n==2?2:4); modrm(s,&d,il); u64 a=rm_get(s,&d,n),b=sxt(ld(s->rip,il),il); s->rip+=il; u64 r= n==8?a*b:(u64)((u32)a*(u32)b); wg(s,&d,d.reg,r,n); s->fl=F_NONE; break; }
    case 0x80: case 0x81: case 0x83: { int m=op==0x80?1:n; int il=op==0x81?(n==2?2:4):1; modrm(s,&d,il); u64 b=zxt(sxt(ld(s->rip,il),il),m); s->rip+=il; int k=d.reg&7; u64 a=alu(s,k,rm_get(s,&d,m),b,m); if(k!=7) rm_put(s,&d,a,m); break; }
    case 0x84: case 0x85: { int m=op&1?n:1; modrm(s,&d,0); alu(s,4,rm_get(s,&d,m),rg(s,&d,d.reg,m),m); break; }
    case 0x86: case 0x87: { int m=op&1?n:1; modrm(s,&d,0); u64 a=rm_get(s,&d,m),b=rg(s,&d,d.reg,m); rm_put(s,&d,b,m); wg(s,&d,d.reg,a,m); break; }
    case 0x88: case 0x89: { int m=op&1?n:1; modrm(s,&d,0); rm_put(s,&d,rg(s,&d,d.reg,m),m); break; }
    case 0x8a: case 0x8b: { int m=op&1?n:1; modrm(s,&d,0); wg(s,&d,d.reg,rm_get(s,&d,m),m); break; }
    case 0x8d: modrm(s,&d,0); wg(s,&d,d.reg,d.ea,n); break;
    case 0x8f: { modrm(s,&d,0); u64 v=pop(s); rm_put(s,&d,v,8); break; }
    case 0x90: break;
    case 0x98: { u64 v=rg(s,&d,0,n/2); wg(s,&d,0,sxt(v,n/2),n); break; }
    case 0x99: { u64 v; if(n==8) v=(u64)((i64)s->r[0]>>63); else if(n==4) v=(u32)((i32)s->r[0]>>31); else v=(u16)((i16)s->r[0]>>15); wg(s,&d,2,v,n); break; }
    case 0xa4: case 0xa5: case 0xaa: case 0xab: { int m=op&1?n:1; u64 c=1; if(d.f3) c=sx_conc(s->r[RCX]); for(;c;c--){ u64 v= op<0xa8?ld(s->r[RSI],m):rg(s,&d,0,m); sto(s->r[RDI],v,m); s->r[RDI]+=m; if(op<0xa8) s->r[RSI]+=m; if(d.f3) s->r[RCX]--; } break; }
    case 0xa8: case 0xa9: { int m=op&1?n:1, il=m==8?4:m; u64 b=zxt(sxt(ld(s->rip,il),il),m); s->rip+=il; alu(s,4,rg(s,&d,0,m),b,m); break; }
    case 0xc0: case 0xc1: { int m=op&1?n:1; modrm(s,&d,1); u64 c=*(u8*)s->rip++ & (m==8?63:31); u64 v=rm_get(s,&d,m); if(c) rm_put(s,&d,shift(s,d.reg&7,v,c,m),m); else rm_put(s,&d,v,m); break; }
    case 0xd0: case 0xd1: { int m=op&1?n:1; modrm(s,&d,0); u64 v=rm_get(s,&d,m); u64 r=shift(s,d.reg&7,v,1,m); rm_put(s,&d,r,m); if((d.reg&7)==5||(d.reg&7)==7){ s->fl=F_SZ; s->fw=m; s->fr=r; s->fc=v&1; } break; }
    case 0xd2: case 0xd3: { int m=op&1?n:1; modrm(s,&d,0); u64 c=(m==8? (u64)(u8)s->r[RCX]&63 : (u64)((u32)(u8)s->r[RCX]&31)); rm_put(s,&d,shift(s,d.reg&7,rm_get(s,&d,m),c,m),m); break; }
    case 0xc2: { u64 k=*(mu16*)s->rip; u64 t=pop(s); s->r[RSP]+=k; s->rip=t; break; }
    case 0xc3: s->rip=pop(s); if(s->nsh) s->nsh--; if(sx_is_symbolic(s->rip)){ sx_assert(s->rip==s->sh[s->nsh],"return address overwritten with data"); s->rip=s->sh[s->nsh]; } break;
    case 0xc6: case 0xc7: { int m=op&1?n:1, il=m==8?4:m; modrm(s,&d,il); u64 v=sxt(ld(s->rip,il),il); s->rip+=il; rm_put(s,&d,v,m); break; }
    case 0xc9: s->r[RSP]=s->r[RBP]; s->r[RBP]=pop(s); break;
    case 0xcc: sx_fail("int3 executed"); 
    case 0xe8: { i64 o=(i64)(i32)*(mu32*)s->rip; s->rip+=4; u64 ra=s->rip; push(s,ra); shpush(s,ra); docall(s,ra+o); break; }
    case 0xe9: { i64 o=(i64)(i32)*(mu32*)s->rip; s->rip+=4; s->rip+=o; goto jumped; }
    case 0xeb: { i64 o=(i64)*(i8*)s->rip++; s->rip+=o; break; }
    case 0xf6: case 0xf7: { int m=op&1?n:1; int k=((*(u8*)s->rip)>>3)&7; modrm(s,&d,k<2?(m==8?4:m):0); u64 v=rm_get(s,&d,m);
        switch(k){ case 0: case 1: { int il=m==8?4:m; u64 b=zxt(sxt(ld(s->rip,il),il),m); s->rip+=il; alu(s,4,v,b,m); break; }
        case 2: rm_put(s,&d,~v,m); break; case 3: { u64 r=alu(s,5,0,v,m); rm_put(s,&d,r,m); break; }
        case 4: if(m==8){ u64 a=s->r[0]; s->r[0]=a*v; s->r[2]=sx_mulhu(a,v); } else if(m==4){ u64 p=mul32((u32)s->r[0],(u32)v); s->r[0]=(u32)p; s->r[2]=(u32)(p>>32); } else sx_unsupported("mul width",ip0); s->fl=F_NONE; break;
        case 5: if(m==8){ u64 a=s->r[0]; s->r[0]=a*v; s->r[2]=sx_mulhs(a,v); } else if(m==4){ i64 p=(i64)(i32)s->r[0]*(i32)v; s->r[0]=(u32)p; s->r[2]=(u32)((u64)p>>32); } else sx_unsupported("imul width",ip0); s->fl=F_NONE; break;
        case 6: if(m==8){ u64 a=s->r[0]; if(s->r[2]!=0) sx_unsupported("128-bit division",ip0); if(v==0) sx_fail("emitted code divides by zero"); s->r[0]=a/v; s->r[2]=a%v; } else if(m==4){ u32 a=(u32)s->r[0],b=(u32)v; if(b==0) sx_fail("emitted code divides by zero"); if((u32)s->r[2]!=0){ u64 w=((u64)(u32)s->r[2]<<32)|a; if(w/b>>32) sx_fail("division overflow"); s->r[0]=(u32)(w/b); s->r[2]=(u32)(w%b); } else { s->r[0]=(u32)(a/b); s->r[2]=(u32)(a%b); } } else sx_unsupported("div width",ip0); s->fl=F_NONE; break;
        default: if(m==8){ i64 a=(i64)s->r[0]; if(s->r[2]!=(u64)(a>>63)) sx_unsupported("128-bit signed division",ip0); if(v==0) sx_fail("emitted code divides by zero"); s->r[0]=(u64)(a/(i64)v); s->r[2]=(u64)(a%(i64)v); }
                 else if(m==4){ i32 a=(i32)s->r[0],b=(i32)v; if(b==0) sx_fail("emitted code divides by zero"); if((u32)s->r[2]!=(u32)(a>>31)){ i64 w=(i64)(((u64)(u32)s->r[2]<<32)|(u32)a); i64 q=w/b; if(q!=(i32)q) sx_fail("division overflow"); s->r[0]=(u32)q; s->r[2]=(u32)(w%b); } else { s->r[0]=(u32)(a/b); s->r[2]=(u32)(a%b); } } else sx_unsupported("idiv width",ip0); s->fl=F_NONE; break; }
        break; }
    case 0xfe: case 0xff: { int m=op&1?n:1; int k=((*(u8*)s->rip)>>3)&7; modrm(s,&d,0);
        if(k<2){ u64 v=rm_get(s,&d,m); u64 c=s->fl?fC(s):0; u64 r=alu(s,k?5:0,v,1,m); rm_put(s,&d,r,m); s->fl=F_SZ; s->fr=r; s->fc=c; }
        else if(k==2){ u64 t=rm_get(s,&d,8); push(s,s->rip); shpush(s,s->rip); docall(s,sx_conc(t)); } else if(k==4){ u64 t=sx_conc(rm_get(s,&d,8)); s->rip=t; goto jumped; } else if(k==6) push(s,rm_get(s,&d,8)); else sx_unsupported("opcode ff",ip0);
        break; }
    case 0xd8: case 0xd9: case 0xda: case 0xdb: case 0xdc: case 0xdd: case 0xde: case 0xdf: { u8 mb=*(u8*)s->rip; int k=(mb>>3)&7; 
        if(mb>=0xc0){ s->rip++; int i=mb&7; long double *a=&s->st[s->top],*b=&s->st[(s->top+i)&7];
          if(op==0xd9&&k==0) fpush(s,*b); else if(op==0xd9&&k==1){ long double t=*a; *a=*b; *b=t; } else if(mb==0xe0&&op==0xd9) *a=-*a; else if(mb==0xe1&&op==0xd9){ *a=__builtin_fabsl(*a); } else if(mb==0xe8&&op==0xd9) fpush(s,1.0L); else if(mb==0xee&&op==0xd9) fpush(s,0.0L);
          else if(op==0xda&&mb==0xe9){ fcmpx(s,*a,*b); fpop(s); fpop(s); } else if(op==0xde&&mb==0xd9){ fcmpx(s,*a,*b); fpop(s); fpop(s); }
          else if(op==0xdf&&mb==0xe0) s->r[0]=(s->r[0]&~0xffffULL)|s->fsw;
          else if(op==0xdd&&k==3){ *b=*a; fpop(s); } else if(op==0xdd&&k==2) *b=*a; else if(op==0xdd&&k==0){}
          else if(op==0xde){ // fxxxp st(i),st : sub/subr swapped in the register-pop encodings
            long double x=*b,y=*a; switch(k){ case 0: *b=x+y; break; case 1: *b=x*y; break; case 4: *b=y-x; break; case 5: *b=x-y; break; case 6: *b=y/x; break; case 7: *b=x/y; break; default: sx_unsupported("x87",ip0);} fpop(s); }
          else if(op==0xd8){ if(k==2||k==3){ fcmpx(s,*a,*b); if(k==3) fpop(s); } else *a=fop(k,*a,*b); }
          else if((op==0xdb||op==0xdf)&&(k==5||k==6)){ long double x=*a,y=*b; int un=__builtin_isunordered(x,y),lt=x<y,eq=x==y; s->fl=F_BITS; s->fr=(u64)(un|lt)|((u64)un<<2)|((u64)(un|eq)<<6); if(op==0xdf) fpop(s); }
          else sx_unsupported("x87 opcode",ip0); }
        else { modrm(s,&d,0); u64 p=d.ea; switch(op){
          case 0xd9: if(k==0) fpush(s,*(mf*)p); else if(k==2) *(mf*)p=s->st[s->top]; else if(k==3) *(mf*)p=fpop(s); else if(k==5) s->fcw=*(mu16*)p; else if(k==7) *(mu16*)p=s->fcw; else sx_unsupported("x87 d9",ip0); break;
          case 0xdd: if(k==0) fpush(s,*(md*)p); else if(k==2) *(md*)p=s->st[s->top]; else if(k==3) *(md*)p=fpop(s); else sx_unsupported("x87 dd",ip0); break;
          case 0xdb: if(k==0) fpush(s,(long double)(i32)*(mu32*)p); else if(k==5){ long double v=*(mld*)p; fpush(s,v); } else if(k==7){ long double v=fpop(s); *(mld*)p=v; } else sx_unsupported("x87 db",ip0); break;
          case 0xdf: if(k==0) fpush(s,(long double)(i16)*(mu16*)p); else if(k==5) fpush(s,(long double)(i64)*(mu64*)p); else if(k==7){ long double v=fpop(s); if((s->fcw&0xc00)!=0xc00) sx_unsupported("fistp rounding",ip0); *(mu64*)p=(u64)(i64)v; } else sx_unsupported("x87 df",ip0); break;
          case 0xd8: s->st[s->top]=fop(k,s->st[s->top],*(mf*)p); break; case 0xdc: s->st[s->top]=fop(k,s->st[s->top],*(md*)p); break;
          default: sx_unsupported("x87",ip0); } }
        break; }
    case 0x9b: break;
    case 0x0f: { u8 o2=*(u8*)s->rip++;
      if(o2>=0x80&&o2<0x90){ i64 o=(i64)(i32)*(mu32*)s->rip; s->rip+=4; if(cond(s,o2&15)) s->rip+=o; break; }
      if(o2>=0x90&&o2<0xa0){ modrm(s,&d,0); rm_put(s,&d,(u64)(u8)cond(s,o2&15),1); break; }
      if(o2>=0x40&&o2<0x50){ modrm(s,&d,0); u64 v=rm_get(s,&d,n); if(cond(s,o2&15)) wg(s,&d,d.reg,v,n); else wg(s,&d,d.reg,rg(s,&d,d.reg,n),n); break; }
      if(o2>=0xc8&&o2<0xd0){ int r=(o2&7)|d.bb; s->r[r]= d.w?__builtin_bswap64(s->r[r]):(u64)__builtin_bswap32((u32)s->r[r]); break; }
      switch(o2){
      case 0x0b: sx_fail("ud2 executed");
      case 0xa2: s->r[0]=s->r[1]=s->r[2]=s->r[3]=0; break;
      case 0x1f: modrm(s,&d,0); break;
      case 0xae: modrm(s,&d,0); break; // fences
      case 0xaf: { modrm(s,&d,0); u64 a=rg(s,&d,d.reg,n),b=rm_get(s,&d,n); u64 r= n==8?a*b:n==4?(u64)((u32)a*(u32)b):(u64)(u16)((u32)(u16)a*(u32)(u16)b); wg(s,&d,d.reg,r,n); s->fl=F_NONE; break; }
      case 0xb6: modrm(s,&d,0); wg(s,&d,d.reg,rm_get(s,&d,1),n); break; case 0xb7: modrm(s,&d,0); wg(s,&d,d.reg,rm_get(s,&d,2),n); break;
      case 0xbe: modrm(s,&d,0); wg(s,&d,d.reg,sxt(rm_get(s,&d,1),1),n); break; case 0xbf: modrm(s,&d,0); wg(s,&d,d.reg,sxt(rm_get(s,&d,2),2),n); break;
      case 0xb0: case 0xb1: { int m=o2&1?n:1; modrm(s,&d,0); u64 c=rm_get(s,&d,m),a=rg(s,&d,0,m); alu(s,7,a,c,m); if(zxt(a,m)==zxt(c,m)) rm_put(s,&d,rg(s,&d,d.reg,m),m); else wg(s,&d,0,c,m); break; }
      case 0xc0: case 0xc1: { int m=o2&1?n:1; modrm(s,&d,0); u64 c=rm_get(s,&d,m),b=rg(s,&d,d.reg,m); u64 r=alu(s,0,c,b,m); wg(s,&d,d.reg,c,m); rm_put(s,&d,r,m); break; }
      case 0xbc: case 0xbd: { modrm(s,&d,0); u64 v=rm_get(s,&d,n); if(v==0){ s->fl=F_BITS; s->fr=64; } else { u64 r= n==8? (o2==0xbc?__builtin_ctzll(v):63-__builtin_clzll(v)) : (o2==0xbc?__builtin_ctz((u32)v):31-__builtin_clz((u32)v)); wg(s,&d,d.reg,r,n); s->fl=F_BITS; s->fr=0; } break; }
      case 0xa3: case 0xba: { int il=o2==0xba; modrm(s,&d,il); u64 b= il?*(u8*)s->rip++:rg(s,&d,d.reg,n); if(!d.isreg) sx_unsupported("bt memory",ip0); b&=8*n-1; u64 v=rm_get(s,&d,n); s->fl=F_BITS; s->fr=(v>>b)&1; int k=il?(d.reg&7):4; if(k==5) rm_put(s,&d,v|(1ULL<<b),n); if(k==6) rm_put(s,&d,v&~(1ULL<<b),n); if(k==7) rm_put(s,&d,v^(1ULL<<b),n); break; }
      // SSE
      case 0x10: case 0x28: case 0x6f: { modrm(s,&d,0); int m= o2==0x10? (d.f3?4:d.f2?8:16):16; if(o2==0x6f&&!d.op66&&!d.f3) sx_unsupported("mmx",ip0);
          if(d.isreg){ if(m==4) s->x[d.reg][0]=(s->x[d.reg][0]&~0xffffffffULL)|(u32)s->x[d.rm][0]; else { s->x[d.reg][0]=s->x[d.rm][0]; if(m==16) s->x[d.reg][1]=s->x[d.rm][1]; } }
          else { if((o2==0x28||(o2==0x6f&&d.op66))&&(d.ea&15)) sx_fail("misaligned SSE access in emitted code"); s->x[d.reg][0]=m==4?ld(d.ea,4):ld(d.ea,8); s->x[d.reg][1]=m==16?ld(d.ea+8,8):0; } break; }
      case 0x11: case 0x29: case 0x7f: { modrm(s,&d,0); int m= o2==0x11? (d.f3?4:d.f2?8:16):16;
          if(d.isreg){ if(m==4) s->x[d.rm][0]=(s->x[d.rm][0]&~0xffffffffULL)|(u32)s->x[d.reg][0]; else { s->x[d.rm][0]=s->x[d.reg][0]; if(m==16) s->x[d.rm][1]=s->x[d.reg][1]; } }
          else { if((o2==0x29||(o2==0x7f&&d.op66))&&(d.ea&15)) sx_fail("misaligned SSE access in emitted code"); sto(d.ea,s->x[d.reg][0],m==4?4:8); if(m==16) sto(d.ea+8,s->x[d.reg][1],8); } break; }
      case 0x6e: modrm(s,&d,0); s->x[d.reg][0]=rm_get(s,&d,d.w?8:4); s->x[d.reg][1]=0; break;
      case 0x7e: modrm(s,&d,0); if(d.f3){ s->x[d.reg][0]=d.isreg?s->x[d.rm][0]:ld(d.ea,8); s->x[d.reg][1]=0; } else rm_put(s,&d,d.w?s->x[d.reg][0]:(u32)s->x[d.reg][0],d.w?8:4); break;
      case 0xd6: modrm(s,&d,0); if(d.isreg){ s->x[d.rm][0]=s->x[d.reg][0]; s->x[d.rm][1]=0; } else sto(d.ea,s->x[d.reg][0],8); break;
      case 0x14: { modrm(s,&d,0); u64 b0=d.isreg?s->x[d.rm][0]:ld(d.ea,8); u64 a0=s->x[d.reg][0]; if(d.op66) s->x[d.reg][1]=b0; else { s->x[d.reg][0]=(u32)a0|((u64)(u32)b0<<32); s->x[d.reg][1]=(a0>>32)|(b0>>32<<32); } break; }
      case 0x57: case 0xef: case 0x54: case 0x55: case 0x56: { modrm(s,&d,0); u64 b0=d.isreg?s->x[d.rm][0]:ld(d.ea,8),b1=d.isreg?s->x[d.rm][1]:ld(d.ea+8,8); u64*a=s->x[d.reg]; if(o2==0x54){ a[0]&=b0; a[1]&=b1; } else if(o2==0x55){ a[0]=~a[0]&b0; a[1]=~a[1]&b1; } else if(o2==0x56){ a[0]|=b0; a[1]|=b1; } else { a[0]^=b0; a[1]^=b1; } break; }
      case 0x2e: case 0x2f: { modrm(s,&d,0); if(d.op66){ s->fl=F_UCOMI64; s->fa=s->x[d.reg][0]; s->fb=d.isreg?s->x[d.rm][0]:ld(d.ea,8); } else { s->fl=F_UCOMI32; s->fa=(u32)s->x[d.reg][0]; s->fb=d.isreg?(u32)s->x[d.rm][0]:ld(d.ea,4); } break; }
      case 0x51: case 0x58: case 0x59: case 0x5c: case 0x5e: case 0x5d: case 0x5f: { modrm(s,&d,0); if(d.f2){ u64 t=d.isreg?s->x[d.rm][0]:ld(d.ea,8); double b=*(md*)&t,a=*(md*)&s->x[d.reg][0],r; switch(o2){ case 0x58: r=a+b; break; case 0x59: r=a*b; break; case 0x5c: r=a-b; break; case 0x5e: r=a/b; break; case 0x51: r=__builtin_sqrt(b); break; case 0x5d: r=a<b?a:b; break; default: r=a>b?a:b; } *(md*)&s->x[d.reg][0]=r; }
          else if(d.f3){ u32 t=d.isreg?(u32)s->x[d.rm][0]:(u32)ld(d.ea,4); float b=*(mf*)&t,a=*(mf*)&s->x[d.reg][0],r; switch(o2){ case 0x58: r=a+b; break; case 0x59: r=a*b; break; case 0x5c: r=a-b; break; case 0x5e: r=a/b; break; case 0x51: r=__builtin_sqrtf(b); break; case 0x5d: r=a<b?a:b; break; default: r=a>b?a:b; } *(mf*)&s->x[d.reg][0]=r; }
          else sx_unsupported("packed sse",ip0); break; }
      case 0x5a: { modrm(s,&d,0); if(d.f2){ u64 t=d.isreg?s->x[d.rm][0]:ld(d.ea,8); float r=(float)*(md*)&t; *(mf*)&s->x[d.reg][0]=r; } else if(d.f3){ u32 t=d.isreg?(u32)s->x[d.rm][0]:(u32)ld(d.ea,4); double r=(double)*(mf*)&t; *(md*)&s->x[d.reg][0]=r; }
          else if(d.op66){ u64 t0=d.isreg?s->x[d.rm][0]:ld(d.ea,8); float r0=(float)*(md*)&t0; u64 o=0; *(mf*)&o=r0; u64 hi=(d.isreg?s->x[d.rm][1]:ld(d.ea+8,8)); float r1=(float)*(md*)&hi; *(mf*)((char*)&o+4)=r1; s->x[d.reg][0]=o; s->x[d.reg][1]=0; }
          else { u64 t=d.isreg?s->x[d.rm][0]:ld(d.ea,8); u32 lo=(u32)t,hi=(u32)(t>>32); double r0=(double)*(mf*)&lo, r1=(double)*(mf*)&hi; *(md*)&s->x[d.reg][0]=r0; *(md*)&s->x[d.reg][1]=r1; } break; }
      case 0x2a: { modrm(s,&d,0); u64 v=rm_get(s,&d,d.w?8:4); if(d.f2){ double r=d.w?(double)(i64)v:(double)(i32)v; *(md*)&s->x[d.reg][0]=r; } else if(d.f3){ float r=d.w?(float)(i64)v:(float)(i32)v; *(mf*)&s->x[d.reg][0]=r; } else sx_unsupported("cvtpi2ps",ip0); break; }
      case 0x2c: case 0x2d: { modrm(s,&d,0); if(o2==0x2d) sx_unsupported("cvtsd2si",ip0); if(d.f2){ u64 t=d.isreg?s->x[d.rm][0]:ld(d.ea,8); double v=*(md*)&t; if(d.w){ i64 r; if(v>=-9223372036854775808.0&&v<9223372036854775808.0) r=(i64)v; else r=(i64)0x8000000000000000ULL; s->r[d.reg]=(u64)r; } else { i32 r; if(v>-2147483649.0&&v<2147483648.0) r=(i32)v; else r=(i32)0x80000000u; s->r[d.reg]=(u32)r; } }
          else if(d.f3){ u32 t=d.isreg?(u32)s->x[d.rm][0]:(u32)ld(d.ea,4); float v=*(mf*)&t; if(d.w){ i64 r; if(v>=-9223372036854775808.0f&&v<9223372036854775808.0f) r=(i64)v; else r=(i64)0x8000000000000000ULL; s->r[d.reg]=(u64)r; } else { i32 r; if(v>=-2147483648.0f&&v<2147483648.0f) r=(i32)v; else r=(i32)0x80000000u; s->r[d.reg]=(u32)r; } }
          else sx_unsupported("cvtt",ip0); break; }
      default: sx_unsupported("opcode 0f",((u64)o2<<48)|(ip0&0xffffffffffffULL)); }
      break; }
    default: sx_unsupported("opcode",((u64)op<<48)|(ip0&0xffffffffffffULL)); }
    continue;
  jumped:
    if(!isemu(s->rip)&&s->rip!=RETMAGIC) { docall(s,s->rip); } // tail jump to a compiled function (through a PLT slot)
  } }
#define ESTACK 65536
static u64 canary(int i){ return 0x5AFEC0DE00000000ULL+i; }
int x86_checkregs=1;
void x86_enter(sx_x86_call*c){
  if(++x86_depth>64) sx_giveup("emulated call depth");
  X*s=malloc(sizeof(X)); memset(s,0,sizeof *s); char*stk=malloc(ESTACK);
  u64 top=((u64)stk+ESTACK-1024-8*c->nstack)&~15ULL; u64 sp=top; 
  for(unsigned i=0;i<c->nstack;i++) *(mu64*)(sp+8*i)=c->stack[i];
  u64 can=sp+8*c->nstack; for(int i=0;i<8;i++) *(mu64*)(can+8*i)=canary(i);
  for(int i=0;i<16;i++) s->r[i]=0xBAD0BAD000000000ULL+i; for(int i=0;i<16;i++) s->x[i][0]=s->x[i][1]=0x7ff7BAD0BAD00000ULL+i;
  static const int gi[6]={7,6,2,1,8,9}; for(int i=0;i<6;i++) s->r[gi[i]]=c->gpr[i]; for(int i=0;i<8&&i<(int)c->nfp;i++){ s->x[i][0]=c->xmm[i][0]; s->x[i][1]=c->xmm[i][1]; }
  s->r[RAX]=0xABABABABABABAB00ULL|(c->nfp<8?c->nfp:8); s->r[RSP]=sp-8; *(mu64*)(sp-8)=RETMAGIC; shpush(s,RETMAGIC); s->fcw=0x37f; s->rip=c->target; s->top=0;
  u64 cs[6]={s->r[RBX],s->r[RBP],s->r[12],s->r[13],s->r[14],s->r[15]};
  x86_run(s);
  if(x86_checkregs){
    sx_assert(s->r[RSP]==sp,"emitted function does not restore the stack pointer");
    sx_assert(s->r[RBX]==cs[0]&&s->r[RBP]==cs[1]&&s->r[12]==cs[2]&&s->r[13]==cs[3]&&s->r[14]==cs[4]&&s->r[15]==cs[5],"emitted function does not preserve a callee-saved register");
    for(int i=0;i<8;i++) sx_assert(*(mu64*)(can+8*i)==canary(i),"emitted function writes over its caller's frame"); }
  c->rax=s->r[RAX]; c->rdx=s->r[RDX]; c->x0[0]=s->x[0][0]; c->x0[1]=s->x[0][1]; c->x1[0]=s->x[1][0]; c->x1[1]=s->x[1][1];
  long double v=s->st[s->top&7]; *(mld*)c->st0=v; v=s->st[(s->top+1)&7]; *(mld*)c->st1=v; free(stk); free(s); x86_depth--; }
