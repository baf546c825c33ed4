// Symbolic expressions: hash-consed bit-vector/floating terms, simplifier, concrete evaluator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : uint8_t { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FNAN, E_FPCVT, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FSQRT,
  E_MULHU, E_MULHS };

struct VarSet { std::vector<u64> bits; size_t h; };
struct Expr {
  Op op; uint16_t w; uint16_t lo; u32 id;
  Expr *a, *b, *c;
  u128 k;
  u64 gen; u128 val;
  VarSet *vs; Z3_ast z; Expr **bytes; Expr *hnext;
};

static inline u128 maskw(unsigned w){ return w>=128 ? ~(u128)0 : (((u128)1<<w)-1); }
static inline u64 mask64(unsigned w){ return w>=64 ? ~0ULL : ((1ULL<<w)-1); }
static inline i128 sext128(u128 v, unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (i128)((v^m)-m); }
static inline i64 sext64(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ULL<<(w-1); v&=mask64(w); return (i64)((v^m)-m); }

struct ExprCtx {
  // bump allocation
  char *bump=nullptr; size_t left=0;
  static const u32 HB=1<<20;
  Expr **tab; u32 nexpr=0;
  std::vector<Expr*> vars;
  ExprCtx(){ tab=(Expr**)calloc(HB,sizeof(Expr*)); }
  void *alloc(size_t n){ n=(n+15)&~15ull; if(n>left){ size_t c= n>(1<<20)?n:(1<<20); bump=(char*)malloc(c); left=c; } void*p=bump; bump+=n; left-=n; return p; }
  static u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
  Expr *raw(Op op,unsigned w,unsigned lo,Expr*a,Expr*b,Expr*c,u128 k){
    u64 h=op*131+w; h=mix(h,lo); h=mix(h,a?a->id+1:0); h=mix(h,b?b->id+1:0); h=mix(h,c?c->id+1:0); h=mix(h,(u64)k); h=mix(h,(u64)(k>>64));
    u32 s=h&(HB-1);
    for(Expr*e=tab[s];e;e=e->hnext) if(e->op==op&&e->w==w&&e->lo==lo&&e->a==a&&e->b==b&&e->c==c&&e->k==k) return e;
    Expr*e=(Expr*)alloc(sizeof(Expr)); memset((void*)e,0,sizeof *e);
    e->op=op;e->w=w;e->lo=lo;e->a=a;e->b=b;e->c=c;e->k=k;e->id=nexpr++; e->hnext=tab[s]; tab[s]=e; return e;
  }
};
extern ExprCtx X;
struct VarInfo { std::string name; unsigned w; u32 seq; };
extern std::vector<VarInfo> varinfo;

static inline Expr *mkc(u128 v,unsigned w){ return X.raw(E_CONST,w,0,0,0,0,v&maskw(w)); }
static inline bool isc(Expr*e){ return e->op==E_CONST; }
static inline bool isz(Expr*e){ return e->op==E_CONST && e->k==0; }
static inline bool isones(Expr*e){ return e->op==E_CONST && e->k==maskw(e->w); }
Expr *mkvar(const std::string&name,unsigned w);
Expr *mk2(Op op,Expr*a,Expr*b);
Expr *mkextract(Expr*e,unsigned lo,unsigned w);
Expr *mkconcat(Expr*hi,Expr*lo);
Expr *mkzext(Expr*e,unsigned w);
Expr *mksext(Expr*e,unsigned w);
Expr *mkite(Expr*c,Expr*a,Expr*b);
Expr *mknot(Expr*c); // 1-bit
Expr *mkfp1(Op op,Expr*a,unsigned w);   // conversions, sqrt, nan test
static inline Expr *mktrunc(Expr*e,unsigned w){ return mkextract(e,0,w); }
static inline Expr *mkbool(bool b){ return mkc(b,1); }
u128 fpop2(Op op,unsigned w,u128 a,u128 b);
u128 fpop1(Op op,unsigned ws,unsigned wd,u128 a);

struct Model { std::vector<u64> v; };
extern Model cur; extern u64 curgen;
u128 evalE(Expr*e);            // under cur
VarSet *vset(Expr*e);
std::string exprStr(Expr*e,int depth=6);
Expr *underPath(Expr*q,const std::vector<Expr*>&path); // q simplified under the path constraints (equivalent given them)
