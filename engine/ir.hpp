#pragma once
#include "expr.hpp"
#include <map>
struct Val { u64 v; Expr *e; };          // e!=null: symbolic, or wide (>64 bit) constant
enum IOp : uint8_t { I_NOP, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL, I_ICALL, I_ALLOCA, I_LOAD, I_STORE, I_LOADA, I_STOREA, I_GEPC, I_GEP1, I_GEPN, I_BIN, I_ADD, I_SUB, I_AND, I_OR, I_XOR, I_SHL, I_MUL,
  I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_FCVT, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_MOV, I_MOVN, I_EXTRELT, I_INSELT, I_FREEZE, I_ATOMICRMW, I_CMPXCHG, I_VAARG, I_EQ, I_NE, I_BAD };
struct Inst { uint8_t op; uint8_t sub; uint16_t w; int32_t dst, a, b, c; };
struct Edge { u32 pc; u32 mv, nmv; };
struct CallSite { u64 fn; int32_t fnop; std::vector<int32_t> args; std::vector<uint16_t> argw; std::vector<u32> byval; std::vector<uint8_t> isfp; int32_t dst; int nret; uint16_t retw; uint8_t retfp; std::vector<uint16_t> retws; std::vector<uint8_t> retfps; bool ret_ptr=false; };
struct SwitchInfo { std::vector<std::pair<u64,u32>> cases; u32 def; std::unordered_map<u64,u32> map; };
struct GepInfo { i64 off; std::vector<std::pair<int32_t,i64>> idx; std::vector<uint16_t> iw; };
struct AggInfo { std::vector<u32> off; std::vector<uint16_t> w; u32 size; };
struct Func {
  std::string name, src; u64 addr=0; int builtin=-1; bool decl=true, vararg=false; Func*impl=nullptr; u32 idx;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<std::pair<int32_t,int32_t>> moves;
  std::vector<CallSite> calls; std::vector<SwitchInfo> sw; std::vector<GepInfo> geps; std::vector<AggInfo> aggs; std::vector<u32> lines;
  int nslots=0; std::vector<int> argslot; std::vector<uint16_t> argw; std::vector<uint8_t> argfp; std::vector<u32> argbyval; std::vector<int> argn;
  uint16_t retw=0; uint8_t retfp=0; int nret=0; std::vector<uint16_t> retws; std::vector<uint8_t> retfps;
  u64 ninst=0; bool repo=false;
};
extern std::vector<Func*> funcs; extern std::unordered_map<std::string,Func*> fbyname; extern std::unordered_map<std::string,u64> globals;
static const u64 FN_BASE=0x0000200000000000ULL; // function "addresses"
static inline Func *funcAt(u64 a){ if(a<FN_BASE) return nullptr; u64 i=(a-FN_BASE); if(i&15) return nullptr; i>>=4; return i<funcs.size()?funcs[i]:nullptr; }
void loadBitcode(const std::vector<std::string>&files);
// memory
static const u64 MEM=0x0000100000000000ULL, MEMSZ=1ULL<<30;
static const u64 SHADOW=0x0000110000000000ULL, SYMT=0x0000120000000000ULL;
static inline bool inarena(u64 p){ return p-MEM<MEMSZ; }
static inline u8 *sh(u64 p){ return (u8*)(SHADOW+(p-MEM)); }
static inline Expr **st(u64 p){ return (Expr**)(SYMT+(p-MEM)*8); }
// shadow bits: 1 readable 2 writable 4 symbolic; 0 = redzone/unmapped; 8 = freed; 16 = jit/exec noted
enum { SH_R=1, SH_W=2, SH_SYM=4, SH_FREED=8 };
u64 galloc(u64 size,u64 align,bool ro); // global area
extern u64 heap_top;
