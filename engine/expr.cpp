#include "expr.hpp"
#include <map>
ExprCtx X; std::vector<VarInfo> varinfo; Model cur; u64 curgen=1;

Expr *mkvar(const std::string&name,unsigned w){
  u32 id=varinfo.size(); varinfo.push_back({name,w,id});
  Expr*e=X.raw(E_VAR,w,0,0,0,0,id); X.vars.push_back(e);
  if(cur.v.size()<=id) cur.v.resize(id+1,0);
  return e;
}
// ---------- floating point helpers on raw bits
static long double ldof(u128 v){ long double r=0; memcpy(&r,&v,10); return r; }
static u128 ofld(long double d){ u128 v=0; memcpy(&v,&d,10); return v; }
static double dof(u64 v){ double d; memcpy(&d,&v,8); return d; }
static u64 ofd(double d){ u64 v; memcpy(&v,&d,8); return v; }
static float fof(u32 v){ float d; memcpy(&d,&v,4); return d; }
static u32 off(float d){ u32 v; memcpy(&v,&d,4); return v; }
u128 fpop2(Op op,unsigned w,u128 a,u128 b){
#define DO(T,F,U) { T x=F(a),y=F(b); switch(op){ case E_FADD: return U(x+y); case E_FSUB: return U(x-y); case E_FMUL: return U(x*y); case E_FDIV: return U(x/y); \
   case E_FEQ: return x==y; case E_FLT: return x<y; case E_FLE: return x<=y; default: abort(); } }
  if(w==32) DO(float,fof,off) else if(w==64) DO(double,dof,ofd) else DO(long double,ldof,ofld)
#undef DO
}
u128 fpop1(Op op,unsigned ws,unsigned wd,u128 a){
  switch(op){
  case E_FNAN: if(ws==32) return std::isnan(fof(a)); if(ws==64) return std::isnan(dof(a)); return std::isnan(ldof(a));
  case E_FPCVT:
    if(ws==wd) return a;
    if(ws==32) return wd==64? (u128)ofd((double)fof(a)) : ofld(fof(a));
    if(ws==64) return wd==32? (u128)off((float)dof(a)) : ofld(dof(a));
    return wd==32? (u128)off((float)ldof(a)) : (u128)ofd((double)ldof(a));
  case E_FSQRT: if(ws==32) return off(sqrtf(fof(a))); if(ws==64) return ofd(sqrt(dof(a))); return ofld(sqrtl(ldof(a)));
  case E_SITOFP: { i128 s=sext128(a,ws); if(wd==32) return off((float)s); if(wd==64) return ofd((double)s); return ofld((long double)s); }
  case E_UITOFP: { u128 s=a; if(wd==32) return off((float)s); if(wd==64) return ofd((double)s); return ofld((long double)s); }
  case E_FPTOSI: case E_FPTOUI: {
    long double x = ws==32? (long double)fof(a) : ws==64 ? (long double)dof(a) : ldof(a);
    if(std::isnan(x)) return (u128)1<<(wd-1);
    long double t=truncl(x);
    if(op==E_FPTOSI||(wd==64&&t<0)){ long double lim=ldexpl(1,wd-1); // 64-bit unsigned conversion of a negative value: what compilers for x86-64 emit
      if(t>=lim||t< -lim) return (u128)1<<(wd-1); return (u128)(i128)t & maskw(wd); }
    long double lim=ldexpl(1,wd); if(t>=lim||t<0) return (u128)1<<(wd-1); return (u128)t & maskw(wd); }
  default: abort();
  }
}
// conversions of integers that every value survives
static bool fpexact(Expr*a){ unsigned p=a->w==32?24:a->w==64?53:64; return a->a->w<=p+(a->op==E_SITOFP&&a->a->w<=64?1:0)&&a->a->w<=64; }
Expr *mkfp1(Op op,Expr*a,unsigned w){
  if(isc(a)) return mkc(fpop1(op,a->w,w,a->k),w);
  if(op==E_FPCVT){ if(a->w==w) return a;
    if(a->op==E_FPCVT && a->a->w==w && a->w>w) return a->a; // widen then narrow back is the identity (modulo NaN quieting)
    if(a->op==E_FPCVT && a->w>a->a->w && w>=a->a->w) return mkfp1(op,a->a,w); // the detour through a wider type is exact
    if(a->op==E_XOR&&isc(a->b)&&a->b->k==(u128)1<<(a->w-1)) return mk2(E_XOR,mkfp1(op,a->a,w),mkc((u128)1<<(w-1),w)); // the sign is independent
    if((a->op==E_SITOFP||a->op==E_UITOFP)&&fpexact(a)) return mkfp1(a->op,a->a,w); } // an exact conversion in between
  if(op==E_FPTOSI||op==E_FPTOUI){ if(a->op==E_FPCVT&&a->w>a->a->w) return mkfp1(op,a->a,w);
    if(a->op==E_SITOFP&&op==E_FPTOSI&&fpexact(a)&&w>=a->a->w) return mksext(a->a,w);
    if(a->op==E_UITOFP&&fpexact(a)&&w>=a->a->w+(op==E_FPTOSI)) return mkzext(a->a,w); }
  if(op==E_FNAN){ if(a->op==E_SITOFP||a->op==E_UITOFP) return mkbool(false); if(a->op==E_FPCVT) return mkfp1(E_FNAN,a->a,1);
    if(a->op==E_XOR && isc(a->b) && a->b->k==((u128)1<<(a->w-1))) return mkfp1(E_FNAN,a->a,1); }
  if((op==E_SITOFP||op==E_UITOFP)){
    // normalise the source: zero-extended sources are non-negative
    if(a->op==E_ZEXT) return mkfp1(E_UITOFP,a->a,w);
    if(op==E_SITOFP && a->op==E_SEXT) return mkfp1(E_SITOFP,a->a,w);
  }
  return X.raw(op,w,0,a,0,0,0);
}
// ---------- constant evaluation
static u128 ev2(Op op,unsigned w,u128 a,u128 b){ // w = operand width
  u128 m=maskw(w);
  switch(op){
  case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
  case E_UDIV: return b==0? m : a/b; case E_UREM: return b==0? a: a%b;
  case E_SDIV: { i128 x=sext128(a,w),y=sext128(b,w); if(y==0) return x<0? 1: m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
  case E_SREM: { i128 x=sext128(a,w),y=sext128(b,w); if(y==0) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
  case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
  case E_SHL: return b>=w?0:(a<<(unsigned)b)&m; case E_LSHR: return b>=w?0:(a>>(unsigned)b);
  case E_ASHR: { i128 x=sext128(a,w); return (u128)(x>>(b>=w?(w-1):(unsigned)b))&m; }
  case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
  case E_SLT: return sext128(a,w)<sext128(b,w); case E_SLE: return sext128(a,w)<=sext128(b,w);
  case E_MULHU: return ((u128)(u64)a*(u128)(u64)b)>>64; case E_MULHS: return (u128)(((i128)(i64)(u64)a*(i128)(i64)(u64)b)>>64)&m;
  case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FEQ: case E_FLT: case E_FLE: return fpop2(op,w,a,b);
  default: fprintf(stderr,"ev2 op %d\n",op); abort();
  }
}
static inline bool iscmp(Op op){ return op==E_EQ||op==E_ULT||op==E_ULE||op==E_SLT||op==E_SLE||op==E_FEQ||op==E_FLT||op==E_FLE; }
static inline bool comm(Op op){ return op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ||op==E_MULHU||op==E_MULHS||op==E_FEQ||op==E_FADD||op==E_FMUL; }

Expr *mknot(Expr*c){
  if(isc(c)) return mkbool(!c->k);
  switch(c->op){
    case E_XOR: if(isones(c->b)) return c->a; break;
    case E_ULT: return mk2(E_ULE,c->b,c->a); case E_ULE: return mk2(E_ULT,c->b,c->a);
    case E_SLT: return mk2(E_SLE,c->b,c->a); case E_SLE: return mk2(E_SLT,c->b,c->a);
    default: break;
  }
  return X.raw(E_XOR,1,0,c,mkc(1,1),0,0);
}
Expr *mkzext(Expr*e,unsigned w){
  if(e->w==w) return e;
  if(isc(e)) return mkc(e->k,w);
  if(e->op==E_ZEXT) return mkzext(e->a,w);
  if(e->op==E_CONCAT && isz(e->a)) return mkzext(e->b,w);
  return X.raw(E_ZEXT,w,0,e,0,0,0);
}
Expr *mksext(Expr*e,unsigned w){
  if(e->w==w) return e;
  if(isc(e)) return mkc((u128)sext128(e->k,e->w),w);
  if(e->op==E_SEXT) return mksext(e->a,w);
  if(e->op==E_ZEXT) return mkzext(e->a,w);
  return X.raw(E_SEXT,w,0,e,0,0,0);
}
struct ExKey{u32 id;uint16_t lo,w; bool operator==(const ExKey&o)const{return id==o.id&&lo==o.lo&&w==o.w;}};
struct ExH{size_t operator()(const ExKey&k)const{return ExprCtx::mix(k.id,((u64)k.lo<<16)|k.w);}};
static std::unordered_map<ExKey,Expr*,ExH> exmemo;
static Expr *mkextract0(Expr*e,unsigned lo,unsigned w);
static unsigned tz(Expr*e);
Expr *mkextract(Expr*e,unsigned lo,unsigned w){
  if(lo==0&&w==e->w) return e;
  if(isc(e)) return mkc(e->k>>lo,w);
  switch(e->op){ case E_AND: case E_OR: case E_XOR: case E_ADD: case E_SUB: case E_MUL: case E_ITE: case E_UDIV: case E_UREM: {
      ExKey k{e->id,(uint16_t)lo,(uint16_t)w}; auto it=exmemo.find(k); if(it!=exmemo.end()) return it->second;
      Expr*r=mkextract0(e,lo,w); exmemo[k]=r; return r; }
    default: return mkextract0(e,lo,w); }
}
static bool leafish(Expr*e){ return e->op==E_CONST||e->op==E_VAR||e->op==E_CONCAT||e->op==E_ZEXT||e->op==E_SEXT||e->op==E_EXTRACT||e->op==E_ITE||e->op==E_ADD||e->op==E_AND||e->op==E_OR||e->op==E_XOR||e->op==E_SUB; }
static Expr *mkextract0(Expr*e,unsigned lo,unsigned w){
  switch(e->op){
  case E_EXTRACT: return mkextract(e->a,e->lo+lo,w);
  case E_CONCAT: { unsigned lw=e->b->w; if(lo>=lw) return mkextract(e->a,lo-lw,w); if(lo+w<=lw) return mkextract(e->b,lo,w);
      return mkconcat(mkextract(e->a,0,lo+w-lw),mkextract(e->b,lo,lw-lo)); }
  case E_ZEXT: { unsigned sw=e->a->w; if(lo>=sw) return mkc(0,w); if(lo+w<=sw) return mkextract(e->a,lo,w); return mkzext(mkextract(e->a,lo,sw-lo),w); }
  case E_SEXT: { unsigned sw=e->a->w; if(lo+w<=sw) return mkextract(e->a,lo,w); if(lo<sw) return mksext(mkextract(e->a,lo,sw-lo),w);
      return mksext(mkextract(e->a,sw-1,1),w); }
  case E_AND: case E_OR: case E_XOR: return mk2(e->op,mkextract(e->a,lo,w),mkextract(e->b,lo,w));
  case E_ADD: case E_SUB: if(lo&&tz(e->a)>=lo&&tz(e->b)>=lo) return mkextract(mk2(e->op,mkextract(e->a,lo,e->w-lo),mkextract(e->b,lo,e->w-lo)),0,w); // fall through
  case E_MUL: if(lo==0) return mk2(e->op,mkextract(e->a,0,w),mkextract(e->b,0,w)); if(w==1&&lo+1<e->w) return mkextract(mkextract(e,0,lo+1),lo,1); break;
  case E_ITE: if(leafish(e->b)&&leafish(e->c)) return mkite(e->a,mkextract(e->b,lo,w),mkextract(e->c,lo,w)); break;
  case E_UDIV: case E_UREM: if(lo==0 && e->a->op==E_ZEXT && e->b->op==E_ZEXT && e->a->a->w<=w && e->b->a->w<=w) return mk2(e->op,mkextract(e->a,0,w),mkextract(e->b,0,w)); break;
  default: break;
  }
  return X.raw(E_EXTRACT,w,lo,e,0,0,0);
}
static bool isarith(Expr*e){ return e->op==E_ADD||e->op==E_SUB||e->op==E_MUL; }
Expr *mkconcat(Expr*hi,Expr*lo){
  unsigned w=hi->w+lo->w;
  if(isc(hi)&&isc(lo)) return mkc((hi->k<<lo->w)|lo->k,w);
  if(isz(hi)) return mkzext(lo,w);
  // adjacent extracts
  if(hi->op==E_EXTRACT && lo->op==E_EXTRACT && hi->a==lo->a && hi->lo==lo->lo+lo->w) return mkextract(hi->a,lo->lo,w);
  // lo is whole tail of an expr? handle extract(x,n,..) ++ concat? : hi ++ (mid ++ rest)
  if(lo->op==E_CONCAT && hi->op==E_EXTRACT && lo->a->op==E_EXTRACT && hi->a==lo->a->a && hi->lo==lo->a->lo+lo->a->w)
    return mkconcat(mkextract(hi->a,lo->a->lo,hi->w+lo->a->w),lo->b);
  if(hi->op==E_ZEXT) return mkzext(mkconcat(hi->a,lo),w);
  // flipped bits above unflipped ones of the same value
  if(hi->op==E_XOR&&isc(hi->b)&&hi->a->op==E_EXTRACT&&lo->op==E_EXTRACT&&hi->a->a==lo->a&&lo->lo==0&&hi->a->lo==lo->w&&w==lo->a->w&&(lo->a->op==E_VAR||(lo->a->op>=E_FADD&&lo->a->op<=E_FSQRT))) return mk2(E_XOR,lo->a,mkc(hi->b->k<<lo->w,w));
  if(hi->op==E_CONCAT) return mkconcat(hi->a,mkconcat(hi->b,lo)); // right-nested
  // sign extension reassembly: hi repeats the top bit of lo
  { Expr*hb= hi->op==E_SEXT&&hi->a->w==1? hi->a : hi->w==1? hi : nullptr; if(hb&&!isc(hb)&&!isc(lo)){ Expr*top=lo->op==E_CONCAT||lo->op==E_SEXT||lo->op==E_EXTRACT||lo->op==E_VAR||hb->op==E_EXTRACT? mkextract(lo,lo->w-1,1):nullptr; if(top==hb) return mksext(lo,w); } }
  // lo was narrowed from the low part of the arithmetic hi is taken from
  if(lo->op==E_ADD||lo->op==E_SUB||lo->op==E_MUL){
    if(hi->op==E_EXTRACT && hi->lo==lo->w && isarith(hi->a) && mkextract(hi->a,0,lo->w)==lo) return mkextract(hi->a,0,w);
    if(hi->op==E_SEXT && hi->a->op==E_EXTRACT && hi->a->lo==lo->w && isarith(hi->a->a) && mkextract(hi->a->a,0,lo->w)==lo) return mksext(mkextract(hi->a->a,0,lo->w+hi->a->w),w);
    if(hi->op==E_SEXT && hi->a->w==1 && hi->a->op==E_EXTRACT && hi->a->lo+1==lo->w && isarith(hi->a->a) && mkextract(hi->a->a,0,lo->w)==lo) return mksext(lo,w); }
  if(hi->op==E_SEXT && hi->a->op==E_EXTRACT && lo->op==E_EXTRACT && hi->a->a==lo->a && hi->a->lo==lo->lo+lo->w)
    return mksext(mkextract(lo->a,lo->lo,lo->w+hi->a->w),w);
  if(lo->op==E_CONCAT&&!isc(hi)&&!isc(lo->a)&&(hi->op==E_EXTRACT||hi->op==E_SEXT||((hi->op==E_AND||hi->op==E_OR||hi->op==E_XOR)&&hi->op==lo->a->op))){ Expr*t=mkconcat(hi,lo->a); if(t->op!=E_CONCAT) return mkconcat(t,lo->b); }
  if((hi->op==E_AND||hi->op==E_OR||hi->op==E_XOR)&&hi->op==lo->op&&hi->w>1&&lo->w>1&&!isc(hi->b)&&!isc(lo->b)) for(int s=0;s<2;s++){ Expr*la=s?lo->b:lo->a,*lb=s?lo->a:lo->b; // halves of one bitwise operation
    if(hi->a->op==E_EXTRACT&&hi->b->op==E_EXTRACT){ Expr*x=mkconcat(hi->a,la); if(x->op==E_CONCAT) continue; Expr*y=mkconcat(hi->b,lb); if(y->op!=E_CONCAT) return mk2(hi->op,x,y); } }
  if(hi->op==E_ITE && lo->op==E_ITE && hi->a==lo->a) return mkite(hi->a,mkconcat(hi->b,lo->b),mkconcat(hi->c,lo->c));
  if(hi->op==E_ITE && isc(lo) && isc(hi->b)&&isc(hi->c)) return mkite(hi->a,mkconcat(hi->b,lo),mkconcat(hi->c,lo));
  return X.raw(E_CONCAT,w,0,hi,lo,0,0);
}
Expr *mkite(Expr*c,Expr*a,Expr*b){
  if(isc(c)) return c->k?a:b;
  if(a==b) return a;
  if(c->op==E_XOR && isones(c->b)) return mkite(c->a,b,a);
  if(a->w==1){
    if(isc(a)&&isc(b)) return a->k? c: mknot(c);
    if(isc(a)) return a->k? mk2(E_OR,c,b) : mk2(E_AND,mknot(c),b);
    if(isc(b)) return b->k? mk2(E_OR,mknot(c),a) : mk2(E_AND,c,a);
  } else {
    if(isc(a)&&isc(b)){ if(a->k==1&&b->k==0) return mkzext(c,a->w); if(a->k==0&&b->k==1) return mkzext(mknot(c),a->w);
       if(a->k==maskw(a->w)&&b->k==0) return mksext(c,a->w); }
  }
  if(a->op==E_ITE && a->a==c) return mkite(c,a->b,b);
  if(b->op==E_ITE && b->a==c) return mkite(c,a,b->c);
  return X.raw(E_ITE,a->w,0,c,a,b,0);
}
// piece-wise bit operations over concatenations
struct Piece{Expr*e;};
static void pieces(Expr*e,std::vector<Expr*>&v){ // low to high
  if(e->op==E_CONCAT){ pieces(e->b,v); pieces(e->a,v); }
  else if(e->op==E_ZEXT){ pieces(e->a,v); v.push_back(mkc(0,e->w-e->a->w)); }
  else v.push_back(e);
}
static bool haspieces(Expr*e){ return e->op==E_CONCAT||e->op==E_ZEXT; }
static Expr *bitop(Op op,Expr*a,Expr*b){
  if(a->w>128) return nullptr;
  std::vector<Expr*> pa,pb;
  // constant with runs of zeros/ones
  auto cpieces=[&](Expr*c,std::vector<Expr*>&v){ unsigned i=0; while(i<c->w){ unsigned bit=(c->k>>i)&1,j=i; while(j<c->w&&((c->k>>j)&1)==bit) j++; v.push_back(mkc(bit?~(u128)0:0,j-i)); i=j; } };
  if(isc(b)){ cpieces(b,pb); if(op==E_XOR && !haspieces(a)) return nullptr; if(op==E_OR && !haspieces(a)) return nullptr; if(op==E_AND && !haspieces(a)){ if(pb.size()>3) return nullptr; } pieces(a,pa);
    if(pb.size()>8 && op!=E_AND) return nullptr; if(pb.size()>8) return nullptr; }
  else { if(!haspieces(a)||!haspieces(b)) return nullptr; pieces(a,pa); pieces(b,pb);
    bool ok=false; for(auto p:pa) if(isc(p)) ok=true; for(auto p:pb) if(isc(p)) ok=true; if(!ok) return nullptr; }
  std::vector<unsigned> cuts; unsigned p=0; for(auto e:pa){ p+=e->w; cuts.push_back(p);} p=0; for(auto e:pb){ p+=e->w; cuts.push_back(p);}
  std::sort(cuts.begin(),cuts.end()); cuts.erase(std::unique(cuts.begin(),cuts.end()),cuts.end());
  Expr*r=nullptr; unsigned lo=0;
  for(unsigned c:cuts){ Expr*x=mkextract(a,lo,c-lo),*y=mkextract(b,lo,c-lo); if(x==a||y==b) return nullptr; Expr*z=mk2(op,x,y); r=r?mkconcat(z,r):z; lo=c; }
  return r;
}
static unsigned tz(Expr*e){ // known trailing zeros
  switch(e->op){ case E_CONST: { unsigned n=0; while(n<e->w&&!((e->k>>n)&1)) n++; return n; }
    case E_CONCAT: { unsigned t=tz(e->b); return t<e->b->w? t : t+tz(e->a); }
    case E_ZEXT: case E_SEXT: { unsigned t=tz(e->a); return t==e->a->w? e->w : t; }
    case E_MUL: { unsigned t=tz(e->a)+tz(e->b); return t>e->w?e->w:t; }
    case E_ADD: case E_SUB: return std::min(tz(e->a),tz(e->b));
    default: return 0; } }
unsigned knownTZ(Expr*e){ return tz(e); }
static bool strictlyNonNeg(Expr*e){ return e->op==E_ZEXT || (e->op==E_CONCAT&&isc(e->a)&&!((e->a->k>>(e->a->w-1))&1)) || (isc(e)&&!((e->k>>(e->w-1))&1)); }

static unsigned lowzeros(Expr*e){ return tz(e); }
// cheap unsigned range
static void urange(Expr*e,u128&lo,u128&hi,int d=6){
  lo=0; hi=maskw(e->w); if(d==0) return;
  u128 a,b,c,f;
  switch(e->op){
  case E_CONST: lo=hi=e->k; return;
  case E_ZEXT: urange(e->a,lo,hi,d-1); return;
  case E_SEXT: urange(e->a,a,b,d-1); { u128 sg=(u128)1<<(e->a->w-1); if(b<sg){ lo=a; hi=b; } else if(a>=sg){ u128 up=maskw(e->w)&~maskw(e->a->w); lo=a|up; hi=b|up; } } return;
  case E_CONCAT: urange(e->a,a,b,d-1); urange(e->b,c,f,d-1); lo=(a<<e->b->w)|c; hi=(b<<e->b->w)|f; return;
  case E_ITE: urange(e->b,a,b,d-1); urange(e->c,c,f,d-1); lo=std::min(a,c); hi=std::max(b,f); return;
  case E_AND: urange(e->a,a,b,d-1); urange(e->b,c,f,d-1); hi=std::min(b,f); return;
  case E_UREM: if(isc(e->b)&&e->b->k) hi=e->b->k-1; return;
  case E_UDIV: if(isc(e->b)&&e->b->k){ urange(e->a,a,b,d-1); lo=a/e->b->k; hi=b/e->b->k; } return;
  case E_ADD: if(e->w<=64){ urange(e->a,a,b,d-1); urange(e->b,c,f,d-1); u128 m=maskw(e->w); if(b+f<=m){ lo=a+c; hi=b+f; } else if(a+c>m){ lo=(a+c)&m; hi=(b+f)&m; } } return;
  default: return; } }
static Expr *rangecmp(Op op,Expr*a,Expr*b){
  u128 al,ah,bl,bh; urange(a,al,ah); urange(b,bl,bh); unsigned w=a->w; u128 sg=(u128)1<<(w-1);
  if(op==E_SLT||op==E_SLE){ // both within one sign half -> unsigned compare; different halves -> decided
    bool ap=ah<sg,an=al>=sg,bp=bh<sg,bn=bl>=sg; if(ap&&bn) return mkbool(false); if(an&&bp) return mkbool(true); if(!((ap&&bp)||(an&&bn))) return nullptr; op= op==E_SLT?E_ULT:E_ULE; }
  switch(op){ case E_EQ: if(ah<bl||bh<al) return mkbool(false); return nullptr;
    case E_ULT: if(ah<bl) return mkbool(true); if(al>=bh) return mkbool(false); return nullptr;
    case E_ULE: if(ah<=bl) return mkbool(true); if(al>bh) return mkbool(false); return nullptr;
    default: return nullptr; } }
// comparisons of floating values that are exactly converted integers, or exactly widened
static Expr*fpint(Expr*a,unsigned w){ if(a->op==E_SITOFP&&fpexact(a)) return mksext(a->a,w); if(a->op==E_UITOFP&&fpexact(a)) return mkzext(a->a,w);
  if(isc(a)){ u128 k=fpop1(E_FPTOSI,a->w,w,a->k); if(fpop1(E_SITOFP,w,a->w,k)==a->k&&k!=((u128)1<<(w-1))) return mkc(k,w); } return 0; }
static Expr*fpcmp(Op op,Expr*a,Expr*b){
  if(a->op==E_FPCVT&&b->op==E_FPCVT&&a->w>a->a->w&&b->w>b->a->w&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
  if((a->op==E_SITOFP||a->op==E_UITOFP)||(b->op==E_SITOFP||b->op==E_UITOFP)){ if((isc(a)||((a->op==E_SITOFP||a->op==E_UITOFP)&&fpexact(a)))&&(isc(b)||((b->op==E_SITOFP||b->op==E_UITOFP)&&fpexact(b)))){
    unsigned w=65; Expr*x=fpint(a,w),*y=fpint(b,w); if(x&&y) return mk2(op==E_FEQ?E_EQ:op==E_FLT?E_SLT:E_SLE,x,y); } }
  return 0; }
Expr *mk2(Op op,Expr*a,Expr*b){
  unsigned w=a->w, rw=iscmp(op)?1:w;
  if(a->w!=b->w){ fprintf(stderr,"mk2 width mismatch op %d %u %u\n",op,a->w,b->w); abort(); }
  if(isc(a)&&isc(b)) return mkc(ev2(op,w,a->k,b->k),rw);
  if(op>=E_EQ&&op<=E_SLE&&a!=b) if(Expr*r=rangecmp(op,a,b)) return r;
  if(comm(op)){ if(isc(a)||(!isc(b)&&a->id>b->id)) std::swap(a,b); }
  switch(op){
  case E_ADD:
    if(isz(b)) return a;
    if(w==1) return mk2(E_XOR,a,b);
    if(isc(b)&&a->op==E_CONCAT&&(b->k&maskw(a->b->w))==0) return mkconcat(mk2(E_ADD,a->a,mkc(b->k>>a->b->w,a->a->w)),a->b);
    if(isc(b)&&a->op==E_ZEXT&&a->a->op==E_CONCAT&&isc(a->a->a)&&(b->k&maskw(a->a->b->w))==0){ unsigned lw=a->a->b->w; return mkconcat(mkc(a->a->a->k+(b->k>>lw),w-lw),a->a->b); }
    if(isc(b)&&a->op==E_ZEXT&&(b->k&maskw(a->a->w))==0) return mkconcat(mkc(b->k>>a->a->w,w-a->a->w),a->a);
    for(int s=0;s<2;s++){ Expr*x=s?b:a,*y=s?a:b; if((x->op==E_CONCAT||x->op==E_ZEXT)&&y->op==E_ZEXT){ // right-nested: find low zero run
        unsigned low=lowzeros(x); if(low>=y->a->w&&low>0) return mk2(E_OR,x,y); } }
    if(isc(b)){ if(a->op==E_ADD&&isc(a->b)) return mk2(E_ADD,a->a,mkc(a->b->k+b->k,w));
      if(a->op==E_SUB&&isc(a->a)) return mk2(E_SUB,mkc(a->a->k+b->k,w),a->b); 
      if(a->op==E_ITE&&isc(a->b)&&isc(a->c)) return mkite(a->a,mkc(a->b->k+b->k,w),mkc(a->c->k+b->k,w)); }
    else { if(a->op==E_ADD&&isc(a->b)) return mk2(E_ADD,mk2(E_ADD,a->a,b),a->b);
      if(b->op==E_ADD&&isc(b->b)) return mk2(E_ADD,mk2(E_ADD,a,b->a),b->b);
      if(a->op==E_SUB&&a->b==b) return a->a; if(b->op==E_SUB&&b->b==a) return b->a;
      if(a->op==E_SUB&&isz(a->a)) return mk2(E_SUB,b,a->b); if(b->op==E_SUB&&isz(b->a)) return mk2(E_SUB,a,b->b); }
    break;
  case E_SUB:
    if(a==b) return mkc(0,w);
    if(w==1) return mk2(E_XOR,a,b);
    if(isc(b)) return mk2(E_ADD,a,mkc(-b->k,w));
    if(a->op==E_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; 
      if(isc(a->b)) return mk2(E_ADD,mk2(E_SUB,a->a,b),a->b); }
    if(b->op==E_ADD&&isc(b->b)) return mk2(E_ADD,mk2(E_SUB,a,b->a),mkc(-b->b->k,w));
    if(b->op==E_SUB&&isz(b->a)) return mk2(E_ADD,a,b->b);
    if(isz(a)){ Expr*z=b->op==E_ZEXT?b->a:b; if(z->op==E_CONCAT&&z->a->w==1&&isz(z->b)) return mkconcat(mksext(z->a,w-z->b->w),z->b); if(z->w==1) return mksext(z,w); } // minus a single bit
    break;
  case E_MUL:
    if(isc(b)){ if(b->k==0) return b; if(b->k==1) return a;
      if((b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return mk2(E_SHL,a,mkc(s,w)); }
      if(a->op==E_MUL&&isc(a->b)) return mk2(E_MUL,a->a,mkc(a->b->k*b->k,w));
      if(b->k==maskw(w)) return mk2(E_SUB,mkc(0,w),a);
    }
    if(w==1) return mk2(E_AND,a,b);
    if(!isc(b)){ unsigned ta=lowzeros(a),tb=lowzeros(b),t=ta+tb; if(t>=w) return mkc(0,w); if(t) return mkconcat(mk2(E_MUL,mkextract(a,ta,w-t),mkextract(b,tb,w-t)),mkc(0,t)); }
    break;
  case E_UDIV: if(isc(b)){ if(b->k==1) return a; if(b->k&&(b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return mk2(E_LSHR,a,mkc(s,w)); } }
    if(a->op==E_ZEXT&&isc(b)&&b->k!=0){ if(b->k>maskw(a->a->w)) return mkc(0,w); return mkzext(mk2(op,a->a,mkc(b->k,a->a->w)),w); }
    break;
  case E_UREM: if(isc(b)){ if(b->k==1) return mkc(0,w); if(b->k&&(b->k&(b->k-1))==0) return mk2(E_AND,a,mkc(b->k-1,w)); }
    if(a->op==E_ZEXT&&isc(b)&&b->k!=0){ if(b->k>maskw(a->a->w)) return a; return mkzext(mk2(op,a->a,mkc(b->k,a->a->w)),w); }
    break;
  case E_SDIV: if(isc(b)&&b->k==1) return a; if(isc(b)&&b->k==maskw(w)) return mk2(E_SUB,mkc(0,w),a);
    if(strictlyNonNeg(a)&&strictlyNonNeg(b)&&isc(b)&&b->k) return mk2(E_UDIV,a,b); break;
  case E_SREM: if(isc(b)&&(b->k==1||b->k==maskw(w))) return mkc(0,w);
    if(strictlyNonNeg(a)&&strictlyNonNeg(b)&&isc(b)&&b->k) return mk2(E_UREM,a,b); break;
  case E_AND:
    if(isz(b)) return b; if(isones(b)) return a; if(a==b) return a;
    if(isc(b)&&a->op==E_AND&&isc(a->b)) return mk2(E_AND,a->a,mkc(a->b->k&b->k,w));
    if(w==1 && ((b->op==E_XOR&&isones(b->b)&&b->a==a)||(a->op==E_XOR&&isones(a->b)&&a->a==b))) return mkbool(false);
    if(isc(b)&&a->op==E_ITE&&(isc(a->b)||isc(a->c))) return mkite(a->a,mk2(E_AND,a->b,b),mk2(E_AND,a->c,b));
    if(isc(b)&&a->op==E_SEXT&&b->k<=maskw(a->a->w)) return mkzext(mk2(E_AND,a->a,mkc(b->k,a->a->w)),w);
    if(Expr*r=bitop(op,a,b)) return r;
    break;
  case E_OR:
    if(isz(b)) return a; if(isones(b)) return b; if(a==b) return a;
    if(w==1 && ((b->op==E_XOR&&isones(b->b)&&b->a==a)||(a->op==E_XOR&&isones(a->b)&&a->a==b))) return mkbool(true);
    if(w==1){ // a<b | a==b
      for(int s=0;s<2;s++){ Expr*x=s?b:a,*y=s?a:b; if((x->op==E_ULT||x->op==E_SLT)&&y->op==E_EQ&&((y->a==x->a&&y->b==x->b)||(y->a==x->b&&y->b==x->a))) return mk2(x->op==E_ULT?E_ULE:E_SLE,x->a,x->b);} }
    if(isc(b)&&a->op==E_ITE&&(isc(a->b)||isc(a->c))) return mkite(a->a,mk2(E_OR,a->b,b),mk2(E_OR,a->c,b));
    if(Expr*r=bitop(op,a,b)) return r;
    break;
  case E_XOR:
    if(isz(b)) return a; if(a==b) return mkc(0,w);
    if(w==1&&isones(b)) return mknot(a);
    if(isc(b)&&a->op==E_XOR&&isc(a->b)) return mk2(E_XOR,a->a,mkc(a->b->k^b->k,w));
    if(a->op==E_XOR&&(a->a==b)) return a->b; if(a->op==E_XOR&&(a->b==b)) return a->a;
    if(b->op==E_XOR&&(b->a==a)) return b->b; if(b->op==E_XOR&&(b->b==a)) return b->a;
    if(isones(b)&&a->op==E_ZEXT&&a->a->w==1) break;
    if(isc(b)&&a->op==E_ITE&&isc(a->b)&&isc(a->c)) return mkite(a->a,mk2(E_XOR,a->b,b),mk2(E_XOR,a->c,b));
    if(!isc(b)) if(Expr*r=bitop(op,a,b)) return r;
    if(isc(b)&&haspieces(a)) if(Expr*r=bitop(op,a,b)) return r;
    break;
  case E_SHL:
    if(isc(b)){ if(b->k==0) return a; if(b->k>=w) return mkc(0,w); unsigned s=(unsigned)b->k; return mkconcat(mkextract(a,0,w-s),mkc(0,s)); }
    if(isz(a)) return a; break;
  case E_LSHR:
    if(isc(b)){ if(b->k==0) return a; if(b->k>=w) return mkc(0,w); unsigned s=(unsigned)b->k; return mkzext(mkextract(a,s,w-s),w); }
    if(isz(a)) return a; break;
  case E_ASHR:
    if(isc(b)){ if(b->k==0) return a; unsigned s=b->k>=w?w-1:(unsigned)b->k; return mksext(mkextract(a,s,w-s),w); }
    if(isz(a)) return a; break;
  case E_EQ:
    if(a==b) return mkbool(true);
    if(w==1&&isc(b)) return b->k? a: mknot(a);
    if(w==1){ Expr*na=mknot(a); if(na==b) return mkbool(false); }
    if(isc(b)){
      if(a->op==E_ZEXT){ unsigned sw=a->a->w; if(b->k>>sw) return mkbool(false); return mk2(E_EQ,a->a,mkc(b->k,sw)); }
      if(a->op==E_SEXT){ unsigned sw=a->a->w; u128 lo=b->k&maskw(sw); if(((u128)sext128(lo,sw)&maskw(w))!=b->k) return mkbool(false); return mk2(E_EQ,a->a,mkc(lo,sw)); }
      if(a->op==E_ADD&&isc(a->b)) return mk2(E_EQ,a->a,mkc(b->k-a->b->k,w));
      if(a->op==E_SUB&&isc(a->a)) return mk2(E_EQ,a->b,mkc(a->a->k-b->k,w));
      if(a->op==E_SUB&&isz(b)) return mk2(E_EQ,a->a,a->b);
      if(a->op==E_XOR&&isc(a->b)) return mk2(E_EQ,a->a,mkc(b->k^a->b->k,w));
      if(a->op==E_XOR&&isz(b)) return mk2(E_EQ,a->a,a->b);
      if(a->op==E_CONCAT){ unsigned lw=a->b->w; return mk2(E_AND,mk2(E_EQ,a->b,mkc(b->k,lw)),mk2(E_EQ,a->a,mkc(b->k>>lw,a->a->w))); }
      if(a->op==E_ITE){ bool b1=isc(a->b),c1=isc(a->c);
        if(b1&&c1){ bool e1=a->b->k==b->k,e2=a->c->k==b->k; if(e1&&e2) return mkbool(true); if(!e1&&!e2) return mkbool(false); return e1?a->a:mknot(a->a); }
        if(b1&&a->b->k!=b->k) return mk2(E_AND,mknot(a->a),mk2(E_EQ,a->c,b));
        if(c1&&a->c->k!=b->k) return mk2(E_AND,a->a,mk2(E_EQ,a->b,b)); }
    } else {
      if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mk2(E_EQ,a->a,b->a);
      if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk2(E_EQ,a->a,b->a);
      if(a->op==E_CONCAT&&b->op==E_CONCAT&&a->b->w==b->b->w) return mk2(E_AND,mk2(E_EQ,a->b,b->b),mk2(E_EQ,a->a,b->a));
      if(a->op==E_ADD&&b->op==E_ADD){ if(a->a==b->a) return mk2(E_EQ,a->b,b->b); if(a->b==b->b) return mk2(E_EQ,a->a,b->a); }
    }
    break;
  case E_ULT:
    if(a==b) return mkbool(false); if(isz(b)) return mkbool(false); if(isones(a)) return mkbool(false);
    if(isz(a)) return mknot(mk2(E_EQ,b,a));
    if(isc(b)&&b->k==1) return mk2(E_EQ,a,mkc(0,w));
    if(w==1) return mk2(E_AND,mknot(a),b);
    if(a->op==E_ZEXT&&isc(b)){ if(b->k>maskw(a->a->w)) return mkbool(true); return mk2(op,a->a,mkc(b->k,a->a->w)); }
    if(b->op==E_ZEXT&&isc(a)){ if(a->k>=maskw(b->a->w)) return mkbool(false); return mk2(op,mkc(a->k,b->a->w),b->a); }
    if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
    if(isc(b)&&a->op==E_ITE&&isc(a->b)&&isc(a->c)) return mkite(a->a,mk2(op,a->b,b),mk2(op,a->c,b));
    if(isc(a)&&b->op==E_ITE&&isc(b->b)&&isc(b->c)) return mkite(b->a,mk2(op,a,b->b),mk2(op,a,b->c));
    break;
  case E_ULE:
    if(a==b) return mkbool(true); if(isz(a)) return mkbool(true); if(isones(b)) return mkbool(true);
    if(isz(b)) return mk2(E_EQ,a,b);
    if(isc(b)) return mk2(E_ULT,a,mkc(b->k+1,w));
    if(isc(a)) return mk2(E_ULT,mkc(a->k-1,w),b);
    if(w==1) return mk2(E_OR,mknot(a),b);
    if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
    break;
  case E_SLT:
    if(a==b) return mkbool(false);
    if(w==1) return mk2(E_AND,a,mknot(b));
    if(strictlyNonNeg(a)&&strictlyNonNeg(b)) return mk2(E_ULT,a,b);
    if(isc(b)&&strictlyNonNeg(a)) return mkbool(false); // b negative
    if(isc(a)&&strictlyNonNeg(b)) return mkbool(true);
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
    if(a->op==E_SEXT&&isc(b)){ unsigned sw=a->a->w; i128 v=sext128(b->k,w); i128 mn=-((i128)1<<(sw-1)),mx=((i128)1<<(sw-1))-1; if(v>mx) return mkbool(true); if(v<=mn) return mkbool(false); return mk2(op,a->a,mkc((u128)v,sw)); }
    if(b->op==E_SEXT&&isc(a)){ unsigned sw=b->a->w; i128 v=sext128(a->k,w); i128 mn=-((i128)1<<(sw-1)),mx=((i128)1<<(sw-1))-1; if(v>=mx) return mkbool(false); if(v<mn) return mkbool(true); return mk2(op,mkc((u128)v,sw),b->a); }
    if(isz(b)) return mkextract(a,w-1,1);
    if(isc(a)&&a->k==maskw(w)) return mknot(mkextract(b,w-1,1));
    if(isc(b)&&b->k==((u128)1<<(w-1))) return mkbool(false);
    if(isc(b)&&a->op==E_ITE&&isc(a->b)&&isc(a->c)) return mkite(a->a,mk2(op,a->b,b),mk2(op,a->c,b));
    break;
  case E_SLE:
    if(a==b) return mkbool(true);
    if(isc(b)&&b->k!=maskw(w-1)) return mk2(E_SLT,a,mkc(b->k+1,w));
    if(isc(b)) return mkbool(true);
    if(isc(a)&&a->k!=((u128)1<<(w-1))) return mk2(E_SLT,mkc(a->k-1,w),b);
    if(isc(a)) return mkbool(true);
    if(w==1) return mk2(E_OR,mknot(b),a);
    if(strictlyNonNeg(a)&&strictlyNonNeg(b)) return mk2(E_ULE,a,b);
    if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
    break;
  case E_FEQ: if(a==b) return mknot(mkfp1(E_FNAN,a,1)); if(Expr*r=fpcmp(op,a,b)) return r; break;
  case E_FLT: case E_FLE: if(op==E_FLT&&a==b) return mkbool(false); if(op==E_FLE&&a==b) return mknot(mkfp1(E_FNAN,a,1)); if(Expr*r=fpcmp(op,a,b)) return r; break;
  default: break;
  }
  return X.raw(op,rw,0,a,b,0,0);
}
// ---------- evaluation under the current model
u128 evalE(Expr*e){
  if(e->op==E_CONST) return e->k;
  if(e->gen==curgen) return e->val;
  u128 r;
  switch(e->op){
  case E_VAR: r= (u64)e->k<cur.v.size()? cur.v[(u64)e->k]&mask64(e->w):0; break;
  case E_ITE: r= evalE(e->a)? evalE(e->b): evalE(e->c); break;
  case E_CONCAT: r=(evalE(e->a)<<e->b->w)|evalE(e->b); break;
  case E_EXTRACT: r=(evalE(e->a)>>e->lo)&maskw(e->w); break;
  case E_ZEXT: r=evalE(e->a); break;
  case E_SEXT: r=(u128)sext128(evalE(e->a),e->a->w)&maskw(e->w); break;
  case E_FNAN: case E_FPCVT: case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI: case E_FSQRT: r=fpop1(e->op,e->a->w,e->w,evalE(e->a)); break;
  default: { u128 a=evalE(e->a); u128 b=evalE(e->b); r=ev2(e->op,e->a->w,a,b); }
  }
  e->gen=curgen; e->val=r; return r;
}
// ---------- variable sets
static std::unordered_map<size_t,std::vector<VarSet*>> vstab;
static VarSet *internVS(std::vector<u64>&b){ while(!b.empty()&&!b.back()) b.pop_back(); size_t h=1469598103934665603ULL; for(u64 x:b){ h^=x; h*=1099511628211ULL; h^=h>>29; }
  auto&v=vstab[h]; for(auto*s:v) if(s->bits==b) return s; auto*s=new VarSet{b,h}; v.push_back(s); return s; }
VarSet *vset(Expr*e){
  if(e->vs) return e->vs;
  std::vector<u64> b;
  if(e->op==E_VAR){ u64 id=(u64)e->k; b.resize(id/64+1,0); b[id/64]|=1ULL<<(id%64); }
  else { VarSet*first=nullptr; bool same=true; for(Expr*c:{e->a,e->b,e->c}) if(c&&c->op!=E_CONST){ VarSet*s=vset(c); if(!first) first=s; else if(s!=first) same=false; }
    if(first&&same) return e->vs=first;
    for(Expr*c:{e->a,e->b,e->c}) if(c&&c->op!=E_CONST){ VarSet*s=vset(c); if(b.size()<s->bits.size()) b.resize(s->bits.size(),0); for(size_t i=0;i<s->bits.size();i++) b[i]|=s->bits[i]; } }
  return e->vs=internVS(b);
}
static const char*opn[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","feq","flt","fle","fnan","fpcvt","sitofp","uitofp","fptosi","fptoui","fsqrt","mulhu","mulhs"};
std::string exprStr(Expr*e,int d){
  char buf[128];
  if(e->op==E_CONST){ snprintf(buf,sizeof buf,"0x%llx",(unsigned long long)e->k); return buf; }
  if(e->op==E_VAR) return varinfo[(u64)e->k].name;
  if(d<=0) return "..";
  std::string s="("; s+=opn[e->op]; snprintf(buf,sizeof buf,":%u",e->w); s+=buf; if(e->op==E_EXTRACT){ snprintf(buf,sizeof buf,"@%u",e->lo); s+=buf; }
  for(Expr*c:{e->a,e->b,e->c}) if(c) s+=" "+exprStr(c,d-1);
  return s+")";
}
// ---------- rewriting of an assertion under the facts of the path, and identities of the ring of integers modulo 2^w
typedef std::vector<Expr*> Mono; struct MonoLess{ bool operator()(const Mono&a,const Mono&b)const{ if(a.size()!=b.size()) return a.size()<b.size(); for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]) return a[i]->id<b[i]->id; return false; } };
typedef std::map<Mono,u128,MonoLess> Poly; static const size_t PMAX=200;
static void paddm(Poly&p,const Mono&m,u128 k){ u128&c=p[m]; c+=k; if(c==0) p.erase(m); }
// cheap signed range, width up to 64
static bool srange(Expr*e,i128&lo,i128&hi,int d=12){ unsigned w=e->w; if(w>64) return false; i128 mn=-((i128)1<<(w-1)),mx=((i128)1<<(w-1))-1; lo=mn; hi=mx; if(d==0) return true; i128 a,b,c,f;
  if(e->op==E_SEXT){ return srange(e->a,lo,hi,d-1); }
  if(isarith(e)&&srange(e->a,a,b,d-1)&&srange(e->b,c,f,d-1)){ i128 l,h; if(e->op==E_ADD) l=a+c,h=b+f; else if(e->op==E_SUB) l=a-f,h=b-c; else { i128 v[4]={a*c,a*f,b*c,b*f}; l=h=v[0]; for(i128 x:v){ if(x<l) l=x; if(x>h) h=x; } } if(l>=mn&&h<=mx){ lo=l; hi=h; } return true; }
  u128 ul,uh; urange(e,ul,uh); if(uh<=(u128)mx){ lo=ul; hi=uh; } return true; }
static bool snofit(Expr*e){ i128 a,b,c,f; unsigned w=e->w; if(w>64||!srange(e->a,a,b)||!srange(e->b,c,f)) return true; i128 mn=-((i128)1<<(w-1)),mx=((i128)1<<(w-1))-1,l,h; if(e->op==E_ADD) l=a+c,h=b+f; else if(e->op==E_SUB) l=a-f,h=b-c; else { if(w>62) return true; i128 v[4]={a*c,a*f,b*c,b*f}; l=h=v[0]; for(i128 x:v){ if(x<l) l=x; if(x>h) h=x; } } return l<mn||h>mx; }
static bool unofit(Expr*e){ u128 a,b,c,f; if(e->w>63||e->op==E_SUB) return true; urange(e->a,a,b); urange(e->b,c,f); return (e->op==E_ADD? b+f: b*f)>maskw(e->w); }
// p += k*e modulo 2^(bits of the root); only the low v bits of e matter, v <= e->w
static bool poly(Expr*e,Poly&p,u128 k,unsigned v,int d){
  if(d<=0||p.size()>PMAX) return false;
  switch(e->op){
  case E_CONST: paddm(p,{},k*e->k); return true;
  case E_ADD: return poly(e->a,p,k,v,d-1)&&poly(e->b,p,k,v,d-1);
  case E_SUB: return poly(e->a,p,k,v,d-1)&&poly(e->b,p,-k,v,d-1);
  case E_XOR: if(isones(e->b)){ paddm(p,{},-k); return poly(e->a,p,-k,v,d-1); } break;
  case E_MUL: { Poly x,y; if(!poly(e->a,x,1,v,d-1)||!poly(e->b,y,1,v,d-1)) return false; if(x.size()*y.size()>PMAX) return false; for(auto&i:x) for(auto&j:y){ Mono m=i.first; m.insert(m.end(),j.first.begin(),j.first.end()); std::sort(m.begin(),m.end(),[](Expr*a,Expr*b){return a->id<b->id;}); paddm(p,m,k*i.second*j.second); } return true; }
  case E_UREM: return poly(mk2(E_SUB,e->a,mk2(E_MUL,e->b,mk2(E_UDIV,e->a,e->b))),p,k,v,d-1);
  case E_SREM: return poly(mk2(E_SUB,e->a,mk2(E_MUL,e->b,mk2(E_SDIV,e->a,e->b))),p,k,v,d-1);
  case E_EXTRACT: if(e->lo==0) return poly(e->a,p,k,v,d-1); break;
  case E_ZEXT: if(e->a->op==E_CONCAT&&isz(e->a->b)&&e->a->b->w<v) return poly(mkzext(e->a->a,e->w),p,k<<e->a->b->w,v-e->a->b->w,d-1); if(e->a->w>=v) return poly(e->a,p,k,v,d-1); if(isarith(e->a)&&!unofit(e->a)) return poly(mk2(e->a->op,mkzext(e->a->a,e->w),mkzext(e->a->b,e->w)),p,k,v,d-1); if(e->w<64){ paddm(p,{mkzext(e->a,64)},k); return true; } break;
  case E_SEXT: if(e->a->op==E_CONCAT&&isz(e->a->b)&&e->a->b->w<v) return poly(mksext(e->a->a,e->w),p,k<<e->a->b->w,v-e->a->b->w,d-1); if(e->a->w>=v) return poly(e->a,p,k,v,d-1); if(isarith(e->a)&&!snofit(e->a)) return poly(mk2(e->a->op,mksext(e->a->a,e->w),mksext(e->a->b,e->w)),p,k,v,d-1); if(e->w<64){ paddm(p,{mksext(e->a,64)},k); return true; } break;
  case E_CONCAT: if(e->b->w>=v) return poly(e->b,p,k,v,d-1); if(isz(e->b)) return poly(e->a,p,k<<e->b->w,v-e->b->w,d-1); break;
  default: break; }
  paddm(p,{e},k); return true; }
static bool polyeq(Expr*a,Expr*b){ Poly p; if(!poly(a,p,1,a->w,60)||!poly(b,p,(u128)-1,a->w,60)) return false; for(auto&i:p) if(i.second&maskw(a->w)) return false; return true; }
// one form for all sums of products with the same polynomial
static bool canonOn=false; static std::unordered_map<Expr*,Expr*> canonmemo;
static Expr *canon(Expr*e){ if(!canonOn||e->w<8||e->w>64||(e->op!=E_ADD&&e->op!=E_SUB&&e->op!=E_MUL&&!(e->op==E_CONCAT&&isz(e->b)))) return e;
  auto it=canonmemo.find(e); if(it!=canonmemo.end()) return it->second; Expr*r=nullptr; Poly p;
  if(poly(e,p,1,e->w,60)&&p.size()<=40){ r=mkc(0,e->w); for(auto&i:p){ u128 c=i.second&maskw(e->w); if(!c) continue; Expr*m=nullptr; for(Expr*x:i.first){ Expr*y=x->w>=e->w?mkextract(x,0,e->w):mkzext(x,e->w); m=m?X.raw(E_MUL,e->w,0,m,y,0,0):y; } Expr*t=m?(c==1?m:X.raw(E_MUL,e->w,0,m,mkc(c,e->w),0,0)):mkc(c,e->w); r=isc(r)&&r->k==0?t:X.raw(E_ADD,e->w,0,r,t,0,0); } }
  if(!r) r=e; canonmemo[e]=r; return r; }
Expr *rebuild(Expr*e,std::unordered_map<Expr*,Expr*>&memo){
  if(e->op==E_CONST) return e;
  auto it=memo.find(e); if(it!=memo.end()) return it->second;
  Expr*r=e;
  if(e->op!=E_VAR){ Expr*a=e->a?rebuild(e->a,memo):0,*b=0,*c=0;
    if(e->op==E_ITE&&isc(a)) r=rebuild(a->k?e->b:e->c,memo);
    else { b=e->b?rebuild(e->b,memo):0; c=e->c?rebuild(e->c,memo):0;
      bool same=a==e->a&&b==e->b&&c==e->c;
      if(e->op==E_EQ&&!isc(b)&&e->a->w>=8&&polyeq(a,b)) r=mkbool(true);
      else if(same) r=e;
      else switch(e->op){ case E_ITE: r=mkite(a,b,c); break; case E_CONCAT: r=mkconcat(a,b); break; case E_EXTRACT: r=mkextract(a,e->lo,e->w); break; case E_ZEXT: r=mkzext(a,e->w); break; case E_SEXT: r=mksext(a,e->w); break;
        case E_FNAN: case E_FPCVT: case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI: case E_FSQRT: r=mkfp1(e->op,a,e->w); break;
        default: r=mk2(e->op,a,b); } }
    r=canon(r);
    if(r!=e){ auto i2=memo.find(r); if(i2!=memo.end()&&isc(i2->second)) r=i2->second; } }
  memo[e]=r; return r; }
Expr *underPath(Expr*q,const std::vector<Expr*>&path){
  std::unordered_map<Expr*,Expr*> memo; for(Expr*p:path){ if(p->op==E_XOR&&isones(p->b)) memo[p->a]=mkbool(false); else { memo[p]=mkbool(true); if(p->op==E_EQ&&isc(p->b)&&!isc(p->a)) memo[p->a]=p->b; Expr*n=mknot(p); if(n->op!=E_XOR) memo[n]=mkbool(false); } }
  auto m0=memo; Expr*r=rebuild(q,memo); if(isc(r)) return r; canonOn=true; Expr*r2=rebuild(r,m0); canonOn=false; return isc(r2)?r2:r; }
