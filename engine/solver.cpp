#include "solver.hpp"
#include <time.h>
#include <unistd.h>
#include <set>
static Z3_context zc; static bool inited=false;
SolverStats *sstats; std::vector<Expr*> pathc; u64 solver_rlimit=60000000;
static void zerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(97); }
static void init(){ inited=true; Z3_config cfg=Z3_mk_config(); zc=Z3_mk_context(cfg); Z3_set_error_handler(zc,zerr); }
static Z3_sort bvs(unsigned w){ return Z3_mk_bv_sort(zc,w); }
static Z3_sort fps(unsigned w){ return w==32?Z3_mk_fpa_sort_32(zc): w==64?Z3_mk_fpa_sort_64(zc): Z3_mk_fpa_sort(zc,15,64); }
static Z3_ast tofp(Z3_ast b,unsigned w){
  if(w==80){ Z3_ast hi=Z3_mk_extract(zc,79,64,b),lo=Z3_mk_extract(zc,62,0,b); return Z3_mk_fpa_to_fp_bv(zc,Z3_mk_concat(zc,hi,lo),fps(80)); }
  return Z3_mk_fpa_to_fp_bv(zc,b,fps(w)); }
static Z3_ast frfp(Z3_ast f,unsigned w){
  Z3_ast b=Z3_mk_fpa_to_ieee_bv(zc,f);
  if(w==80){ Z3_ast hi=Z3_mk_extract(zc,78,63,b),lo=Z3_mk_extract(zc,62,0,b); Z3_ast ex=Z3_mk_extract(zc,77,63,b);
    Z3_ast one=Z3_mk_ite(zc,Z3_mk_eq(zc,ex,Z3_mk_unsigned_int64(zc,0,bvs(15))),Z3_mk_unsigned_int64(zc,0,bvs(1)),Z3_mk_unsigned_int64(zc,1,bvs(1)));
    return Z3_mk_concat(zc,hi,Z3_mk_concat(zc,one,lo)); }
  return b; }
static Z3_ast tz(Expr*e);
static Z3_ast cst(u128 k,unsigned w){ if(w<=64) return Z3_mk_unsigned_int64(zc,(u64)k,bvs(w)); return Z3_mk_concat(zc,Z3_mk_unsigned_int64(zc,(u64)(k>>64),bvs(w-64)),Z3_mk_unsigned_int64(zc,(u64)k,bvs(64))); }
static Z3_ast b1(Z3_ast boolean){ return Z3_mk_ite(zc,boolean,Z3_mk_unsigned_int64(zc,1,bvs(1)),Z3_mk_unsigned_int64(zc,0,bvs(1))); }
static Z3_ast asbool(Expr*e);
static Z3_ast tz0(Expr*e){
  switch(e->op){
  case E_CONST: return cst(e->k,e->w);
  case E_VAR: { char n[32]; snprintf(n,sizeof n,"v%u",(unsigned)(u64)e->k); return Z3_mk_const(zc,Z3_mk_string_symbol(zc,n),bvs(e->w)); }
  case E_ADD: return Z3_mk_bvadd(zc,tz(e->a),tz(e->b)); case E_SUB: return Z3_mk_bvsub(zc,tz(e->a),tz(e->b));
  case E_MUL: return Z3_mk_bvmul(zc,tz(e->a),tz(e->b)); case E_UDIV: return Z3_mk_bvudiv(zc,tz(e->a),tz(e->b));
  case E_SDIV: return Z3_mk_bvsdiv(zc,tz(e->a),tz(e->b)); case E_UREM: return Z3_mk_bvurem(zc,tz(e->a),tz(e->b));
  case E_SREM: return Z3_mk_bvsrem(zc,tz(e->a),tz(e->b)); case E_AND: return Z3_mk_bvand(zc,tz(e->a),tz(e->b));
  case E_OR: return Z3_mk_bvor(zc,tz(e->a),tz(e->b)); case E_XOR: return Z3_mk_bvxor(zc,tz(e->a),tz(e->b));
  case E_SHL: return Z3_mk_bvshl(zc,tz(e->a),tz(e->b)); case E_LSHR: return Z3_mk_bvlshr(zc,tz(e->a),tz(e->b));
  case E_ASHR: return Z3_mk_bvashr(zc,tz(e->a),tz(e->b));
  case E_ITE: return Z3_mk_ite(zc,asbool(e->a),tz(e->b),tz(e->c));
  case E_CONCAT: return Z3_mk_concat(zc,tz(e->a),tz(e->b));
  case E_EXTRACT: return Z3_mk_extract(zc,e->lo+e->w-1,e->lo,tz(e->a));
  case E_ZEXT: return Z3_mk_zero_ext(zc,e->w-e->a->w,tz(e->a)); case E_SEXT: return Z3_mk_sign_ext(zc,e->w-e->a->w,tz(e->a));
  case E_MULHU: return Z3_mk_extract(zc,127,64,Z3_mk_bvmul(zc,Z3_mk_zero_ext(zc,64,tz(e->a)),Z3_mk_zero_ext(zc,64,tz(e->b))));
  case E_MULHS: return Z3_mk_extract(zc,127,64,Z3_mk_bvmul(zc,Z3_mk_sign_ext(zc,64,tz(e->a)),Z3_mk_sign_ext(zc,64,tz(e->b))));
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FEQ: case E_FLT: case E_FLE: case E_FNAN: return b1(asbool(e));
  case E_FADD: return frfp(Z3_mk_fpa_add(zc,Z3_mk_fpa_rne(zc),tofp(tz(e->a),e->w),tofp(tz(e->b),e->w)),e->w);
  case E_FSUB: return frfp(Z3_mk_fpa_sub(zc,Z3_mk_fpa_rne(zc),tofp(tz(e->a),e->w),tofp(tz(e->b),e->w)),e->w);
  case E_FMUL: return frfp(Z3_mk_fpa_mul(zc,Z3_mk_fpa_rne(zc),tofp(tz(e->a),e->w),tofp(tz(e->b),e->w)),e->w);
  case E_FDIV: return frfp(Z3_mk_fpa_div(zc,Z3_mk_fpa_rne(zc),tofp(tz(e->a),e->w),tofp(tz(e->b),e->w)),e->w);
  case E_FSQRT: return frfp(Z3_mk_fpa_sqrt(zc,Z3_mk_fpa_rne(zc),tofp(tz(e->a),e->w)),e->w);
  case E_FPCVT: return frfp(Z3_mk_fpa_to_fp_float(zc,Z3_mk_fpa_rne(zc),tofp(tz(e->a),e->a->w),fps(e->w)),e->w);
  case E_SITOFP: return frfp(Z3_mk_fpa_to_fp_signed(zc,Z3_mk_fpa_rne(zc),tz(e->a),fps(e->w)),e->w);
  case E_UITOFP: return frfp(Z3_mk_fpa_to_fp_unsigned(zc,Z3_mk_fpa_rne(zc),tz(e->a),fps(e->w)),e->w);
  case E_FPTOSI: return Z3_mk_fpa_to_sbv(zc,Z3_mk_fpa_rtz(zc),tofp(tz(e->a),e->a->w),e->w);
  case E_FPTOUI: if(e->w==64){ Z3_ast f=tofp(tz(e->a),e->a->w); return Z3_mk_ite(zc,Z3_mk_fpa_is_negative(zc,f),Z3_mk_fpa_to_sbv(zc,Z3_mk_fpa_rtz(zc),f,64),Z3_mk_fpa_to_ubv(zc,Z3_mk_fpa_rtz(zc),f,64)); }
    return Z3_mk_fpa_to_ubv(zc,Z3_mk_fpa_rtz(zc),tofp(tz(e->a),e->a->w),e->w);
  default: abort();
  }
}
static Z3_ast tz(Expr*e){ if(e->z) return e->z; 
  // bottom-up without deep recursion for long chains
  std::vector<Expr*> st{e};
  while(!st.empty()){ Expr*x=st.back(); if(x->z){ st.pop_back(); continue; } bool ready=true;
    for(Expr*c:{x->a,x->b,x->c}) if(c&&!c->z){ st.push_back(c); ready=false; }
    if(ready){ Z3_ast z=tz0(x); Z3_inc_ref(zc,z); x->z=z; st.pop_back(); } }
  return e->z; }
static std::unordered_map<Expr*,Z3_ast> boolmemo;
static Z3_ast asbool0(Expr*e){
  switch(e->op){
  case E_CONST: return e->k?Z3_mk_true(zc):Z3_mk_false(zc);
  case E_EQ: if(e->a->w==1&&e->a->op!=E_VAR) return Z3_mk_eq(zc,asbool(e->a),asbool(e->b)); return Z3_mk_eq(zc,tz(e->a),tz(e->b));
  case E_ULT: return Z3_mk_bvult(zc,tz(e->a),tz(e->b)); case E_ULE: return Z3_mk_bvule(zc,tz(e->a),tz(e->b));
  case E_SLT: return Z3_mk_bvslt(zc,tz(e->a),tz(e->b)); case E_SLE: return Z3_mk_bvsle(zc,tz(e->a),tz(e->b));
  case E_FEQ: return Z3_mk_fpa_eq(zc,tofp(tz(e->a),e->a->w),tofp(tz(e->b),e->a->w));
  case E_FLT: return Z3_mk_fpa_lt(zc,tofp(tz(e->a),e->a->w),tofp(tz(e->b),e->a->w));
  case E_FLE: return Z3_mk_fpa_leq(zc,tofp(tz(e->a),e->a->w),tofp(tz(e->b),e->a->w));
  case E_FNAN: return Z3_mk_fpa_is_nan(zc,tofp(tz(e->a),e->a->w));
  case E_AND: { Z3_ast v[2]={asbool(e->a),asbool(e->b)}; return Z3_mk_and(zc,2,v); }
  case E_OR: { Z3_ast v[2]={asbool(e->a),asbool(e->b)}; return Z3_mk_or(zc,2,v); }
  case E_XOR: if(isones(e->b)) return Z3_mk_not(zc,asbool(e->a)); return Z3_mk_not(zc,Z3_mk_iff(zc,asbool(e->a),asbool(e->b)));
  case E_ITE: return Z3_mk_ite(zc,asbool(e->a),asbool(e->b),asbool(e->c));
  default: return Z3_mk_eq(zc,tz(e),Z3_mk_unsigned_int64(zc,1,bvs(1)));
  } }
static Z3_ast asbool(Expr*e){ auto it=boolmemo.find(e); if(it!=boolmemo.end()) return it->second; Z3_ast r=asbool0(e); Z3_inc_ref(zc,r); boolmemo[e]=r; return r; }
static std::unordered_map<Expr*,bool> fpmemo;
static bool hasfp(Expr*e){ if(!e||e->op==E_CONST||e->op==E_VAR) return false; auto it=fpmemo.find(e); if(it!=fpmemo.end()) return it->second;
  bool r=(e->op>=E_FADD&&e->op<=E_FSQRT)||hasfp(e->a)||hasfp(e->b)||hasfp(e->c); fpmemo[e]=r; return r; }

// floating terms abstracted to unknown values, their comparisons to an arbitrary total order with NaNs: unsatisfiable there is unsatisfiable
static std::unordered_map<u64,Expr*> fresh; static std::unordered_map<Expr*,Expr*> absmemo;
static Expr*freshv(u64 key,unsigned w){ Expr*&r=fresh[key]; if(!r) r=X.raw(E_VAR,w,0,0,0,0,0x40000000u+fresh.size()); return r; }
static Expr*absnan(Expr*x){ Expr*n=mkfp1(E_FNAN,x,1); return isc(n)?n:n->op==E_FNAN?freshv(((u64)n->id<<32)|0xffffffff,1):n; }
static Expr*absfp(Expr*e){
  if(e->op==E_CONST||e->op==E_VAR) return e; auto it=absmemo.find(e); if(it!=absmemo.end()) return it->second; Expr*r;
  switch(e->op){
  case E_FNAN: r=freshv(((u64)e->id<<32)|0xffffffff,1); break;
  case E_FEQ: case E_FLT: case E_FLE: { Expr*a=e->a,*b=e->b; bool sw=a->id>b->id; if(sw) std::swap(a,b); Expr*lt=freshv(((u64)a->id<<32)|b->id,1),*gt=freshv(((u64)b->id<<32)|a->id,1),*ord=mk2(E_AND,mknot(absnan(a)),mknot(absnan(b)));
    gt=mk2(E_AND,mknot(lt),gt); if(sw&&e->op!=E_FEQ) std::swap(lt,gt); r=mk2(E_AND,ord,e->op==E_FLT?lt:e->op==E_FLE?mknot(gt):mknot(mk2(E_OR,lt,gt))); break; }
  case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FPCVT: case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI: case E_FSQRT: r=freshv((u64)e->id<<32,e->w); break;
  case E_ITE: r=mkite(absfp(e->a),absfp(e->b),absfp(e->c)); break;
  case E_CONCAT: r=mkconcat(absfp(e->a),absfp(e->b)); break;
  case E_EXTRACT: r=mkextract(absfp(e->a),e->lo,e->w); break;
  case E_ZEXT: r=mkzext(absfp(e->a),e->w); break;
  case E_SEXT: r=mksext(absfp(e->a),e->w); break;
  default: r=e->b?mk2(e->op,absfp(e->a),absfp(e->b)):e; }
  return absmemo[e]=r; }
void setModel(const Model&m){ cur=m; curgen++; }
void addConstraint(Expr*e){ if(isc(e)) return; if(e->op==E_AND&&e->w==1){ addConstraint(e->a); addConstraint(e->b); return; }
  for(Expr*x:pathc) if(x==e) return; pathc.push_back(e); }
static bool overlap(const std::vector<u64>&a,const std::vector<u64>&b){ size_t n=std::min(a.size(),b.size()); for(size_t i=0;i<n;i++) if(a[i]&b[i]) return true; return false; }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct CE{ Res r; std::vector<std::pair<u32,u64>> m; };
static std::unordered_map<u64,CE> qcache;
static std::vector<Model> recent;

// ---- truth table of a conjunction over few bits, evaluated LN assignments at a time
bool g_inassert=false;
static const unsigned LN=256;
typedef std::vector<u32> Surv;
// keeps of `in` (null: every value of the bits) the assignments under which all of cs hold; stops at the first one if `first`
static bool table(const std::vector<Expr*>&cs,const std::vector<u32>&ids,unsigned bits,const Surv*in,Surv&out,bool first){
  static std::vector<Expr*> order; static std::unordered_map<Expr*,u32> slot; order.clear(); slot.clear(); out.clear();
  u64 total=in?in->size():1ull<<bits;
  std::vector<size_t> upto; // nodes needed up to each conjunct
  for(Expr*r:cs){ std::vector<Expr*> st{r}; while(!st.empty()){ Expr*x=st.back(); if(slot.count(x)){ st.pop_back(); continue; } if(x->w>64||(x->op>=E_FADD&&x->op<=E_FSQRT)) return false; bool ready=true; for(Expr*c:{x->a,x->b,x->c}) if(c&&!slot.count(c)){ st.push_back(c); ready=false; } if(ready){ slot[x]=order.size(); order.push_back(x); st.pop_back(); } } upto.push_back(order.size()); if((u64)order.size()*total>60000000ull) return false; }
  size_t n=order.size(); static std::vector<u64> buf; if(buf.size()<n*LN) buf.resize(n*LN);
  std::vector<u32> A(n),Bv(n),Cv(n); unsigned LN0=total<LN?(unsigned)total:LN; for(size_t i=0;i<n;i++){ Expr*e=order[i]; A[i]=e->a?slot[e->a]:0; Bv[i]=e->b?slot[e->b]:0; Cv[i]=e->c?slot[e->c]:0; if(e->op==E_CONST) for(unsigned l=0;l<LN0;l++) buf[i*LN+l]=(u64)e->k; }
  std::unordered_map<u32,unsigned> sh; unsigned o=0; for(u32 id:ids){ sh[id]=o; o+=varinfo[id].w; }
  for(u64 base=0;base<total;base+=LN){ unsigned L=total-base<LN?(unsigned)(total-base):LN; size_t i=0; bool dead=false; unsigned char live[LN]; u64 val[LN]; memset(live,1,L); for(unsigned l=0;l<L;l++) val[l]=in?(*in)[base+l]:base+l;
    for(size_t ci=0;ci<cs.size()&&!dead;ci++){
      for(;i<upto[ci];i++){ Expr*e=order[i]; u64*r=&buf[i*LN]; const u64*a=&buf[(size_t)A[i]*LN],*b=&buf[(size_t)Bv[i]*LN],*c=&buf[(size_t)Cv[i]*LN]; u64 m=mask64(e->w); unsigned w=e->a?e->a->w:e->w, s64=64-w;
        #define LP(x) for(unsigned l=0;l<L;l++) r[l]=(x); break
        #define SX(v) ((i64)((v)<<s64)>>s64)
        switch(e->op){ case E_CONST: break; case E_VAR: { unsigned k=sh[(u32)(u64)e->k]; LP((val[l]>>k)&m); }
          case E_ADD: LP((a[l]+b[l])&m); case E_SUB: LP((a[l]-b[l])&m); case E_MUL: LP((a[l]*b[l])&m); case E_AND: LP(a[l]&b[l]); case E_OR: LP(a[l]|b[l]); case E_XOR: LP(a[l]^b[l]);
          case E_UDIV: LP(b[l]?a[l]/b[l]:m); case E_UREM: LP(b[l]?a[l]%b[l]:a[l]);
          case E_SHL: LP(b[l]>=w?0:(a[l]<<b[l])&m); case E_LSHR: LP(b[l]>=w?0:a[l]>>b[l]); case E_ASHR: LP((u64)(SX(a[l])>>(b[l]>=w?w-1:b[l]))&m);
          case E_EQ: LP(a[l]==b[l]); case E_ULT: LP(a[l]<b[l]); case E_ULE: LP(a[l]<=b[l]); case E_SLT: LP(SX(a[l])<SX(b[l])); case E_SLE: LP(SX(a[l])<=SX(b[l]));
          case E_ITE: LP(a[l]?b[l]:c[l]); case E_CONCAT: { unsigned bw=e->b->w; LP((a[l]<<bw)|b[l]); } case E_EXTRACT: { unsigned lo=e->lo; LP((a[l]>>lo)&m); }
          case E_ZEXT: LP(a[l]); case E_SEXT: LP((u64)SX(a[l])&m);
          case E_MULHU: LP((u64)(((u128)a[l]*b[l])>>64)); case E_MULHS: LP((u64)(((i128)(i64)a[l]*(i64)b[l])>>64));
          case E_SDIV: case E_SREM: for(unsigned l=0;l<L;l++){ i64 x=SX(a[l]),y=SX(b[l]); u64 v; if(e->op==E_SDIV) v= y==0?(x<0?1:m): y==-1?(u64)-(u64)x:(u64)(x/y); else v= y==0?a[l]: y==-1?0:(u64)(x%y); r[l]=v&m; } break;
          default: return false; } }
      const u64*v=&buf[(size_t)slot[cs[ci]]*LN]; bool any=false; for(unsigned l=0;l<L;l++){ live[l]&=v[l]!=0; any|=live[l]; } dead=!any; }
    if(!dead) for(unsigned l=0;l<L;l++) if(live[l]){ out.push_back((u32)val[l]); if(first) return true; } }
  return true; }
static std::unordered_map<u64,Surv> scache; static u64 scsize=0;
static void newvars(Expr*e,std::vector<u32>&ids,std::vector<u32>&add){ VarSet*v=vset(e); add.clear(); for(size_t k=0;k<v->bits.size();k++) for(u64 b=v->bits[k];b;b&=b-1){ u32 id=k*64+__builtin_ctzll(b); if(std::find(ids.begin(),ids.end(),id)==ids.end()){ add.push_back(id); ids.push_back(id); } } }
static bool extend(const Surv*in,unsigned bits,unsigned w,Surv&out){ u64 n=in?in->size():1; if(w>20||(n<<w)>1500000) return false; out.clear(); out.reserve(n<<w); for(u64 x=0;x<(1ull<<w);x++) for(u64 i=0;i<n;i++) out.push_back((in?(*in)[i]:0)|(u32)(x<<bits)); return true; }
// satisfying assignments of a path slice, built up constraint by constraint in path order; unknowns enter when first constrained
static const Surv *survivors(const std::vector<Expr*>&sl,std::vector<u32>&ids,unsigned&bits,bool&ok){
  static Surv unit{0}; size_t n=sl.size(); std::vector<u64> hs{0xabcdef}; std::vector<std::vector<u32>> adds(n); std::vector<u32> id; 
  for(size_t i=0;i<n;i++){ newvars(sl[i],id,adds[i]); hs.push_back(ExprCtx::mix(hs.back(),sl[i]->id)); }
  size_t k=n; while(k>0&&!scache.count(hs[k])) k--;
  for(size_t i=0;i<k;i++) for(u32 v:adds[i]){ ids.push_back(v); bits+=varinfo[v].w; }
  const Surv*curv=k?&scache[hs[k]]:&unit;
  if(scsize>6000000){ Surv keep=*curv; scache.clear(); scsize=keep.size(); Surv&r=scache[k?hs[k]:1]; r.swap(keep); curv=&r; }
  for(size_t i=k;i<n;i++){ Surv in; unsigned w=0; for(u32 v:adds[i]){ ids.push_back(v); w+=varinfo[v].w; } const Surv*src=curv; if(w){ if(!extend(curv,bits,w,in)){ ok=false; return nullptr; } src=&in; } bits+=w;
    Surv out; if(!table({sl[i]},ids,bits,src,out,false)){ ok=false; return nullptr; } scsize+=out.size()+16; Surv&r=scache[hs[i+1]]; r.swap(out); curv=&r; }
  return curv; }
Res solve(Expr*q,Model*out){
  if(isc(q)){ if(!q->k) return R_UNSAT; if(out) *out=cur; return R_SAT; }
  if(q->op==E_XOR && isones(q->b)) { for(Expr*p:pathc) if(p==q->a) return R_UNSAT; }
  for(Expr*p:pathc){ if(p==q){ break; } }
  { Expr*nq=mknot(q); for(Expr*p:pathc) if(p==nq) return R_UNSAT; }
  if(evalE(q)){ if(out) *out=cur; return R_SAT; }
  // slice
  std::vector<u64> vs=vset(q)->bits; std::vector<Expr*> sl; std::vector<char> in(pathc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pathc.size();i++) if(!in[i]){ VarSet*s=vset(pathc[i]); if(overlap(s->bits,vs)){ in[i]=1; ch=true; sl.push_back(pathc[i]); if(vs.size()<s->bits.size()) vs.resize(s->bits.size(),0); for(size_t k=0;k<s->bits.size();k++) vs[k]|=s->bits[k]; } } }
  std::sort(sl.begin(),sl.end(),[](Expr*a,Expr*b){return a->id<b->id;});
  u64 h=q->id*0x9e3779b97f4a7c15ULL; for(Expr*e:sl) h=ExprCtx::mix(h,e->id);
  auto it=qcache.find(h);
  if(it!=qcache.end()){ __sync_fetch_and_add(&sstats->cachehits,1); if(it->second.r==R_SAT&&out){ *out=cur; for(auto&p:it->second.m){ if(out->v.size()<=p.first) out->v.resize(p.first+1,0); out->v[p.first]=p.second; } } return it->second.r; }
  // few unknown bits: decide the formula by its truth table (64-bit integer terms only), assertions beyond 8 bits go to z3
  { unsigned bits=0, lim=g_inassert?8:30; for(size_t k=0;k<vs.size()&&bits<=lim;k++) for(u64 b=vs[k];b;b&=b-1){ bits+=varinfo[k*64+__builtin_ctzll(b)].w; if(bits>lim) break; }
    if(bits<=lim&&bits){ int tr=-1; u64 hit=0; bool ok=true; std::vector<Expr*> po; std::vector<u32> ids; bits=0; for(size_t i=0;i<pathc.size();i++) if(in[i]) po.push_back(pathc[i]); const Surv*sv=survivors(po,ids,bits,ok);
      if(ok){ std::vector<u32> add; newvars(q,ids,add); unsigned w=0; for(u32 v:add) w+=varinfo[v].w; Surv ex,o1; if(w){ ok=extend(sv,bits,w,ex); sv=&ex; bits+=w; } if(ok&&table({q},ids,bits,sv,o1,true)){ tr=!o1.empty(); if(tr) hit=o1[0]; } }
      if(tr>=0){ CE ce; ce.r=tr?R_SAT:R_UNSAT; if(tr){ u64 t=hit; for(u32 id:ids){ ce.m.push_back({id,t&mask64(varinfo[id].w)}); t>>=varinfo[id].w; } if(out){ *out=cur; for(auto&p:ce.m){ if(out->v.size()<=p.first) out->v.resize(p.first+1,0); out->v[p.first]=p.second; } } }
        qcache[h]=ce; __sync_fetch_and_add(&sstats->small,1); return ce.r; } } }
  // recent models
  { Model save=cur; for(size_t i=recent.size();i-->0;){ // candidate: current model with slice vars replaced
      Model cand=save; bool any=false; if(cand.v.size()<varinfo.size()) cand.v.resize(varinfo.size(),0);
      for(size_t k=0;k<vs.size();k++) for(u64 b=vs[k];b;b&=b-1){ u32 id=k*64+__builtin_ctzll(b); u64 nv=id<recent[i].v.size()?recent[i].v[id]:0; if(cand.v[id]!=nv){cand.v[id]=nv;any=true;} }
      if(!any) continue; setModel(cand); bool ok=evalE(q); for(size_t j=0;ok&&j<sl.size();j++) ok=evalE(sl[j]);
      if(ok){ setModel(save); if(out)*out=cand; __sync_fetch_and_add(&sstats->modelhits,1); return R_SAT; } }
    if(!recent.empty()) setModel(save); }
  // flip single bits the query looks at
  { std::vector<std::pair<u32,unsigned>> bs; std::vector<Expr*> st{q}; std::unordered_map<Expr*,char> seen; unsigned steps=0;
    while(!st.empty()&&steps++<40&&bs.size()<9){ Expr*x=st.back(); st.pop_back(); if(seen[x]++) continue; if(x->op==E_EXTRACT&&x->a->op==E_VAR&&x->w<=8){ for(unsigned i=0;i<x->w;i++) bs.push_back({(u32)(u64)x->a->k,x->lo+i}); continue; } if(x->op==E_VAR&&x->w==1) bs.push_back({(u32)(u64)x->k,0}); for(Expr*c:{x->a,x->b,x->c}) if(c) st.push_back(c); }
    if(bs.size()<9){ Model save=cur; for(auto&p:bs){ Model cand=save; if(cand.v.size()<varinfo.size()) cand.v.resize(varinfo.size(),0); cand.v[p.first]^=1ull<<p.second; setModel(cand); bool ok=evalE(q); for(size_t j=0;ok&&j<sl.size();j++) ok=evalE(sl[j]); if(ok){ setModel(save); if(out) *out=cand; __sync_fetch_and_add(&sstats->modelhits,1); return R_SAT; } } setModel(save); } }
  if(!inited) init();
  double t0=now();
  bool fp=hasfp(q); for(Expr*e:sl) if(hasfp(e)) fp=true;
  static Z3_solver sbv=nullptr; Z3_solver s;
  if(!fp){ if(!sbv){ sbv=Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV")); Z3_solver_inc_ref(zc,sbv); } s=sbv; Z3_solver_reset(zc,s); }
  else { Z3_tactic t=Z3_mk_tactic(zc,"qffpbv"); Z3_tactic_inc_ref(zc,t); s=Z3_mk_solver_from_tactic(zc,t); Z3_solver_inc_ref(zc,s); }
  Z3_params p=Z3_mk_params(zc); Z3_params_inc_ref(zc,p); Z3_params_set_uint(zc,p,Z3_mk_string_symbol(zc,"rlimit"),(unsigned)solver_rlimit); Z3_solver_set_params(zc,s,p); Z3_params_dec_ref(zc,p);
  if(fp){ static Z3_solver sa=nullptr; if(!sa){ sa=Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV")); Z3_solver_inc_ref(zc,sa); } Z3_solver_reset(zc,sa);
    Z3_params pa=Z3_mk_params(zc); Z3_params_inc_ref(zc,pa); Z3_params_set_uint(zc,pa,Z3_mk_string_symbol(zc,"rlimit"),4000000u); Z3_solver_set_params(zc,sa,pa); Z3_params_dec_ref(zc,pa);
    Expr*aq=absfp(q); Z3_lbool ra=Z3_L_TRUE; if(isz(aq)) ra=Z3_L_FALSE; else { Z3_solver_assert(zc,sa,asbool(aq)); for(Expr*e:sl) Z3_solver_assert(zc,sa,asbool(absfp(e))); ra=Z3_solver_check(zc,sa); }
    if(ra==Z3_L_FALSE){ Z3_solver_dec_ref(zc,s); __sync_fetch_and_add(&sstats->queries,1); __sync_fetch_and_add(&sstats->unsat,1); __sync_fetch_and_add(&sstats->time_us,(u64)((now()-t0)*1e6)); CE ce; ce.r=R_UNSAT; qcache[h]=ce; return R_UNSAT; } }
  for(Expr*e:sl) Z3_solver_assert(zc,s,asbool(e));
  Z3_solver_assert(zc,s,asbool(q));
  Z3_lbool r=Z3_solver_check(zc,s);
  __sync_fetch_and_add(&sstats->queries,1);
  CE ce; ce.r= r==Z3_L_TRUE?R_SAT: r==Z3_L_FALSE?R_UNSAT:R_UNKNOWN;
  if(r==Z3_L_TRUE){
    Z3_model m=Z3_solver_get_model(zc,s); Z3_model_inc_ref(zc,m);
    Model o=cur; if(o.v.size()<varinfo.size()) o.v.resize(varinfo.size(),0);
    for(size_t k=0;k<vs.size();k++) for(u64 b=vs[k];b;b&=b-1){ u32 id=k*64+__builtin_ctzll(b); Z3_ast val; u64 x=0;
       if(Z3_model_eval(zc,m,tz(X.vars[id]),1,&val)) Z3_get_numeral_uint64(zc,val,(uint64_t*)&x); o.v[id]=x; ce.m.push_back({id,x}); }
    Z3_model_dec_ref(zc,m);
    // validate the model with our own evaluator; a mismatch means the encoding is wrong
    Model save=cur; setModel(o); bool ok=evalE(q); for(Expr*e:sl) ok=ok&&evalE(e); setModel(save);
    if(!ok){ if(getenv("SX_DEBUG")){ fprintf(stderr,"model mismatch fp=%d q=%s\n",fp,exprStr(q,8).c_str()); } ce.r=R_UNKNOWN; ce.m.clear(); }
    else { if(out) *out=o; recent.push_back(o); if(recent.size()>12) recent.erase(recent.begin()); }
  }
  if(fp) Z3_solver_dec_ref(zc,s);
  double dt=now()-t0;
  { static double lim=getenv("SX_SLOWQ")?atof(getenv("SX_SLOWQ")):1e9; if(dt>=lim) fprintf(stderr,"slow query %.2fs res %d: %s\n",dt,ce.r,exprStr(q,getenv("SX_SLOWD")?atoi(getenv("SX_SLOWD")):5).c_str()); }
  __sync_fetch_and_add(ce.r==R_SAT?&sstats->sat: ce.r==R_UNSAT?&sstats->unsat:&sstats->unknown,1);
  __sync_fetch_and_add(&sstats->time_us,(u64)(dt*1e6)); // microseconds stored as integer
  qcache[h]=ce; return ce.r;
}
std::string dumpModel(){
  std::string s="["; for(size_t i=0;i<varinfo.size();i++){ char b[64]; snprintf(b,sizeof b,"%s[\"",i?",":""); s+=b; for(char c:varinfo[i].name){ if(c=='"'||c=='\\') s+='\\'; s+=c; }
    snprintf(b,sizeof b,"\",%u,%llu]",varinfo[i].w,(unsigned long long)((i<cur.v.size()?cur.v[i]:0)&mask64(varinfo[i].w))); s+=b; } return s+"]"; }
