// Development self-test: every rewriting of the expression layer against plain evaluation of the unrewritten term.
//   g++ -O2 -std=c++17 selftest.cpp expr.cpp -lz3 -o /tmp/selftest && /tmp/selftest SEED ROUNDS
#include "expr.hpp"
#include <random>
#include <cstring>
static std::mt19937_64 R; static u64 rn(u64 n){ return R()%n; }
static unsigned W(){ static const unsigned w[]={1,1,1,2,3,7,8,8,8,12,16,16,24,31,32,32,32,33,40,48,63,64,64,64,65,96,128}; return w[rn(27)]; }
static u64 val(){ switch(rn(6)){ case 0: return rn(4); case 1: return -rn(4)-1; case 2: return 1ull<<rn(64); case 3: return (1ull<<rn(64))-1; case 4: return R()&0xff; default: return R(); } }
int main(int c,char**v){ u64 seed=c>1?atoll(v[1]):1,rounds=c>2?atoll(v[2]):200; u64 bad=0,n=0;
  std::vector<std::vector<Expr*>> byw(129); std::vector<Model> ms;
  for(u64 r=0;r<rounds&&bad<10;r++){ R.seed(seed*1000003+r); for(auto&x:byw) x.clear();
    std::vector<u32> ids; if(r==0) for(unsigned w:{1u,1u,8u,8u,8u,16u,16u,32u,32u,32u,64u,64u,64u,24u,7u}) mkvar("x",w);
    for(auto*x:X.vars) byw[x->w].push_back(x);
    Model m; auto newm=[&]{ m.v.clear(); for(auto*x:X.vars) m.v.push_back(val()&mask64(x->w)); return m; };
    ms.clear(); for(int i=0;i<12;i++) ms.push_back(newm());
    auto get=[&](unsigned w)->Expr*{ if(rn(8)==0||(byw[w].empty()&&rn(2))) return mkc(rn(3)?(u128)val():((u128)val()<<64|val()),w); if(!byw[w].empty()) return byw[w][rn(byw[w].size())];
      std::vector<unsigned> ws; for(unsigned i=1;i<129;i++) if(!byw[i].empty()) ws.push_back(i); unsigned s=ws[rn(ws.size())]; Expr*e=byw[s][rn(byw[s].size())]; if(s>w) return mkextract(e,rn(2)?0:rn(s-w+1),w); if(rn(3)==0&&s<w){ return mkconcat(e,mkc(rn(2)?0:val(),w-s)); } return rn(2)?mkzext(e,w):mksext(e,w); };
    auto check=[&](Expr*got,Expr*raw,const char*what){ n++; if(got->w!=raw->w){ bad++; printf("width %s %u %u\n",what,got->w,raw->w); return; } for(auto&mm:ms){ cur=mm; curgen++; u128 a=evalE(got),b=evalE(raw); if(a!=b){ bad++; printf("MISMATCH %s seed %llu round %llu\n raw %s\n got %s\n %llx%016llx %llx%016llx\n",what,(unsigned long long)seed,(unsigned long long)r,exprStr(raw,7).c_str(),exprStr(got,7).c_str(),(unsigned long long)(b>>64),(unsigned long long)b,(unsigned long long)(a>>64),(unsigned long long)a); return; } } };
    for(int k=0;k<140&&bad<10;k++){ Expr*e=0,*raw=0; unsigned w=W(); const char*what="";
      switch(rn(16)){
      case 0: { unsigned s=W(); if(s>=w) continue; Expr*a=get(s); raw=X.raw(E_ZEXT,w,0,a,0,0,0); e=mkzext(a,w); what="zext"; break; }
      case 1: { unsigned s=W(); if(s>=w) continue; Expr*a=get(s); raw=X.raw(E_SEXT,w,0,a,0,0,0); e=mksext(a,w); what="sext"; break; }
      case 2: case 3: { unsigned s=W(); if(s<=w) continue; Expr*a=get(s); unsigned lo=rn(3)?rn(s-w+1):0; raw=X.raw(E_EXTRACT,w,lo,a,0,0,0); e=mkextract(a,lo,w); what="extract"; break; }
      case 4: case 5: { unsigned s=1+rn(w); if(s>=w) continue; Expr*a,*b; if(rn(2)){ unsigned t=W(); if(t<w) t=w; Expr*x=get(t),*y=rn(2)?x:get(t); a=mkextract(x,t>=w?s:0,w-s); b=mkextract(y,0,s); if(rn(3)==0&&w-s>1) a=mksext(mkextract(x,s-1+rn(2),1),w-s); } else a=get(w-s),b=get(s); raw=X.raw(E_CONCAT,w,0,a,b,0,0); e=mkconcat(a,b); what="concat"; break; }
      case 6: { Expr*q=get(1),*a=get(w),*b=get(w); raw=X.raw(E_ITE,w,0,q,a,b,0); e=mkite(q,a,b); what="ite"; break; }
      case 14: { static const unsigned fw[]={32,64,80}; unsigned f1=fw[rn(3)],f2=fw[rn(3)]; w=rn(2)?64:32; unsigned s=rn(2)?W():fw[rn(2)]; if(s>64) s=64; Expr*a=get(s); Op o1=rn(2)?E_SITOFP:E_UITOFP; Expr*r1=X.raw(o1,f1,0,a,0,0,0),*g1=mkfp1(o1,a,f1); Expr*r2=f1==f2?r1:X.raw(E_FPCVT,f2,0,r1,0,0,0),*g2=mkfp1(E_FPCVT,g1,f2); check(g2,r2,"fpcvt"); Op o3=rn(2)?E_FPTOSI:E_FPTOUI; if(w!=64&&o3==E_FPTOUI) o3=E_FPTOSI; raw=X.raw(o3,w,0,r2,0,0,0); e=mkfp1(o3,g2,w); what="fptoint"; break; }
      case 15: { static const unsigned fw[]={32,64,80}; unsigned f=fw[rn(3)]; auto mkf=[&](Expr*&r,Expr*&g){ if(rn(4)==0){ double d=(double)(i64)(val()>>rn(64)); if(rn(4)==0) d+=0.5; if(rn(2)) d=-d; u128 k=0; u64 b; memcpy(&b,&d,8); k=fpop1(E_FPCVT,64,f,b); r=g=mkc(k,f); return; } unsigned s=W(); if(s>64) s=64; Expr*a=get(s); Op o=rn(2)?E_SITOFP:E_UITOFP; unsigned f0=fw[rn(3)]; if(f0>f) f0=f; r=X.raw(o,f0,0,a,0,0,0); g=mkfp1(o,a,f0); if(f0<f){ r=X.raw(E_FPCVT,f,0,r,0,0,0); g=mkfp1(E_FPCVT,g,f); } }; Expr*r1,*g1,*r2,*g2; mkf(r1,g1); mkf(r2,g2); static const Op co[]={E_FEQ,E_FLT,E_FLE}; Op o=co[rn(3)]; raw=X.raw(o,1,0,r1,r2,0,0); e=mk2(o,g1,g2); what="fpcmp"; break; }
      default: { static const Op ops[]={E_ADD,E_SUB,E_MUL,E_UDIV,E_SDIV,E_UREM,E_SREM,E_AND,E_OR,E_XOR,E_SHL,E_LSHR,E_ASHR,E_EQ,E_ULT,E_ULE,E_SLT,E_SLE,E_ADD,E_SUB,E_MUL,E_AND,E_EQ,E_MULHU,E_MULHS};
        Op op=ops[rn(25)]; if(op==E_MULHU||op==E_MULHS) w=64; bool cmp=op>=E_EQ&&op<=E_SLE; if((op==E_SDIV||op==E_SREM||op==E_UDIV||op==E_UREM)&&w>64) continue; if(w>64&&(op==E_MUL||cmp)) {} 
        Expr*a=get(w),*b=get(w); raw=X.raw(op,cmp?1:w,0,a,b,0,0); e=mk2(op,a,b); what="mk2"; } }
      check(e,raw,what); byw[e->w].push_back(e); }
    // rewriting under true facts
    for(int k=0;k<25&&bad<10;k++){ Model mm=ms[rn(ms.size())]; cur=mm; curgen++; std::vector<Expr*> path; int nf=rn(6);
      for(int i=0;i<nf;i++){ Expr*p=byw[1].empty()?mkbool(true):byw[1][rn(byw[1].size())]; if(rn(3)==0){ unsigned w=W(); Expr*x=get(w); cur=mm; curgen++; p=mk2(E_EQ,x,mkc(evalE(x),w)); } cur=mm; curgen++; if(!evalE(p)) p=mknot(p); if(!isc(p)) path.push_back(p); }
      Expr*q; if(rn(2)&&!byw[1].empty()) q=byw[1][rn(byw[1].size())]; else { unsigned w=W(); Expr*a=get(w),*b=get(w); if(rn(3)==0&&w<=64){ Expr*x=get(w),*y=get(w); a=mk2(E_MUL,mk2(E_ADD,x,y),b); b=mk2(E_ADD,mk2(E_MUL,x,b),mk2(E_MUL,b,y)); } q=mk2(E_EQ,a,b); }
      Expr*g=underPath(q,path); n++; cur=mm; curgen++; if(evalE(g)!=evalE(q)){ bad++; printf("MISMATCH underPath seed %llu round %llu\n q %s\n got %s\n",(unsigned long long)seed,(unsigned long long)r,exprStr(q,8).c_str(),exprStr(g,8).c_str()); for(auto*p:path) printf("  path %s\n",exprStr(p,5).c_str()); } }
  }
  printf("%llu checks, %llu bad, %u exprs\n",(unsigned long long)n,(unsigned long long)bad,X.nexpr); return bad!=0; }
