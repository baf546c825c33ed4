// C05: structures of three kinds of members repeated twice, under none, packed and #pragma pack: layout against the reference, then reads and writes of every
// member of an object of any bytes.
#include "c_common.h"
#include "c05_fields.h"
static U bits(const unsigned char*b,int o,int w){ U v=0; int by=o/8, sh=o%8, n=(sh+w+7)/8; for(int i=0;i<n&&i<8;i++) v|=(U)b[by+i]<<8*i; v>>=sh; if(n>8) v|=(U)b[by+8]<<(64-sh); return w==64?v:v&((1ull<<w)-1); }
static void put(unsigned char*b,int o,int w,U v){ int by=o/8, sh=o%8, n=(sh+w+7)/8; for(int i=0;i<n;i++){ int lo=i*8-sh; unsigned m=0xff; if(lo<0) m=m<<-lo&0xff; if(lo+8>w) m&=0xff>>(lo+8-w); unsigned x=lo<0?(unsigned)(v<<-lo):(unsigned)(v>>lo); b[by+i]=(b[by+i]&~m)|(x&m); } }
static L ext(U v,int w,int sgn){ return w==64||!sgn?(L)v:(L)(v<<(64-w))>>(64-w); }
static char text[6000];
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); int at=sx_choose(4,"packing"),a=sx_choose(NK,"first"),b=TIER_QUICK?a+sx_choose(NK-a,"second"):sx_choose(NK,"second"),c=TIER_QUICK?a+sx_choose(NK-a,"third"):sx_choose(NK,"third"); if(TIER_QUICK&&at==3&&K[a].bits+K[b].bits+K[c].bits<90) sx_end();
  int k[6]={a,b,c,a,b,c},off[6],al; int sz=layout(k,6,at==1,at==2?2:at==3?4:0,off,&al); char*t=text; if(at>1) t=c_put(t,at==2?"#pragma pack(push,2)\n":"#pragma pack(push,4)\n"); t=c_put(t,"typedef struct "); if(at==1) t=c_put(t,"__attribute__((packed)) "); t=c_put(t,"{ "); 
  for(int i=0;i<6;i++){ t=c_put(t,K[k[i]].t); if(K[k[i]].named){ t=c_put(t," m"); t=c_num(t,i); } if(K[k[i]].w>=0){ t=c_put(t,":"); t=c_num(t,K[k[i]].w); } t=c_put(t,"; "); } t=c_put(t,"} S;\n"); if(at>1) t=c_put(t,"#pragma pack(pop)\n");
  t=c_put(t,"int n=sizeof(S),al=_Alignof(S); void rd(S*p,long long*o){ "); for(int i=0;i<6;i++) if(K[k[i]].named){ t=c_put(t,"o["); t=c_num(t,i); t=c_put(t,"]=p->m"); t=c_num(t,i); t=c_put(t,"; "); } t=c_put(t,"} void wr(S*p,long long v,long long*o){ "); for(int i=0;i<6;i++) if(K[k[i]].named&&(!TIER_QUICK||i!=(a+b)%3)){ t=c_put(t,"o["); t=c_num(t,i); t=c_put(t,"]=(p->m"); t=c_num(t,i); t=c_put(t,"=v+"); t=c_num(t,i); t=c_put(t,"); "); } t=c_put(t,"}\n");
  if(sx_native()) sx_print(text,sz); c_compile(text); c_load(); sx_assert(*(int*)c_sym("n")==sz,"the size of a structure with bit-fields is the ABI's"); sx_assert(*(int*)c_sym("al")==al,"the alignment of a structure with bit-fields is the ABI's"); if(!sz){ sx_cover("end"); return; }
  static unsigned char o1[128] __attribute__((aligned(16))), o2[128] __attribute__((aligned(16))); int tot=16+sz+16; sx_symbolic(o1,tot,"bytes"); memcpy(o2,o1,tot); L v=sx_u64("value"); static L r[6],q[6]; ((void(*)(void*,L*))c_sym("rd"))(o1+16,r);
  int ok=1; for(int i=0;i<6;i++) if(K[k[i]].named){ const mk*m=K+k[i]; int w=m->w<0?m->bits:m->w; L x=ext(bits(o2+16,off[i],w),w,m->sgn); if(sx_native()&&r[i]!=x) sx_print("read",i), sx_print("want",x), sx_print("got",r[i]); ok&=r[i]==x; } sx_assert(ok,"every member is read from its bits");
  ((void(*)(void*,L,L*))c_sym("wr"))(o1+16,v,q); ok=1; for(int i=0;i<6;i++) if(K[k[i]].named&&(!TIER_QUICK||i!=(a+b)%3)){ const mk*m=K+k[i]; int w=m->w<0?m->bits:m->w; U x=(U)v+i; put(o2+16,off[i],w,x); L y=ext(w==64?x:x&((1ull<<w)-1),w,m->sgn); if(sx_native()&&q[i]!=y) sx_print("assignment",i), sx_print("want",y), sx_print("got",q[i]); ok&=q[i]==y; } sx_assert(ok,"the value of an assignment to a member is the stored one");
  ok=1; for(int i=0;i<tot;i++){ if(sx_native()&&o1[i]!=o2[i]) sx_print("byte",i-16), sx_print("want",o2[i]), sx_print("got",o1[i]); ok&=o1[i]==o2[i]; } sx_assert(ok,"a store changes the member's bits and no others"); sx_cover("end"); }
