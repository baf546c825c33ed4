// E01: the inflater against an independent DEFLATE (RFC 1951) decoder written from the format's text.
#include "sx.h"
#include <stdlib.h>
#include <string.h>
int tinf_uncompress(void *dest, unsigned int *destLen, const void *source, unsigned int sourceLen);
enum { OK=0, BAD=1, FULL=2 };
// ---- reference
static const unsigned char *S; static unsigned NB, P; static int OV; static unsigned char R[400]; static unsigned RN, CAP;
static unsigned bit(void){ if(P>=NB*8){ OV=1; P++; return 0; } unsigned b=(S[P>>3]>>(P&7))&1; P++; return b; }
static unsigned bits(unsigned n){ unsigned v=0; for(unsigned i=0;i<n;i++) v|=bit()<<i; return v; }
static unsigned code(unsigned n){ unsigned v=0; for(unsigned i=0;i<n;i++) v=v*2+bit(); return v; }
typedef struct { unsigned char len[288]; unsigned n; unsigned first[16],idx[16],cnt[16]; unsigned short sym[288]; unsigned used; } huf;
static int mk(huf*h){ unsigned k=0; h->used=0; unsigned c=0; long left=1; for(unsigned l=1;l<=15;l++){ c<<=1; left<<=1; h->first[l]=c; h->idx[l]=k; h->cnt[l]=0; for(unsigned i=0;i<h->n;i++) if(h->len[i]==l){ h->sym[k++]=i; h->cnt[l]++; c++; left--; } if(left<0) return BAD; } h->used=k; if(k>1&&left>0) return BAD; if(k==1&&h->cnt[1]!=1) return BAD; return OK; }
static int dec(huf*h){ unsigned c=0; for(unsigned l=1;l<=15;l++){ c=c*2+bit(); if(h->cnt[l]&&c-h->first[l]<h->cnt[l]) return h->sym[h->idx[l]+(c-h->first[l])]; } return -1; }
static const unsigned LB[29]={3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, LX[29]={0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
static int put(unsigned b){ if(RN==CAP) return FULL; R[RN++]=b; return OK; }
static int match(unsigned ls,int ds_bits,huf*d){ if(ls>28) return BAD; unsigned len=LB[ls]+bits(LX[ls]); int ds= d? dec(d): (int)code(5); if(ds<0||ds>29) return BAD; ds=(int)sx_conc(ds);
  unsigned x=ds<2?0:ds/2-1, dist=ds<4?ds+1:((2+(ds&1))<<x)+1; dist+=bits(x); if(OV) return BAD; if(dist>RN) return BAD; if(len>CAP-RN) return FULL;
  len=sx_conc(len); dist=sx_conc(dist); for(unsigned i=0;i<len;i++){ R[RN]=R[RN-dist]; RN++; } return OK; }
static int fixedblk(void){ for(;;){ unsigned c=code(7); int s; if(c<24){ if(OV) return BAD; if(c==0) return OK; int r=match((unsigned)sx_conc(c)-1,5,0); if(r) return r; continue; }
    c=c*2+bit(); if(c>=0x30&&c<=0xBF){ if(OV) return BAD; int r=put(c-0x30); if(r) return r; continue; } if(c>=0xC0&&c<=0xC7){ if(OV) return BAD; int r=match(23+(unsigned)sx_conc(c)-0xC0,5,0); if(r) return r; continue; }
    c=c*2+bit(); if(OV) return BAD; int r=put(c-0x190+144); if(r) return r; } }
static int dynblk(void){ static huf cl,lt,dt; unsigned hl=bits(5)+257,hd=bits(5)+1,hc=bits(4)+4; static const unsigned char ord[19]={16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15}; if(hl>286||hd>30) return BAD;
  memset(&cl,0,sizeof cl); memset(&lt,0,sizeof lt); memset(&dt,0,sizeof dt); cl.n=19; for(unsigned i=0;i<hc;i++) cl.len[ord[i]]=bits(3); if(OV) return BAD; if(mk(&cl)||!cl.used) return BAD;
  unsigned char L[400]; unsigned n=0; while(n<hl+hd){ int s=dec(&cl); if(s<0||OV) return BAD; unsigned v=s,c=1; if(s==16){ if(!n) return BAD; v=L[n-1]; c=3+bits(2); } else if(s==17){ v=0; c=3+bits(3); } else if(s==18){ v=0; c=11+bits(7); } if(OV) return BAD; if(n+c>hl+hd) return BAD; while(c--) L[n++]=v; }
  if(!L[256]) return BAD; lt.n=hl; dt.n=hd; for(unsigned i=0;i<hl;i++) lt.len[i]=L[i]; for(unsigned i=0;i<hd;i++) dt.len[i]=L[hl+i]; if(mk(&lt)||mk(&dt)) return BAD;
  for(;;){ int s=dec(&lt); if(s<0||OV) return BAD; s=(int)sx_conc(s); if(s<256){ int r=put(s); if(r) return r; } else if(s==256) return OK; else { if(!dt.used) return BAD; int r=match(s-257,0,&dt); if(r) return r; } } }
static int ref(const unsigned char*s,unsigned n,unsigned cap){ S=s; NB=n; P=0; OV=0; RN=0; CAP=cap; unsigned fin; do { fin=bit(); unsigned t=bits(2); if(OV) return BAD; int r;
   if(t==0){ P=(P+7)&~7u; unsigned l=bits(16),m=bits(16); if(OV||(l^m)!=0xffff) return BAD; if(l>NB-P/8) return BAD; if(l>CAP-RN) return FULL; l=sx_conc(l); for(unsigned i=0;i<l;i++) R[RN++]=bits(8); r=OK; }
   else if(t==1) r=fixedblk(); else if(t==2) r=dynblk(); else r=BAD;
   if(r) return r; } while(!fin); return OK; }
// ---- bit writer for concrete stream prefixes
static unsigned char W[400]; static unsigned WP; static void wb(unsigned v,unsigned n){ for(unsigned i=0;i<n;i++,WP++){ if((v>>i)&1) W[WP>>3]|=1<<(WP&7); } } static void wc(unsigned v,unsigned n){ while(n--) wb((v>>n)&1,1); }
static void compare(unsigned char*in,unsigned n,unsigned cap){ unsigned char*out=malloc(cap?cap:1); memset(out,0xEE,cap?cap:1); unsigned dl=cap; sx_instlimit(400000,1); int r=tinf_uncompress(out,&dl,in,n); sx_instlimit(0,0);
  int e=ref(in,n,cap); if(r==0){ sx_assert(e==OK,"a stream the format does not define is accepted"); sx_assert(dl==RN,"reported length is wrong"); int ok=1; for(unsigned i=0;i<RN;i++) ok&=out[i]==R[i]; sx_assert(ok,"decompressed bytes are wrong"); sx_cover("accepted"); if(RN) sx_cover("accepted-nonempty"); }
  else { sx_assert(e!=OK,"a well-formed stream is refused"); sx_assert(dl==cap||e!=OK,"length reported on error"); if(e==FULL) sx_cover("full"); else sx_cover("refused"); } }
void harness(void){
#if MODE==0 // every input of up to NMAX bytes
  unsigned n=sx_choose(NMAX+1,"n"); unsigned char*in=malloc(n?n:1); sx_symbolic(in,n,"in"); unsigned cap=sx_choose(TIER_QUICK?2:4,"cap"); cap=cap==0?1:cap==1?CAPMAX:cap==2?0:2;
#ifdef NOTDYN
  if(n>0) sx_assume((in[0]&6)!=4);
#endif
  compare(in,n,cap);
#elif MODE==1 // a fixed-code block preceded by literals, so that matches have something to copy; symbolic rest
  wb(1,1); wb(1,2); unsigned k=sx_choose(3,"lits"); k=k==0?1:k==1?3:5; for(unsigned i=0;i<k;i++) wc(0x30+'a'+i,8); unsigned base=WP/8, n=base+NSYM; unsigned char*in=malloc(n); sx_symbolic(in,n,"in");
  for(unsigned i=0;i<base;i++) in[i]=W[i]; if(WP&7) in[base]=(in[base]&~((1<<(WP&7))-1))|W[base]; compare(in,n,CAPMAX);
#elif MODE==2 // dynamic block: chosen code lengths, symbolic body
  unsigned char ll[286],dd[30]; memset(ll,0,sizeof ll); memset(dd,0,sizeof dd); unsigned t=sx_choose(6,"template");
#ifdef CUT
  if(t==4) sx_end();
#endif
  unsigned hl=257,hd=1;
  if(t==0){ ll['x']=1; ll[256]=2; ll['y']=2; }                                         // no distances
  if(t==1){ hl=286; hd=30; ll['x']=2; ll[256]=2; ll[257]=2; ll[285]=2; dd[0]=1; dd[29]=1; }
  if(t==2){ hl=265+1; hd=2; ll['x']=1; ll[256]=3; ll[257]=3; ll[258]=3; ll[265]=3; dd[1]=1; }   // a single distance code
  if(t==3){ hl=258; hd=4; for(int i=0;i<14;i++) ll['a'+i]=i+2; ll[256]=15; ll[257]=1; ll['p']=15; ll['a'+13]=14; ll['z']=0; dd[0]=1; dd[1]=2; dd[2]=3; dd[3]=3; ll['a'+13]=0; ll['a'+12]=14; ll['q']=0; }
  if(t==4){ hl=259; hd=3; const int q=TIER_QUICK; ll['x']=q?1+sx_choose(2,"lx"):sx_choose(4,"lx"); ll['y']=q?sx_choose(2,"ly")*2:sx_choose(4,"ly"); ll[256]=q?1+sx_choose(3,"le"):sx_choose(4,"le"); ll[258]=q?3*sx_choose(2,"lm"):sx_choose(4,"lm"); dd[2]=sx_choose(2,"ld"); dd[0]=sx_choose(2,"ld0"); }
  if(t==5){ hl=257+29; hd=29; ll['x']=1; ll[256]=2; ll[270]=3; ll[284]=3; for(int i=0;i<28;i++) dd[i]=i<4?4:5; }
  wb(1,1); wb(2,2); wb(hl-257,5); wb(hd-1,5); wb(15,4); static const unsigned char ord[19]={16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15};
  // code-length code: 1..15 and 0,16,17,18: 0:2 bits; 16,17,18: 3,4,4... use lengths 0->2, 18->2, 17->3, 16->4 and 1..8 sparse 5/6
  unsigned char cl[19]={2,5,5,5,5,6,6,6,6,6,6,6,6,6,6,6,3,4,2}; // 1/4+1/4+1/8+1/16+4/32+11/64 <= 1 ?
  { // complete the code: sum must be exactly 1
    cl[16]=4; long s=0; for(int i=0;i<19;i++) s+=64>>cl[i]; for(int i=5;i<16&&s<64;i++){ s+=64>>6; cl[i]=5; } }
  huf h; memset(&h,0,sizeof h); h.n=19; memcpy(h.len,cl,19); if(mk(&h)) sx_fail("template"); unsigned cc[19]; for(unsigned l=1;l<=15;l++) for(unsigned j=0;j<h.cnt[l];j++) cc[h.sym[h.idx[l]+j]]=h.first[l]+j;
  for(int i=0;i<19;i++) wb(cl[ord[i]],3); unsigned char all[320]; memcpy(all,ll,hl); memcpy(all+hl,dd,hd);
  for(unsigned i=0;i<hl+hd;){ unsigned z=0; while(i+z<hl+hd&&all[i+z]==all[i]) z++; if(all[i]==0&&z>=11){ unsigned q=z>138?138:z; wc(cc[18],cl[18]); wb(q-11,7); i+=q; } else if(all[i]==0&&z>=3){ wc(cc[17],cl[17]); wb(z-3,3); i+=z; } else { wc(cc[all[i]],cl[all[i]]); i++; z--; if(z>=3){ unsigned q=z>6?6:z; wc(cc[16],cl[16]); wb(q-3,2); i+=q; } } }
  unsigned base=WP/8;
#ifdef CUT
  unsigned n=sx_choose(base,"cut"); unsigned char*in=malloc(n?n:1); for(unsigned i=0;i<n;i++) in[i]=W[i]; if(n>2) { unsigned q=sx_choose(n,"pos"); if(TIER_QUICK&&q+2<n&&(q%8)) sx_end(); in[q]=sx_u8("b"); } 
#else
  unsigned n=base+NSYM-(t==4&&TIER_QUICK); unsigned char*in=malloc(n); sx_symbolic(in,n,"in"); for(unsigned i=0;i<base;i++) in[i]=W[i]; if(WP&7) in[base]=(in[base]&~((1<<(WP&7))-1))|W[base];
#endif
  compare(in,n,CAPMAX);
#endif
  sx_cover("end"); }
