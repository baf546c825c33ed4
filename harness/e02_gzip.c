// E02: gzip member acceptance against RFC 1952, header fields and trailer arbitrary.
#include "sx.h"
#include <stdlib.h>
#include <string.h>
int tinf_uncompress(void *dest, unsigned int *destLen, const void *source, unsigned int sourceLen);
int tinf_gzip_uncompress(void *dest, unsigned int *destLen, const void *source, unsigned int sourceLen);
static unsigned T[16]; static unsigned step4(unsigned c){ for(int k=0;k<4;k++) c=(c>>1)^(0xEDB88320u&-(c&1)); return c; }
static void init(void){ for(unsigned i=0;i<16;i++) T[i]=step4(i); unsigned c=sx_u32("any"); sx_assert(step4(c)==(T[c&15]^(c>>4)),"reference CRC"); } // the table form used below is the bitwise CRC-32
static unsigned crc(const unsigned char*p,unsigned n){ unsigned c=~0u; for(unsigned i=0;i<n;i++){ c^=p[i]; c=T[c&15]^(c>>4); c=T[c&15]^(c>>4); } return n?~c:0; }
// header: length of it, or 0 if malformed
static unsigned hdr(const unsigned char*s,unsigned n){ if(n<18||s[0]!=31||s[1]!=139||s[2]!=8) return 0; unsigned f=s[3]; if(f&0xE0) return 0; unsigned p=10;
  if(f&4){ if(p+2>n) return 0; unsigned x=s[p]|s[p+1]<<8; if(x>n-p-2) return 0; p+=2+sx_conc(x); }
  for(int k=0;k<2;k++) if(f&(k?16:8)){ for(;;){ if(p>=n) return 0; if(!s[p++]) break; } }
  if(f&2){ if(p+2>n) return 0; if((crc(s,p)&0xffff)!=(unsigned)(s[p]|s[p+1]<<8)) return 0; p+=2; }
  return p+8>n?0:p; }
static unsigned le32(const unsigned char*p){ return p[0]|p[1]<<8|p[2]<<16|(unsigned)p[3]<<24; }
static void check(const unsigned char*in,unsigned n,unsigned cap){
  unsigned char*o=malloc(cap?cap:1),*w=malloc(cap?cap:1); memset(o,0x11,cap?cap:1); unsigned ol=cap,wl=cap; int r=tinf_gzip_uncompress(o,&ol,in,n);
  unsigned h=hdr(in,n); int want=0; if(h){ unsigned d=le32(in+n-4); if(d<=cap){ if(tinf_uncompress(w,&wl,in+h,n-h-8)==0&&wl==d&&crc(w,d)==le32(in+n-8)) want=1; } }
  if(r==0){ sx_assert(want,"a damaged or malformed member is accepted"); sx_assert(ol==wl,"length"); int ok=1; for(unsigned i=0;i<wl;i++) ok&=o[i]==w[i]; sx_assert(ok,"content"); sx_cover("accepted"); }
  else { sx_assert(!want,"an intact member is refused"); if(h) sx_cover("trailer-refused"); else sx_cover("header-refused"); } }
void harness(void){ init();
#if MODE==0 // every optional-field layout before an intact stored block, every trailer
  unsigned e=sx_choose(EXTRA+1,"extra"), k=sx_choose(DATA+1,"data"), n=10+e+5+k+8; unsigned char*in=malloc(n); sx_symbolic(in,n,"in"); unsigned D=10+e; in[D]=1; in[D+1]=k; in[D+2]=0; in[D+3]=~k; in[D+4]=0xff;
  unsigned flg=in[3]; if(TIER_QUICK) sx_assume(!(flg&2)); if(!(flg&0xE0)){ unsigned f=sx_conc(flg&31); unsigned h=hdr(in,n); sx_assume(h==0||h==D); if(f==31&&h) sx_cover("all-fields"); } unsigned cap=sx_choose(2,"cap")?DATA+1:1; check(in,n,cap);
#elif MODE==1 // whatever follows a well-formed prefix: nothing is read outside the input
  unsigned n=sx_choose(NMAX+1,"n"); unsigned char*in=malloc(n?n:1); sx_symbolic(in,n,"in"); unsigned h=hdr(in,n); if(TIER_QUICK&&n>3) sx_assume(!(in[3]&2)); if(h) sx_assume(n-8-h<=1); check(in,n,2);
#elif MODE==2 // header crc over optional fields of fixed shape
  unsigned f=2|4*sx_choose(2,"x")|8*sx_choose(2,"n")|16*sx_choose(2,"c"); unsigned char b[64]; unsigned p=0; unsigned char z[10]={31,139,8,f,0,0,0,0,0,0}; memcpy(b,z,10); b[4]=sx_u8("mtime"); b[8]=sx_u8("xfl"); b[9]=sx_u8("os"); p=10; if(f&4){ b[p++]=2; b[p++]=0; b[p++]=sx_u8("x0"); b[p++]=0; } if(f&8){ unsigned char c=sx_u8("name"); sx_assume(c!=0); b[p++]=c; b[p++]='b'; b[p++]=0; } if(f&16){ b[p++]='c'; b[p++]=0; }
  b[p++]=sx_u8("h0"); b[p++]=sx_u8("h1"); unsigned char d0=sx_u8("d0"); b[p++]=1; b[p++]=1; b[p++]=0; b[p++]=0xfe; b[p++]=0xff; b[p++]=d0; for(int i=0;i<8;i++) b[p++]=sx_u8("t"); unsigned char*in=malloc(p); memcpy(in,b,p); check(in,p,4);
#endif
  sx_cover("end"); }
