// E03: archive extraction against a USTAR reference, over an in-memory file system.
#include "model_env.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "muntar.h"
int muntar_to_path(const char *path,const uint8_t *buf,const unsigned int len);
#define T "/x/t"
static void oct(unsigned char*f,int digits,unsigned long v){ for(int i=0;i<digits;i++) f[i]='0'+((v>>(3*(digits-1-i)))&7); }
static void seal(unsigned char*h){ unsigned s=0; memset(h+148,' ',8); for(int i=0;i<512;i++) s+=h[i]; oct(h+148,6,s); h[154]=0; h[155]=' '; }
static void head(unsigned char*h,const char*name,char type,unsigned long size){ memset(h,0,512); memcpy(h,name,strlen(name)); oct(h+100,7,0644); oct(h+108,7,0); oct(h+116,7,0); oct(h+124,11,size); oct(h+136,11,0x6000); h[156]=type; memcpy(h+257,"ustar",6); h[263]='0'; h[264]='0'; memcpy(h+265,"root",4); }
static int n0; static void setup(void){ mfs_reset(); mfs_add("/x",MT_DIR,0,0); mfs_add("/x/other",MT_FILE,"keep",4); mfs_add("/x/t2",MT_DIR,0,0); n0=0; for(int i=0;i<MFS_MAX;i++) n0+=mfs[i].type!=MT_FREE; }
static void confined(void){ for(int i=0;i<MFS_MAX;i++) if(mfs[i].type!=MT_FREE){ const char*p=mfs[i].path; int in=!strncmp(p,T,strlen(T))&&(p[strlen(T)]=='/'||!p[strlen(T)]); if(!in) sx_assert(!strcmp(p,"/x")||!strcmp(p,"/x/t2")||(!strcmp(p,"/x/other")&&mfs[i].size==4&&!memcmp(mfs[i].data,"keep",4)),"something outside the target is touched"); } }
static int dotdot(const char*p){ while(*p){ size_t n=0; while(p[n]&&p[n]!='/') n++; if(n==2&&p[0]=='.'&&p[1]=='.') return 1; p+=n; if(*p) p++; } return 0; }
static void symname(unsigned char*f,unsigned max,const char*nm){ unsigned n=1+sx_choose(max,nm); for(unsigned i=0;i<n;i++){ f[i]=sx_u8(nm); sx_assume(f[i]!=0); } f[n]=0; }
static int failat,opn,what; static int hook(const char*op,const char*p){ if(what==0&&opn++==failat) return ENOSPC; return 0; } static int wl(mnode*m,size_t n){ if(what==1&&opn++==failat) return n?(int)n-1:0; return (int)n; } static int cl(mnode*m){ return what==2&&opn++==failat; }
void harness(void){ setup(); sx_instlimit(6000000,1);
#if MODE==0 // two entries with arbitrary short names and types, prefix, content
  static const unsigned long SZ[]={0,1,511,512,513}; unsigned char b[512*8]; memset(b,0,sizeof b); unsigned o=0; char nm[2][300]; unsigned long sz[2]; unsigned char ty[2]; unsigned off[2]; unsigned cnt=2;
  for(unsigned k=0;k<cnt;k++){ unsigned char*h=b+o; sz[k]=SZ[k==0?sx_choose(5,"size"):1+2*sx_choose(2,"size2")]; head(h,"",'0',0); if(k==0) symname(h,NLEN,"name"); else { h[0]='q'; }
    ty[k]=h[156]=k==0?sx_u8("type"):'0'; if(k==0&&sx_choose(2,"pfx")) symname(h+345,1,"prefix"); else if(k==0&&sx_choose(2,"long")){ for(int i=0;i<100;i++) h[i]='n'; h[1]=sx_u8("n1"); sx_assume(h[1]!=0); }
    if(h[156]!='0') sz[k]=0; oct(h+124,11,sz[k]); nm[k][0]=0; if(h[345]){ strcpy(nm[k],(char*)h+345); strcat(nm[k],"/"); } strncat(nm[k],(char*)h,100); seal(h); o+=512; off[k]=o; for(unsigned i=0;i<sz[k];i++) b[o+i]= i<1||i==sz[k]-1?sx_u8("data"):(unsigned char)(i*7+k); o+=(sz[k]+511)/512*512; }
  unsigned tail=sx_choose(2,"tail")*1024; unsigned len=o+tail; unsigned char*a=malloc(len); memcpy(a,b,len); int r=muntar_to_path(T,a,len); confined();
  if(r==0){ int made=0; for(unsigned k=0;k<2;k++){ char full[420]; strcpy(full,T "/"); strcat(full,nm[k]); if(dotdot(nm[k])) { made+=MFS_MAX; continue; } mnode*m=mfs_find(full); char nn[1200]; mfs_norm(full,nn);
      if(k==0){ char q[1200]; mfs_norm(T "/q",q); if(!strcmp(nn,q)) { made=MFS_MAX; continue; } }
      if(ty[k]=='0'){ sx_assert(m&&m->type==MT_FILE,"a regular file is missing after success"); sx_assert(m->size==sz[k],"a file has the wrong size"); int ok=1; for(unsigned i=0;i<sz[k];i++) ok&=m->data[i]==b[off[k]+i]; sx_assert(ok,"a file has the wrong content"); made++; if(k==0&&sz[k]>1) sx_cover("file"); }
      else if(ty[k]=='5'){ sx_assert(m&&m->type==MT_DIR,"a directory is missing after success"); made+= strcmp(nn,T)!=0; sx_cover("dir"); } else if(ty[k]!=0&&ty[k]!='7'){ sx_assert(!m||!strcmp(nn,T),"an entry that is neither a file nor a directory is extracted"); sx_cover("other"); } else made=MFS_MAX; }
    int n=0; for(int i=0;i<MFS_MAX;i++) n+=mfs[i].type!=MT_FREE; if(made<MFS_MAX) sx_assert(n==n0+1+made,"files that are not in the archive appear"); }
  else { // intact archive of plain names must extract
    int plain=1; for(const char*p=nm[0];*p;p++) plain&=*p!='/'&&*p!='.'&&*p!='\\'; plain&=strcmp(nm[0],"q")!=0; sx_assert(!plain,"an intact archive is refused"); sx_cover("refused"); }
#elif MODE==1 // arbitrary header fields with a right checksum
  unsigned nb=1+sx_choose(2,"blocks"); unsigned len=512*(1+nb)-(sx_choose(2,"odd")?1:0); unsigned char*a=malloc(len); memset(a,'d',len); unsigned char h[512]; head(h,"f",'0',5); unsigned w=sx_choose(4,"field");
  if(w==0) for(int i=124;i<(TIER_QUICK?135:136);i++) h[i]=i<124+SKIP?'0':sx_u8("size"); if(w==1) for(int i=257;i<263;i++) h[i]=sx_u8("magic"); if(w==2){ h[156]=sx_u8("type"); for(int i=TIER_QUICK?135:134;i<(TIER_QUICK?136:137);i++) h[i]=sx_u8("size"); } if(w==3){ for(int i=0;i<(TIER_QUICK?1:3);i++) h[124+i]=sx_u8("size"); }
  seal(h); if(w==2&&sx_choose(2,"ck")) for(int i=TIER_QUICK?153:150;i<156;i++) h[i]=sx_u8("checksum"); memcpy(a,h,512); int r=muntar_to_path(T,a,len); confined(); mnode*m=mfs_find(T "/f"); if(m&&m->type==MT_FILE){ sx_assert(m->size<=len-512,"a file larger than the archive"); int ok=1; for(unsigned i=0;i<m->size;i++) ok&=m->data[i]==a[512+i]; sx_assert(ok,"a file has bytes that are not its own"); sx_cover("extracted"); } else sx_cover("skipped");
#elif MODE==2 // truncated anywhere
  unsigned char b[512*8]; memset(b,0,sizeof b); head(b,"d",'5',0); seal(b); head(b+512,"d/f",'0',513); seal(b+512); for(int i=0;i<513;i++) b[1024+i]=i; head(b+2048,"g",'0',2); seal(b+2048); b[2560]='x'; b[2561]=sx_u8("g1"); unsigned cuts[]={1,511,512,513,1023,1024,1025,1536,1537,2047,2048,2559,2560,2561,2562,3071,3072,4096}; unsigned len=cuts[sx_choose(18,"cut")]; unsigned char*a=malloc(len); memcpy(a,b,len); int r=muntar_to_path(T,a,len); confined();
  mnode*f=mfs_find(T "/d/f"),*g=mfs_find(T "/g"); if(f){ sx_assert(f->size==513&&!memcmp(f->data,b+1024,513),"a truncated file is presented as extracted"); } if(g) sx_assert(g->size==2&&!memcmp(g->data,b+2560,2),"a truncated file is presented as extracted"); if(len>=2562) sx_assert(r==0&&f&&g,"all entries are present but not extracted"); if(g) sx_cover("all"); if(f&&!g) sx_cover("some"); if(r) sx_cover("error");
#elif MODE==3 // failing file operations
  unsigned char b[512*8]; memset(b,0,sizeof b); head(b,"d",'5',0); seal(b); head(b+512,"d/f",'0',3); seal(b+512); memcpy(b+1024,"abc",3); head(b+1536,"g",'0',2); seal(b+1536); b[2048]='x'; b[2049]='y'; unsigned char*a=malloc(3584); memcpy(a,b,3584); failat=sx_choose(6,"failat"); what=sx_choose(3,"what"); mfs_hook=hook; mfs_wlimit=wl; mfs_closehook=cl; int r=muntar_to_path(T,a,3584); mfs_hook=0;
  confined(); if(opn>failat){ sx_assert(r!=0,"a failed file operation is reported as success"); sx_cover("fault"); } else { mnode*f=mfs_find(T "/d/f"),*g=mfs_find(T "/g"); sx_assert(r==0&&f&&g&&f->size==3&&g->size==2,"extraction failed without a fault"); sx_cover("nofault"); }
#elif MODE==4 // entry iteration
  unsigned char b[512*6]; memset(b,0,sizeof b); head(b,"f",'0',3); for(int i=TIER_QUICK?134:133;i<(TIER_QUICK?135:136);i++) b[i]=sx_u8("size"); seal(b); memcpy(b+512,"abcdef",6); head(b+1024,"g",'0',2); seal(b+1024); unsigned len=512*(2+sx_choose(4,"len")); unsigned char*a=malloc(len); memcpy(a,b,len); mtar_t t; int k=0; if(mtar_load(&t,"n",a,len)==MTAR_ESUCCESS){ while(!mtar_eof(&t)&&k<8){ k++; const mtar_header_t*h; sx_assert(mtar_header(&t,&h)==MTAR_ESUCCESS,"header"); unsigned want=1+sx_choose(2,"n")*400; char out[401]; memset(out,1,sizeof out); size_t sz=sx_conc(h->size); int q=mtar_entry_read(&t,out,want); if(sz==0) sx_assert(q<0,"reading an empty entry"); else sx_assert(q==(int)(want<sz?want:sz)&&out[0]==(char)t.buffer[t.iterator.offset+512],"entry read"); if(mtar_entry_eof(&t)) sx_cover("eof"); mtar_next(&t); } sx_assert(k<8,"iteration does not end"); }
#endif
  sx_cover("end"); }
