// E04: the archiver: create, list, extract, over an in-memory file system.
#include "model_env.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <elf.h>
int tcc_tool_ar(void *s1,int argc,char **argv);
typedef struct { unsigned char *d; unsigned n; unsigned nsym; char name[3][8]; unsigned char info[3]; unsigned short shn[3]; } obj;
#ifndef NS
#define NS 1
#endif
enum { O_SH=64, NSEC=4 };
// Ehdr | 4 section headers | symtab | strtab | shstrtab | tail
static obj mkobj(unsigned nsym,unsigned tail,int withsym){ obj o; memset(&o,0,sizeof o); o.nsym=nsym; unsigned st=64+64*NSEC, sy=24*(1+nsym), sn=1; for(unsigned i=0;i<nsym;i++) sn+=4; static const char shs[]="\0.symtab\0.strtab\0.shstrtab"; unsigned n=st+sy+sn+sizeof shs+tail; unsigned char*d=malloc(n); memset(d,0,n); Elf64_Ehdr*e=(void*)d; memcpy(e->e_ident,"\177ELF\2\1\1",7); e->e_type=ET_REL; e->e_machine=62; e->e_version=1; e->e_shoff=64; e->e_ehsize=64; e->e_shentsize=64; e->e_shnum=NSEC; e->e_shstrndx=3;
  Elf64_Shdr*s=(void*)(d+64); s[1].sh_name=1; s[1].sh_type=withsym?SHT_SYMTAB:SHT_PROGBITS; s[1].sh_offset=st; s[1].sh_size=sy; s[1].sh_entsize=24; s[1].sh_link=2; s[2].sh_name=9; s[2].sh_type=SHT_STRTAB; s[2].sh_offset=st+sy; s[2].sh_size=sn; s[3].sh_name=17; s[3].sh_type=SHT_STRTAB; s[3].sh_offset=st+sy+sn; s[3].sh_size=sizeof shs;
  memcpy(d+st+sy+sn,shs,sizeof shs); for(unsigned i=0;i<tail;i++) d[n-1-i]=i==0?sx_u8("tail"):(unsigned char)(0xa0+i);
  for(unsigned i=0;i<nsym;i++){ Elf64_Sym*y=(void*)(d+st+24*(i+1)); unsigned off=1+4*i; y->st_name=off; char*t=(char*)d+st+sy+off; t[0]='a'+i; t[1]=sx_u8("sym"); sx_assume(t[1]!=0); t[2]=0; memcpy(o.name[i],t,3); o.info[i]=y->st_info=sx_u8("info"); o.shn[i]=y->st_shndx=sx_u16("shndx"); y->st_value=i; unsigned b=o.info[i]>>4,ty=o.info[i]&15; sx_assume(b==0||(b<=2&&ty<=2)); }
  o.d=d; o.n=n; return o; }
static int indexed(obj*o,unsigned i){ unsigned b=o->info[i]>>4; return o->shn[i]!=0&&(b==1||b==2); }
static int run(const char*a,const char*b,const char*c,const char*d){ char*v[6]={"ar",(char*)a,(char*)b,(char*)c,(char*)d,0}; int n=1; while(v[n]) n++; return tcc_tool_ar(0,n,v); }
static unsigned long dec(const unsigned char*p,unsigned n){ unsigned long v=0; for(unsigned i=0;i<n&&p[i]>='0'&&p[i]<='9';i++) v=v*10+(p[i]-'0'); return v; }
static int failat,opn,what; static int hook(const char*op,const char*p){ if(what==0&&!strcmp(op,"open")&&opn++==failat) return EACCES; return 0; } static int wl(mnode*m,size_t n){ if(what==1&&opn++==failat) return n?(int)n-1:0; return (int)n; } static int cl(mnode*m){ return what==2&&opn++==failat; }
static int rl(mnode*m,size_t n){ if(what==3&&opn++==failat) return 3; return (int)n; }
static const char *base(const char*p){ const char*s=strrchr(p,'/'); return s?s+1:p; }
void harness(void){ mfs_reset(); mfs_add("/w",MT_DIR,0,0); mfs_add("/w/sub",MT_DIR,0,0); mfs_add("/y",MT_DIR,0,0); strcpy(mfs_cwd,"/w"); sx_instlimit(20000000,1);
#if MODE==0||MODE==3 // create, list, extract back
  static const char*N1[]={"sub/fifteen-chars.o","p.o","./fourteen-ch.o","sub/x"}; const char*n1=N1[MODE==3?0:sx_choose(4,"name1")]; if(!strcmp(n1,"sub/fifteen-chars.o")) n1="sub/fifteen-char.o"; const char*n2="q.o";
  unsigned two=MODE==3?1:sx_choose(2,"two"); obj o[2]; o[0]=mkobj(MODE==3?1:sx_choose(NS+1,"nsym"),2*(unsigned)sx_choose(2,"tail"),1); if(two) o[1]=mkobj(sx_choose(2,"nsym2"),0,sx_choose(2,"symtab2")); if(two&&((Elf64_Shdr*)(o[1].d+64))[1].sh_type!=SHT_SYMTAB) o[1].nsym=0;
  if(o[0].n&1){ } mfs_add(n1,MT_FILE,o[0].d,o[0].n); if(two) mfs_add(n2,MT_FILE,o[1].d,o[1].n);
#if MODE==3
  failat=sx_choose(7,"failat"); what=sx_choose(4,"what"); mfs_hook=hook; mfs_wlimit=wl; mfs_closehook=cl; mfs_rlimit=rl; int r=run("rc","lib.a",n1,n2); mfs_hook=0; mfs_wlimit=0; mfs_closehook=0; mfs_rlimit=0;
  if(r!=0){ sx_assert(!mfs_find("lib.a"),"a failed creation leaves an archive"); sx_assert(opn>failat,"creation fails without a fault"); sx_cover("fault"); sx_end(); }
  sx_assert(what==2||opn<=failat||what==0,"a failed write or read gives a successful archive"); sx_assert(!mfs_find("lib.a.tmp"),"temporary file left behind"); sx_cover("nofault");
#else
  int r=run("rcs","lib.a",n1,two?n2:0); sx_assert(r==0,"creating an archive of good objects fails");
#endif
  mnode*L=mfs_find("lib.a"); sx_assert(L&&L->size>=8&&!memcmp(L->data,"!<arch>\n",8),"no archive"); unsigned char*a=malloc(L->size?L->size:1); memcpy(a,L->data,L->size); unsigned n=L->size,p=8; unsigned nidx=0; unsigned k=0; for(unsigned m=0;m<1+two;m++) for(unsigned i=0;i<o[m].nsym;i++) k+=sx_conc(indexed(&o[m],i));
  unsigned idx=0,idxn=0; if(p<n&&a[p]=='/'&&a[p+1]==' '){ sx_assert(p+60<=n,"index header"); unsigned z=dec(a+p+48,10); idx=p+60; idxn=z; p+=60+z+(z&1); nidx=a[idx]<<24|a[idx+1]<<16|a[idx+2]<<8|a[idx+3]; } sx_assert(nidx==k,"the index does not have one entry per global symbol"); if(k) sx_cover("indexed");
  unsigned mo[2]; for(unsigned m=0;m<1+two;m++){ sx_assert(p+60+o[m].n<=n,"a member is missing"); mo[m]=p; const char*b=base(m?n2:n1); unsigned bl=strlen(b); sx_assert(!memcmp(a+p,b,bl)&&a[p+bl]=='/',"member name"); for(unsigned i=bl+1;i<16;i++) sx_assert(a[p+i]==' ',"member name padding"); sx_assert(dec(a+p+48,10)==o[m].n&&a[p+58]=='`'&&a[p+59]=='\n',"member header"); p+=60; int ok=1; for(unsigned i=0;i<o[m].n;i++) ok&=a[p+i]==o[m].d[i]; sx_assert(ok,"member content"); p+=o[m].n+((o[m].n&1)&&m+1<1+two&&a[p+o[m].n]=='\n'); }
  sx_assert(p==n||(p+1==n&&a[p]=='\n'),"something follows the last member");
  if(k){ unsigned q=idx+4,s=idx+4+4*k; for(unsigned m=0;m<1+two;m++) for(unsigned i=0;i<o[m].nsym;i++) if(sx_conc(indexed(&o[m],i))){ unsigned off=a[q]<<24|a[q+1]<<16|a[q+2]<<8|a[q+3]; q+=4; sx_assert(off==mo[m],"a symbol is indexed at the wrong member"); sx_assert(!strcmp((char*)a+s,o[m].name[i]),"index name"); s+=strlen((char*)a+s)+1; } sx_assert(s<=idx+idxn,"index overruns"); }
#if MODE==0
  m_cap[1].n=0; sx_assert(run("t","lib.a",0,0)==0,"listing fails"); char want[80]; strcpy(want,base(n1)); strcat(want,"\n"); if(two){ strcat(want,n2); strcat(want,"\n"); } sx_assert(m_cap[1].n==strlen(want)&&!memcmp(m_cap[1].p,want,strlen(want)),"listing");
  strcpy(mfs_cwd,"/y"); sx_assert(run("x","/w/lib.a",0,0)==0,"extraction fails"); for(unsigned m=0;m<1+two;m++){ mnode*f=mfs_find(base(m?n2:n1)); sx_assert(f&&f->size==o[m].n,"extracted member is missing or has the wrong size"); int ok=1; for(unsigned i=0;i<o[m].n;i++) ok&=f->data[i]==o[m].d[i]; sx_assert(ok,"extracted member differs"); } sx_cover("roundtrip");
#endif
#elif MODE==1 // malformed object, alone or after a good one
  obj g=mkobj(0,0,1),o=mkobj(1,2,1); Elf64_Ehdr*e=(void*)o.d; Elf64_Shdr*s=(void*)(o.d+64); unsigned w=sx_choose(14,"field"); unsigned n=o.n; unsigned second=TIER_QUICK?(w==7||w>=11):sx_choose(2,"second");
  switch(w){ case 0: e->e_shoff=sx_u64("v"); break; case 1: e->e_shnum=sx_u16("v"); break; case 2: e->e_shentsize=sx_u16("v"); break; case 3: e->e_shstrndx=sx_u16("v"); break; case 4: s[1].sh_offset=sx_u64("v"); break; case 5: s[1].sh_size=sx_u64("v"); break; case 6: s[2].sh_offset=sx_u64("v"); break; case 7: s[2].sh_name=sx_u32("v"); break; case 8: s[3].sh_offset=sx_u64("v"); break; case 9: ((Elf64_Sym*)(o.d+s[1].sh_offset))[1].st_name=sx_u32("v"); break; case 10: s[2].sh_size=sx_u64("v"); break; case 11: s[sx_choose(4,"k")].sh_type=sx_u32("v"); break; case 12: e->e_ident[sx_choose(6,"k")]=sx_u8("v"); break; case 13: { unsigned cut[]={0,1,4,5,63,64,65,320,343,n-1}; n=cut[sx_choose(10,"cut")]; } }
  unsigned char*d=malloc(n?n:1); memcpy(d,o.d,n); mfs_add("g.o",MT_FILE,g.d,g.n); mfs_add("o.o",MT_FILE,d,n); int r=second?run("rc","l.a","g.o","o.o"):run("rc","l.a","o.o",0); mnode*L=mfs_find("l.a"); sx_assert((r==0)==(L!=0),"the result and the presence of the archive disagree"); sx_assert(!mfs_find("l.a.tmp"),"temporary file left behind"); if(r==0) sx_cover("archived"); else sx_cover("refused");
#elif MODE==2 // malformed archive
  unsigned char b[8+60+6+60+4]; memcpy(b,"!<arch>\n",8); memset(b+8,' ',60); memcpy(b+8,"m.o/",4); memcpy(b+8+48,"6",1); b[66]='`'; b[67]='\n'; memcpy(b+68,"abcdef",6); memset(b+74,' ',60); memcpy(b+74,"nn/",3); memcpy(b+74+48,"4",1); b[74+58]='`'; b[74+59]='\n'; memcpy(b+134,"wxyz",4);
  unsigned w=sx_choose(6,"field"), n=sizeof b; switch(w){ case 0: for(unsigned i=0;i<NN;i++){ b[8+i]=sx_u8("name"); sx_assume(b[8+i]!=0); } break; case 1: memset(b+8,'n',16); b[8+15]=sx_u8("last"); b[8+14]=sx_u8("last"); sx_assume(b[23]!=0&&b[22]!=0); break; case 2: for(unsigned i=0;i<3;i++) b[8+48+i]=sx_u8("size"); break; case 3: b[66]=sx_u8("mag"); b[132]=sx_u8("mag"); break; case 4: n=sx_choose(sizeof b,"cut"); break; case 5: b[sx_choose(8,"k")]=sx_u8("magic"); break; }
  unsigned char*d=malloc(n?n:1); memcpy(d,b,n); mfs_add("/y/l",MT_FILE,d,n); strcpy(mfs_cwd,"/w/sub"); int r=run(sx_choose(2,"tx")?"x":"xv","/y/l",0,0); int cnt=0; for(int i=0;i<MFS_MAX;i++) if(mfs[i].type!=MT_FREE){ const char*p=mfs[i].path; if(!strcmp(p,"/w")||!strcmp(p,"/w/sub")||!strcmp(p,"/y")||!strcmp(p,"/y/l")) continue; sx_assert(!strncmp(p,"/w/sub/",7)&&!strchr(p+7,'/'),"extraction writes outside the current directory"); cnt++; mnode*f=&mfs[i]; int ok=0; for(unsigned o=68;o+f->size<=n&&!ok;o++) ok=!memcmp(f->data,d+o,f->size); sx_assert(ok||!f->size,"an extracted member has bytes that are not in the archive"); }
  mnode*l=mfs_find("/y/l"); sx_assert(l&&l->size==n&&!memcmp(l->data,d,n),"the archive changed"); if(w==4&&n<sizeof b&&n!=74&&(n<8||n>=68)&&n!=68-0){ if(n<8||(n>68&&n<74)||n>=134) sx_assert(r!=0,"a truncated archive is accepted"); } if(r==0&&cnt) sx_cover("extracted"); if(r) sx_cover("refused");
#endif
  sx_cover("end"); }
