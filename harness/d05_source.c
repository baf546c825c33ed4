// D05: which files are compiled as source, and byte-order marks.
#include "d_common.h"
#ifndef LA
#define LA 4
#endif
static char name[40]; static unsigned char data[32]; static int n, islisted, mode, nul, bom, fault; static const char *name2;
static int ep(int c,char**v){ prog_runs++; return 0; }
// the last extension of the last path component
static int is_src(const char*p){ const char*b=p; for(const char*q=p;*q;q++) if(*q=='/') b=q+1; const char*e=0; for(const char*q=b;*q;q++) if(*q=='.') e=q; if(!e) return 0; char x[4]; int l=0; for(e++;*e;e++){ if(l>=3) return 0; x[l++]=*e>='A'&&*e<='Z'?*e+32:*e; } if(l==0||x[0]!='c') return 0; if(l==1) return 1; if(l==2) return x[1]=='c'; return x[1]=='x'&&x[2]=='x'; }
static int tcch(int k,const char*a){ if(k==E_ADDFILE) return mfs_find_follow(a)?0:-1; return 0; }
static void final(int code){
  int s=is_src(name); ev*c=nth(E_COMPILE,0); int na=count(E_ADDFILE);
  if(!s&&mode==1){ sx_assert(code!=0&&!count(E_OUTFILE)&&!c&&!prog_runs,"-c takes only names that end in .c, .cc or .cxx"); sx_cover("c-refused"); return; }
  if(!s){ sx_assert(!c,"a file with another ending is not compiled as source by the tool"); sx_assert(na==1&&!strcmp(nth(E_ADDFILE,0)->a,name),"a file with another ending is handed to the linker once under its name"); sx_assert(code==0,"a file of any other ending is accepted"); sx_cover("linked"); return; }
  sx_assert(na==0,"a source is not handed to the linker");
  if(bom||nul||fault){ sx_assert(!c&&!count(E_OUTFILE)&&!count(E_RELOC)&&!prog_runs,"a source that is refused is not compiled and nothing is run"); sx_assert(code!=0,"a refused source gives a nonzero status"); sx_assert(m_cap[2].n>0,"a refused source is reported"); if(bom) sx_assert(err_has("BOM"),"the byte-order mark is named in the report"); sx_cover(bom?"bom":nul?"nul":"fault"); return; }
  sx_assert(count(E_COMPILE)==1,"a source is compiled exactly once"); sx_assert(code==0,"a readable source without byte-order mark is accepted");
  char w[80]; strcpy(w,"#line 1 \""); strcat(w,name); strcat(w,"\"\n"); size_t l=strlen(w); sx_assert(strlen(c->a)==l+n,"the compiled text has the length of the file"); for(size_t i=0;i<l;i++) sx_assert(c->a[i]==w[i],"the compiled text begins with the file's line marker"); for(int i=0;i<n;i++) sx_assert((unsigned char)c->a[l+i]==data[i],"the compiled text is the file's bytes");
  sx_cover(n<3?"short":"compiled"); }
static int rl(mnode*m,size_t k){ return fault&&m->type==MT_FILE&&!strcmp(m->path+3,name)? (fault==1?-1:k>4?(int)k-1:-1) : (int)k; }
void harness(void){ base_fs(); tcc_hook=tcch; ep_sym=(void*)ep; m_forkres=0;
#if MODE==0
  static const char*PFX[]={"","x","dd/e.c/","./a.b","../w/","x.c"}; unsigned p=sx_choose(6,"prefix"); strcpy(name,PFX[p]); int k=strlen(name),m=1+sx_choose(LA,"len"); for(int i=0;i<m;i++){ name[k+i]=sx_u8("name"); sx_assume(name[k+i]!=0&&name[k+i]!='/'); } name[k+m]=0; if(k==0) sx_assume(name[0]!='-'); 
  if(k==0||p==4||p==2){ sx_assume(!(m==1&&name[k]=='.')); sx_assume(!(m==2&&name[k]=='.'&&name[k+1]=='.')); }
  mfs_add("/w/dd",MT_DIR,0,0); mfs_add("/w/dd/e.c",MT_DIR,0,0); sx_assume(strcmp(name,"dd")); n=7; memcpy(data,"int a;\n",7); mfs_add(name,MT_FILE,data,n);
#else
  static const char*N[]={"a.c","b.CxX","x.y.Cc","lib.so","a.h","c"}; strcpy(name,N[sx_choose(6,"file")]); n=sx_choose(LA+1,"len"); int big=n==LA&&LA>3?sx_choose(2,"big"):0; for(int i=0;i<n;i++) data[i]=sx_u8("byte"); if(big){ for(int i=0;i<12;i++) data[n+i]="; int abcd;\n"[i]; n+=12; }
  for(int i=0;i<n;i++) if(data[i]==0) nul=1; if(n>=2&&((data[0]==0xff&&data[1]==0xfe)||(data[0]==0xfe&&data[1]==0xff))) bom=1; if(n>=3&&data[0]==0xef&&data[1]==0xbb&&data[2]==0xbf) bom=1; mfs_add(name,MT_FILE,data,n);
  if(n>0&&is_src(name)){ fault=sx_choose(3,"fault"); if(fault==2&&n<5) fault=1; mfs_rlimit=rl; if(fault) bom=0; }
#endif
  mode=sx_choose(3,"mode"); const char*w[6]={"cjit","-q"}; int i=2; if(mode==1) w[i++]="-c"; if(mode==2){ w[i++]="-o"; w[i++]="out"; } w[i++]=name; run_words(i,w); }
