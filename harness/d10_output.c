// D10: compile-only and executable output.
#ifdef REAL
#define REAL_TCC 1
#endif
#include "d_common.h"
#ifndef LA
#define LA 4
#endif
static char name[80], out[80]; static int hasout, nfiles, obj, failout, src, after_sep, extra; static const char *w[14]; static int nw;
static int ep(int c,char**v){ prog_runs++; return 0; }
static const char*base(const char*p){ const char*b=p; for(const char*q=p;*q;q++) if(*q=='/') b=q+1; return b; }
static const char*lastdot(const char*p){ const char*e=0; for(const char*q=base(p);*q;q++) if(*q=='.') e=q; return e; }
static int low(int c){ return c>='A'&&c<='Z'?c+32:c; }
static int is_src(const char*p){ const char*e=lastdot(p); if(!e) return 0; int l=strlen(e+1); if(l<1||l>3||low(e[1])!='c') return 0; return l==1||(l==2&&low(e[2])=='c')||(l==3&&low(e[2])=='x'&&low(e[3])=='x'); }
static int tcch(int k,const char*a){ if(k==E_OUTFILE&&failout) return -1; if(k==E_ADDFILE) return mfs_find_follow(a)?0:-1; return 0; }
static void expected(char*o){ if(hasout){ strcpy(o,out); return; } strcpy(o,base(name)); char*e=(char*)lastdot(o); strcpy(e,".o"); }
#ifndef REAL
static void final(int code){
  char o[90]; sx_assert(!prog_runs&&!m_forked&&!count(E_RELOC),"the program is not run with -c or -o");
  if(obj&&nfiles!=1){ if(nfiles==0&&hasout){ return; } sx_assert(code!=0&&!count(E_OUTFILE),"-c with anything but one file is refused"); sx_cover("several"); return; }
  if(obj&&!src){ sx_assert(code!=0&&!count(E_OUTFILE),"-c with a file that is not a source is refused"); sx_cover("notsource"); return; }
  expected(o); sx_assert(count(E_OUTFILE)==1,"one output file is created"); sx_assert(!strcmp(nth(E_OUTFILE,0)->a,o),hasout?"the output has the name given with -o":"the object has the source's base name with the extension replaced by .o"); sx_assert(out_type==(obj?3:2),"-c makes an object and -o alone an executable"); sx_assert((code==0)==!failout,"the status tells whether the output was created");
  sx_assert(count(E_COMPILE)+count(E_ADDFILE)==nfiles,"every file given is part of the output"); for(int i=0,seen=0;i<nev;i++){ if(evs[i].kind==E_COMPILE||evs[i].kind==E_ADDFILE) seen++; if(evs[i].kind==E_OUTFILE) sx_assert(seen==nfiles,"the output is created after everything was loaded"); if(evs[i].kind==E_OUTTYPE) sx_assert(seen==0,"the kind of output is chosen before anything is loaded"); }
  sx_cover(obj?hasout?"obj-named":"obj":"exe"); }
#else
static int nnodes; static void final(int code){ char o[90]; expected(o); mnode*m=mfs_find_follow(o); sx_assert(code==0&&m&&m->type==MT_FILE,"the object is created under its name"); sx_assert(!m_forked,"nothing is run"); sx_assert(m->size>64&&m->data[0]==0x7f&&m->data[1]=='E'&&m->data[16]==1&&m->data[17]==0,"the output is a relocatable object"); int n=0; for(int i=0;i<MFS_MAX;i++) n+=mfs[i].type!=MT_FREE; sx_assert(n==nnodes+1,"no other file is created"); sx_cover("object"); }
#endif
static void mk(const char*p){ mfs_add(p,MT_FILE,"int a;\n",7); }
void harness(void){ base_fs(); sx_instlimit(300000000,1);
#ifndef REAL
  tcc_hook=tcch; ep_sym=(void*)ep;
#else
  m_setenv1("CFLAGS","-nostdlib -nostdinc");
#endif
  mfs_add("/w/dd",MT_DIR,0,0); mfs_add("/w/dd/e.c",MT_DIR,0,0); mk("/w/y.c"); mk("/w/z.o");
#ifdef REAL
  static const char*N[]={"?.c","dd/?.cc","../w/?.CxX","./a.?.c","dd/e.c/?.c"}; strcpy(name,N[sx_choose(5,"form")]); char c=sx_u8("c"); sx_assume((c>='a'&&c<='x')||c=='.'||c==' '); *strchr(name,'?')=c; if(sx_choose(2,"o")){ hasout=1; strcpy(out,"dd/q?r"); *strchr(out,'?')=sx_choose(2,"q")?'.':'_'; } mk(name); obj=src=1; nfiles=1; w[nw++]="cjit"; w[nw++]="-c"; if(hasout){ w[nw++]="-o"; w[nw++]=out; } w[nw++]=name; for(int i=0;i<MFS_MAX;i++) nnodes+=mfs[i].type!=MT_FREE;
#elif MODE==0 // any source name
  static const char*P[]={"","x.","dd/e.c/","./a.b","../w/","/w/dd/"}; unsigned p=sx_choose(6,"prefix"); strcpy(name,P[p]); int k=strlen(name); unsigned f=sx_choose(4,"ending"); int m=sx_choose(f==3?LA+2:LA+1,"len"); for(int i=0;i<m;i++){ name[k+i]=sx_u8("name"); sx_assume(name[k+i]!=0&&name[k+i]!='/'); } strcpy(name+k+m,f==0?".c":f==1?".Cc":f==2?".cXx":""); if(k==0) sx_assume(name[0]!='-'&&name[0]!=0); sx_assume(strcmp(name,"../w/dd")&&strcmp(name,"dd")&&strcmp(name,"conftest.c")); { const char*b=base(name); sx_assume(*b&&strcmp(b,".")&&strcmp(b,"..")); if(p==5) sx_assume(strcmp(b,"e.c")); if(p==0||p==4) sx_assume(strcmp(b,"y.c")&&strcmp(b,"z.o")); }
  mk(name); nfiles=1; src=is_src(name); obj=1; w[nw++]="cjit"; if(f==0) w[nw++]="-q"; w[nw++]="-c"; if(sx_choose(2,"o")){ hasout=1; strcpy(out,"dd/q.x"); w[nw++]="-o"; w[nw++]=out; } w[nw++]=name; failout=sx_choose(2,"fail");
#elif MODE==1 // any output name and any order of the words
  hasout=1; int k=0; static const char*P[]={"","dd/","/w/"}; strcpy(out,P[sx_choose(3,"prefix")]); k=strlen(out); int m=1+sx_choose(LA,"len"); for(int i=0;i<m;i++){ out[k+i]=sx_u8("out"); sx_assume(out[k+i]!=0); } strcpy(name,"y.c"); src=1; obj=sx_choose(2,"c"); int order=sx_choose(6,"order"); nfiles=sx_choose(2,"two")?2:1; failout=sx_choose(2,"fail"); w[nw++]="cjit"; w[nw++]="-q"; char*att=malloc(90); strcpy(att,"-o"); strcat(att,out);
  for(int i=0;i<3;i++){ static const char O[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int z=O[order][i]; if(z==0&&obj) w[nw++]="-c"; if(z==1){ if(sx_choose(2,"attached")) w[nw++]=att; else { w[nw++]="-o"; w[nw++]=out; } } if(z==2){ w[nw++]="y.c"; if(nfiles==2) w[nw++]="z.o"; } }
#else // which files are given
  obj=sx_choose(2,"c"); hasout=obj?sx_choose(2,"o"):1; strcpy(out,"out"); w[nw++]="cjit"; static const char*F[]={"y.c","z.o","dd/s.c","n.x","noext","."}; mk("/w/dd/s.c"); mk("/w/n.x"); mk("/w/noext"); nfiles=sx_choose(4,"n"); int first=1; if(obj) w[nw++]="-c"; if(hasout){ w[nw++]="-o"; w[nw++]="out"; } for(int i=0;i<nfiles;i++){ strcpy(name,F[sx_choose(5,"file")]); w[nw++]=strdup(name); src=is_src(name); } if(sx_choose(2,"sep")){ w[nw++]="--"; w[nw++]="y.c"; w[nw++]="-o"; } m_stdin_data=(unsigned char*)"int s;\n"; m_stdin_len=7; if(nfiles==0){ if(!obj||hasout) sx_end(); }
#endif
  run_words(nw,w); }
