// D12: the runtime directory is complete before anything is compiled, after any interruption or failure.
#define REAL_ASSETS
#include "d_common.h"
#include "assets_ref.h"
static int ep(int c,char**v){ prog_runs++; return 0; }
static int ops, at=-1, kind, run, fired, partial, xass, blocked; static char dir[64]; static int fp(void){ return ops++==at; }
static void second(void);
static int complete(void){ for(int i=0;i<N_REF;i++){ char p[300]; strcpy(p,dir); strcat(p,"/"); strcat(p,ref_files[i].name); mnode*m=mfs_find_follow(p); if(!m||m->type!=MT_FILE||m->size!=ref_files[i].len||memcmp(m->data,ref_files[i].data,m->size)) return 0; } return 1; }
static int tcch(int k,const char*a){ if(k==E_COMPILE||k==E_ADDFILE){ sx_assert(complete(),"all headers and the support library are in place, with their contents, when a program is compiled"); int inc=0,lib=0; char p[80]; strcpy(p,dir); strcat(p,"/include"); for(int i=0;i<nev;i++){ if(evs[i].kind==E_INC||evs[i].kind==E_SYSINC) inc|=!strcmp(evs[i].a,p); if(evs[i].kind==E_LIBPATH) lib|=!strcmp(evs[i].a,dir); } sx_assert(inc&&lib,"the compiler searches the runtime directory"); } return 0; }
static int trip(void){ if(run==0&&fp()){ fired=1; if(kind==0){ second(); } return 1; } return 0; }
static int inside(const char*p){ char n[1200]; mfs_norm(p,n); return !strncmp(n,dir,strlen(dir)); }
static int hook(const char*op,const char*p){ if(blocked&&run==0&&inside(p)) { fired=1; return EACCES; } return inside(p)&&trip()?EIO:0; }
static int wl(mnode*m,size_t n){ if(run==0&&inside(m->path)&&fp()){ fired=1; size_t k=partial?n/2:0; if(kind==0){ if(m->size+k>m->cap){ unsigned char*d=malloc((m->size+k)*2+64); if(m->size) memcpy(d,m->data,m->size); m->data=d; m->cap=(m->size+k)*2+64; } m->size+=k; second(); } return kind==1?-1:(int)k; } return (int)n; }
static int cl(mnode*m){ return inside(m->path)&&trip(); }
static void final(int code){
  if(run==-1){ sx_assert(code!=0,"a runtime directory that cannot be used gives a nonzero status"); sx_assert(!count(E_COMPILE)&&!count(E_ADDFILE)&&!m_forked,"nothing is compiled without the runtime files"); sx_cover("obstacle"); return; }
  if(xass&&run==0){ sx_assert(!count(E_COMPILE)&&!m_forked,"--xass only extracts"); if(fired){ if(!complete()) sx_assert(code!=0,"a failed --xass is reported in the exit status"); } else { sx_assert(code==0,"--xass succeeds"); sx_assert(complete(),"--xass extracts the complete set"); size_t l=strlen(dir); sx_assert(m_cap[1].n==l+1&&!memcmp(m_cap[1].p,dir,l)&&m_cap[1].p[l]=='\n',"--xass prints the directory"); } sx_cover(fired?"xass-failed":"xass"); strcpy(dir,"/tmp/cjit-x"); second(); }
  if(run==0){ if(fired){ int marker=count(E_COMPILE); if(!marker){ sx_assert(code!=0,"a failed extraction gives a nonzero status"); sx_assert(!prog_runs&&!m_forked,"nothing is run after a failed extraction"); sx_cover("failed"); } else { /* only the note that the set is complete failed */ sx_assert(complete(),"compiling goes on only with a complete set"); sx_cover("late"); } }
    else { sx_assert(code==0&&count(E_COMPILE)==1,"the first run succeeds"); sx_cover("clean"); } second(); }
  sx_assert(code==0,"a run after an interrupted or failed one succeeds"); sx_assert(count(E_COMPILE)==1,"the later run compiles"); sx_assert(complete(),"the set stays complete"); sx_cover("recovered"); }
static void go(int xass){ const char*w[5]={"cjit","-q"}; int n=2; if(xass){ static char x[90]; strcpy(x,"--xass="); strcat(x,xass==2?"/w/as//":dir); w[n++]=x; } else w[n++]="a.c"; run_words(n,w); }
void m_resetfds(void);
static void second(void){ run=1; nev=0; prog_runs=0; m_forked=0; tcc_alive=0; m_cap[2].n=0; m_resetfds(); go(0); sx_end(); }
void harness(void){ base_fs(); sx_instlimit(2000000000,1); tcc_hook=tcch; ep_sym=(void*)ep; m_forkres=4242; m_waitret=4242; mfs_add("/w/a.c",MT_FILE,"int a;\n",7); strcpy(dir,"/tmp/cjit-x"); mnode*d=mfs_find(dir); if(d) d->type=MT_FREE;
#if MODE==0 // the process dies before the n-th operation, in the middle of a write too
  kind=0; partial=1; at=sx_u32("operation"); sx_assume(at>=0&&at<2000); if(!TIER_QUICK||1) xass=sx_choose(2,"xass");
#elif MODE==1 // the n-th operation fails or writes less
  kind=1+sx_choose(2,"short"); partial=sx_choose(2,"some"); at=sx_u32("operation"); sx_assume(at>=0&&at<2000); xass=sx_choose(2,"xass");
#else // what is there before, and --xass
  unsigned f=sx_choose(7,"before"); kind=1; at=100000; if(f==1) mfs_add(dir,MT_FILE,"x",1); else if(f>=2&&f<6) mfs_add(dir,MT_DIR,0,0); if(f==3||f==4){ char p[100]; strcpy(p,dir); strcat(p,"/include"); mfs_add(p,MT_DIR,0,0); strcat(p,"/stddef.h"); unsigned char junk[9]; sx_symbolic(junk,9,"old"); mfs_add(p,MT_FILE,junk,f==3?9:0); } if(f==5){ char p[100]; strcpy(p,dir); strcat(p,"/libtcc1.a"); mfs_add(p,MT_DIR,0,0); }
  if(f==6) blocked=1; xass=sx_choose(3,"xass"); if(xass==2){ if(f&&f!=6) sx_end(); strcpy(dir,"/w/as"); } if(f==1||f==5){ run=-1; }
#endif
  mfs_hook=hook; mfs_wlimit=wl; mfs_closehook=cl; go(xass); }
