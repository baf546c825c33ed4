// D01: what the words of the command line mean, and what the executed program receives.
#include "d_common.h"
static char wb[4][8]; static const char *W[12]; static int nw;
static const char *symword(int k,int max,const char*nm){ int n=sx_choose(max+1,"len"); for(int i=0;i<n;i++){ wb[k][i]=sx_u8(nm); sx_assume(wb[k][i]!=0); } wb[k][n]=0; return wb[k]; }
// ---- reference: meaning of the words
static int r_exit; /* -1 run, else exit status before running */ static const char *src[12]; static int nsrc; static const char *app[12]; static int napp; static struct { int k; const char*a,*b; char nb[40]; } X[12]; static int nx; static const char *r_entry,*r_out,*r_pid; static int r_obj,r_status,r_quiet,r_verb;
static int alnum(int c){ return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
static int ignorable(const char*w){ static const char*E[]={"-s","-static-libgcc","-shared"}; for(int i=0;i<3;i++) if(!strcmp(w,E[i])) return 1; if(w[0]=='-'&&w[1]&&strchr("OfWMg",w[1])) return w[2]==0||alnum((unsigned char)w[2]); return 0; }
static int takes(int c){ return c&&strchr("DlLCIepoa",c)!=0; }
static void opt(int c,const char*a){ // a: value of an option that takes one
  if(c=='q'){ if(!r_verb) r_quiet=1; } else if(c=='v') r_status=1; else if(c=='h'){ if(r_exit<0) r_exit=0; } else if(c=='c') r_obj=1;
  else if(c=='D'){ size_t n=0; while(a[n]&&a[n]!='='){ if(!alnum((unsigned char)a[n])&&a[n]!='_'){ if(r_exit<0) r_exit=1; return; } n++; } X[nx].k=E_DEFINE; memcpy(X[nx].nb,a,n); X[nx].nb[n]=0; X[nx].a=X[nx].nb; X[nx].b=a[n]?a+n+1:0; nx++; }
  else if(c=='I'){ X[nx].k=E_INC; X[nx++].a=a; } else if(c=='C'){ X[nx].k=E_OPT; X[nx++].a=a; }
  else if(c=='e') r_entry=a; else if(c=='o') r_out=a; else if(c=='p'){ if(strcmp(a,"edantic")) r_pid=a; } }
static void reference(void){ const char*k[12]; int nk=0,dropped=1; r_exit=-1;
  for(int i=1;i<nw;i++){ const char*w=W[i]; if(dropped&&!strcmp(w,"--")) dropped=0; else if(dropped&&w[0]=='-'&&takes(w[1])&&w[2]==0){ k[nk++]=w; if(i+1<nw) k[nk++]=W[++i]; continue; } else if(dropped&&ignorable(w)) continue; k[nk++]=w; }
  int i=0; for(;i<nk&&r_exit<0;i++){ const char*w=k[i]; if(w[0]!='-'||!w[1]){ src[nsrc++]=w; continue; }
    if(w[1]=='-'){ if(!w[2]){ i++; break; } size_t n=0; while(w[2+n]&&w[2+n]!='=') n++; static const char*L[]={"help","verb","xass","xtgz"}; int hit=-1,m=0; for(int j=0;j<4;j++) if(n<=4&&!strncmp(w+2,L[j],n)){ m++; hit=j; } if(m==1){ if(hit==0) opt('h',0); else if(hit==1){ r_verb=1; r_quiet=0; } else r_exit=-2; } continue; }
    for(size_t p=1;w[p];p++){ int c=(unsigned char)w[p]; if(takes(c)){ const char*a=w+p+1; if(!*a) a= i+1<nk?k[++i]:0; if(a) opt(c,a); break; } opt(c,0); if(r_exit>=0) break; } }
  if(r_exit<0) for(;i<nk;i++) app[napp++]=k[i]; }
static int is_src(const char*p){ const char*s=strrchr(p,'/'); const char*e=strrchr(s?s:p,'.'); if(!e) return 0; size_t l=strlen(e); if(e[1]!='c'&&e[1]!='C') return 0; if(l==2) return 1; if(l==3) return e[2]=='c'||e[2]=='C'; if(l==4) return (e[2]=='x'||e[2]=='X')&&(e[3]=='x'||e[3]=='X'); return 0; }
static int tcch(int k,const char*a){ if(k==E_ADDFILE){ mnode*m=mfs_find_follow(a); return *a&&m&&m->type==MT_FILE?0:-1; } return 0; }
static int ep(int c,char**v){ prog_runs++; prog_argc=c; prog_argv=v; sx_assert(c==1+napp,"the program receives the last source name and every word after --");
  sx_assert(nsrc==0||!strcmp(v[0],src[nsrc-1]),"the program's first argument is the last source name"); for(int i=0;i<napp;i++) sx_assert(!strcmp(v[1+i],app[i]),"the words after -- reach the program in order and unchanged"); sx_assert(v[1+napp]==0,"the argument vector ends with a null pointer"); if(napp) sx_cover("app-args"); return 7; }
static void final(int code){
  if(r_exit>=0){ sx_assert(code==r_exit,"an option that ends the tool gives its exit status"); sx_assert(!prog_runs&&!count(E_COMPILE)&&!count(E_RELOC)&&!count(E_OUTFILE),"nothing is compiled or run after help or a refused option"); sx_cover(r_exit?"refused":"help"); return; }
  // effects of options, in order (the tool adds its own include path and SDL symbols)
  int x=0; for(int i=0;i<nev;i++){ ev*e=&evs[i]; if(e->kind==E_DEFINE&&(!strcmp(e->a,"SDL_DISABLE_IMMINTRIN_H")||!strcmp(e->a,"SDL_MAIN_HANDLED"))) continue; if(e->kind==E_DEFINE||e->kind==E_OPT||(e->kind==E_INC)){ sx_assert(x<nx&&X[x].k==e->kind,"only the given definitions, include paths and flags take effect, in order");
      if(e->kind==E_INC){ char p[1200],q[1200]; mfs_norm(X[x].a,p); mfs_norm(e->a,q); sx_assert(!strcmp(p,q)&&e->a[0]=='/',"an include path is the given one made absolute"); }
      else { sx_assert(!strcmp(e->a,X[x].a),"the option's value is taken unchanged"); if(e->kind==E_DEFINE) sx_assert((e->b==0)==(X[x].b==0)&&(!e->b||!strcmp(e->b,X[x].b)),"the definition's value is taken unchanged"); }
      x++; sx_cover("option"); } }
  sx_assert(x==nx,"every definition, include path and flag takes effect");
  if(nsrc==0&&r_status){ sx_assert(code==0&&!prog_runs,"-v without sources shows the status"); return; }
  int want=r_obj?3:r_out?2:1; int ok=1,i=0; // sources in order until the first that fails
  if(nsrc&&r_obj&&(nsrc!=1||!is_src(src[0]))){ sx_assert(code!=0&&!prog_runs&&!count(E_OUTFILE),"-c takes exactly one source"); return; }
  int nc=0; sx_assert(count(E_COMPILE)+count(E_ADDFILE)<=(nsrc?nsrc:1),"only the given files are loaded");
  if(nsrc==0) nc= count(E_COMPILE)==1; else for(i=0,x=0;i<nev;i++) if(evs[i].kind==E_COMPILE||evs[i].kind==E_ADDFILE){ const char*s=src[x++]; int c=s[0]=='-'||is_src(s); sx_assert(c==(evs[i].kind==E_COMPILE),"sources are compiled and other files linked, in the order given"); if(!c) sx_assert(!strcmp(evs[i].a,s),"a file is loaded under its own name"); }
  for(i=0;i<nsrc;i++){ mnode*m=mfs_find_follow(src[i]); if(src[i][0]=='-'?i>0&&0:!(src[i][0]&&m&&m->type==MT_FILE)) { ok=0; break; } }
  if(!ok){ sx_assert(code!=0&&!prog_runs,"a file that cannot be loaded stops the tool"); sx_cover("missing"); return; }
  if(nsrc==0&&r_obj&&!r_out){ sx_assert(code!=0&&!count(E_OUTFILE)&&!prog_runs,"-c without sources is refused"); return; }
  sx_assert(nsrc==0?nc:count(E_COMPILE)+count(E_ADDFILE)==nsrc,"every given file is loaded"); if(nsrc>1) sx_cover("several");
  sx_assert(out_type==want,"the kind of output is the one asked for");
  if(r_obj){ if(nsrc==0&&!r_out){ sx_assert(code!=0&&count(E_OUTFILE)==0&&!prog_runs,"-c without sources is refused"); return; } sx_assert(code==0&&count(E_OUTFILE)==1&&!prog_runs&&!m_forked,"-c creates one object and runs nothing"); return; }
  if(r_out){ sx_assert(code==0&&count(E_OUTFILE)==1&&!strcmp(nth(E_OUTFILE,0)->a,r_out)&&!prog_runs&&!m_forked,"-o creates the executable and runs nothing"); sx_cover("output"); return; }
  if(r_pid&&(!r_pid[0]||(strchr(r_pid,'/')))) return; 
  sx_assert(count(E_OUTFILE)==0,"nothing is written without -o or -c");
  sx_assert(prog_runs==1,"the program is run once"); sx_assert(code==7,"exit status"); sx_assert(count(E_GETSYM)==1&&!strcmp(nth(E_GETSYM,0)->a,r_entry?r_entry:"main"),"the entry function is the requested one or main"); sx_cover("run"); }
void harness(void){ base_fs(); sx_instlimit(30000000,1); mfs_add("/w/a.c",MT_FILE,"int a;\n",7); mfs_add("/w/b.c",MT_FILE,"int b;\n",7); mfs_add("/w/d.o",MT_FILE,"o",1); m_stdin_data=(unsigned char*)"int s;\n"; m_stdin_len=7; tcc_hook=tcch; ep_sym=(void*)ep; m_forkres=0;
  W[nw++]="cjit";
#if MODE==0 // any word before the sources
  W[nw++]=symword(0,LA,"w"); static const char*S1[]={"a.c","X","d.o"}; W[nw++]=S1[sx_choose(3,"s1")]; static const char*S2[]={"--","b.c","-g"}; int t=sx_choose(4,"s2"); if(t<3) W[nw++]=S2[t]; if(t<3&&sx_choose(2,"s3")) W[nw++]="-O2";
#elif MODE==1 // any words after --
  static const char*S1[]={"a.c","b.c","-q","-g","-O2","-DX"}; int n=sx_choose(3,"npre"); for(int i=0;i<n;i++) W[nw++]=S1[sx_choose(6,"pre")]; if(sx_choose(2,"mid")) W[nw++]="b.c"; W[nw++]="--"; n=sx_choose(TIER_QUICK?3:4,"napp"); for(int i=0;i<n;i++) W[nw++]=i==0?symword(0,LA,"x"):i==1?symword(1,2,"y"):"-s";
#else // options with separate or attached values, in any position
  static const char*O[]={"-D","-DK=1","-I","-Iinc","-C","-o","-e","-p","-p","-pedantic","-l","-L","-a","-v","-c","--verb","--ver","--x","-qD","-static","-shared","-s","-static-libgcc","-"}; int pos=sx_choose(3,"pos"); for(int i=0;i<3;i++){ if(i==pos){ W[nw++]=O[sx_choose(sizeof O/sizeof*O,"o")]; W[nw++]=symword(0,LA,"v"); } if(i==0) W[nw++]="a.c"; if(i==1) { static const char*Q[]={"b.c","d.o"}; W[nw++]=Q[sx_choose(2,"q")]; } }
  if(sx_choose(2,"sep")){ W[nw++]="--"; W[nw++]="z"; }
#endif
  reference(); if(r_exit==-2) sx_end(); /* --xass, --xtgz: see D12, E03 */
  for(int i=1;i<nw;i++) if(!strcmp(W[i],"-ar")||!strcmp(W[i],"conftest.c")) sx_end();
  for(int i=0;i<nsrc;i++){ if(src[i][0]=='-') { } mnode*m=src[i][0]?mfs_find_follow(src[i]):0; if(m&&m->type==MT_DIR) sx_end(); if(src[i][0]=='/'&&0) sx_end(); }
  if(r_pid&&(!r_pid[0]||mfs_find_follow(r_pid)||strchr(r_pid,'/'))) sx_end();
  int stdins=0; for(int i=0;i<nsrc;i++) stdins+=src[i][0]=='-'; if(stdins>1) sx_end();
  run_words(nw,W); }
