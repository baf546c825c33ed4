// D04: any failure on the way gives a nonzero status and nothing runs.
#ifdef REAL
#define REAL_TCC 1
#endif
#include "d_common.h"
static int failed,failkind,nth_call,failat; static unsigned mode;
static int ep(int c,char**v){ prog_runs++; return 0; }
static int tcch(int k,const char*a){ if(k!=E_COMPILE&&k!=E_ADDFILE&&k!=E_OUTFILE&&k!=E_RELOC&&k!=E_GETSYM) return 0; if(k==E_ADDFILE){ mnode*m=mfs_find_follow(a); if(!m||m->type!=MT_FILE){ failed=1; return -1; } } if(failed&&k==E_OUTFILE) { /* libtcc has reported the error before: a later call may still succeed */ } if(nth_call++==failat){ failed=1; failkind=k; return -1; } return 0; }
static int rl(mnode*m,size_t n){ if(mode>=100&&n>0&&strstr(m->path,".c")){ if(failat==-2){ failed=1; return -1; } if(failat==-3){ failed=1; return (int)n-1>3?(int)n-1:(int)n; } } return (int)n; }
static void final(int code){
#ifdef REAL
  if(failed){ sx_assert(code!=0,"a bad source or failed link gives a nonzero status"); sx_assert(!m_forked,"nothing is run after an error"); sx_cover("bad"); } else { sx_assert(code==0,"a good program succeeds"); sx_cover("good"); }
#else
  if(failed){ sx_assert(code!=0,"a failed step gives a nonzero status"); sx_assert(!prog_runs&&!m_forked,"no program runs after a failed step"); sx_cover(failkind==E_COMPILE?"compile":failkind==E_ADDFILE?"addfile":failkind==E_OUTFILE?"output":failkind==E_RELOC?"relocate":failkind==E_GETSYM?"symbol":"file"); }
  else { sx_assert(code==0,"without failure the status is the program's"); sx_cover("fine"); }
#endif
}
#ifdef REAL
static const char *B[]={ "int main(){return x?;}", "int main(){int y=1;return y?;}", "#include \"nope?.h\"\nint main(){return 0;}", "#error e?\nint main(){return 0;}", "int main(){return f?();}int h(void){return 0;}", "int main(){return 0;}int m?in(){return 0;}", "int main(){return 0;", "int main(){char*p=\"?;}", "struct s{int a;};int main(){struct s v;v.?=1;return 0;}", "int main(){int a[?];return 0;}", "int main(){goto ?;}", "typedef int t;int main(){t=?;}", "int main(){return 0;}\n#if ?\nint y\n#endif\n", "int main(){/*?" };
static int isbad(unsigned i,int c){ switch(i){ case 0: return 1; case 1: return 1; case 5: return c=='a'; case 8: return c!='a'; case 9: return 0; case 12: return c>='1'&&c<='9'; default: return 1; } }
void harness(void){ base_fs(); sx_instlimit(600000000,1); m_forkres=4242; m_setenv1("CFLAGS","-nostdlib -nostdinc"); unsigned i=sx_choose(sizeof B/sizeof*B,"program"); char s[160]; strcpy(s,B[i]); char*q=strchr(s,'?'); if(i<=1){ /* keeps the ? as a conditional operator */ q=0; } int c=0; if(q){ c=*q=sx_u8("c"); if(i==9||i==12) sx_assume(c>='0'&&c<='9'); else if(i==3) sx_assume(c>=' '&&c<127); else sx_assume((c>='a'&&c<='z')); if(i==4) sx_assume(c!=0); if(i==9){ c=*q=(char)sx_conc((unsigned char)*q); } }
  failed=isbad(i,c); mfs_add("/w/b.c",MT_FILE,s,strlen(s)); static const char G[]="int g;void _start(void){}\n"; mfs_add("/w/g.c",MT_FILE,G,strlen(G)); mfs_autodir=1; static const char*K[]={"crt1.o","crti.o","crtn.o","libc.so","libtcc1.a"}; for(int k=0;k<5;k++){ char b[80]="/usr/lib/x86_64-linux-gnu/"; strcat(b,K[k]); mfs_add(b,MT_FILE,"/* */\n",6); } m_stdin_data=(unsigned char*)s; m_stdin_len=strlen(s); const char*w[8]={"cjit","-q"}; int n=2; mode=sx_choose(6,"mode"); if(mode==5) sx_assume(!failed||i!=4); // the undefined function is found at link time
  if(mode==0) w[n++]="b.c"; else if(mode==1){ w[n++]="b.c"; w[n++]="g.c"; } else if(mode==2){ w[n++]="g.c"; w[n++]="b.c"; } else if(mode==3) ; else if(mode==4){ w[n++]="-o"; w[n++]="out"; w[n++]="b.c"; w[n++]="g.c"; } else { w[n++]="-c"; w[n++]="b.c"; }
  if(mode==4) { /* a shared program may leave functions undefined only with libraries */ } run_words(n,w); }
#else
void harness(void){ base_fs(); sx_instlimit(30000000,1); tcc_hook=tcch; ep_sym=(void*)ep; m_forkres=0; mfs_rlimit=rl; mfs_add("/w/a.c",MT_FILE,"int a;\n",7); mfs_add("/w/b.c",MT_FILE,"int b;\n",7); mfs_add("/w/conftest.c",MT_FILE,"int b;\n",7); mfs_add("/w/d.o",MT_FILE,"\177ELF......",10); mfs_add("/w/libz.so",MT_FILE,"\177ELF......",10); m_stdin_data=(unsigned char*)"int s;\n"; m_stdin_len=7;
  const char*w[12]={"cjit"}; int n=1; mode=sx_choose(7,"mode"); unsigned bad=sx_choose(8,"bad"); failat=-1; unsigned st=0; 
  if(bad==0){ failat=sx_u8("failat"); sx_assume(failat<12); } else if(bad==1) mfs_find("/w/b.c")->noperm=1; else if(bad==2) mfs_find("/w/b.c")->type=MT_FREE; else if(bad==3) mfs_find("/w/d.o")->type=MT_FREE; else if(bad==4) assets_ok=false; else if(bad==5){ m_stdin_erroff=sx_u8("erroff"); sx_assume(m_stdin_erroff<7); } 
  static const char*F[]={"a.c","b.c","d.o"}; unsigned perm=sx_choose(6,"order"); static const char P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; int usesb=0,usesd=0,usesin=0; if(sx_choose(2,"v")) w[n++]="-v"; else w[n++]="-q";
  if(mode==0||mode==1||mode==2){ if(mode==1){ w[n++]="-o"; w[n++]="out"; } if(mode==2) w[n++]="-lz"; for(int i=0;i<3;i++) w[n++]=F[(int)P[perm][i]]; if(mode==0){ w[n++]="--"; w[n++]="x"; } usesb=usesd=1; }
  else if(mode==3){ w[n++]="-c"; w[n++]="b.c"; if(perm&1){ w[n++]="-o"; w[n++]="q.o"; } usesb=1; } else if(mode==4){ if(w[n-1][1]=='v') w[n-1]="-q"; usesin=1; } else if(mode==5){ w[n++]="a.c"; w[n++]="-"; w[n++]="d.o"; usesin=usesd=1; }
  else { n=1; w[n++]="conftest.c"; }
  if(bad==1||bad==2) failed=usesb; if(bad==3) failed=usesd; if(bad==4) failed=1; if(bad==5) failed=usesin; 
  if(bad==6||bad==7){ if(mode==4) sx_end(); mode+=100; failat=bad==6?-2:-3; if(bad==7&&0) sx_end(); }
  run_words(n,w); }
#endif
