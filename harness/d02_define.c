// D02: definitions given on the command line.
#ifdef REAL
#define REAL_TCC 1
#endif
#include "d_common.h"
static int r_bad; static struct { char n[16]; const char*v; } X[6]; static int nx; static int val, two;
static int alnum(int c){ return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
static void ref(const char*t){ if(r_bad) return; size_t n=0; while(t[n]&&t[n]!='='){ if(!alnum((unsigned char)t[n])&&t[n]!='_'){ r_bad=1; return; } n++; } if(n<16){ memcpy(X[nx].n,t,n); X[nx].n[n]=0; } X[nx++].v=t[n]?t+n+1:0; }
static int ep(int c,char**v){ prog_runs++; return 7; }
#ifdef REAL
static void final(int code){
  if(val<0){ sx_assert(code!=0,"a definition that is not a macro is an error"); return; }
  sx_assert(code==val,"the macro has the given value in every source"); sx_cover("value"); }
void harness(void){ base_fs(); sx_instlimit(300000000,1); m_forkres=0; m_setenv1("CFLAGS","-nostdlib -nostdinc");
  char d[24]="-DX1="; unsigned m=sx_choose(5,"form"); const char*w[6]={"cjit"}; int n=1; 
  if(m==0){ w[n++]="-DX1"; val=1; } else if(m==1){ d[5]=sx_u8("d1"); d[6]=sx_u8("d2"); sx_assume(d[5]>='1'&&d[5]<='9'&&d[6]>='0'&&d[6]<='9'); w[n++]=d; val=(d[5]-'0')*10+d[6]-'0'; }
  else if(m==2){ strcpy(d,"X1=2+a"); d[5]=sx_u8("id"); sx_assume(d[5]>='a'&&d[5]<='c'); w[n++]="-D"; w[n++]=d; val=2+(d[5]=='a'?10:d[5]=='b'?20:30); } else if(m==3){ w[n++]="-DX1=3"; w[n++]="-DX2=X1+4"; val=3; } else { w[n++]="-DX1=5"; w[n++]="-DX1_=6"; val=5; }
  two=sx_choose(2,"two"); static const char a1[]="int a=10,b=20,c=30;int main(){\n#ifdef X1\nreturn X1;\n#endif\nreturn 99;}\n", a2[]="extern int a,b,c;int g(void){return\nX1;}\n", a0[]="int g(void);int a=10,b=20,c=30;int main(){return g();}\n";
  mfs_add("/w/a.c",MT_FILE,two?a0:a1,two?sizeof a0-1:sizeof a1-1); mfs_add("/w/b.c",MT_FILE,a2,sizeof a2-1); w[n++]="a.c"; if(two) w[n++]="b.c"; run_words(n,w); }
#else
static void final(int code){
  if(r_bad){ sx_assert(code!=0,"a refused definition gives a nonzero status"); sx_assert(!prog_runs&&!count(E_COMPILE)&&!count(E_OUTFILE)&&!m_forked,"nothing is compiled or run after a refused definition"); sx_cover("refused"); return; }
  int k=0,i; for(i=0;i<nev&&evs[i].kind!=E_COMPILE;i++) if(evs[i].kind==E_DEFINE&&strcmp(evs[i].a,"SDL_DISABLE_IMMINTRIN_H")&&strcmp(evs[i].a,"SDL_MAIN_HANDLED")){ sx_assert(k<nx,"only the given macros are defined"); if(strlen(X[k].n)) sx_assert(!strcmp(evs[i].a,X[k].n),"the macro name is the text before ="); sx_assert((evs[i].b==0)==(X[k].v==0)&&(!evs[i].b||!strcmp(evs[i].b,X[k].v)),"the macro value is the text after ="); k++; }
  sx_assert(k==nx,"every macro is defined before the first source is compiled"); for(;i<nev;i++) sx_assert(evs[i].kind!=E_DEFINE,"no macro is defined later"); sx_assert(code==7&&prog_runs==1,"the program runs"); sx_cover(nx>1?"two":"one"); if(X[0].v) sx_cover("valued"); }
void harness(void){ base_fs(); sx_instlimit(30000000,1); mfs_add("/w/a.c",MT_FILE,"int a;\n",7); ep_sym=(void*)ep; m_forkres=0;
  static char t[2][1200]; const char*w[8]={"cjit"}; int n=1;
#if MODE==0
  int l=sx_choose(LA+1,"len"),sep=sx_choose(2,"separate"); if(sep){ w[n++]="-D"; } else { t[0][0]='-'; t[0][1]='D'; } char*p=t[0]+(sep?0:2); for(int i=0;i<l;i++){ p[i]=sx_u8("t"); sx_assume(p[i]!=0); } if(!sep&&!l) sx_end(); w[n++]=t[0]; ref(p);
#elif MODE==1 // several, around the file
  strcpy(t[0],"-DAb_="); t[0][4]=sx_u8("n"); t[0][6]=sx_u8("v"); sx_assume(t[0][4]!=0); strcpy(t[1],"-DQ"); t[1][3]=sx_u8("m"); t[1][4]=sx_u8("w"); int o=sx_choose(3,"order"); ref(t[0]+2); 
  if(o==0){ w[n++]=t[0]; w[n++]=t[1]; w[n++]="a.c"; } else if(o==1){ w[n++]=t[0]; w[n++]="a.c"; w[n++]=t[1]; } else { w[n++]="a.c"; w[n++]=t[0]; w[n++]=t[1]; } ref(t[1]+2);
#else // long names and values
  static const int L[]={100,1023,1024,1030,1100}; int l=L[sx_choose(5,"len")], eq=sx_choose(3,"eq"); strcpy(t[0],"-D"); for(int i=0;i<l;i++) t[0][2+i]='a'+i%26; if(eq==1) t[0][2+l/2]='='; else if(eq==2) t[0][2+3]='='; t[0][2+l]=0; if(eq) t[0][1+l]=sx_u8("last"), sx_assume(t[0][1+l]!=0); w[n++]=t[0]; ref(t[0]+2); 
  { size_t nl=strcspn(t[0]+2,"="); if(nl>1024) r_bad=1; if(nl>1015&&nl<=1024) sx_end(); }
#endif
  if(MODE!=1) w[n++]="a.c"; run_words(n,w); }
#endif
