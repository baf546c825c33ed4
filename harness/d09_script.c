// D09: text linker scripts contribute exactly the files they name.
#include "d_common.h"
#ifndef LA
#define LA 3
#endif
static unsigned char T[700]; static int tn; static char want[40][200]; static int nw, malformed, missing, binary; static const char *SD[]={"/w/la","/w","/s1"};
static int ep(int c,char**v){ prog_runs++; return 0; }
// ---- reference: split into words first, then read the words
typedef struct { int kind; /* 'n' name, 0 end, else the character */ char s[200]; } word; static word W[80]; static int nW;
static int isname(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='/'||c=='.'||c=='-'||c=='_'||c=='+'||c=='='||c=='$'||c==':'||c=='\\'||c==','||c=='~'; }
static int starts(int c){ return isname(c)&&!(c>='0'&&c<='9')&&c!='-'&&c!='+'&&c!='='&&c!=':'&&c!=','; }
static void split(void){ int i=0; while(i<tn){ int c=T[i]; if(c==' '||(c>=9&&c<=13)){ i++; continue; } if(c=='/'&&i+1<tn&&T[i+1]=='*'){ i+=2; int e=0; while(i<tn){ if(T[i]=='/'&&e){ i++; break; } e=T[i]=='*'; i++; } continue; } // a comment without end reaches to the end of the file
    if(nW>=78) sx_giveup("too many words"); if(starts(c)){ int k=0; while(i<tn&&isname(T[i])&&k<199) W[nW].s[k++]=T[i++]; W[nW].s[k]=0; W[nW++].kind='n'; } else { W[nW++].kind=c?c:1000; i++; } } W[nW++].kind=0; }
static void addname(const char*s){ char p[300]; if(s[0]=='/'){ mnode*m=mfs_find_follow(s); if(m&&m->type==MT_FILE){ strcpy(want[nw++],m->path); } else missing++; return; } for(int i=0;i<3;i++){ strcpy(p,SD[i]); strcat(p,"/"); strcat(p,s); mnode*m=mfs_find_follow(p); if(m&&m->type==MT_FILE){ if(nw>=39) sx_giveup("many"); strcpy(want[nw++],m->path); return; } } missing++; }
static void reference(void){ split(); int p=0; for(;;){ if(W[p].kind==0) return; if(W[p].kind!='n'){ malformed=1; return; } const char*c=W[p++].s; int list=!strcmp(c,"INPUT")||!strcmp(c,"GROUP"), skip=!strcmp(c,"OUTPUT_FORMAT")||!strcmp(c,"TARGET"); if(!list&&!skip){ malformed=1; return; } if(W[p].kind!='('){ malformed=1; return; } p++;
    if(skip){ while(W[p].kind&&W[p].kind!=')') p++; if(!W[p].kind){ malformed=1; return; } p++; continue; }
    int depth=1; int sep=0; while(depth){ int k=W[p].kind; if(k==0){ malformed=1; return; } if(k==')'){ p++; depth--; sep=1; if(!depth) break; if(W[p].kind==',') p++; continue; } 
      char f[200]; if(k=='-'){ p++; if(W[p].kind!='n'||W[p].s[0]!='l'){ malformed=1; return; } strcpy(f,"lib"); strcat(f,W[p].s+1); strcat(f,".so"); p++; } else if(k=='n'){ if(!strcmp(W[p].s,"AS_NEEDED")){ p++; if(W[p].kind!='('){ malformed=1; return; } if(depth>16){ malformed=1; return; } p++; depth++; continue; } strcpy(f,W[p].s); p++; } else { malformed=1; return; }
      addname(f); if(W[p].kind==',') p++; } } }
static void final(int code){
  if(binary){ sx_assert(count(E_ADDFILE)==1&&!strcmp(nth(E_ADDFILE,0)->a,"/w/libz.so"),"a binary library is linked itself"); sx_cover("binary"); return; }
  sx_assert(count(E_ADDFILE)==nw,"exactly the named files that exist are linked"); for(int i=0;i<nw;i++){ mnode*m=mfs_find_follow(nth(E_ADDFILE,i)->a); sx_assert(m&&!strcmp(m->path,want[i]),"the named files are linked in the order of the script, each from the first directory that has it"); }
  if(malformed) sx_assert(err_has("Library not found: /w/libz.so"),"a malformed script is reported"); else sx_assert(!err_has("Library not found: /w/libz.so"),"a well formed script is not reported as malformed");
  if(missing) sx_assert(m_cap[2].n>0,"a named file that is missing is reported"); if(!missing&&!malformed) sx_assert(!err_has("not found")&&!err_has("rror"),"no error is reported for a good script"); sx_cover(malformed?"malformed":missing?"missing":nw>1?"several":nw?"one":"none"); }
static void put(const char*s){ size_t l=strlen(s); if(tn+l>=sizeof T) sx_giveup("script too long"); memcpy(T+tn,s,l); tn+=l; }
static void sym(int k){ for(int i=0;i<k;i++) T[tn++]=sx_u8("byte"); }
void harness(void){ base_fs(); sx_instlimit(20000000,1); ep_sym=(void*)ep; m_forkres=4242; m_waitret=4242; mfs_autodir=1; static const char E[]="\177ELF............"; mfs_add("/w/a.c",MT_FILE,"int a;\n",7); mfs_add("/etc/ld.so.conf",MT_FILE,"/s1\n",4);
  mfs_add("/w/la",MT_DIR,0,0); mfs_add("/s1",MT_DIR,0,0); mfs_add("/w/a",MT_FILE,E,16); mfs_add("/w/libb.so",MT_LINK,"la/r.so",0); mfs_add("/w/la/r.so",MT_FILE,E,16); mfs_add("/w/la/a",MT_DIR,0,0); mfs_add("/s1/libc.so",MT_FILE,E,16); mfs_add("/s1/a",MT_FILE,E,16); mfs_add("/d",MT_FILE,E,16); mfs_add("/w/libl.so",MT_FILE,E,16); mfs_add("/w/GROUP",MT_FILE,E,16);
#if MODE==0 // any bytes in every context
  static const char*PR[]={"","INPUT(","GROUP ( a ","INPUT(AS_NEEDED(","OUTPUT_FORMAT(","INPUT(-l","/* ","GROUP(a,","TARGET(x)INPUT(a)","INPUT","INPUT(/","INPUT( a -lb "}; static const char*PO[]={"",")"," a )",") INPUT(-lc)","*/INPUT(a)"};
  unsigned p=sx_choose(12,"before"); put(PR[p]); int k=sx_choose(LA+1,"len"); if(p==0&&k>LA-0) k=LA; sym(k); put(PO[sx_choose(5,"after")]);
#elif MODE==1 // words in any order
  static const char*WD[]={"INPUT","GROUP","(",")","AS_NEEDED","-lb","a"," , ","/d","/*x*/","-","libc.so"," ","OUTPUT_FORMAT","zz","TARGET"}; put("INPUT("); int bl=sx_choose(2,"blank"), k=TIER_QUICK?3:4; if(sx_choose(2,"bare")) tn=0; for(int i=0;i<k;i++){ unsigned w=sx_choose(16,"word"); put(WD[w]); if(w!=12&&w!=7) put(bl?" ":""); } put(" ) ");
#else // nesting, long scripts and long names
  unsigned f=sx_choose(4,"form"); if(f==0){ int d=sx_choose(20,"depth"); put("INPUT("); for(int i=0;i<d;i++) put("AS_NEEDED ( "); put("a "); sym(1); for(int i=0;i<d+1;i++) put(" )"); } else if(f==1){ put("/* "); for(int i=0;i<60;i++) put("0123456789"[i%10]?"comment ":" "); put("*"); sym(1); put("/ */ GROUP ( a AS_NEEDED ( -lb ) )"); }
  else if(f==2){ put("GROUP ( "); int n=sx_choose(30,"n"); for(int i=0;i<n;i++) put(i%3==0?"a ":i%3==1?"-lb , ":"/d\n"); sym(1); put(" )"); } else { put("OUTPUT_FORMAT(elf64-x86-64)\nGROUP ( /"); static const int L[]={1,62,63,64,65,127,190}; int n=L[sx_choose(7,"len")]; for(int i=0;i<n;i++) put("d"); sym(1); put("  AS_NEEDED ( /d ) )\n"); }
#endif
  for(int i=0;i<tn&&i<66;i++) if(T[i]>127) binary=1; if(tn>=4&&T[0]==0x7f&&T[1]=='E'&&T[2]=='L'&&T[3]=='F'){ if(tn==4) sx_end(); binary=1; }
  mfs_add("/w/libz.so",MT_FILE,T,tn); if(!binary) reference(); const char*w[]={"cjit","-q","-Lla","-lz","a.c"}; m_cap[2].n=0; run_words(5,w); }
