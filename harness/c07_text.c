// C07: line splices, comments and line numbers (0), the # operator on literals (1), conditional nesting (2): texts with unknown bytes.
#include "c_common.h"
#if TIER_THOROUGH
#define NB 5
#define NL 6
#else
#if MODE==1
#define NB 3
#else
#define NB 4
#endif
#define NL 4
#endif
static char text[3000]; static char*tp=text; static void P(const char*s){ tp=c_put(tp,s); }
static char h[8]; static void holes(const char*al,int n){ for(int i=0;i<n;i++){ h[i]=sx_u8("byte"); int ok=0; for(const char*q=al;*q;q++) ok|=h[i]==*q; sx_assume(ok); } h[n]=0; }
#if MODE==0
// ? is the unknown gap; d: new lines matter (directives); s: spaces matter
static const struct { const char*t; int lines; } E[]={
 {"int r=1?+2; int l=__LINE__;\n/**/int z;",0}, {"#define A 1?+2\nint r=A;\nint l=__LINE__;\n/**/",1}, {"#define A(x,y) x?+y\nint r=A(1,\n 2);\nint l=__LINE__;/**/",1}, {"?#define A 3\nint r=A;\nint l=__LINE__;/**/",1}, {"#?define A 3\nint r=A;\nint l=__LINE__;/**/",1},
 {"#if 0\n?\n#else\nint r=3;\n#endif\nint l=__LINE__;/**/",1}, {"#if 1?\nint r=3;\n#endif\nint l=__LINE__;/**/",1}, {"#define F(a) a\nint r=F?(1?+2);\nint l=__LINE__;/**/",0}, {"int r=sizeof(\"a\")+1; ?int l=__LINE__;/**/",0}, {"int r=3;in?t l=__LINE__;/**/",2}, {"int r=3;int l=__LI?NE__;/**/",2}, {"int r=1+ ?+2;int l=__LINE__;/**/",0}, {"int r=9/?3;int l=__LINE__;/**/",0}, {"int r=0?x3;int l=__LINE__;/**/",2}, {"int r=3; //?\nint l=__LINE__;/**/",0}, {"int r=3; /*?*/int l=__LINE__;/**/",0}, {"int r=1?*3;int l=__LINE__;/**/",0}, {"int r=(1<?<2)-1;int l=__LINE__;/**/",2},
 {"#define A int r=3; int l=__LINE__;?\nA/**/",1}, {"#if 0\n#if ?1\n#endif\n#endif\nint r=3;int l=__LINE__;/**/",1}, {"#line 40?\nint r=3;int l=__LINE__-40+2;/**/",1}, {"int r=3;\n#if 1\nint l=__LINE__;?\n#endif\n/**/",1} };
// translation phases 2 and 3: splices removed, comments become nothing here (blanks are dropped); new lines kept if they matter
static int clean(const char*t,char*o,int lines,int*l){ int n=0, line=1, inq=0; *l=0; for(const char*p=t;*p;){
  if(p[0]=='\\'&&p[1]=='\n'){ line++; p+=2; continue; }
  const char*q=p+1; int sp=0; while(q[0]=='\\'&&q[1]=='\n') q+=2, sp++; char d=*q;
  if(!inq&&*p=='/'&&d=='/'){ line+=sp; p=q+1; while(*p&&*p!='\n'){ if(p[0]=='\\'&&p[1]=='\n'){ line++; p+=2; } else p++; } continue; }
  if(!inq&&*p=='/'&&d=='*'){ line+=sp; p=q+1; for(;;){ if(!*p) return -1; if(*p=='\n') line++; if(*p=='*'){ const char*k=p+1; int z=0; while(k[0]=='\\'&&k[1]=='\n') k+=2, z++; if(*k=='/'){ line+=z; p=k+1; break; } } p++; } if(lines==2) o[n++]=' '; continue; }
  if(*p=='"') inq=!inq;
  if(*p=='\n') line++;
  if(*p=='_'&&!*l&&p[1]=='_'&&p[2]=='L') *l=line;
  if(*p==' '||*p=='\t'||(*p=='\n'&&lines!=1)){ if(lines==2) o[n++]=' '; p++; continue; }
  o[n++]=*p++; } o[n]=0; return n; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"program"); holes(" \n\t/*\\",NB); static char canon[400],o1[600],o2[600]; char*cp=canon; int gaps=0;
  for(const char*q=E[k].t;*q;q++){ if(*q=='?'){ if(gaps++) P(" "); else P(h); if(E[k].lines!=2) *cp++=' '; } else { *tp++=*q; *cp++=*q; } } *tp=0; *cp=0;
  int l,l0; int n0=clean(canon,o2,E[k].lines,&l0), n=clean(text,o1,E[k].lines,&l); int same=n==n0; for(int i=0;same&&i<n;i++) same=o1[i]==o2[i];
  if(!same) { sx_cover("another program"); return; } // the gap held more than blanks, comments and splices
  for(const char*q=E[k].t;*q;q++) if(q[0]=='A'&&q[1]=='/'&&q[2]=='*'){ l=1; for(const char*z=text;*z;z++) l+=*z=='\n'; } // __LINE__ in a macro: where it is used
  if(!strncmp(E[k].t,"#line",5)){ l=2; const char*z=text; int c=0; for(;*z;z++) { if(z[0]=='i'&&z[1]=='n'&&z[2]=='t'&&z[4]=='r') break; if(*z=='\n') c++; } if(c>1) { sx_cover("another program"); return; } }
  if(sx_native()) sx_print(text,l); c_compile(text); c_load(); int r=*(int*)c_sym("r"), lv=*(int*)c_sym("l"); if(sx_native()) sx_print("r",r), sx_print("l",lv), sx_print("want l",l);
  sx_assert(r==3,c_msgf(E[k].t,"blanks, comments and splices change nothing")); if(k!=10) sx_assert(lv==l,c_msgf(E[k].t,"__LINE__ is the number of the line")); sx_cover("end"); }
#elif MODE==1
static const char*const E[]={"?","\"?\"","'?'","a ? b","\"a\"?"};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"argument"); holes("a\"'\\ n1+",NB); static char arg[40]; int n=0; for(const char*q=E[k];*q;q++) if(*q=='?') for(int i=0;i<NB;i++) arg[n++]=h[i]; else arg[n++]=*q; arg[n]=0;
  // the argument split into literals and other tokens; the expected string
  static char want[80]; int w=0; for(int i=0;i<n;){ if(arg[i]=='"'||arg[i]=='\''){ char qu=arg[i]; want[w++]=arg[i++]; int c=0; for(;;){ if(i>=n) { sx_cover("unterminated"); return; } char x=arg[i]; want[w++]=arg[i++]; if(x==qu) break; c++; if(x=='\\'){ if(i>=n){ sx_cover("unterminated"); return; } want[w++]=arg[i++]; } } if(qu=='\''&&!c){ sx_cover("unterminated"); return; } }
    else if(arg[i]=='\\'){ sx_cover("stray"); return; } else if(arg[i]==' '){ while(i<n&&arg[i]==' ') i++; if(w&&i<n) want[w++]=' '; } else want[w++]=arg[i++]; }
  P("#define S(x) #x\nchar r[]=S("); P(arg); P(");\nint z=sizeof r;\n"); if(sx_native()) sx_print(text,0); c_compile(text); c_load(); char*r=c_sym("r"); int z=*(int*)c_sym("z"); if(sx_native()) sx_print(r,z), sx_print(want,w);
  sx_assert(z==w+1,c_msgf(E[k],"the length of the string")); int ok=1; for(int i=0;i<w;i++) ok&=r[i]==want[i]; sx_assert(ok&&r[w]==0,c_msgf(E[k],"the spelling of the argument")); sx_cover("end"); }
#else
void harness(void){ c_begin(); c_new(TCC_OUTPUT_PREPROCESS); tcc_set_options(S,"-P"); P("#define M1\n"); char want[40]; int w=0, err=0, dep=0; struct { int act, done, els, outer; } st[10]; int live=1;
  for(int i=0;i<=NL+1;i++){ if(i<NL){ unsigned k=sx_choose(6,"directive"); char d[2]={0,0}; int v=0; if(k<4){ d[0]='0'|(sx_u8("digit")&1); v=d[0]&1; }
      P(k==0?"#if ":k==1?" # ifdef M":k==2?"#ifndef M":k==3?"#elif ":k==4?"#else":"#endif"); P(d); P(k&1?" /* # */\n":"\n"); if(k==2) v=!v;
      if(k<3){ if(dep>=9) err=1; else { st[dep].outer=live; st[dep].els=0; if(live){ live=st[dep].done=v!=0; } else st[dep].done=1; dep++; } }
      else if(!dep) err=1; else { int t=dep-1; if(k==5){ live=st[t].outer; dep--; } else if(st[t].els) err=1; else { if(k==4) st[t].els=1; if(st[t].done) live=0; else { live=k==4||v; st[t].done=live; } } } }
    else if(i==NL){ while(dep){ P("#endif\n"); dep--; live=st[dep].outer; } }
    if(err) break;
    char u[2]={'A'+i,0}; P(u); P(" \"#endif\" /*\n#else\n*/ \\\n#endif\n"); if(live) want[w++]=u[0]; }
  want[w]=0; int r=tcc_compile_string(S,text); mcap*o=&m_cap[1]; if(sx_native()) sx_print(text,err), sx_print(o->n?o->p:"",r), sx_print(want,0);
  if(err){ sx_assert(r!=0&&c_nerr>0,"misplaced conditional directives are diagnosed"); sx_cover("error"); return; }
  sx_assert(r==0&&c_nerr==0,"well-nested conditionals are accepted"); int n=0,ok=1,k=0; for(size_t i=0;i<o->n;i++){ char c=o->p[i]; if(c=='"'){ k=!k; continue; } if(!k&&c>='A'&&c<='Z'){ ok&=n<w&&want[n]==c; n++; } } sx_assert(ok&&n==w,"exactly the lines of the selected groups remain"); sx_cover("end"); }
#endif
