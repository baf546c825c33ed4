// C07: #include, #include_next, __has_include, guards and #pragma once over a file tree (0); #define, #undef and push_macro histories (1); #line (2).
#include "c_common.h"
static char text[4000]; static char*tp=text; static void P(const char*s){ tp=c_put(tp,s); }
static char want[6000]; static char*wp=want; static int err, steps; static void W(const char*s){ while(*s&&wp<want+5900) *wp++=*s++; *wp=0; }
static void num(int v){ char b[12]; c_num(b,v); W(b); }
// the output without blanks and quotes is the expected text
static int same(void){ mcap*o=&m_cap[1]; const char*w=want; for(size_t i=0;i<o->n;i++){ char c=o->p[i]; if(c==' '||c=='\n'||c=='\t'||c=='"') continue; if(!*w||c!=*w) return 0; w++; } return *w==0; }
static void verdict(const char*what){ int r=tcc_compile_string(S,text); mcap*o=&m_cap[1]; if(sx_native()) sx_print(text,err), sx_print(o->n?o->p:"",r), sx_print(want,0); if(err){ sx_assert(r!=0&&c_nerr>0,c_msgf(what,"what cannot be included is diagnosed")); sx_cover("error"); return; } sx_assert(r==0&&c_nerr==0,c_msgf(what,"a valid program is accepted")); sx_assert(same(),c_msgf(what,"exactly the text the standard prescribes")); sx_cover("end"); }
#if MODE==0
static const char*const D[]={"","/w/i/","/w/j/","/w/k/"}; // the working directory, two -I, one system directory
static unsigned char here[4][2]; static int kind[2]; static int G[2], N[2], once[5][2]; // once: by real directory
static char nameof_[8]; static void marker(char*t,char d,char n,char k){ char b[40]="M"; b[1]=d; b[2]=n; b[3]=k; b[4]=0; strcat(b," __LINE__ __FILE__\n"); strcat(t,b); }
static const char K[]={'s','i','j','k'};
static void body(char*t,int d,int n){ char a='a'+n, o='b'-n, dd=K[d]; t[0]=0; char b[80]; char*q;
#define INC(form,l,r,c) (q=c_put(b,form), q=c_put(q,l), *q++=c, q=c_put(q,r), q=c_put(q,"\n"), strcat(t,b))
#define GL(pre,post) (q=c_put(b,pre), *q++=a, q=c_put(q,post), strcat(t,b))
  switch(kind[n]){ case 0: marker(t,dd,a,'0'); break; case 1: strcat(t,"#pragma once\n"); marker(t,dd,a,'0'); break; case 2: GL("/*c*/\n#ifndef G","\n"); GL("#define G","\n"); marker(t,dd,a,'0'); strcat(t,"#endif // x\n\n"); break;
    case 3: GL("#ifndef G","\n"); GL("#define G","\n"); INC("#include \"","",".h\"",o); marker(t,dd,a,'0'); strcat(t,"#endif\n"); break; case 4: strcat(t,"#pragma once\n"); INC("#include <","",".h>",o); marker(t,dd,a,'0'); break; case 5: marker(t,dd,a,'0'); INC("#include_next \"","",".h\"",a); marker(t,dd,a,'1'); break;
    case 6: GL("#ifndef G","\n"); GL("#define G","\n"); marker(t,dd,a,'0'); strcat(t,"#endif\n"); marker(t,dd,a,'1'); break; case 7: GL("#ifndef G","\n"); GL("#define G","\n"); marker(t,dd,a,'0'); strcat(t,"#else\n"); marker(t,dd,a,'1'); strcat(t,"#endif\n"); break; case 8: GL("#if !defined(G",")\n"); GL("#define G","\n"); marker(t,dd,a,'0'); strcat(t,"#endif\n"); break;
    case 9: INC("#if __has_include_next(<","",".h>)",a); INC("#include_next <","",".h>",a); strcat(t,"#else\n"); marker(t,dd,a,'1'); strcat(t,"#endif\n"); marker(t,dd,a,'0'); break; case 10: GL("#ifndef G","\n"); marker(t,dd,a,'0'); strcat(t,"#endif\n"); break; case 11: GL("#ifndef G","\n"); GL("#define G","\n"); strcat(t,"#endif\n"); GL("#ifndef N","\n"); marker(t,dd,a,'0'); strcat(t,"#endif\n"); break; case 12: INC("#include \"","",".h\"",o); marker(t,dd,a,'0'); break; } }
// reference: the text a file contributes; p is its spelling, d its directory, at its place in the search
static void mk(int d,int n,char k,int line,const char*p){ char b[5]={'M',K[d],'a'+n,k,0}; W(b); num(line); W(p); }
static int real(const char*p){ // the directory of a spelled path
  const char*s=strrchr(p,'/'); if(!s) return 0; return s[-1]=='i'?1:s[-1]=='j'?2:s[-1]=='k'?3:0; }
static int find(int n,int q,int from,const char*cur,char*out){ // from: place to start at; 0 is the directory of the current file (quoted form only)
  for(int i=from;i<4;i++){ if(i==0){ if(!q) continue; int d=real(cur); if(!here[d][n]) continue; const char*s=strrchr(cur,'/'); size_t l=s?s+1-cur:0; memcpy(out,cur,l); out[l]='a'+n; strcpy(out+l+1,".h"); return 0; } if(here[i][n]){ strcpy(out,D[i]); size_t l=strlen(out); out[l]='a'+n; strcpy(out+l+1,".h"); return i; } } return -1; }
static void inc(int n,int q,int from,const char*cur,int depth);
static void ref(int n,int at,const char*p,int depth){ int d=real(p), o=1-n; if(depth>40||steps++>400){ err=1; return; }
  switch(kind[n]){ case 0: mk(d,n,'0',1,p); break; case 1: case 4: if(once[d][n]) break; once[d][n]=1; if(kind[n]==4) inc(o,0,1,p,depth); if(!err) mk(d,n,'0',kind[n]==4?3:2,p); break; case 2: case 8: if(!G[n]) G[n]=1, mk(d,n,'0',kind[n]==2?4:3,p); break;
    case 3: if(!G[n]){ G[n]=1; inc(o,1,0,p,depth); if(!err) mk(d,n,'0',4,p); } break; case 5: mk(d,n,'0',1,p); inc(n,1,at+1,p,depth); if(!err) mk(d,n,'1',3,p); break; case 6: if(!G[n]) G[n]=1, mk(d,n,'0',3,p); mk(d,n,'1',5,p); break; case 7: if(!G[n]) G[n]=1, mk(d,n,'0',3,p); else mk(d,n,'1',5,p); break;
    case 9: { char b[200]; if(find(n,0,at+1,p,b)>=0) inc(n,0,at+1,p,depth); else mk(d,n,'1',4,p); if(!err) mk(d,n,'0',6,p); break; } case 10: if(!G[n]) mk(d,n,'0',2,p); break; case 11: if(!G[n]) G[n]=1; mk(d,n,'0',5,p); break; case 12: inc(o,1,0,p,depth); if(!err) mk(d,n,'0',2,p); break; } }
static void inc(int n,int q,int from,const char*cur,int depth){ char p[200]; if(err) return; int at=n>1?-1:find(n,q,from,cur,p); if(at<0){ err=1; return; } ref(n,at,p,depth+1); }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_PREPROCESS); tcc_set_options(S,"-P"); tcc_add_include_path(S,"/w/i"); tcc_add_include_path(S,"/w/j"); tcc_add_sysinclude_path(S,"/w/k"); mfs_add("/w",MT_DIR,0,0); mfs_add("/w/s",MT_DIR,0,0); mfs_add("/w/i",MT_DIR,0,0); mfs_add("/w/j",MT_DIR,0,0); mfs_add("/w/k",MT_DIR,0,0); strcpy(mfs_cwd,"/w/s");
  static const unsigned char PR[]={0xff,0x6b,0x16,0x39,0xd2,0x9c,0x3c,0xe8}; unsigned pr=PR[sx_choose(TIER_QUICK?4:8,"present")]; for(int d=0;d<4;d++) for(int n=0;n<2;n++) here[d][n]=pr>>(2*d+n)&1;
  kind[0]=sx_choose(13,"a.h"); static const int KB[]={12,0,2,4,5}; kind[1]=KB[sx_choose(TIER_QUICK?(kind[0]==3||kind[0]==4||kind[0]==12)+1:5,"b.h")];
  for(int d=0;d<4;d++) for(int n=0;n<2;n++) if(here[d][n]){ char p[20], t[600]; strcpy(p,d?D[d]:"/w/s/"); int l=strlen(p); p[l]='a'+n; strcpy(p+l+1,".h"); body(t,d,n); mfs_add(p,MT_FILE,t,strlen(t)); }
  int line=1; for(int i=0;i<(TIER_QUICK?2:3)&&!err;i++){ unsigned k=sx_choose(TIER_QUICK&&i?3:10,"item"); if(TIER_QUICK&&i&&k==2) k=9; char c=k==4||k==7?'a':sx_u8("name"); sx_assume(c=='a'||c=='b'||(k>4&&c=='c')); char x[2]={c,0}; int n=c-'a';
    switch(k){ case 0: P("#include \""); P(x); P(".h\"\n"); inc(n,1,0,"",0); break; case 1: P(" # include <"); P(x); P(".h> /* c */ // c\n"); inc(n,0,1,"",0); break; case 2: P("#define P0 \""); P(x); P(".h\"\n#define P1 P0\n#include P1\n"); line+=2; inc(n,1,0,"",0); break; case 3: P("#undef E\n#define E <"); P(x); P(".h>\n#include E\n"); line+=2; inc(n,0,1,"",0); break;
      case 4: P("#undef Ga\n"); G[0]=0; break; case 5: P("#if __has_include(\""); P(x); P(".h\") && 1\nY\n#else\nN\n#endif\n"); line+=4; { char p[200]; W(n<2&&find(n,1,0,"",p)>=0?"Y":"N"); } break; case 6: P("#if !__has_include(<"); P(x); P(".h>)\nY\n#else\nN\n#endif\n"); line+=4; { char p[200]; W(n<2&&find(n,0,1,"",p)>=0?"N":"Y"); } break; case 7: P("#define Ga\n"); if(G[0]) { sx_end(); } G[0]=1; break;
      case 8: P("#include \"../i/"); P(x); P(".h\"\n"); if(n<2&&here[1][n]){ char p[40]="../i/"; p[5]=c; strcpy(p+6,".h"); ref(n,0,p,1); } else if(n<2&&here[0][n]&&0) ; else { // the other directories know it as i/../i
          int f=0; for(int d=2;d<4&&!f;d++) f=n<2&&here[1][n]; if(!f) err=1; } break; case 9: P("#include \"/w/j/"); P(x); P(".h\"\n"); if(n<2&&here[2][n]){ char p[40]="/w/j/"; p[5]=c; strcpy(p+6,".h"); ref(n,-1,p,1); } else err=1; break; }
    line++; if(!err){ P("L __LINE__ __FILE__\n"); W("L"); num(line); W("<string>"); line++; } }
  verdict("include"); }
#elif MODE==1
void harness(void){ c_begin(); c_new(TCC_OUTPUT_PREPROCESS); tcc_set_options(S,"-P"); static char v[20]; char val[2]={0,0}; int def=0; struct { int def; char v; } st[8]; int sp=0; (void)v;
  for(int i=0;i<(TIER_QUICK?4:6);i++){ unsigned k=sx_choose(7,"directive"); char d[2]={'0',0};
    switch(k){ case 0: d[0]=sx_u8("digit"); sx_assume(d[0]>='1'&&d[0]<='3'); P("#define M "); P(d); P("\n"); if(def&&val[0]!=d[0]){ int r=tcc_compile_string(S,text); sx_assert(c_nerr+c_nwarn>0,"an incompatible redefinition is diagnosed"); sx_cover("error"); return; } def=1; val[0]=d[0]; break; case 1: P("#undef M\n"); def=0; break; case 2: P("# pragma push_macro(\"M\")\n"); st[sp].def=def; st[sp++].v=val[0]; break; case 3: if(!sp) sx_end(); P("#pragma pop_macro(\"M\")\n"); sp--; def=st[sp].def; val[0]=st[sp].v; break;
      case 4: P("M;\n"); W(def?val:"M"); W(";"); break; case 5: P("#ifdef M\nD;\n#else\nU;\n#endif\n"); W(def?"D;":"U;"); break; case 6: P("#if M == 2 || defined M && M > 2\nT;\n#endif\n"); if(def&&val[0]>='2') W("T;"); break; } }
  P("M.\n"); W(def?val:"M"); W("."); verdict("define"); }
#else
void harness(void){ c_begin(); c_new(TCC_OUTPUT_PREPROCESS); tcc_set_options(S,"-P"); mfs_add("/w",MT_DIR,0,0); static const char H[]="A __LINE__ __FILE__\n#line 70 \"/q.h\"\nB __LINE__ __FILE__\n"; mfs_add("/w/a.h",MT_FILE,H,sizeof H-1); 
  static const char*const PRE[]={"","0","10","00","99999"}; char n[12]={0}; strcpy(n,PRE[sx_choose(5,"prefix")]); int v=0; { int l=strlen(n); for(int i=0;i<l;i++) v=v*10+(n[i]-'0'); char c=sx_u8("digit"); sx_assume(c>='0'&&c<='9'); int k=0; while('0'+k!=c) k++; n[l]=c; v=v*10+k; } sx_assume(v>0);
  char f[4]={0}; int nf=sx_choose(TIER_QUICK?3:4,"file"); for(int i=0;i<nf-1;i++){ f[i]=sx_u8("name"); sx_assume(f[i]>' '&&f[i]<127&&f[i]!='"'&&f[i]!='\\'&&f[i]!='/'&&f[i]!='\''); } unsigned k=sx_choose(6,"form");
  const char*file="<string>"; static char fn[10];
  if(k==4) P("#define F "), P(n), P("\n#define E(x) F\n"); P("S __LINE__ __FILE__\n"); W("S"); num(k==4?3:1); W("<string>"); P(k==3?"# ":"#line "); if(k==4) P("E(1)"); else P(n); if(k==5) P(" __FILE__"), nf=0; if(nf){ P(" \""); P(f); P("\""); strcpy(fn,f); file=fn; if(nf==1) sx_end(); } P(k==1?" // c\n":k==2?" \\\n \n":"\n");
  P("A __LINE__ __FILE__\n\n"); W("A"); int line=v; num(line); W(file); line++; P("B __LINE__ \\\n __LINE__ __FILE__\n"); line++; W("B"); num(line); num(line+1); W(file); line+=2;
  P("#include \"a.h\"\n"); W("A1a.hB70/q.h"); line++; P("C __LINE__ __FILE__\n"); W("C"); num(line); W(file); verdict("line"); }
#endif
