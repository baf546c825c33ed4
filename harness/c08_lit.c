// C08: literals with unknown characters against a reference reading of C11 6.4.4 and 6.4.5: integer constants (0), any number token (1),
// hexadecimal floating constants (2), decimal floating constants (3), character constants (4), strings (5), concatenation (6).
#include "c_common.h"
static char text[4000]; static char*tp=text; static void P(const char*s){ tp=c_put(tp,s); }
static int dig(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:99; }
static int oneof(char c,const char*a){ int ok=0; for(;*a;a++) ok|=c==*a; return ok; }
// suffix of an integer constant: l 0..2, u 0..1; 0 if there is no such suffix
static int suffix(const char*p,int*l,int*u){ *l=*u=0; if(*p=='u'||*p=='U'){ *u=1; p++; } if(*p=='l'||*p=='L'){ if(p[1]==*p){ *l=2; p+=2; } else { *l=1; p++; } } if(!*u&&(*p=='u'||*p=='U')){ *u=1; p++; } return !*p; }
// an integer constant: 0 malformed, 1 fine, 2 too large; its value and the type it has: 1 int .. 6 unsigned long long
static int integer(const char*p,U*val,int*type){ int b=10; if(*p=='0'){ b=8; if(p[1]=='x'||p[1]=='X'||p[1]=='b'||p[1]=='B'){ b=(p[1]|32)=='x'?16:2; p+=2; if(dig(*p)>=b) return 0; } } else if(*p<'1'||*p>'9') return 0;
  U n=0; int ov=0; for(;dig(*p)<b;p++){ U t=dig(*p); ov|=(n>~0ull/b)|(n*b>~0ull-t); n=n*b+t; } int l,u; if(!suffix(p,&l,&u)) return 0; *val=n; if(ov) return 2;
  int fi=n<0x80000000ull&&!l&&!u, fu=n<0x100000000ull&&!l&&(u||b!=10), fl=n<0x8000000000000000ull&&!u, ful=u||b!=10; if(fi) *type=1; else if(fu) *type=2; else if(fl) *type=l==2?5:3; else if(ful) *type=l==2?6:4; else return 2; return 1; }
static char lit[100]; static int nl; static void lput(const char*s){ while(*s) lit[nl++]=*s++; lit[nl]=0; } static char sym(const char*al){ char c=sx_u8("character"); sx_assume(oneof(c,al)); lit[nl++]=c; lit[nl]=0; return c; }
static int compile(void){ if(sx_native()) sx_print(text,0); int r=tcc_compile_string(S,text); return r; }
#define INTPROG P("unsigned long long v="); P(lit); P(";\nint t=_Generic("); P(lit); P(",int:1,unsigned:2,long:3,unsigned long:4,long long:5,unsigned long long:6);\n");
static void intcheck(int ok,U val,int type){ int r=compile(); if(ok==0){ sx_assert(r!=0&&c_nerr>0,"a malformed integer constant is diagnosed"); sx_cover("malformed"); return; }
  if(ok==2){ sx_assert(c_nerr+c_nwarn>0,"a constant too large for every type is diagnosed"); sx_cover("large"); return; }
  sx_assert(r==0&&c_nerr==0,"a valid integer constant is accepted"); c_load(); U v=*(U*)c_sym("v"); int t=*(int*)c_sym("t"); if(sx_native()) sx_print("value",v), sx_print("type",t), sx_print("want",val), sx_print("type",type); sx_assert(v==val,"the value of an integer constant"); sx_assert(t==type,"the type of an integer constant"); sx_cover("value"); }
#if MODE==0
static const struct { const char*fix; int n; const char*al; } E[]={ {"",1,"0123456789"},{"1",2,"0123456789"},{"21474836",2,"0123456789"},{"429496729",1,"0123456789"},{"42949672",2,"0123456789"},{"92233720368547758",2,"0123456789"},{"184467440737095516",2,"0123456789"},{"999999999999999999",2,"0123456789"},{"1844674407370955",5,"0159"},{"33333333333333",6,"05"},
 {"0",2,"01234567"},{"0",2,"0789"},{"0177777777",2,"01234567"},{"03777777777",1,"01234567"},{"07777777777777777777",2,"01234567"},{"0177777777777777777777",1,"01234567"},{"01777777777777777777",3,"01367"},{"0x",1,"0123456789abcdefABCDEFgGxX"},{"0X",2,"0179afAFg"},{"0x7fffff",2,"0123456789abcdefABCDEF"},{"0x7fffFFFFFFFFFF",2,"0179aFf"},{"0xffffffff",1,"0123456789abcdefABCDEF"},{"0xffffffffffffff",3,"079aF"},
 {"0b",2,"0123"},{"0B1",3,"01"},{"0b1111111111111111111111111111111",2,"01"},{"0b111111111111111111111111111111111111111111111111111111111111111",2,"01"} };
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"digits"),s=sx_choose(4,"suffix"); lput(E[k].fix); for(int i=0;i<E[k].n;i++) sym(E[k].al); for(unsigned i=0;i<s;i++) sym("uUlL"); U val=0; int type=0, ok=integer(lit,&val,&type); INTPROG intcheck(ok,val,type); }
#elif MODE==1
// a number token: a digit, or a dot and a digit, then letters, digits, dots and signs after e and p
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); int n=1+sx_choose(NB,"length"); for(int i=0;i<n;i++) sym(i?"0189bBexXuLlfP.p+-":"0189."); if(lit[0]=='.') sx_assume(lit[1]>='0'&&lit[1]<='9'); for(int i=1;i<n;i++) if(lit[i]=='+'||lit[i]=='-') sx_assume((lit[i-1]|32)=='e'||(lit[i-1]|32)=='p');
  U val=0; int type=0, ok=integer(lit,&val,&type); 
  // floating constants
  int fl=0; if(!ok){ const char*p=lit; int hex=0,dg=0,dot=0,ex=0; if(p[0]=='0'&&((p[1]|32)=='x'||(p[1]|32)=='b')){ hex=(p[1]|32)=='x'?16:2; p+=2; } int b=hex?hex:10; while(dig(*p)<b) p++, dg++; if(*p=='.'){ dot=1; p++; while(dig(*p)<b) p++, dg++; } if((*p|32)==(hex?'p':'e')){ const char*q=p+1; if(*q=='+'||*q=='-') q++; if(*q>='0'&&*q<='9'){ while(*q>='0'&&*q<='9') q++; ex=1; p=q; } } if(oneof(*p,"fFlL")) p++; fl=dg&&(hex?ex:dot||ex)&&!*p; }
  if(fl){ P("double d="); P(lit); P(";\nint t=_Generic("); P(lit); P(",float:1,double:2,long double:3);\n"); int r=compile(); sx_assert(r==0&&c_nerr==0,"a valid floating constant is accepted"); c_load(); int t=*(int*)c_sym("t"); char e=lit[n-1]|32; int hex=(lit[1]|32)=='x'&&0; sx_assert(t==(e=='f'?1:e=='l'?3:2),"the type of a floating constant"); sx_cover("floating"); return; }
  INTPROG intcheck(ok,val,type); }
#elif MODE==2
// 0x, digits, a dot, digits, p, exponent: the value is correctly rounded (C11 6.4.4.2p3)
typedef unsigned __int128 W; 
static const struct { const char*a; int n; const char*z; } E[]={ {"1",0,""},{"1",2,""},{"8",1,"ffffffff"},{"f",1,"fffffffffff"},{"1",0,"fffffffffffff"},{"1",1,"000000000001"},{"1",0,"921fb54442d18"},{"3",1,"43f6a8885a308d3"},{"1",0,"000000800000"},{"1",0,"00000000000008"},{"8",1,"000000000000000"},{"c",0,"00000000000000000000"},{"1",0,"0000000000000000000000001"},{"f",0,"fffffffffffffffff8"},{"2",1,"000000000000000000000000000"} };
static const int EX[]={0,-1030,5,-1074,120,-130,1,-1,1000};
static U mant(W m,int bits,int p,int*up){ // the top p of bits bits, rounded to even
  if(bits<=p){ *up=0; return (U)(m<<(p-bits)); } int d=bits-p; W lo=m&(((W)1<<d)-1), half=(W)1<<(d-1); U r=(U)(m>>d); r+=(lo>half)|((lo==half)&(r&1)); *up=p<64?(int)(r>>p&1):r==0; return r; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"digits"),x=sx_choose(TIER_QUICK?6:sizeof EX/sizeof*EX,"exponent"),dot=TIER_QUICK?(k+x)%3:sx_choose(3,"dot"),hole=sx_choose(3,"place"); static char d[60]; int n=0; W m=0; 
  for(const char*q=E[k].a;*q;q++) d[n++]=*q; for(const char*q=E[k].z;*q;q++) d[n++]=*q; int pos=hole==0?1:hole==1?n:n/2; if(pos<1) pos=1; int h=E[k].n+2; for(int i=n;i>=pos;i--) d[i+h]=d[i]; n+=h; for(int i=0;i<h;i++){ unsigned char v=sx_u8("digit"); if((i^k^x)&1){ sx_assume(v<10); d[pos+i]='0'+v; } else { sx_assume(v<6); d[pos+i]='a'+v; } } d[n]=0; if(n>31) sx_end();
  for(int i=0;i<n;i++){ char c=d[i]; unsigned t=c<='9'?c-'0':c-'a'+10; m=m<<4|t; } int bits=4*n-(d[0]>='8'?0:d[0]>='4'?1:d[0]>='2'?2:3); int ni=dot==0?n:dot==1?1:0; // digits before the dot
  lput("0x"); for(int i=0;i<n;i++){ if(i==ni) lput("."); lit[nl++]=d[i]; } lit[nl]=0; if(dot==0&&x&1) lput("."); lput("p"); int e=EX[x]; if(e<0) lput("-"); char num[12]; c_num(num,e<0?-e:e); lput(num);
  P("double d="); P(lit); P(";\nfloat f="); P(lit); P("f;\nlong double l="); P(lit); P("L;\n"); int r=compile(); sx_assert(r==0&&c_nerr==0,"a valid hexadecimal floating constant is accepted"); c_load();
  int top=bits-1+e-4*(n-ni); // the exponent of the leading bit
  int up; U M; U gd,gl,wl=0; unsigned gf; memcpy(&gd,c_sym("d"),8); memcpy(&gf,c_sym("f"),4); unsigned short ge; memcpy(&gl,c_sym("l"),8); memcpy(&ge,(char*)c_sym("l")+8,2);
  if(sx_native()) sx_print("double",gd), sx_print("float",gf), sx_print("long double",gl), sx_print("exponent",ge);
  if(top>=-1022&&top<1022){ M=mant(m,bits,53,&up); U w=((U)(top+1022)<<52)+M; if(sx_native()) sx_print("want",w); sx_assert(gd==w,"the value of a double constant"); sx_cover("double"); } else if(top<-1022&&top>=-1074){ M=mant(m,bits,53-(-1022-top),&up); sx_assert(gd==M,"the value of a subnormal double constant"); sx_cover("subnormal"); }
  if(top>=-126&&top<126){ M=mant(m,bits,24,&up); unsigned w=((unsigned)(top+126)<<23)+(unsigned)M; if(sx_native()) sx_print("want float",w); sx_assert(gf==w,"the value of a float constant"); sx_cover("float"); } else if(top<-126&&top>=-149){ M=mant(m,bits,24-(-126-top),&up); sx_assert(gf==(unsigned)M,"the value of a subnormal float constant"); }
  M=mant(m,bits,64,&up); unsigned short we=top+16383+up; if(up) M=1ull<<63; if(sx_native()) sx_print("want long double",M); sx_assert(gl==M,"the value of a long double constant"); sx_assert(ge==we,"the exponent of a long double constant"); sx_cover("long double"); }
#elif MODE==3
// decimal floating constants: the C library converts exactly the characters of the token (? is a digit)
static const char*const E[]={"??.??",".??","?.","?e?","?E+??","?e-??","??.?e+?",".?e-?","0?.?","??.E?","1234567890123456789?.?12345678901234567890"};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof E/sizeof*E,"shape"),s=sx_choose(5,"suffix"); for(const char*q=E[k];*q;q++){ if(*q=='?') sym("0123456789"); else { lit[nl++]=*q; lit[nl]=0; } }
  double d=0; float f=0; long double l=0; if(s==0) d=strtod(lit,0); else if(s<3) f=strtof(lit,0); else l=strtold(lit,0); lput(s==0?"":s==1?"f":s==2?"F":s==3?"l":"L"); P(s==0?"double v=":s<3?"float v=":"long double v="); P(lit); P(";int t=_Generic("); P(lit); P(",float:1,double:2,long double:3);\n"); int r=compile(); sx_assert(r==0&&c_nerr==0,"a valid floating constant is accepted"); c_load();
  int t=*(int*)c_sym("t"); sx_assert(t==(s==0?2:s<3?1:3),"the type of a floating constant"); sx_assert(s==0?!memcmp(c_sym("v"),&d,8):s<3?!memcmp(c_sym("v"),&f,4):!memcmp(c_sym("v"),&l,10),"the value of a floating constant"); sx_cover("end"); }
#else
// a reference reading of the characters between quotes: elements with their values
enum { BAD=1, WARN=2 };
static int elem(const unsigned char**pp,int wide,long long*v,int*ucn){ const unsigned char*p=*pp; *ucn=0; int st=0; unsigned c=*p;
  if(c!='\\'){ if(!wide||c<0x80){ *v=wide?c:(signed char)c; *pp=p+1; return 0; }
    int n=c>=0xc2&&c<=0xdf?1:(c&0xf0)==0xe0?2:c>=0xf0&&c<=0xf4?3:0; long long u=n==1?c&31:n==2?c&15:c&7; if(!n) return BAD; for(int i=1;i<=n;i++){ if((p[i]&0xc0)!=0x80) return BAD; u=u<<6|(p[i]&63); } if((n==2&&u<0x800)||(n==3&&(u<0x10000||u>0x10ffff))||(u>=0xd800&&u<0xe000)) return BAD; *v=u; *pp=p+n+1; return 0; }
  c=*++p; switch(c){ case 'a': *v=7; break; case 'b': *v=8; break; case 'f': *v=12; break; case 'n': *v=10; break; case 'r': *v=13; break; case 't': *v=9; break; case 'v': *v=11; break; case 'e': *v=27; break; case '\'': case '"': case '\\': case '?': *v=c; break;
    case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': { unsigned n=c-'0'; int i=1; for(;i<3&&p[i]>='0'&&p[i]<='7';i++) n=n*8+p[i]-'0'; *pp=p+i; if(!wide&&n>255) st=WARN; *v=wide?(int)n:(signed char)n; return st; }
    case 'x': { unsigned long long n=0; int i=1; for(;dig(p[i])<16;i++) n=n*16+dig(p[i]); if(i==1) return BAD; *pp=p+i; if(n>(wide?0xffffffffull:255)) st=WARN; *v=wide?(long long)(int)n:(signed char)n; return st; }
    case 'u': case 'U': { int k=c=='u'?4:8; long long n=0; for(int i=1;i<=k;i++){ if(dig(p[i])>=16) return BAD; n=n*16+dig(p[i]); } *pp=p+k+1; *v=n; *ucn=1; if(n>0x10ffff||(n>=0xd800&&n<0xe000)) return BAD; return 0; }
    default: return WARN|BAD; }
  *pp=p+1; return st; }
static int body(char*o,const char*fix,int n,char quote){ int k=0; for(;*fix;fix++) o[k++]=*fix; for(int i=0;i<n;i++){ unsigned char c=sx_u8("character"); sx_assume((c!=0)&(c!='\n')&(c!='\r')); o[k++]=c; } o[k]=0; return k; }
static int closed(const char*o,char quote){ for(const char*p=o;*p;p++){ if(*p==quote) return 0; if(*p=='\\'){ p++; if(!*p) return 0; } } return 1; }
#if MODE==4
static const char*const F[]={"","\\","\\x","\\x1","\\xf","\\0","\\3","\\4","\\u00","\\ud","\\U0001f60","\\x0000000","\\U0011000"};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); unsigned k=sx_choose(sizeof F/sizeof*F,"start"),w=sx_choose(2,"wide"); static char o[60]; int n=body(o,F[k],NB,'\''); if(!closed(o,'\'')) { sx_cover("another program"); return; }
  P("long long v="); if(w) P("L"); P("'"); P(o); P("';int t=_Generic("); if(w) P("L"); P("'"); P(o); P("',int:1,default:0);\n"); const unsigned char*p=(unsigned char*)o; long long v=0; int ucn=0,st=0,m=0; for(;*p;m++){ st|=elem(&p,w,&v,&ucn); if(st&BAD) break; } int r=compile();
  if(st){ if(st!=(BAD|WARN)||1) sx_assert(c_nerr+c_nwarn>0,"a malformed character constant is diagnosed"); sx_cover("malformed"); return; }
  sx_assert(r==0&&c_nerr==0&&c_nwarn==0,"a valid character constant is accepted"); if(m>1||(ucn&&!w&&v>127)){ sx_cover("several"); return; } // implementation-defined values
  c_load(); long long g=*(long long*)c_sym("v"); if(sx_native()) sx_print("value",g), sx_print("want",v); sx_assert(g==v,"the value of a character constant"); sx_assert(*(int*)c_sym("t")==1,"the type of a character constant"); sx_cover("value"); }
#else
static int u8(long long v,unsigned char*b){ if(v<0x80) return b[0]=v,1; if(v<0x800) return b[0]=0xc0|v>>6,b[1]=0x80|(v&63),2; if(v<0x10000) return b[0]=0xe0|v>>12,b[1]=0x80|(v>>6&63),b[2]=0x80|(v&63),3; return b[0]=0xf0|v>>18,b[1]=0x80|(v>>12&63),b[2]=0x80|(v>>6&63),b[3]=0x80|(v&63),4; }
static int W[80],nw; static unsigned char B[200]; static int nb; static int reads(const char*o,int w){ const unsigned char*p=(unsigned char*)o; int st=0; for(;*p;){ long long v=0; int ucn; st|=elem(&p,w,&v,&ucn); if(st&BAD) break; W[nw++]=v; if(!w&&ucn) nb+=u8(v,B+nb); else B[nb++]=v; } return st; }
static const char*const F[]={"","a\\","\\x","\\x41","\\1","\\377","\\u00a","\\U0001f60","z\\0","\xe2\x82"};
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); 
#if MODE==7
  static const struct { const char*a; int n,d; const char*z; } G[]={{"\\u",4,16,""},{"\\U000",5,16,"z"},{"\\x",2,16,"g"},{"\\x",3,16,""},{"\\",3,8,""},{"\\",2,8,"8"},{"a\\u00",2,16,"\\u00e9"}}; unsigned k=sx_choose(sizeof G/sizeof*G,"start"),w=sx_choose(2,"wide"),use=sx_choose(2,"use"); static char o[60],o2[1]; int parts=1,w2=w; char*q=c_put(o,G[k].a); for(int i=0;i<G[k].n;i++){ unsigned char v=sx_u8("digit"); sx_assume(v<G[k].d); if(TIER_QUICK&&i==4) sx_assume((v<10)==(q[-1]<='9')); *q++=v<10?'0'+v:'a'+v-10; } c_put(q,G[k].z);
#elif MODE==5
  unsigned k=sx_choose(sizeof F/sizeof*F,"start"),w=sx_choose(2,"wide"),use=sx_choose(2,"use"); static char o[60]; body(o,F[k],NB,'"'); int parts=1; static char o2[10]; int w2=w;
#else
  unsigned w=sx_choose(2,"wide"),w2=sx_choose(2,"wide"),use=sx_choose(2,"use"); static char o[10],o2[10]; body(o,sx_choose(2,"start")?"\\x4":"\xc3\xa9",1,'"'); body(o2,sx_choose(2,"start")?"1":"\\101",1,'"'); int parts=2;
#endif
  if(!closed(o,'"')||!closed(o2,'"')){ sx_cover("another program"); return; } int any=w|w2; int st=reads(o,any); if(!(st&BAD)) st|=reads(o2,any);
  const char*ty=any?"int":"char"; if(use){ P(ty); P(" s[]="); } else { P(ty); P("*p="); } if(w) P("L"); P("\""); P(o); P("\""); if(parts>1){ P(" "); if(w2) P("L"); P("\""); P(o2); P("\""); } P(";int n=sizeof("); if(w) P("L"); P("\""); P(o); P("\""); if(parts>1){ if(w2) P("L"); P("\""); P(o2); P("\""); } P(");\n"); if(use) P("int z=sizeof s;\n");
  int r=compile(); if(st){ sx_assert(c_nerr+c_nwarn>0,"a malformed string is diagnosed"); sx_cover("malformed"); return; }
  if(w!=w2&&r!=0){ sx_assert(c_nerr>0,"a refused mixture of strings is diagnosed"); sx_cover("refused"); return; } // mixtures it does not support
  sx_assert(r==0&&c_nerr==0&&c_nwarn==0,"a valid string is accepted"); c_load(); int want=any?4*nw+4:nb+1, n=*(int*)c_sym("n"); if(sx_native()) sx_print("size",n), sx_print("want",want); sx_assert(n==want,"the size of a string"); if(use) sx_assert(*(int*)c_sym("z")==want,"the size of an array initialised by a string");
  unsigned char*s=use?c_sym("s"):*(unsigned char**)c_sym("p"); int ok=1; if(any){ W[nw]=0; for(int i=0;i<=nw;i++) ok&=((int*)s)[i]==W[i]; } else { B[nb]=0; for(int i=0;i<=nb;i++) ok&=s[i]==B[i]; } sx_assert(ok,"the elements of a string"); sx_cover("value"); }
#endif
#endif
