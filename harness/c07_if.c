// C07: #if/#elif expressions over two 64-bit operands of any value take the branch the standard prescribes.
#include "c_common.h"
// S: signed operands (0..2^63-1), U: unsigned ones. "A","B" stand for the literals.
#define SEXPR(X) \
 X(A) X(!A) X(A&&B) X(A||B) X(A<B) X(A<=B) X(A>B) X(A>=B) X(A==B) X(A!=B) X(A-B<0) X(A+(B&1)) X(-A<B) X(-A<-B) X(~A==-B-1) X(A&B) X((A^B)==(A|B)) X(A|B) \
 X((A&0xffff)*(B&0xffff)>0x7fffffff) X(A/(B|1)>3) X(-A/(B|1)<-3) X((A&0xfff)%(B|1)==2) X(-(A&0xffff)%7==-2) X(A>>(B&63)) X((-A>>(B&63))<-1) X(A<<(B&1)>0) X((A&255)<<(B&31)>0x7fffffff) \
 X(A?B:!B) X((A<B?A:B)==B) X((A<B)<<40) X(!A<<33) X((A==B)*5-5) X(1+(A<B)<<1==4) X(A<B==B>A) X(-1<A) X(-1>0u+(A&1)) X((A&1?-1:0u)>0) X((A&1)-1<0) X((A&1)-1u<0) \
 X(0x7fffffff+(A&3)>0) X(0xffffffff+(A&3)<0xffffffff) X(0xffffffff==-1) X(0x80000000+(A&1)>0) X(2147483648-(A&1)<0) X(4294967296&A) X(-(A&1)-2147483647-1<0) X(1<<31<<(A&1)<0) X((A&7)-8>>1==-1) X('a'+(A&1)==98) X('\377'<(A&1)) \
 X(UNDEF+A) X(UNDEF==A) X(defined D0&&A) X(defined(D0)*A) X(!defined ND&&B>A) X(D1+A>B) X(D2(A,B)) X(D2(B,A)==B-A) X(A&&B&&A<B||!A&&!B) X((A,B)) \
 X(B&&A/B) X(!(B&7)||A%(B&7)) X(B?A/B>1:A==7) X(0&&A/0) X(1||A%0) X(1?A:A/0) X(A>>32) X(A>>32&&B>>32) X((A>>32)+(B>>32)) X(A*3/3==A)
#define UEXPR(X) \
 X(A) X(!A) X(A<B) X(A<=B) X(A>B) X(A>=B) X(A==B) X(A-B>A) X(A+B<A) X(-A>B) X(~A>B) X(A/(B|1)>3) X(A%(B|1)>2) X(A>>(B&63)) X(A<<(B&63)) X(-1<A) X(-1==A) X((A&1?-1:A)>B) X(A-B<0) X(A*2<A) X((A<B)-2<0) X((A<B)-2u<0) X(-A/(B|1)>A) X(!A-1>0) X(A>=0) X(A&&B) X(A||B) X(A?B:A) X(A&B) X(A^B) X(A>>32) X(-(A&1)>1) X(0-A<B) X(A/2+B/2>A) X((A>>63)-1>0)
#define T_(e) #e,
static const char*const ST[]={ SEXPR(T_) }, *const UT[]={ UEXPR(T_) };
// the reference: every operand has 64 bits, and is unsigned if one of the two is (6.10.1p4)
static U a,b; static const char*q; typedef struct { U v; int u; } V;
static V v_(U v,int u){ V r; r.v=v; r.u=u; return r; }
static int is(const char*s){ int n=strlen(s); if(strncmp(q,s,n)) return 0; q+=n; return 1; }
static V cond(void); static V comma(void){ V r=cond(); while(*q==','){ q++; r=cond(); } return r; }
static int name(char*o){ int n=0; while((*q>='A'&&*q<='Z')||(*q>='a'&&*q<='z')||*q=='_'||(n&&*q>='0'&&*q<='9')) o[n++]=*q++; o[n]=0; return n; }
static V prim(void){ while(*q==' ') q++; char n[40]; V x,y;
  if(is("(")){ x=comma(); is(")"); return x; } if(is("!")){ x=prim(); return v_(x.v==0,0); } if(is("~")){ x=prim(); x.v=~x.v; return x; } if(is("-")){ x=prim(); x.v=-x.v; return x; } if(is("+")) return prim();
  if(is("'")){ int c; if(is("\\")){ if(is("377")) c=-1; else if(is("n")) c=10; else c=*q++; } else c=*q++; is("'"); return v_((L)c,0); }
  if(*q>='0'&&*q<='9'){ U v=0; int hex=q[0]=='0'&&q[1]=='x'; if(hex) q+=2; for(;;q++){ int d=*q>='0'&&*q<='9'?*q-'0':hex&&*q>='a'&&*q<='f'?*q-'a'+10:99; if(d>15) break; v=v*(hex?16:10)+d; } int u=v>>63; while(*q=='u'||*q=='U'||*q=='l'||*q=='L') if(u|=*q=='u'||*q=='U',1) q++; return v_(v,u); }
  name(n); if(!strcmp(n,"A")) return v_(a,MODE==1); if(!strcmp(n,"B")) return v_(b,MODE==1); if(!strcmp(n,"D0")||!strcmp(n,"D1")) return v_(1,0);
  if(!strcmp(n,"defined")){ int p=is("("); is(" "); name(n); if(p) is(")"); return v_(n[0]=='D',0); }
  if(!strcmp(n,"D2")){ is("("); x=cond(); is(","); y=cond(); is(")"); return v_(x.v-y.v,x.u|y.u); }
  return v_(0,0); }
static U sdiv(U a,U b){ U x=(a>>63?-a:a)/(b>>63?-b:b); return (a^b)>>63?-x:x; }
static V bin(V x,int o,V y){ int u=x.u|y.u; L s=x.v,t=y.v;
  switch(o){ case 'm': return v_(x.v*y.v,u); case '+': return v_(x.v+y.v,u); case '-': return v_(x.v-y.v,u);
    case '/': if(u) return v_(x.v/(y.v|(y.v==0)),u); return v_(sdiv(x.v,y.v|(y.v==0)),u); case '%': if(u) return v_(x.v%(y.v|(y.v==0)),u); return v_(x.v-y.v*sdiv(x.v,y.v|(y.v==0)),u);
    case 'l': return v_(x.v<<(y.v&63),x.u); case 'r': return v_(x.u?x.v>>(y.v&63):(U)(s>>(y.v&63)),x.u);
    case '<': return v_(u?x.v<y.v:s<t,0); case '>': return v_(u?x.v>y.v:s>t,0); case '{': return v_(u?x.v<=y.v:s<=t,0); case '}': return v_(u?x.v>=y.v:s>=t,0);
    case '=': return v_(x.v==y.v,0); case '!': return v_(x.v!=y.v,0); case '&': return v_(x.v&y.v,u); case '^': return v_(x.v^y.v,u); case '|': return v_(x.v|y.v,u);
    case 'A': return v_((x.v!=0)&(y.v!=0),0); default: return v_((x.v!=0)|(y.v!=0),0); } }
// the operator at q and its precedence
static int oper(int*o,int*n){ while(*q==' ') q++; static const struct { const char*s; int p,o; } O[]={{"<<",8,'l'},{">>",8,'r'},{"<=",7,'{'},{">=",7,'}'},{"==",6,'='},{"!=",6,'!'},{"&&",2,'A'},{"||",1,'O'},{"*",10,'m'},{"/",10,'/'},{"%",10,'%'},{"+",9,'+'},{"-",9,'-'},{"<",7,'<'},{">",7,'>'},{"&",5,'&'},{"^",4,'^'},{"|",3,'|'}};
  for(unsigned i=0;i<sizeof O/sizeof*O;i++) if(!strncmp(q,O[i].s,strlen(O[i].s))){ *o=O[i].o; *n=strlen(O[i].s); return O[i].p; } return 0; }
static V climb(int min){ V x=prim(); for(;;){ int o,n,p=oper(&o,&n); if(!p||p<min) return x; q+=n; V y=climb(p+1); x=bin(x,o,y); } }
static V cond(void){ V c=climb(1); if(*q!='?') return c; q++; V x=comma(); is(":"); V y=cond(); return v_(c.v!=0?x.v:y.v,x.u|y.u); }
static char text[9000]; static char*tp=text; static void P(const char*s){ tp=c_put(tp,s); }
static void lit(U v,int u){ if(u) tp=c_bin(tp,v,u==1?"u":"ULL"); else { *tp++='('; tp=c_bits(tp,v,63,32,""); P("<<32|"); tp=c_bits(tp,v,31,0,""); *tp++=')'; } }
static void expr(const char*e,int u){ P("#if ");
  for(;*e;e++){ int id=e[0]=='A'||e[0]=='B'; if(id) lit(e[0]=='A'?a:b,u); else *tp++=*e; } }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_MEMORY); int u=MODE==1; unsigned k=sx_choose(u?sizeof UT/sizeof*UT:sizeof ST/sizeof*ST,"expression"); const char*e=u?UT[k]:ST[k]; a=sx_u64("A"); b=sx_u64("B");
  if(!u) sx_assume(!(a>>63)&!(b>>63)); 
  P("#define D0 1\n#define D1 1\n#define D2(x,y) (x-y)\n"); expr(e,u); P("\nint r=1;\n#else\nint r=0;\n#endif\n"); 
  c_compile(text); c_load(); int got=*(int*)c_sym("r"), want=(q=e,comma().v!=0); sx_assert(*q==0,"the expression is read to its end"); if(sx_native()) sx_print(e,got), sx_print("want",want);
  sx_assert(got==want,c_msgf(e,"the selected branch")); sx_cover("end"); }
