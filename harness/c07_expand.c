// C07: macro expansion (preprocessing output) of programs with unknown tokens in macro bodies and calls, against the standard's algorithm.
#include "c_common.h"
// object-like O | body of F(x) | body of G(x,y) (=: G(x,...), y stands for __VA_ARGS__) | text; one letter per token, $ is ##, ? an unknown token
static const char*const P_[]={
 "? b|? x|x y|F ( ? ) b", "a F|x|x y|O ( ? ? ) ?", "F ( ?|x b ?|y x|O a ) ?", "1|# x ?|x $ y|F ( ? O ) ?", "F|x $ ?|x y|F ( ? ? )", "G|x ( ?|# y x|O ( a , ? ) ?",
 "b|? ( x )|F ( ? )|F ( G ( ? , b ) )", "a|x x ?|x $ ? y|G ( O ? , a )", "? ( b )|x|y ? x|F ( O ) a ? a", "F F|x ?|y $ x ?|O ( ? ) ( b )", "a|x|=x , y ?|G ( ? ? , b )", "a|x|=# y ?|G ( a , ? ? )", "|? x|=y $ y ?|G ( , ? )",
 "O ?|O x|? y|F ( F ( ? ) ) O", "|x ?|x y|G ( ? , ) F ( ? )", "G ( b ,|F ( x|y ( ?|F ( ? ) ? a )" };
static const char A[]="OFGxya1(),#";
#if TIER_THOROUGH
#define HOLES 9
#else
#define HOLES 3
#endif
typedef struct { char s[28]; unsigned char n, hs; } T; typedef struct { T t[60]; int n; } LS;
static char hole[64]; static char body[4][40]; static int nb[4], variadic, err, amb;
static T tk(char c,int hs){ T t; memset(&t,0,sizeof t); if(c=='$'){ t.s[0]=t.s[1]='#'; t.n=2; } else t.s[0]=c, t.n=1; t.hs=hs; return t; }
static void push(LS*l,T t){ if(l->n>=60) sx_giveup("expansion longer than the model"); l->t[l->n++]=t; }
static int isc_(const T*t,char c){ return t->n==1&&t->s[0]==c; }
static int word(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9'); }
static int macro(const T*t){ if(t->n!=1) return -1; switch(t->s[0]){ case 'O': return 0; case 'F': return 1; case 'G': return 2; } return -1; }
static void expand(const LS*in,LS*out,int top);
static void paste(LS*r,const T*b){ T*a=&r->t[r->n-1]; if(!b->n) return; if(!a->n){ *a=*b; return; }
  if(!(word(a->s[a->n-1])&&word(b->s[0])&&!(b->n>1&&b->s[0]=='"'))&&!(a->n==1&&b->n==1&&a->s[0]=='#'&&b->s[0]=='#')) { amb=1; return; } // not a token: undefined
  if(a->n+b->n>26){ amb=1; return; } for(int i=0;i<b->n;i++) a->s[a->n+i]=b->s[i]; a->n+=b->n; a->hs&=b->hs; }
static int param(int m,char c){ if(m==1) return c=='x'?0:-1; return c=='x'?0:c=='y'?1:-1; }
static void subst(int m,LS*arg,int hs,LS*out){ static LS R[6]; static int dep; LS*r=&R[dep++]; if(dep>5) sx_giveup("expansion deeper than the model"); r->n=0; const char*b=body[m]; int n=nb[m];
  for(int i=0;i<n&&!err&&!amb;i++){ int pasted=i>0&&b[i-1]=='$'; T emp; memset(&emp,0,sizeof emp);
    if(b[i]=='$'){ continue; }
    if(m&&b[i]=='#'){ int p=i+1<n?param(m,b[i+1]):-1; if(p<0){ err=1; break; } T t; memset(&t,0,sizeof t); t.s[t.n++]='"'; LS*a=&arg[p]; for(int k=0;k<a->n;k++){ if(k) t.s[t.n++]=' '; for(int j=0;j<a->t[k].n;j++){ if(t.n>24){ amb=1; break; } t.s[t.n++]=a->t[k].s[j]; } } t.s[t.n++]='"'; i++; if(pasted) amb=1; else push(r,t); if(i+1<n&&b[i+1]=='$') amb=1; continue; }
    int p=m?param(m,b[i]):-1;
    if(p<0){ T t=tk(b[i],0); if(pasted) paste(r,&t); else push(r,t); continue; }
    int next=i+1<n&&b[i+1]=='$'; LS*a=&arg[p];
    if(pasted||next){ if(!a->n){ if(!pasted) push(r,emp); } else for(int k=0;k<a->n;k++){ if(k==0&&pasted) paste(r,&a->t[k]); else push(r,a->t[k]); } }
    else { static LS E[6]; LS*e=&E[dep]; expand(a,e,0); for(int k=0;k<e->n;k++) push(r,e->t[k]); } }
  for(int k=0;k<r->n;k++) if(r->t[k].n){ r->t[k].hs|=hs; push(out,r->t[k]); } dep--; }
static void expand(const LS*in,LS*out,int top){ static LS W[8],N[8],AR[8][3]; static int d; LS*w=&W[d],*nw=&N[d],*ar=AR[d]; d++; if(d>7) sx_giveup("expansion deeper than the model"); *w=*in; out->n=0;
  for(int i=0;i<w->n&&!err&&!amb;){ T t=w->t[i]; int m=macro(&t);
    if(m<0||t.hs>>m&1){ push(out,t); i++; continue; }
    if(m==0){ nw->n=0; subst(0,0,t.hs|1,nw); for(int k=i+1;k<w->n;k++) push(nw,w->t[k]); *w=*nw; i=0; continue; }
    if(i+1>=w->n){ push(out,t); i++; if(!top) amb=2; continue; } // a name at the end of an argument may be called later
    if(!isc_(&w->t[i+1],'(')){ push(out,t); i++; continue; }
    int k=i+2, par=0, na=0, max=m==1?1:2; ar[0].n=ar[1].n=ar[2].n=0; int any=0; for(;;k++){ if(k>=w->n){ err=1; break; } T*x=&w->t[k]; if(isc_(x,'(')) par++; else if(isc_(x,')')){ if(par==0) break; par--; } else if(isc_(x,',')&&par==0&&!(variadic&&m==2&&na==1)){ na++; if(na>=max){ err=1; break; } any=1; continue; } push(&ar[na],*x); }
    if(err){ if(!top) amb=1; break; } na++; if(na<max&&!(variadic&&m==2)){ err=1; break; } (void)any;
    T cl=w->t[k]; if(cl.hs!=t.hs){ amb=1; break; } // whether the name may be expanded again is left unspecified (6.10.3.4p4, example)
    nw->n=0; subst(m,ar,t.hs|(1<<m),nw); for(int j=k+1;j<w->n;j++) push(nw,w->t[j]); *w=*nw; i=0; }
  d--; }
static int gapword(char c){ return word(c)||c=='_'; }
void harness(void){ c_begin(); c_new(TCC_OUTPUT_PREPROCESS); tcc_set_options(S,"-P"); unsigned k=sx_choose(sizeof P_/sizeof*P_,"program"); const char*p=P_[k]; int s=0,nh=0;
  static char text[900]; char*tp=text; for(int i=0;i<4;i++) nb[i]=0; int heq=0;
  for(;*p;p++){ char c=*p; if(c==' ') continue; if(c=='|'){ s++; continue; } if(c=='='){ variadic=1; continue; } if(c=='?'){ if(nh<HOLES){ c=sx_u8("token"); int ok=0; for(int i=0;A[i];i++) ok|=c==A[i]; sx_assume(ok); } else c="aOxF"[nh&3]; nh++; } body[s][nb[s]++]=c; }
  for(s=0;s<4;s++){ tp=c_put(tp,s==0?"#define O":s==1?"#define F(x)":s==2?variadic?"#define G(x,...)":"#define G(x,y)":"a"); for(int i=0;i<nb[s];i++){ *tp++=' '; char c=body[s][i]; if(s==2&&variadic){ if(c=='y'){ tp=c_put(tp,"__VA_ARGS__"); continue; } } if(c=='$') *tp++='#', *tp++='#'; else *tp++=c; } *tp++='\n'; } *tp=0;
  int r=tcc_compile_string(S,text);
  static LS in,out; in.n=0; push(&in,tk('a',0)); for(int i=0;i<nb[3];i++) push(&in,tk(body[3][i],0)); if(!err) expand(&in,&out,1);
  if(sx_native()){ sx_print(text,err*10+amb); }
  if(amb){ sx_cover("unspecified"); return; }
  if(err){ sx_assert(r!=0&&c_nerr>0,c_msgf(P_[k],"a constraint violation is diagnosed")); sx_cover("error"); return; }
  mcap*o=&m_cap[1]; if(sx_native()) sx_print(o->n?o->p:"",0); sx_assert(r==0&&c_nerr==0,c_msgf(P_[k],"a valid program is preprocessed"));
  size_t q=0; int ok=1; for(int i=0;i<out.n&&ok;i++){ while(q<o->n&&(o->p[q]==' '||o->p[q]=='\n'||o->p[q]=='\t')) q++; T*t=&out.t[i]; if(sx_native()) sx_print(t->s,t->n); for(int j=0;j<t->n;j++){ if(q>=o->n||o->p[q]!=t->s[j]){ ok=0; break; } q++; } if(ok&&q<o->n){ char a=t->s[t->n-1],b=o->p[q]; if((gapword(a)&&gapword(b))||(a=='#'&&b=='#')) ok=0; } }
  while(q<o->n&&(o->p[q]==' '||o->p[q]=='\n'||o->p[q]=='\t')) q++; sx_assert(ok&&q==o->n,c_msgf(P_[k],"the expansion")); sx_cover("end"); }
