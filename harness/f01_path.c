// F01: path operations against a list-of-segments reference, for every path text up to the stated length.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "cwalk.h"
#ifndef LA
#define LA 5
#endif
#ifndef LB
#define LB 3
#endif
static char *sympath(unsigned maxlen,const char*nm){ unsigned n=sx_choose(maxlen+1,"len"); char*p=malloc(n+1); sx_symbolic(p,n,nm); p[n]=0; for(unsigned i=0;i<n;i++) sx_assume(p[i]!=0); return p; }
// ---- reference
typedef struct { const char*b; size_t n; } seg; typedef struct { int abs, any; size_t n; seg s[24]; } plist;
static int isup(seg s){ return s.n==2&&s.b[0]=='.'&&s.b[1]=='.'; } static int iscur(seg s){ return s.n==1&&s.b[0]=='.'; }
static void feed(plist*l,const char*p){ while(*p){ if(*p=='/'){ p++; continue; } seg s={p,0}; while(*p&&*p!='/'){ p++; s.n++; } l->any=1;
    if(iscur(s)) continue; if(isup(s)){ if(l->n&&!isup(l->s[l->n-1])) l->n--; else if(!l->abs) l->s[l->n++]=s; continue; } l->s[l->n++]=s; } }
static size_t render(plist*l,char*o){ size_t k=0; if(l->abs) o[k++]='/'; for(size_t i=0;i<l->n;i++){ if(i) o[k++]='/'; memcpy(o+k,l->s[i].b,l->s[i].n); k+=l->s[i].n; } if(!k&&l->any) o[k++]='.'; o[k]=0; return k; }
static int same(const char*a,const char*b,size_t n){ int r=1; for(size_t i=0;i<n;i++) r&=a[i]==b[i]; return r; }
// output discipline: for every buffer size the result is the full text cut to the buffer, terminated, and nothing past it is written
typedef size_t (*opf)(char*,size_t); static const char *A,*Bp;
static void check_out(opf f,const char*want,size_t wl,const char*what){
  for(size_t bs=0;bs<=wl+2;bs++){ char*b=malloc(bs?bs:1); if(bs==0) b[0]=0x5a; size_t r=f(b,bs); sx_assert(r==wl,what); if(bs==0) sx_assert(b[0]==0x5a,"a zero-size buffer is written"); else { size_t k=wl<bs?wl:bs-1; sx_assert(same(b,want,k)&&b[k]==0,what); } free(b); } }
static size_t f_norm(char*b,size_t n){ return cwk_path_normalize(A,b,n); }
static size_t f_join(char*b,size_t n){ return cwk_path_join(A,Bp,b,n); }
static size_t f_abs(char*b,size_t n){ return cwk_path_get_absolute(A,Bp,b,n); }
static size_t f_rel(char*b,size_t n){ return cwk_path_get_relative(A,Bp,b,n); }
static size_t f_chb(char*b,size_t n){ return cwk_path_change_basename(A,Bp,b,n); }
static size_t f_che(char*b,size_t n){ return cwk_path_change_extension(A,Bp,b,n); }
static size_t f_chr(char*b,size_t n){ return cwk_path_change_root(A,Bp,b,n); }
void harness(void){
  char want[64]; size_t wl; cwk_path_set_style(CWK_STYLE_UNIX);
#if MODE==0   // normalize, in place, idempotent
  A=sympath(LA,"path"); plist l={A[0]=='/',0,0}; feed(&l,A); wl=render(&l,want); check_out(f_norm,want,wl,"normalize differs from the reference");
  if(l.any&&l.n==0) sx_cover("all-removed"); if(l.n&&isup(l.s[0])) sx_cover("leading-up");
  char*c=malloc(strlen(A)+2); strcpy(c,A); size_t r=cwk_path_normalize(c,c,strlen(A)+2); sx_assert(r==wl&&same(c,want,wl)&&c[wl]==0,"normalize into its own buffer differs");
  char d[64]; r=cwk_path_normalize(want,d,sizeof d); sx_assert(r==wl&&same(d,want,wl+1),"normalize is not idempotent");
  int absu=A[0]=='/'; sx_assert(cwk_path_is_absolute(A)==absu&&cwk_path_is_relative(A)==!absu,"is_absolute"); size_t root=9; cwk_path_get_root(A,&root); sx_assert(root==(size_t)absu,"root length");
#elif MODE==1 // join, absolute
  A=sympath(LA,"a"); Bp=sympath(LB,"b"); plist l={A[0]=='/',0,0}; feed(&l,A); feed(&l,Bp); wl=render(&l,want); check_out(f_join,want,wl,"join differs from the reference");
  plist g={1,0,0}; if(Bp[0]!='/') feed(&g,A); feed(&g,Bp); wl=render(&g,want); check_out(f_abs,want,wl,"get_absolute differs from the reference"); sx_cover("joined");
  { plist m={A[0]=='/',0,0}; feed(&m,A); feed(&m,Bp); feed(&m,"x/../y"); wl=render(&m,want); const char*ps[4]={A,Bp,"x/../y",0}; char b[64]; size_t r=cwk_path_join_multiple(ps,b,sizeof b); sx_assert(r==wl&&same(b,want,wl+1),"join_multiple differs from the reference"); }
#elif MODE==2 // relative
  A=sympath(LA,"base"); Bp=sympath(LB,"path"); plist l={A[0]=='/',0,0},m={Bp[0]=='/',0,0}; feed(&l,A); feed(&m,Bp); char b[64]; size_t r=cwk_path_get_relative(A,Bp,b,sizeof b);
  if(l.abs!=m.abs){ sx_assert(r==0&&b[0]==0,"relative between different roots is not empty"); sx_cover("roots-differ"); sx_end(); }
  size_t common=0; while(common<l.n&&common<m.n&&l.s[common].n==m.s[common].n&&same(l.s[common].b,m.s[common].b,l.s[common].n)) common++;
  for(size_t i=common;i<l.n;i++) sx_assume(!isup(l.s[i])); // leaving an unresolved .. is not expressible
  wl=0; for(size_t i=common;i<l.n;i++){ if(wl) want[wl++]='/'; want[wl++]='.'; want[wl++]='.'; } for(size_t i=common;i<m.n;i++){ if(wl) want[wl++]='/'; memcpy(want+wl,m.s[i].b,m.s[i].n); wl+=m.s[i].n; } if(!wl) want[wl++]='.'; want[wl]=0;
  sx_assert(r==wl&&same(b,want,wl+1),"relative path differs from the reference"); check_out(f_rel,want,wl,"relative path differs from the reference"); if(common&&wl>1) sx_cover("relative");
#elif MODE==3 // parts
  A=sympath(LA,"path"); size_t n=strlen(A),rl=A[0]=='/'; seg s={0,0}; size_t e=n; while(e>rl&&A[e-1]=='/') e--; size_t st=e; while(st>rl&&A[st-1]!='/') st--; if(e>st){ s.b=A+st; s.n=e-st; }
  const char*bn=A; size_t bl=77,dl=77; cwk_path_get_basename(A,&bn,&bl); sx_assert(bn==s.b&&bl==s.n,"basename"); cwk_path_get_dirname(A,&dl); sx_assert(dl==(s.n?st:0),"dirname");
  const char*x=0; size_t xl=99; int has=0; size_t xp=0; for(size_t i=0;i<s.n;i++) if(s.b[i]=='.'){ has=1; xp=i; }
  sx_assert(cwk_path_get_extension(A,&x,&xl)==has,"has extension"); if(has) sx_assert(x==s.b+xp&&xl==s.n-xp,"extension"); else sx_assert(x==0&&xl==99,"extension outputs touched"); sx_assert(cwk_path_has_extension(A)==has,"has_extension"); if(has&&s.n>2) sx_cover("ext");
  // iterate the segments both ways
  struct cwk_segment g; size_t i=rl,cnt=0; int ok=cwk_path_get_first_segment(A,&g); 
  for(;;){ while(A[i]=='/') i++; if(!A[i]){ sx_assert(!ok,"more segments than the path has"); break; } size_t j=i; while(A[j]&&A[j]!='/') j++; sx_assert(ok&&g.begin==A+i&&g.end==A+j&&g.size==j-i,"segment");
    sx_assert(cwk_path_get_segment_type(&g)==((j-i==1&&A[i]=='.')?CWK_CURRENT:(j-i==2&&A[i]=='.'&&A[i+1]=='.')?CWK_BACK:CWK_NORMAL),"segment type"); cnt++; i=j; ok=cwk_path_get_next_segment(&g); }
  struct cwk_segment h; if(cnt){ sx_assert(cwk_path_get_last_segment(A,&h)&&h.begin==s.b&&h.size==s.n,"last segment"); size_t back=1; while(cwk_path_get_previous_segment(&h)) back++; sx_assert(back==cnt,"walking back meets another number of segments"); sx_cover("segments"); }
#elif MODE==4 // changes
  A=sympath(LA,"path"); Bp=sympath(LB,"new"); size_t n=strlen(A),rl=A[0]=='/'; size_t e=n; while(e>rl&&A[e-1]=='/') e--; size_t st=e; while(st>rl&&A[st-1]!='/') st--;
  const char*v=Bp; while(*v=='/') v++; size_t vl=strlen(v); while(vl&&v[vl-1]=='/') vl--;
  wl=0; if(e>st){ memcpy(want,A,st); wl=st; memcpy(want+wl,v,vl); wl+=vl; memcpy(want+wl,A+e,n-e); wl+=n-e; } else { memcpy(want,A,rl); wl=rl; memcpy(want+wl,v,vl); wl+=vl; } want[wl]=0; check_out(f_chb,want,wl,"change_basename differs from the reference");
  size_t xe=e; for(size_t i=st;i<e;i++) if(A[i]=='.') xe=i; const char*q=Bp; if(*q=='.') q++; size_t ql=strlen(q);
  if(e>st){ memcpy(want,A,xe); wl=xe; want[wl++]='.'; memcpy(want+wl,q,ql); wl+=ql; memcpy(want+wl,A+e,n-e); wl+=n-e; } else { memcpy(want,A,rl); wl=rl; want[wl++]='.'; memcpy(want+wl,q,ql); wl+=ql; } want[wl]=0; check_out(f_che,want,wl,"change_extension differs from the reference");
  wl=strlen(Bp); memcpy(want,Bp,wl); memcpy(want+wl,A+rl,n-rl); wl+=n-rl; want[wl]=0; check_out(f_chr,want,wl,"change_root differs from the reference"); sx_cover("changed");
  { char*c=malloc(n+strlen(Bp)+3); strcpy(c,A); size_t r=cwk_path_change_root(c,Bp,c,n+strlen(Bp)+3); sx_assert(r==wl&&same(c,want,wl+1),"change_root into its own buffer differs"); }
#endif
  sx_cover("end"); }
