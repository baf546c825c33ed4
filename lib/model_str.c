// String/memory functions for data the engine cannot treat concretely (symbolic bytes).
// Engine only; the native replay uses the real libc (under ASan).
#include "sx.h"
#include <stdarg.h>
typedef unsigned char uc;
size_t m_strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int m_strcmp(const char*a,const char*b){ for(;;a++,b++){ uc x=*a,y=*b; if(x!=y) return (int)x-(int)y; if(!x) return 0; } }
int m_strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ uc x=*a,y=*b; if(x!=y) return (int)x-(int)y; if(!x) return 0; } return 0; }
int m_memcmp(const void*a_,const void*b_,size_t n){ const uc*a=a_,*b=b_; for(size_t i=0;i<n;i++) if(a[i]!=b[i]) return (int)a[i]-(int)b[i]; return 0; }
char *m_strchr(const char*s,int c){ for(;;s++){ char x=*s; if(x==(char)c) return (char*)s; if(!x) return 0; } }
char *m_strrchr(const char*s,int c){ char*r=0; for(;;s++){ char x=*s; if(x==(char)c) r=(char*)s; if(!x) return r; } }
char *m_strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char *m_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *m_strcat(char*d,const char*s){ char*r=d; while(*d) d++; while((*d++=*s++)); return r; }
char *m_strncat(char*d,const char*s,size_t n){ char*r=d; while(*d) d++; while(n--&&*s) *d++=*s++; *d=0; return r; }
char *m_stpcpy(char*d,const char*s){ while((*d=*s)){ d++; s++; } return d; }
void *m_memchr(const void*p,int c,size_t n){ const uc*s=p; for(;n;n--,s++) if(*s==(uc)c) return (void*)s; return 0; }
char *m_strstr(const char*h,const char*n){ if(!*n) return (char*)h; for(;*h;h++){ size_t i=0; while(n[i]&&h[i]==n[i]) i++; if(!n[i]) return (char*)h; } return 0; }
size_t m_strspn(const char*s,const char*a){ size_t n=0; for(;s[n];n++){ const char*p=a; while(*p&&*p!=s[n]) p++; if(!*p) break; } return n; }
size_t m_strcspn(const char*s,const char*a){ size_t n=0; for(;s[n];n++){ const char*p=a; while(*p&&*p!=s[n]) p++; if(*p) break; } return n; }
char *m_strpbrk(const char*s,const char*a){ s+=m_strcspn(s,a); return *s?(char*)s:0; }
char *m_strdup(const char*s){ extern void*malloc(size_t); size_t n=m_strlen(s); char*d=malloc(n+1); for(size_t i=0;i<=n;i++) d[i]=s[i]; return d; }
char *m_strndup(const char*s,size_t k){ extern void*malloc(size_t); size_t n=0; while(n<k&&s[n]) n++; char*d=malloc(n+1); for(size_t i=0;i<n;i++) d[i]=s[i]; d[n]=0; return d; }
size_t m_strnlen(const char*s,size_t n){ size_t i=0; while(i<n&&s[i]) i++; return i; }
static int lc(int c){ return c>='A'&&c<='Z'?c+32:c; }
int m_tolower(int c){ return lc(c); }
int m_toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int m_strcasecmp(const char*a,const char*b){ for(;;a++,b++){ int x=lc((uc)*a),y=lc((uc)*b); if(x!=y) return x-y; if(!x) return 0; } }
int m_strncasecmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ int x=lc((uc)*a),y=lc((uc)*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
// ctype table, C locale, glibc bit layout (little endian)
enum{ UP=1<<8,LO=1<<9,AL=1<<10,DI=1<<11,XD=1<<12,SPC=1<<13,PR=1<<14,GR=1<<15,BL=1<<0,CT=1<<1,PU=1<<2,AN=1<<3 };
static unsigned short ctab[384]; static const unsigned short *ctp;
const unsigned short **m___ctype_b_loc(void){
  if(!ctp){ for(int c=0;c<128;c++){ unsigned f=0; if(c>='A'&&c<='Z') f|=UP|AL|AN; if(c>='a'&&c<='z') f|=LO|AL|AN; if(c>='0'&&c<='9') f|=DI|XD|AN; if((c>='a'&&c<='f')||(c>='A'&&c<='F')) f|=XD; if(c==' '||(c>=9&&c<=13)) f|=SPC; if(c==' '||c==9) f|=BL; if(c<32||c==127) f|=CT; if(c>=32&&c<127) f|=PR; if(c>32&&c<127) f|=GR; if(c>32&&c<127&&!(f&AN)) f|=PU; ctab[128+c]=f; } ctp=ctab+128; }
  return &ctp; }
static int tl[384],tu[384]; static const int *tlp,*tup;
const int **m___ctype_tolower_loc(void){ if(!tlp){ for(int i=-128;i<256;i++) tl[i+128]=lc(i); tlp=tl+128; } return &tlp; }
const int **m___ctype_toupper_loc(void){ if(!tup){ for(int i=-128;i<256;i++) tu[i+128]=m_toupper(i); tup=tu+128; } return &tup; }
static unsigned long long stoull(const char*s,char**e,int base,int *neg){
  const char*p=s; *neg=0; while(*p==' '||(*p>=9&&*p<=13)) p++; if(*p=='-'){ *neg=1; p++; } else if(*p=='+') p++;
  if((base==0||base==16)&&p[0]=='0'&&(p[1]|32)=='x'){ int d=p[2]; if((d>='0'&&d<='9')||((d|32)>='a'&&(d|32)<='f')){ p+=2; base=16; } }
  if(base==0) base= p[0]=='0'?8:10;
  unsigned long long v=0; int any=0,ov=0; for(;;p++){ int c=*p,d; if(c>='0'&&c<='9') d=c-'0'; else if((c|32)>='a'&&(c|32)<='z') d=(c|32)-'a'+10; else break; if(d>=base) break; if(v>(~0ULL-d)/base) ov=1; v=v*base+d; any=1; }
  if(e) *e=(char*)(any?p:s); if(ov){ *neg=2; return ~0ULL; } return v; }
unsigned long m___isoc23_strtoul(const char*s,char**e,int b){ int n; unsigned long long v=stoull(s,e,b,&n); return n==1?-v:v; }
unsigned long long m___isoc23_strtoull(const char*s,char**e,int b){ return m___isoc23_strtoul(s,e,b); }
long m___isoc23_strtol(const char*s,char**e,int b){ int n; unsigned long long v=stoull(s,e,b,&n); if(n==2) return 0x7fffffffffffffffL; if(n==0&&v>0x7fffffffffffffffULL) return 0x7fffffffffffffffL; return n?-v:v; }
long long m___isoc23_strtoll(const char*s,char**e,int b){ return m___isoc23_strtol(s,e,b); }
unsigned long m_strtoul(const char*s,char**e,int b){ return m___isoc23_strtoul(s,e,b); }
unsigned long long m_strtoull(const char*s,char**e,int b){ return m___isoc23_strtoul(s,e,b); }
long m_strtol(const char*s,char**e,int b){ return m___isoc23_strtol(s,e,b); }
int m_atoi(const char*s){ return (int)m___isoc23_strtol(s,0,10); }
int m_abs(int x){ return x<0?-x:x; }
// scaling by a power of two: one exact or correctly rounded product of 64-bit mantissas
static long double p2(int n){ long double r=1,b=n<0?0.5L:2; for(int k=n<0?-n:n;k;k>>=1,b*=b) if(k&1) r*=b; return r; }
long double m_ldexpl(long double x,int n){ if(n>20000) n=20000; if(n<-33000) n=-33000; if(n>16000){ x*=p2(16000); n-=16000; } else if(n<-16000){ x*=p2(-16000); n+=16000; } return x*p2(n); }
double m_ldexp(double x,int n){ return (double)m_ldexpl(x,n); }
double sx_host_strtod(const char*,char**); float sx_host_strtof(const char*,char**); long double sx_host_strtold(const char*,char**);
// of a text with unknown characters: some value, the same for the same text (inputs named #... are not part of a replay)
static struct { char t[80]; int kind; double d; } strto[16]; static int nstrto;
static int strsym(const char*s){ for(;*s;s++) if(sx_is_symbolic((unsigned char)*s)) return 1; return 0; }
static double strtoany(const char*s,int kind){ for(int i=0;i<nstrto;i++) if(strto[i].kind==kind){ int eq=1; for(int k=0;;k++){ eq&=s[k]==strto[i].t[k]; if(!s[k]||!strto[i].t[k]) break; } if(eq) return strto[i].d; }
  if(nstrto==16) sx_giveup("many decimal floating texts"); int n=0; for(;s[n];n++){ if(n==79) sx_giveup("long decimal floating text"); strto[nstrto].t[n]=s[n]; } strto[nstrto].t[n]=0; strto[nstrto].kind=kind; union { unsigned long long u; double d; float f[2]; } v; v.u=sx_u64("#value"); if(kind==1){ sx_assume((v.u>>23&255)!=255); strto[nstrto].d=v.f[0]; } else { sx_assume((v.u>>52&0x7ff)!=0x7ff); strto[nstrto].d=v.d; } return strto[nstrto++].d; }
double m_strtod(const char*s,char**e){ return strsym(s)?strtoany(s,0):sx_host_strtod(s,e); }
float m_strtof(const char*s,char**e){ return strsym(s)?(float)strtoany(s,1):sx_host_strtof(s,e); }
long double m_strtold(const char*s,char**e){ return strsym(s)?(long double)strtoany(s,2):sx_host_strtold(s,e); }
int sx_host_fmt_double(char*b,size_t n,const char*f,double d);
int m_vsnprintf(char*buf,size_t size,const char*f,va_list ap){
  size_t o=0;
#define PUT(c) do{ char c_=(c); if(size&&o<size-1) buf[o]=c_; o++; }while(0)
  for(;*f;f++){
    if(*f!='%'){ PUT(*f); continue; }
    f++; int left=0,zero=0,plus=0,alt=0,space=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f=='#') alt=1; else if(*f==' ') space=1; else break; }
    int width=0,prec=-1; if(*f=='*'){ width=va_arg(ap,int); if(width<0){ left=1; width=-width; } f++; } else while(*f>='0'&&*f<='9') width=width*10+(*f++-'0');
    if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+(*f++-'0'); }
    int l=0; for(;;f++){ if(*f=='l') l++; else if(*f=='h') l--; else if(*f=='z'||*f=='t'||*f=='j') l=1; else if(*f=='L') l=3; else break; }
    char c=*f;
    if(c==0) break;
    if(c=='%'){ PUT('%'); continue; }
    if(c=='c'){ int pad=width-1; if(!left) while(pad-->0) PUT(' '); PUT((char)va_arg(ap,int)); if(left) while(pad-->0) PUT(' '); continue; }
    if(c=='s'){ const char*s=va_arg(ap,const char*); if(!s) s="(null)"; size_t n=0; while((prec<0||n<(size_t)prec)&&s[n]) n++; int pad=width-(int)n; if(!left) while(pad-->0) PUT(' '); for(size_t i=0;i<n;i++) PUT(s[i]); if(left) while(pad-->0) PUT(' '); continue; }
    if(c=='d'||c=='i'||c=='u'||c=='x'||c=='X'||c=='o'||c=='p'){
      unsigned long long v; int neg=0;
      if(c=='p'){ v=(unsigned long long)va_arg(ap,void*); alt=1; c='x'; }
      else if(c=='d'||c=='i'){ long long s= l>=1?va_arg(ap,long long):l<=-2?(signed char)va_arg(ap,int):l==-1?(short)va_arg(ap,int):va_arg(ap,int); neg=s<0; v=neg?-(unsigned long long)s:s; }
      else v= l>=1?va_arg(ap,unsigned long long):l<=-2?(uc)va_arg(ap,int):l==-1?(unsigned short)va_arg(ap,int):va_arg(ap,unsigned);
      char t[70]; int n=0; unsigned b= c=='o'?8:(c=='x'||c=='X')?16:10; int nz=v!=0; while(v){ unsigned d=(unsigned)(v%b); t[n++]= d<10?'0'+d:(c=='X'?'A':'a')+d-10; v/=b; } if(n==0&&prec!=0) t[n++]='0'; if(prec>=0) zero=0; while(n<prec) t[n++]='0';
      char pre[4]; int np=0; if(neg) pre[np++]='-'; else if(plus&&(c=='d'||c=='i')) pre[np++]='+'; else if(space&&(c=='d'||c=='i')) pre[np++]=' '; if(alt&&b==16&&nz){ pre[np++]='0'; pre[np++]=c; }
      int pad=width-n-np; if(!left&&!zero) while(pad-->0) PUT(' '); for(int i=0;i<np;i++) PUT(pre[i]); if(!left&&zero) while(pad-->0) PUT('0'); while(n) PUT(t[--n]); if(left) while(pad-->0) PUT(' '); continue; }
    if(c=='f'||c=='g'||c=='e'||c=='F'||c=='G'||c=='E'){ double d= l==3?(double)va_arg(ap,long double):va_arg(ap,double); char t[400]; char fm[8]="%.*"; (void)fm; char ff[12]; int k=0; ff[k++]='%'; if(prec>=0&&prec<100){ ff[k++]='.'; if(prec>=10) ff[k++]='0'+prec/10; ff[k++]='0'+prec%10; } ff[k++]=c; ff[k]=0; int n=sx_host_fmt_double(t,sizeof t,ff,d); int pad=width-n; if(!left) while(pad-->0) PUT(' '); for(int i=0;i<n;i++) PUT(t[i]); if(left) while(pad-->0) PUT(' '); continue; }
    sx_giveup("printf conversion not modelled");
  }
  if(size) buf[o<size?o:size-1]=0;
  return (int)o; }
int m_snprintf(char*b,size_t n,const char*f,...){ va_list a; va_start(a,f); int r=m_vsnprintf(b,n,f,a); va_end(a); return r; }
int m_vsprintf(char*b,const char*f,va_list a){ return m_vsnprintf(b,0x40000000,f,a); }
int m_sprintf(char*b,const char*f,...){ va_list a; va_start(a,f); int r=m_vsnprintf(b,0x40000000,f,a); va_end(a); return r; }
int m___snprintf_chk(char*b,size_t n,int fl,size_t s,const char*f,...){ va_list a; va_start(a,f); int r=m_vsnprintf(b,n,f,a); va_end(a); return r; }
void m_qsort(void*base,size_t n,size_t sz,int(*cmp)(const void*,const void*)){
  uc*b=base; uc t[256]; if(sz>sizeof t) sx_giveup("qsort element size"); extern void*memcpy(void*,const void*,size_t); extern void*memmove(void*,const void*,size_t);
  for(size_t i=1;i<n;i++){ size_t lo=0,hi=i; while(lo<hi){ size_t mid=(lo+hi)/2; if(cmp(b+i*sz,b+mid*sz)<0) hi=mid; else lo=mid+1; } if(lo<i){ memcpy(t,b+i*sz,sz); memmove(b+(lo+1)*sz,b+lo*sz,(i-lo)*sz); memcpy(b+lo*sz,t,sz); } } }
void m___assert_fail(const char*a,const char*f,unsigned l,const char*fn){ extern void abort(void); abort(); }
