// D11: messages are printed intact whatever their length and content.
#include "d_common.h"
#ifndef LA
#define LA 3
#endif
#define LIM 2039 /* documented buffer: MAX_STRING 2040 with the terminator */
void _out(const char*,...); void _err(const char*,...);
static char *cap(int f,size_t*n){ *n=m_cap[f].n; return m_cap[f].p; }
#if MODE==0
static char want[12000]; static size_t wn; static char t[6000], u[6000];
static void fill(char*b,int n,const char*nm){ for(int i=0;i<n;i++) b[i]='a'+i%26; b[n]=0; if(n){ int q[4]={0,n-1,n/2,LIM-1}; unsigned k=sx_choose(TIER_QUICK?3:5,"pos"); if(k<4&&q[k]<n){ b[q[k]]=sx_u8(nm); sx_assume(b[q[k]]!=0); } else if(k==4) for(int i=0;i<n&&i<LA;i++){ b[i]=sx_u8(nm); sx_assume(b[i]!=0); } } }
static void add(const char*s){ size_t l=strlen(s); memcpy(want+wn,s,l); wn+=l; }
static void final(int c){}
void harness(void){ static const int L[]={0,1,2,3,2034,2035,2036,2037,2038,2039,2040,2041,2042,2043,2044,2048,3000,4095,4096,5000}; unsigned form=sx_choose(5,"form"); int err=sx_choose(2,"err"); void (*f)(const char*,...)=err?_err:_out; int n=L[sx_choose(20,"len")]; fill(t,n,"byte"); long v=0;
  if(form==0){ f("%s",t); add(t); } else if(form==1){ strcpy(u,"file.c"); f("%s: error: %s",u,t); add(u); add(": error: "); add(t); } else if(form==2){ strcpy(u,"tail"); f("[%s] %s!",t,u); add("["); add(t); add("] tail!"); }
  else if(form==3){ unsigned x=sx_u8("n"); f("%s %u",t,x); add(t); add(" "); char d[4]; int k=0; if(x>=100) d[k++]='0'+x/100; if(x>=10) d[k++]='0'+x/10%10; d[k++]='0'+x%10; d[k]=0; add(d); }
  else { for(int i=0;i<n;i++) if(t[i]=='%') sx_end(); f(t); add(t); }
  size_t cn; char*p=cap(err?2:1,&cn); size_t on; cap(err?1:2,&on); sx_assert(on==0,"a message goes to its stream only"); size_t e=wn>LIM?LIM:wn; sx_assert(cn==e+1,"a message is its text, cut at the buffer size, and one newline"); for(size_t i=0;i<e;i++) sx_assert(p[i]==want[i],"the text of a message is intact"); sx_assert(p[e]=='\n',"a message ends with a newline"); sx_cover(wn>LIM?"cut":wn==LIM?"exact":"whole"); }
#else
// messages of the tool that carry words of the user
static char name[2300]; static const char *before,*after; static int ex; static int quiet;
static int ep(int c,char**v){ prog_runs++; return 0; }
static int tcch(int k,const char*a){ if(k==E_ADDFILE||k==E_GETSYM||k==E_OUTFILE) return -1; if(k==E_COMPILE&&ex==6){ tcc_err(tcc_erro,name); return -1; } return 0; }
static void final(int code){ size_t n; char*p=cap(2,&n); sx_assert(m_cap[1].n==0,"messages go to the error stream"); if(!before) return;
  char w[2600]; strcpy(w,before); strcat(w,name); strcat(w,after); size_t l=strlen(w); size_t e=l>LIM?LIM:l; int found=0; size_t b=0;
  for(size_t i=0;i<=n&&!found;i++) if(i==n||p[i]=='\n'){ // one line; the name itself may hold newlines
      if(b+e<n){ int same=p[b+e]=='\n'; for(size_t j=0;same&&j<e;j++) same=p[b+j]==w[j]; found=same; } b=i+1; }
  sx_assert(found,"the message carries the user's text intact"); sx_assert(n==0||p[n-1]=='\n',"every message ends with a newline"); sx_cover(l>LIM?"cut":"whole"); }
void harness(void){ base_fs(); sx_instlimit(30000000,1); tcc_hook=tcch; ep_sym=(void*)ep; mfs_add("/w/a.c",MT_FILE,"int a;\n",7);
  static const int L[]={1,2,3,500,1000,2000,2010,2020,2030,2035,2039,2040,2100}; int n; unsigned k=sx_choose(TIER_QUICK?8:13,"len"); n= k<3?L[k]:k==3?500:TIER_QUICK?(k==4?1000:k==5?2008:k==6?2039:2100):L[k]; for(int i=0;i<n;i++) name[i]='a'+i%26; if(n<=3) for(int i=0;i<n;i++){ name[i]=sx_u8("name"); sx_assume(name[i]!=0); } else { name[n/2]=sx_u8("name"); sx_assume(name[n/2]!=0); name[n-1]=sx_u8("name"); sx_assume(name[n-1]!=0); }
  const char*w[8]={"cjit"}; int q=1; ex=sx_choose(9,"message"); before=0; after="";
  for(int i=0;i<n;i++) if(ex!=6&&(name[i]=='/')) sx_end();
  if(ex!=1&&ex!=4&&ex!=6&&ex!=7) for(int i=0;i<n&&n<=3;i++) if(name[i]=='.') sx_end();
  switch(ex){
  case 0: w[q++]="-q"; w[q++]=name; sx_assume(name[0]!='-'); before="cjit_add_file: error: "; if(n>1000) { before=0; } for(int i=0;i<n;i++) if(name[i]=='.') sx_end(); break;
  case 1: w[q++]="-e"; w[q++]=name; w[q++]="a.c"; before="Symbol not found in source: "; break;
  case 2: w[q++]="-D"; w[q++]=name; w[q++]="a.c"; { int ok=1; for(int i=0;i<n;i++){ if(name[i]=='=') break; if(!((name[i]>='0'&&name[i]<='9')||(name[i]>='a'&&name[i]<='z')||(name[i]>='A'&&name[i]<='Z')||name[i]=='_')) ok=0; } if(ok) sx_end(); } before="Invalid char used in -D define symbol: "; break;
  case 3: w[q++]="-q"; w[q++]="-l"; w[q++]=name; w[q++]="a.c"; if(n>500) sx_end(); before="Library not found: lib"; after=".so"; break;
  case 4: w[q++]="-o"; w[q++]=name; w[q++]="a.c"; before="Error in linker compiling to file: "; break;
  case 5: w[q++]="-o"; w[q++]=name; w[q++]="a.c"; before="Create executable: "; break;
  case 6: w[q++]="-q"; w[q++]="a.c"; before=""; break; // a diagnostic of the compiler
  case 7: w[q++]="--verb"; w[q++]="-e"; w[q++]=name; w[q++]="a.c"; before="entry function: "; break;
  default: w[q++]="-v"; w[q++]="-l"; w[q++]=name; if(n>500) sx_end(); before="+ "; break; }
  run_words(q,w); }
#endif
