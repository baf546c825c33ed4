// D06: the compiled text is exactly what was read from standard input or from a file.
#include "d_common.h"
#ifndef LA
#define LA 4
#endif
static unsigned char *want; static size_t wn; static int bad, mode, nsrc;
static int ep(int c,char**v){ prog_runs++; return 0; }
static void final(int code){
  if(bad){ sx_assert(code!=0&&!prog_runs&&!count(E_RELOC)&&!count(E_OUTFILE),"text that cannot be read completely is an error and nothing is run"); sx_assert(count(E_COMPILE)<=nsrc-1,"text that was read in part is not compiled"); sx_cover("refused"); return; }
  int k=0; ev*e=0; sx_assert(count(E_COMPILE)==nsrc,"every text is compiled once"); 
  for(int i=0;i<nev;i++) if(evs[i].kind==E_COMPILE){ char*t=evs[i].a; if(mode<3?1:mode==3?k==1:1){ if(mode>=4){ static const char H[]="#line 1 \"f.c\"\n"; size_t h=sizeof H-1; sx_assert(strlen(t)>=h&&!memcmp(t,H,h),"the line marker names the file"); t+=h; }
      sx_assert(strlen(t)==wn,"the compiled text has exactly the length that was read"); for(size_t j=0;j<wn;j++) sx_assert((unsigned char)t[j]==want[j],"the compiled text is byte for byte what was read"); } k++; }
  sx_assert(code==0,"text without errors is accepted"); sx_cover(wn>1000?"long":"exact"); }
static int lim,perr=1; static int rl(mnode*m,size_t k){ return lim?(k>1?(int)k-1:(int)k):(int)k; }
void harness(void){ base_fs(); ep_sym=(void*)ep; m_forkres=0; m_stdin_erroff=(size_t)-1; sx_instlimit(80000000,1); want=malloc(20000); m_getline_extra=sx_choose(2,"dirty")?0x5a:0;
  mode=sx_choose(5,"mode"); // 0 stdin alone, 1 stdin with -o, 2 stdin to object, 3 "-" between files, 4 file
#if MODE==0 // any bytes, any line structure
  wn=sx_choose(LA+1,"len"); for(size_t i=0;i<wn;i++) want[i]=sx_u8("byte"); 
#elif MODE==1 // long lines: around the buffer sizes of the line reader and of common stdio buffers
  static const int L[]={117,118,119,120,121,238,239,240,241,479,480,481,1023,1024,1025,4095,4096,4097,8191,8192,8193}; int a=L[sx_choose(TIER_QUICK?18:21,"len")]; for(int i=0;i<a;i++) want[i]='a'+i%26; want[a]='\n'; wn=a+1; unsigned p=sx_choose(5,"pos"); if(TIER_QUICK) perr=p==3; size_t at=p==0?0:p==1?a-1:p==2?a:p==3?a/2:118; if(at<wn) want[at]=sx_u8("byte"); if(TIER_QUICK?p==1||p==2:sx_choose(2,"again")){ memcpy(want+wn,want,wn); wn*=2; } if(sx_choose(2,"noeol")) want[wn++]='x';
#else // many lines
  static const int N[]={1,2,3,63,64,65,127,128,300,1000}; int a=N[sx_choose(TIER_QUICK?9:10,"lines")]; unsigned k=sx_choose(3,"kind"); for(int i=0;i<a;i++){ if(k==1) want[wn++]='a'+i%26; else if(k==2) for(int j=0;j<i%5;j++) want[wn++]='a'+j; want[wn++]='\n'; } want[sx_choose(2,"at")?wn/2:wn-1]=sx_u8("byte");
#endif
  for(size_t i=0;i<wn;i++) if(want[i]==0){ bad=1; break; } 
  if(mode==4){ mfs_add("/w/f.c",MT_FILE,want,wn); if(wn>=2) sx_assume(want[0]<0x80); mfs_rlimit=rl; lim=wn?sx_choose(2,"short"):0; if(lim&&wn==1) lim=0; if(lim&&wn<=3) lim=0; if(lim) bad=1; }
  else { if(wn==0) bad=1; m_stdin_data=want; m_stdin_len=wn; if(perr&&sx_choose(2,"error")){ bad=1; if(wn<=(TIER_QUICK?60:300)){ uint32_t e=sx_u32("error at"); sx_assume(e<=wn); m_stdin_erroff=sx_conc(e); } else { size_t E[]={0,1,117,118,119,120,wn/2,wn-1,wn}; m_stdin_erroff=E[sx_choose(9,"error at")]; if(m_stdin_erroff>wn) sx_end(); } } }
  mfs_add("/w/a.c",MT_FILE,"int a;\n",7); mfs_add("/w/b.c",MT_FILE,"int b;\n",7);
  const char*w[10]={"cjit","-q"}; int n=2; nsrc=1; if(mode==1){ w[n++]="-o"; w[n++]="out"; } if(mode==2){ w[n++]="-c"; w[n++]="-o"; w[n++]="o.o"; } if(mode==3){ w[n++]="a.c"; w[n++]="-"; w[n++]="b.c"; nsrc=3; } if(mode==4) w[n++]="f.c"; run_words(n,w); }
