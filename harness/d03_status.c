// D03: the tool's exit status, waiting, the pid file.
#include "d_common.h"
#include <sys/wait.h>
static int epret,stage,nwait,eintr,status,expect,stops,pidfile,mode,ended; static int pid;
static int ep(int c,char**v){ prog_runs++; return epret; }
static int waith(int p,int*st,int o){ nwait++; sx_assert(p==pid||p==-1,"the tool waits for the program it started");
  if(eintr>0){ eintr--; m_errno=EINTR; return -1; }
  if(o&WNOHANG){ if(stops>0){ stops--; return 0; } } if(stops>0&&(o&(WUNTRACED|WCONTINUED))){ stops--; if(st) *st=(o&WUNTRACED)?0x137f:0xffff; return pid; } // stopped or continued, still running
  ended=1; if(st) *st=status; return pid; }
static mnode *pf(void){ return mfs_find("/w/p.pid"); }
static void final(int code){
  if(mode==0){ sx_assert(prog_runs==1,"the child runs the program"); sx_assert(code==(epret&0xff),"the child ends with the program's result"); sx_cover("child"); return; }
  if(mode==2){ sx_assert(code!=0&&!prog_runs,"a failed fork is an error"); sx_cover("nofork"); return; }
  if(mode==3){ sx_assert(code!=0&&!prog_runs&&m_forked==0,"a pid file that cannot be created is an error and nothing runs"); sx_cover("nopid"); return; }
  sx_assert(m_forked==1&&!prog_runs,"one process is started"); sx_assert(ended,"the tool waits until the program ends");
  sx_assert(code==expect,"the exit status is the program's exit status or terminating signal"); if((status&0x7f)!=0){ sx_assert(m_cap[2].n>0,"a terminating signal is reported"); sx_cover("signal"); } else sx_cover("exited");
  if(pidfile){ mnode*m=pf(); sx_assert(m!=0,"the pid file exists"); char b[16]; int n=0; unsigned v=pid; char t[16]; do t[n++]='0'+v%10; while(v/=10); sx_assert(m->size>=(size_t)n&&(m->size==(size_t)n||(m->size==(size_t)n+1&&m->data[n]=='\n')),"the pid file holds just the process id"); for(int i=0;i<n;i++) sx_assert(m->data[i]==t[n-1-i],"the pid file holds the id of the program's process"); sx_cover("pidfile"); } }
static int hook(const char*op,const char*p){ return mode==3&&strstr(p,"p.pid")?EACCES:0; }
void harness(void){ base_fs(); sx_instlimit(30000000,1); mfs_add("/w/a.c",MT_FILE,"int a;\n",7); ep_sym=(void*)ep; m_wait_hook=waith; mfs_hook=hook;
  mode=sx_choose(4,"mode"); pidfile=mode==3||sx_choose(2,"pidfile"); unsigned old=sx_choose(2,"old"); if(pidfile&&old) mfs_add("/w/p.pid",MT_FILE,"123456789012\n",13);
  if(mode==0){ m_forkres=0; epret=(int)sx_u32("ret"); } else if(mode==2) m_forkres=-1; else { static const int P[]={2,10,4242,99999,4194304}; pid=m_forkres=P[sx_choose(5,"pid")]; }
  eintr=sx_choose(3,"eintr"); stops=sx_choose(2,"stops"); if(sx_choose(2,"how")){ unsigned s=sx_u8("sig"); sx_assume((s&0x7f)>0&&(s&0x7f)<0x7f); status=s; expect=s&0x7f; } else { unsigned c=sx_u8("code"); status=c<<8; expect=c; }
  const char*w[8]={"cjit"}; int n=1; unsigned q=sx_choose(2,"q"); if(q) w[n++]="-q"; else w[n++]="--verb"; if(pidfile){ if(sx_choose(2,"attached")) w[n++]="-pp.pid"; else { w[n++]="-p"; w[n++]="p.pid"; } } w[n++]="a.c"; run_words(n,w); }
