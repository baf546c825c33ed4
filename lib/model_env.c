#include "model_env.h"
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#undef errno
#undef getdelim
int m_errno; int *m___errno_location(void){ return &m_errno; }
mnode mfs[MFS_MAX]; char mfs_cwd[1024]="/w"; int mfs_autodir; int (*mfs_hook)(const char*,const char*); int (*mfs_wlimit)(mnode*,size_t); int (*mfs_rlimit)(mnode*,size_t);
mcap m_cap[3]; int m_tty[3]; int (*m_write_hook)(int,const void*,size_t);
int m_forkres=4242,m_waitret=4242,m_waitstatus=0,m_forked,m_waited; void (*m_exit_hook)(int);
const char *m_envs[8][2]; int m_nenv; unsigned char *m_stdin_data; size_t m_stdin_len,m_stdin_pos,m_stdin_erroff=(size_t)-1; int m_getline_extra=0;
void mfs_reset(void){ for(int i=0;i<MFS_MAX;i++) mfs[i].type=MT_FREE; }
// lexical resolution against cwd: // . ..
void mfs_norm(const char*path,char out[1200]){
  size_t o=0; const char*parts[2]={mfs_cwd,path}; int from= path[0]=='/'?1:0;
  for(int k=from;k<2;k++){ const char*p=parts[k]; while(*p){ if(*p=='/'){ p++; continue; } size_t n=0; while(p[n]&&p[n]!='/') n++;
      if(n==1&&p[0]=='.'){} else if(n==2&&p[0]=='.'&&p[1]=='.'){ while(o>0&&out[o-1]!='/') o--; if(o>0) o--; }
      else { if(o+n+2>1200) sx_giveup("path too long for the model"); out[o++]='/'; for(size_t i=0;i<n;i++) out[o++]=p[i]; }
      p+=n; } }
  if(o==0) out[o++]='/'; out[o]=0; }
static mnode *rawfind(const char*n){ for(int i=0;i<MFS_MAX;i++) if(mfs[i].type!=MT_FREE&&strcmp(mfs[i].path,n)==0) return &mfs[i]; return 0; }
mnode *mfs_find(const char*path){ char n[1200]; mfs_norm(path,n); return rawfind(n); }
static mnode *follow(const char*path,char n[1200]){ mfs_norm(path,n); for(int d=0;d<8;d++){ mnode*m=rawfind(n); if(!m||m->type!=MT_LINK) return m; char t[1200]; if(m->target[0]=='/') mfs_norm(m->target,t); else { char b[2500]; strcpy(b,n); char*s=strrchr(b,'/'); strcpy(s+1,m->target); mfs_norm(b,t); } strcpy(n,t); } return 0; }
mnode *mfs_find_follow(const char*path){ char n[1200]; return follow(path,n); }
mnode *mfs_add(const char*path,int type,const void*data,size_t size){ char n[1200]; mfs_norm(path,n); for(int i=0;i<MFS_MAX;i++) if(mfs[i].type==MT_FREE){ mnode*m=&mfs[i]; memset(m,0,sizeof *m); m->type=type; strcpy(m->path,n); m->mode=0644; if(type==MT_LINK) strcpy(m->target,data); else if(size||data){ m->data=malloc(size?size:1); m->cap=size; m->size=size; if(size) memcpy(m->data,data,size); } return m; } sx_giveup("file table full"); }
static int parentok(const char*n){ if(mfs_autodir) return 1; char b[1200]; strcpy(b,n); char*s=strrchr(b,'/'); if(s==b) return 1; *s=0; char t[1200]; mnode*m=follow(b,t); return m&&m->type==MT_DIR; }
// descriptors and streams
typedef struct { int used, std, rd, wr, app, eof, err, fdonly; mnode*nd; size_t pos; int unget; } mfile;
#define MFD 40
static mfile fds[MFD]={ {1,1,1,0},{1,1,0,1},{1,1,0,1} };
FILE *m_stdin=(FILE*)&fds[0],*m_stdout=(FILE*)&fds[1],*m_stderr=(FILE*)&fds[2]; static char*noenv[1]; char **m_environ=noenv;
void m_resetfds(void){ for(int i=3;i<MFD;i++) fds[i].used=0; m_stdin_pos=0; }
#define F2I(f) ((int)((mfile*)(f)-fds))
static int bad(int e){ m_errno=e; return -1; }
static int doopen(const char*path,int flags){
  char n[1200]; mnode*m=follow(path,n); int wr=(flags&O_ACCMODE)!=O_RDONLY;
  if(wr&&mfs_hook){ int e=mfs_hook("open",path); if(e) return bad(e); }
  if(m&&m->type==MT_DIR&&wr) return bad(EISDIR);
  if(m&&m->noperm) return bad(EACCES);
  if(!m){ if(!(flags&O_CREAT)) return bad(ENOENT); if(!parentok(n)) return bad(ENOENT); m=mfs_add(n,MT_FILE,0,0); }
  else if(flags&O_EXCL&&flags&O_CREAT) return bad(EEXIST);
  if(flags&O_TRUNC) m->size=0;
  for(int i=3;i<MFD;i++) if(!fds[i].used){ fds[i].used=1; fds[i].std=0; fds[i].rd=(flags&O_ACCMODE)!=O_WRONLY; fds[i].wr=wr; fds[i].app=!!(flags&O_APPEND); fds[i].eof=fds[i].err=0; fds[i].nd=m; fds[i].pos=0; fds[i].unget=-1; m->opens++; return i; }
  return bad(EMFILE); }
int m_open(const char*p,int fl,...){ return doopen(p,fl); }
int m_creat(const char*p,mode_t md){ return doopen(p,O_CREAT|O_TRUNC|O_WRONLY); }
int m_fileno(FILE*f){ return F2I(f); }
static mfile *getfd(int fd){ if(fd<0||fd>=MFD||!fds[fd].used) return 0; return &fds[fd]; }
int m_close(int fd){ mfile*f=getfd(fd); if(!f) return bad(EBADF); f->used=0; return 0; }
static size_t rd1(mfile*f,void*b,size_t n,int*err){
  *err=0; if(f->std){ if(f!=fds) { *err=EBADF; return 0; } size_t av=m_stdin_len-m_stdin_pos; if(m_stdin_pos>=m_stdin_erroff){ *err=EIO; return 0; } if(n>av) n=av; if(n>m_stdin_erroff-m_stdin_pos) n=m_stdin_erroff-m_stdin_pos; if(n) memcpy(b,m_stdin_data+m_stdin_pos,n); m_stdin_pos+=n; return n; }
  if(!f->rd){ *err=EBADF; return 0; } if(f->nd->type==MT_DIR){ *err=EISDIR; return 0; }
  if(mfs_rlimit){ int k=mfs_rlimit(f->nd,n); if(k<0){ *err=EIO; return 0; } if((size_t)k<n) n=k; }
  size_t av=f->pos<f->nd->size?f->nd->size-f->pos:0; if(n>av) n=av; if(n) memcpy(b,f->nd->data+f->pos,n); f->pos+=n; return n; }
static size_t wr1(mfile*f,const void*b,size_t n,int*err){
  *err=0; if(f->std){ int fd=(int)(f-fds); if(m_write_hook){ int k=m_write_hook(fd,b,n); if(k<0){ *err=EIO; return 0; } if((size_t)k<n) n=k; } mcap*c=&m_cap[fd]; if(c->n+n+1>c->cap){ size_t nc=(c->n+n+1)*2+256; c->p=realloc(c->p,nc); c->cap=nc; } if(n) memcpy(c->p+c->n,b,n); c->n+=n; c->p[c->n]=0; return n; }
  if(!f->wr){ *err=EBADF; return 0; } mnode*m=f->nd; m->writes++; if(mfs_wlimit){ int k=mfs_wlimit(m,n); if(k<0){ *err=ENOSPC; return 0; } if((size_t)k<n){ n=k; *err=ENOSPC; } }
  if(f->app) f->pos=m->size; if(f->pos+n>m->cap){ size_t nc=(f->pos+n)*2+64; unsigned char*d=malloc(nc); memset(d,0,nc); if(m->size) memcpy(d,m->data,m->size); m->data=d; m->cap=nc; }
  if(f->pos>m->size) memset(m->data+m->size,0,f->pos-m->size); if(n) memcpy(m->data+f->pos,b,n); f->pos+=n; if(f->pos>m->size) m->size=f->pos; return n; }
ssize_t m_read(int fd,void*b,size_t n){ mfile*f=getfd(fd); if(!f) return bad(EBADF); int e; size_t k=rd1(f,b,n,&e); if(e) return bad(e); return k; }
ssize_t m_write(int fd,const void*b,size_t n){ mfile*f=getfd(fd); if(!f) return bad(EBADF); if(!sx_native()&&n&&!sx_readable(b,n)){ char x=((volatile char*)b)[0]; for(size_t i=0;i<n;i++) x+=((volatile char*)b)[i]; } int e; size_t k=wr1(f,b,n,&e); if(e&&!k) return bad(e); return k; }
off_t m_lseek(int fd,off_t o,int w){ mfile*f=getfd(fd); if(!f||f->std) return bad(EBADF); long base=w==SEEK_SET?0:w==SEEK_CUR?(long)f->pos:(long)f->nd->size; if(base+o<0) return bad(EINVAL); f->pos=base+o; return f->pos; }
FILE *m_fopen(const char*p,const char*md){ int fl= md[0]=='r'?O_RDONLY:md[0]=='w'?O_WRONLY|O_CREAT|O_TRUNC:O_WRONLY|O_CREAT|O_APPEND; for(const char*q=md+1;*q;q++) if(*q=='+') fl=(fl&~O_ACCMODE)|O_RDWR; int fd=doopen(p,fl); return fd<0?0:(FILE*)&fds[fd]; }
FILE *m_fdopen(int fd,const char*md){ mfile*f=getfd(fd); return (FILE*)f; }
static mfile *ck(FILE*f){ mfile*m=(mfile*)f; if(!m||m<fds||m>=fds+MFD||!m->used) sx_fail("stream operation on an invalid or closed FILE"); return m; }
int (*mfs_closehook)(mnode*); int m_fclose(FILE*f){ mfile*m=ck(f); m->used=0; if(mfs_closehook&&!m->std&&m->wr&&mfs_closehook(m->nd)){ m_errno=ENOSPC; return EOF; } return 0; }
int m_fflush(FILE*f){ return 0; }
int m_feof(FILE*f){ return ck(f)->eof; } int m_ferror(FILE*f){ return ck(f)->err; } void m_clearerr(FILE*f){ ck(f)->eof=ck(f)->err=0; }
size_t m_fread(void*b,size_t s,size_t n,FILE*f){ mfile*m=ck(f); size_t t=s*n; if(!t) return 0; int e; size_t k=rd1(m,b,t,&e); if(e){ m->err=1; m_errno=e; } else if(k<t) m->eof=1; return k/s; }
size_t m_fwrite(const void*b,size_t s,size_t n,FILE*f){ mfile*m=ck(f); size_t t=s*n; if(!t) return 0; if(!sx_native()&&!sx_readable(b,t)){ volatile char x; for(size_t i=0;i<t;i++) x=((volatile char*)b)[i]; } int e; size_t k=wr1(m,b,t,&e); if(e){ m->err=1; m_errno=e; } return k/s; }
int m_fseek(FILE*f,long o,int w){ mfile*m=ck(f); m->eof=0; if(m->std) return bad(ESPIPE); long base=w==SEEK_SET?0:w==SEEK_CUR?(long)m->pos:(long)m->nd->size; if(base+o<0) return bad(EINVAL); m->pos=base+o; return 0; }
long m_ftell(FILE*f){ mfile*m=ck(f); return m->std?-1:(long)m->pos; }
void m_rewind(FILE*f){ m_fseek(f,0,SEEK_SET); }
int m_fgetc(FILE*f){ unsigned char c; return m_fread(&c,1,1,f)==1?c:EOF; } int m_getc(FILE*f){ return m_fgetc(f); }
char *m_fgets(char*b,int n,FILE*f){ int i=0; while(i<n-1){ int c=m_fgetc(f); if(c==EOF) break; b[i++]=c; if(c=='\n') break; } if(i==0) return 0; b[i]=0; return b; }
int m_fputc(int c,FILE*f){ unsigned char x=c; return m_fwrite(&x,1,1,f)==1?x:EOF; } int m_putc(int c,FILE*f){ return m_fputc(c,f); } int m_putchar(int c){ return m_fputc(c,m_stdout); }
int m_fputs(const char*s,FILE*f){ m_fwrite(s,1,strlen(s),f); return 1; }
int m_puts(const char*s){ m_fputs(s,m_stdout); return m_fputc('\n',m_stdout); }
// getline as glibc: buffer of at least 120 bytes, doubled as needed; *n is the capacity
ssize_t m_getline(char**lp,size_t*n,FILE*f){ size_t k=0; mfile*m=ck(f); if(!*lp||*n==0){ *n=120; *lp=realloc(*lp,*n); if(m_getline_extra) memset(*lp,m_getline_extra,*n); }
  for(;;){ unsigned char c; int e; size_t r=rd1(m,&c,1,&e); if(e){ m->err=1; m_errno=e; return -1; } if(!r){ m->eof=1; break; } if(k+2>*n){ *n*=2; *lp=realloc(*lp,*n); } (*lp)[k++]=c; if(c=='\n') break; }
  if(k==0) return -1; (*lp)[k]=0; return k; }
ssize_t m_getdelim(char**lp,size_t*n,int d,FILE*f){ if(d!='\n') sx_giveup("getdelim delimiter"); return m_getline(lp,n,f); } ssize_t m___getdelim(char**lp,size_t*n,int d,FILE*f){ return m_getdelim(lp,n,d,f); }
int vsnprintf(char*,size_t,const char*,va_list);
static int vout(FILE*f,const char*fm,va_list a){ char b[6000]; int n=vsnprintf(b,sizeof b,fm,a); if(n>=(int)sizeof b) n=sizeof b-1; m_fwrite(b,1,n,f); return n; }
int m_fprintf(FILE*f,const char*fm,...){ va_list a; va_start(a,fm); int r=vout(f,fm,a); va_end(a); return r; }
int m_vfprintf(FILE*f,const char*fm,va_list a){ return vout(f,fm,a); }
int m_printf(const char*fm,...){ va_list a; va_start(a,fm); int r=vout(m_stdout,fm,a); va_end(a); return r; }
int m_vprintf(const char*fm,va_list a){ return vout(m_stdout,fm,a); }
int m_dprintf(int fd,const char*fm,...){ char b[6000]; va_list a; va_start(a,fm); int n=vsnprintf(b,sizeof b,fm,a); va_end(a); return m_write(fd,b,n); }
void m_perror(const char*s){ m_fprintf(m_stderr,"%s: error %d\n",s,m_errno); }
char *m_strerror(int e){ static char b[32]; b[0]='E'; b[1]='0'+(e/100)%10; b[2]='0'+(e/10)%10; b[3]='0'+e%10; b[4]=0; return b; }
// files
static void fillstat(mnode*m,struct stat*s){ memset(s,0,sizeof *s); s->st_mode= m->type==MT_DIR?S_IFDIR|0755:m->type==MT_LINK?S_IFLNK|0777:S_IFREG|m->mode; s->st_size= m->type==MT_LINK?(off_t)strlen(m->target):(off_t)m->size; s->st_nlink=1; s->st_ino=m-mfs+1; }
int m_stat(const char*p,struct stat*s){ char n[1200]; mnode*m=follow(p,n); if(!m) return bad(ENOENT); fillstat(m,s); return 0; }
int m_lstat(const char*p,struct stat*s){ mnode*m=mfs_find(p); if(!m) return bad(ENOENT); fillstat(m,s); return 0; }
int m_fstat(int fd,struct stat*s){ mfile*f=getfd(fd); if(!f) return bad(EBADF); if(f->std){ memset(s,0,sizeof *s); s->st_mode=S_IFCHR; return 0; } fillstat(f->nd,s); return 0; }
int m_access(const char*p,int md){ char n[1200]; mnode*m=follow(p,n); return m?0:bad(ENOENT); }
ssize_t m_readlink(const char*p,char*b,size_t n){ mnode*m=mfs_find(p); if(!m) return bad(ENOENT); if(m->type!=MT_LINK) return bad(EINVAL); size_t k=strlen(m->target); if(k>n) k=n; memcpy(b,m->target,k); return k; }
int m_mkdir(const char*p,mode_t md){ char n[1200]; if(mfs_hook){ int e=mfs_hook("mkdir",p); if(e) return bad(e); } mfs_norm(p,n); if(rawfind(n)) return bad(EEXIST); if(!parentok(n)) return bad(ENOENT); mfs_add(n,MT_DIR,0,0); return 0; }
int m_unlink(const char*p){ if(mfs_hook){ int e=mfs_hook("unlink",p); if(e) return bad(e); } mnode*m=mfs_find(p); if(!m) return bad(ENOENT); if(m->type==MT_DIR) return bad(EISDIR); m->type=MT_FREE; return 0; }
int m_rmdir(const char*p){ mnode*m=mfs_find(p); if(!m) return bad(ENOENT); m->type=MT_FREE; return 0; }
int m_remove(const char*p){ return m_unlink(p); }
int m_rename(const char*a,const char*b){ char n[1200]; if(mfs_hook){ int e=mfs_hook("rename",b); if(e) return bad(e); } mnode*m=mfs_find(a); if(!m) return bad(ENOENT); mfs_norm(b,n); mnode*t=rawfind(n); if(t) { if(t->type==MT_DIR&&m->type==MT_DIR){ size_t l=strlen(n); for(int i=0;i<MFS_MAX;i++) if(mfs[i].type!=MT_FREE&&!strncmp(mfs[i].path,n,l)&&mfs[i].path[l]=='/') return bad(ENOTEMPTY); } t->type=MT_FREE; }
  if(m->type==MT_DIR){ size_t l=strlen(m->path); for(int i=0;i<MFS_MAX;i++) if(mfs[i].type!=MT_FREE&&&mfs[i]!=m&&!strncmp(mfs[i].path,m->path,l)&&mfs[i].path[l]=='/'){ char t2[1200]; if(strlen(n)+strlen(mfs[i].path+l)>=1200) sx_giveup("path too long for the model"); strcpy(t2,n); strcat(t2,mfs[i].path+l); strcpy(mfs[i].path,t2); } } strcpy(m->path,n); return 0; }
int m_chmod(const char*p,mode_t md){ mnode*m=mfs_find_follow(p); if(!m) return bad(ENOENT); m->mode=md&07777; return 0; } int m_fchmod(int fd,mode_t md){ mfile*f=getfd(fd); if(f&&!f->std) f->nd->mode=md&07777; return 0; }
int m_ftruncate(int fd,off_t n){ mfile*f=getfd(fd); if(!f||f->std) return bad(EBADF); if((size_t)n<f->nd->size) f->nd->size=n; return 0; }
char *m_getcwd(char*b,size_t n){ size_t l=strlen(mfs_cwd); if(l+1>n){ m_errno=ERANGE; return 0; } memcpy(b,mfs_cwd,l+1); return b; }
int m_chdir(const char*p){ char n[1200]; mfs_norm(p,n); strcpy(mfs_cwd,n); return 0; }
char *m_realpath(const char*p,char*out){ char n[1200]; mnode*m=follow(p,n); if(!m){ m_errno=ENOENT; return 0; } if(!out) out=malloc(4096); strcpy(out,n); return out; }
static struct dirent *mkde(const char*nm,int type){ struct dirent*d=malloc(sizeof *d); memset(d,0,sizeof *d); strcpy(d->d_name,nm); d->d_type= type==MT_DIR?DT_DIR:type==MT_LINK?DT_LNK:DT_REG; return d; }
int m_alphasort(const struct dirent**a,const struct dirent**b){ return strcmp((*a)->d_name,(*b)->d_name); }
int m_scandir(const char*p,struct dirent***out,int(*sel)(const struct dirent*),int(*cmp)(const struct dirent**,const struct dirent**)){
  char n[1200]; mnode*m=follow(p,n); if(!m||m->type!=MT_DIR) return bad(ENOENT); struct dirent**v=malloc(sizeof(*v)*(MFS_MAX+2)); int k=0; struct dirent*d;
  for(int q=0;q<2;q++){ d=mkde(q?"..":".",MT_DIR); if(!sel||sel(d)) v[k++]=d; }
  size_t l=strlen(n); if(l==1) l=0; for(int i=0;i<MFS_MAX;i++) if(mfs[i].type!=MT_FREE&&!strncmp(mfs[i].path,n,l)&&mfs[i].path[l]=='/'&&mfs[i].path[l+1]&&!strchr(mfs[i].path+l+1,'/')){ d=mkde(mfs[i].path+l+1,mfs[i].type); if(!sel||sel(d)) v[k++]=d; }
  for(int i=1;i<k;i++) for(int j=i;j>0&&cmp&&cmp((const struct dirent**)&v[j-1],(const struct dirent**)&v[j])>0;j--){ struct dirent*t=v[j]; v[j]=v[j-1]; v[j-1]=t; }
  *out=v; return k; }
int m_mkstemp(char*t){ static int c; size_t l=strlen(t); t[l-1]='a'+c%26; t[l-2]='a'+(c/26)%26; c++; return doopen(t,O_CREAT|O_EXCL|O_RDWR); }
char *m_mkdtemp(char*t){ static int c; size_t l=strlen(t); t[l-1]='a'+c%26; c++; return m_mkdir(t,0700)?0:t; }
// processes and the rest
pid_t m_fork(void){ m_forked++; if(m_forkres<0) m_errno=EAGAIN; return m_forkres; }
int (*m_wait_hook)(int,int*,int); pid_t m_waitpid(pid_t p,int*st,int o){ m_waited++; if(m_wait_hook) return m_wait_hook(p,st,o); if(m_waitret>=0){ if(st) *st=m_waitstatus; } else m_errno=EINTR; return m_waitret; }
pid_t m_getpid(void){ return 4001; }
void m_exit(int c){ if(m_exit_hook) m_exit_hook(c); sx_end(); } void m__exit(int c){ m_exit(c); }
char *m_getenv(const char*k){ for(int i=0;i<m_nenv;i++) if(!strcmp(m_envs[i][0],k)) return (char*)m_envs[i][1]; return 0; }
void m_setenv1(const char*k,const char*v){ m_envs[m_nenv][0]=k; m_envs[m_nenv][1]=v; m_nenv++; }
int m_isatty(int fd){ return fd>=0&&fd<3?m_tty[fd]:0; }
long m_sysconf(int n){ return 4096; }
time_t m_time(time_t*t){ if(t) *t=1700000000; return 1700000000; }
struct tm; static struct { int a[9]; long o; const char*z; } m_tm={ {20,13,22,14,10,123,2,317,0} }; struct tm *m_localtime(const time_t*t){ return (struct tm*)&m_tm; }
int mprotect(void*,size_t,int); int m_mprotect(void*p,size_t n,int f){ return sx_native()?mprotect(p,n,f):0; }
int m_sem_init(void*s,int a,unsigned b){ return 0; } int m_sem_wait(void*s){ return 0; } int m_sem_post(void*s){ return 0; } int m_sem_destroy(void*s){ return 0; }
int m_sigaction(int a,const void*b,void*c){ return 0; } int m_sigemptyset(void*s){ return 0; } int m_sigaddset(void*s,int x){ return 0; } int m_sigprocmask(int a,const void*b,void*c){ return 0; }
void *m_dlopen(const char*p,int f){ mnode*m=mfs_find_follow(p?p:""); return m&&m->type==MT_FILE?m:0; } int m_dlclose(void*h){ return 0; }
void *(*m_dlsym_hook)(const char*); void *m_dlsym(void*h,const char*n){ return m_dlsym_hook?m_dlsym_hook(n):0; }
int m_usleep(unsigned x){ return 0; }
