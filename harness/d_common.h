// The tool's own code (main.c, cjit.c, file.c, elflinker.c, cwalk, array) run over a recording stand-in of the
// libtcc interface and the in-memory environment.
#include "model_env.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <cjit.h>
int cjit_main(int argc,char**argv);
enum { E_COMPILE=1, E_ADDFILE, E_OUTFILE, E_DEFINE, E_INC, E_SYSINC, E_LIBPATH, E_OPT, E_OUTTYPE, E_RELOC, E_GETSYM };
typedef struct { int kind; char *a, *b; } ev; static ev evs[80]; static int nev;
static int (*tcc_hook)(int kind,const char*arg); static void *ep_sym; static int out_type, tcc_alive, tcc_deleted;
static char *dup0(const char*s){ return s?strdup(s):0; }
static int rec(int k,const char*a,const char*b){ if(nev>=80) sx_giveup("too many libtcc calls for the recorder"); evs[nev].kind=k; evs[nev].a=dup0(a); evs[nev].b=dup0(b); nev++; return tcc_hook?tcc_hook(k,a):0; }
#ifndef REAL_TCC
static int thestate; static void (*tcc_err)(void*,const char*); static void *tcc_erro;
static void live(void*s){ if(s!=(void*)&thestate||!tcc_alive) sx_fail("libtcc called with a wrong or deleted state"); }
void *tcc_new(void){ tcc_alive=1; return &thestate; }
void tcc_delete(void*s){ live(s); tcc_alive=0; tcc_deleted++; }
void tcc_set_error_func(void*s,void*o,void(*f)(void*,const char*)){ live(s); tcc_err=f; tcc_erro=o; }
int tcc_set_options(void*s,const char*o){ live(s); return rec(E_OPT,o,0); }
int tcc_add_include_path(void*s,const char*p){ live(s); return rec(E_INC,p,0); }
int tcc_add_sysinclude_path(void*s,const char*p){ live(s); return rec(E_SYSINC,p,0); }
int tcc_add_library_path(void*s,const char*p){ live(s); return rec(E_LIBPATH,p,0); }
void tcc_define_symbol(void*s,const char*n,const char*v){ live(s); rec(E_DEFINE,n,v); }
void tcc_add_symbol(void*s,const char*n,const void*v){ live(s); }
int tcc_add_library(void*s,const char*n){ live(s); return 0; }
int tcc_set_output_type(void*s,int t){ live(s); out_type=t; return rec(E_OUTTYPE,0,0); }
int tcc_compile_string(void*s,const char*t){ live(s); return rec(E_COMPILE,t,0); }
int tcc_add_file(void*s,const char*f){ live(s); return rec(E_ADDFILE,f,0); }
int tcc_output_file(void*s,const char*f){ live(s); return rec(E_OUTFILE,f,0); }
int tcc_relocate(void*s){ live(s); return rec(E_RELOC,0,0); }
void *tcc_get_symbol(void*s,const char*n){ live(s); return rec(E_GETSYM,n,0)?0:ep_sym; }
// internals of libtcc used by elflinker.c
void *tcc_malloc(unsigned long n){ return malloc(n); } void tcc_free(void*p){ free(p); } void *tcc_realloc(void*p,unsigned long n){ return realloc(p,n); } char *tcc_strdup(const char*s){ return strdup(s); }
char *pstrcpy(char*b,size_t n,const char*s){ size_t i=0; if(n){ for(;i+1<n&&s[i];i++) b[i]=s[i]; b[i]=0; } return b; }
void dynarray_add(void*pt,int*nb,void*d){ void**p=*(void***)pt; p=realloc(p,(*nb+1)*sizeof *p); p[(*nb)++]=d; *(void***)pt=p; }
void dynarray_reset(void*pt,int*n){ void**p=*(void***)pt; for(int i=0;i<*n;i++) free(p[i]); free(p); *(void***)pt=0; *n=0; }
#endif
#ifndef REAL_ASSETS
static bool assets_ok=true; static int assets_n; const char *libtcc1_a,*include; const unsigned libtcc1_a_len,include_len;
bool extract_assets(CJITState*c,const char*p){ assets_n++; if(!assets_ok) return false; if(c->tmpdir) free(c->tmpdir); c->tmpdir=strdup(p?p:"/tmp/cjit-x"); return true; }
#endif
static int in_child, prog_runs, prog_argc; static char **prog_argv;
static void final(int code); // defined by the harness: everything has ended
static void on_exit0(int code){ final(code&0xff); sx_end(); }
// run main with the given words (argv[0] included)
static void run_words(int n,const char*const*w){ char **v=malloc((n+1)*sizeof *v); for(int i=0;i<n;i++) v[i]=strdup(w[i]); v[n]=0; m_exit_hook=on_exit0; int r=cjit_main(n,v); on_exit0(r); }
static void base_fs(void){ mfs_reset(); mfs_add("/w",MT_DIR,0,0); mfs_add("/tmp",MT_DIR,0,0); mfs_add("/tmp/cjit-x",MT_DIR,0,0); mfs_add("/etc",MT_DIR,0,0); mfs_add("/etc/ld.so.conf.d",MT_DIR,0,0); strcpy(mfs_cwd,"/w"); }
static int count(int k){ int n=0; for(int i=0;i<nev;i++) n+=evs[i].kind==k; return n; }
static ev *nth(int k,int n){ for(int i=0;i<nev;i++) if(evs[i].kind==k&&n--==0) return &evs[i]; return 0; }
static int err_has(const char*s){ mcap*c=&m_cap[2]; size_t l=strlen(s); for(size_t i=0;i+l<=c->n;i++) if(!memcmp(c->p+i,s,l)) return 1; return 0; }
