// In-memory environment (files, streams, processes) shared by the engine and the native replay.
#ifndef MODEL_ENV_H
#define MODEL_ENV_H
#include "sx.h"
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
// file system
enum { MT_FREE=0, MT_FILE, MT_DIR, MT_LINK };
typedef struct { int type; char path[1200]; unsigned char *data; size_t size, cap; unsigned mode; char target[1200]; int opens, writes; int noperm; } mnode;
#define MFS_MAX 96
extern mnode mfs[MFS_MAX]; extern char mfs_cwd[1024];
mnode *mfs_add(const char *path,int type,const void *data,size_t size);   // absolute path
mnode *mfs_find(const char *path);      // no link following, path resolved against cwd
mnode *mfs_find_follow(const char *path);
void mfs_reset(void);
void mfs_norm(const char*path,char out[1200]);
extern int mfs_autodir;                 // creation does not need the parent directory to exist
extern int (*mfs_hook)(const char *op,const char *path);  // before open-for-write/mkdir/remove: return nonzero to fail it with that errno
extern int (*mfs_wlimit)(mnode*,size_t want);   // how much of a write succeeds (short write); default all
extern int (*mfs_rlimit)(mnode*,size_t want);   // how much of a read succeeds, -1 fails
extern int (*mfs_closehook)(mnode*);      // nonzero: closing a written stream reports an error
// captured output
typedef struct { char *p; size_t n, cap; } mcap; extern mcap m_cap[3]; extern int m_tty[3];
extern int (*m_write_hook)(int fd,const void*b,size_t n);
// processes
extern int m_forkres; extern int m_waitret; extern int m_waitstatus; extern int m_forked, m_waited;
extern void (*m_exit_hook)(int code); extern int (*m_wait_hook)(int pid,int*status,int opts);
extern const char *m_envs[][2]; extern int m_nenv;
void m_setenv1(const char*k,const char*v);
extern unsigned char *m_stdin_data; extern size_t m_stdin_len, m_stdin_pos; extern size_t m_stdin_erroff; extern int m_getline_extra; // bytes at offsets >= erroff fail to read
extern int m_errno;
#endif
