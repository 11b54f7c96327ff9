/* In-memory file system behind crashmail's stdio calls, with fault and crash points. */
#ifndef VFS_H
#define VFS_H
#include <stdint.h>
#ifndef VF_N
#define VF_N 6       /* files */
#endif
#ifndef VF_SZ
#define VF_SZ 256    /* bytes per file */
#endif
#ifndef VF_NAME
#define VF_NAME 48
#endif
#ifndef VF_H
#define VF_H (2*VF_N) /* open handles */
#endif
struct vfile { int used; unsigned size; uint8_t data[VF_SZ]; unsigned date; };
extern struct vfile vfs_f[VF_N];
/* every operation that changes the disk is numbered 1,2,3...; */
extern unsigned vfs_op;         /* operations so far */
extern unsigned vfs_crash_at;   /* 0=never: from this operation on nothing reaches the disk (process died) */
extern unsigned vfs_fail_at;    /* 0=never: this operation and the vfs_fail_len-1 following fail */
extern unsigned vfs_fail_len;
extern int vfs_overflow;        /* the model ran out of room: harness bounds too small */
extern unsigned vfs_rop,vfs_rfail_at;      /* opens for reading */
extern unsigned vfs_lock_fail;  /* lock requests that fail before one succeeds */
extern int vfs_system_rc;       /* exit code of external commands */
extern int vfs_safe_close;      /* slot+1 of a file whose buffered data always reaches the disk */
int  vfs_find(const char *name);                  /* index or -1 */
int  vfs_create(const char *name,const void *data,unsigned size); /* index */
int  vfs_slot(const char *name);                  /* slot of a name, existing or not */
int  vfs_open_handles(void);
int  vfs_locked(const char *name);
void vfs_system_hook(const char *cmd);            /* harness may define VFS_SYSTEM_HOOK */
#endif
