#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "crashmail/crashmail.h"
#include "h.h"
#include "vfs.h"

struct vhandle { int used; int f; unsigned pos; int rd,wr,app; int eof,err; int dead,dirty; unsigned keep; };
struct vfile vfs_f[VF_N];
static char vfs_name[VF_N][VF_NAME];
static struct vhandle vfs_h[VF_H];
unsigned vfs_op,vfs_crash_at,vfs_fail_at,vfs_fail_len=1,vfs_rop,vfs_rfail_at,vfs_lock_fail;
int vfs_overflow,vfs_system_rc,vfs_safe_close;
static int vfs_lock_held=-1;

static void overflow(void)
{
   vfs_overflow=1;
#ifdef VH_CBMC
   __CPROVER_assert(0,"M: file model bounds exceeded");
   __CPROVER_assume(0);
#else
   printf("VH-MODEL file model bounds exceeded\n"); fflush(stdout); _Exit(4);
#endif
}
static int xeq(const char *a,const char *b)
{
   unsigned i=0;
   while(i<VF_NAME-1 && a[i] && a[i]==b[i]) i++;
   return a[i]==b[i];
}
/* every name has its own slot for ever, so that slots stay constants during
 * symbolic execution even when the existence of a file is symbolic */
static unsigned vfs_names;
static int slot(const char *name)
{
   unsigned i,k;
   for(i=0;i<vfs_names;i++) if(xeq(vfs_name[i],name)) return (int)i;
   if(vfs_names>=VF_N) overflow();
   i=vfs_names++;
   for(k=0;k<VF_NAME-1 && name[k];k++) vfs_name[i][k]=name[k];
   if(name[k]) overflow();
   vfs_name[i][k]=0; vfs_f[i].used=0; vfs_f[i].size=0;
   return (int)i;
}
int vfs_slot(const char *name) { return slot(name); }
int vfs_find(const char *name)
{
   unsigned i;
   for(i=0;i<vfs_names;i++) if(xeq(vfs_name[i],name)) return vfs_f[i].used?(int)i:-1;
   return -1;
}
int vfs_create(const char *name,const void *data,unsigned size)
{
   int i=slot(name); unsigned k;
   vfs_f[i].used=1;
   for(k=0;k<size;k++) vfs_f[i].data[k]=((const uint8_t *)data)[k];
   vfs_f[i].size=size;
   return i;
}
int vfs_open_handles(void) { int i,n=0; for(i=0;i<VF_H;i++) if(vfs_h[i].used) n++; return n; }
int vfs_locked(const char *name) { return vfs_lock_held>=0 && vfs_lock_held==slot(name); }

/* account for one mutation: 0 = goes ahead, 1 = fails, 2 = process is dead, disk frozen */
static int op(void)
{
   vfs_op++;
   if(vfs_crash_at && vfs_op>=vfs_crash_at) return 2;
   if(vfs_fail_at && vfs_op>=vfs_fail_at && vfs_op-vfs_fail_at<vfs_fail_len) return 1;
   return 0;
}

FILE *vh_fopen(const char *name,const char *mode)
{
   int i,f,w=(mode[0]=='w'),a=(mode[0]=='a'),plus=(mode[1]=='+' || (mode[1] && mode[2]=='+'));
   f=slot(name);
   /* one handle per file for reading, one for writing: neither the choice nor
    * the fields may depend on symbolic state */
   i=f;
   if(VF_H>VF_N && (mode[0]!='r' || plus)) i+=VF_N;
   if(vfs_h[i].used) overflow();
   vfs_h[i].f=f; vfs_h[i].pos=0; vfs_h[i].rd=(mode[0]=='r' || plus); vfs_h[i].dirty=0;
   vfs_h[i].wr=(w || a || plus); vfs_h[i].app=a; vfs_h[i].eof=0; vfs_h[i].err=0; vfs_h[i].dead=0;
   if(mode[0]=='r')
   {
      if(!vfs_f[f].used) return 0;
      if(!plus) { vfs_rop++; if(vfs_rfail_at && vfs_rop==vfs_rfail_at) return 0; }
   }
   if(w || a)
   {
      int o=op();
      if(o==1) return 0;
      if(o==2) vfs_h[i].dead=1;
      else
      {
         if(!vfs_f[f].used) { vfs_f[f].used=1; vfs_f[f].size=0; }
         if(w) vfs_f[f].size=0;
      }
   }
   vfs_h[i].used=1;
   return (FILE *)&vfs_h[i];
}
#define HND struct vhandle *h=(struct vhandle *)fp; CHECK(h->used,"file handle used after it was closed")
int vh_fclose(FILE *fp)
{
   HND;
   h->used=0;
   if(vfs_lock_held==h->f) vfs_lock_held=-1;
#ifdef VFS_BUFFERED   /* data reaches the disk when the file is closed */
   if(h->dirty && h->f+1!=vfs_safe_close && op()==1) { if(vfs_f[h->f].size>h->keep) vfs_f[h->f].size=h->keep; return EOF; }
#endif
   return 0;
}
#ifdef VH_CBMC
#define __CPROVER_OBJECT_SIZE_(p) __CPROVER_OBJECT_SIZE(p)
#else
#define __CPROVER_OBJECT_SIZE_(p) 0
#endif
static int put(struct vhandle *h,const uint8_t *p,unsigned n)
{
   int o; unsigned k;
   if(!h->wr) { h->err=1; return 0; }
   if(n==0) return 1;
   o=op();
   if(h->app) h->pos=vfs_f[h->f].size;
   /* the position moves on even if the write fails (POSIX leaves it open), so that it stays a constant */
   if(o==1) { h->err=1; h->pos+=n; return 0; }
   if(o==2 || h->dead) { h->pos+=n; return 1; }
   h->dirty=1; h->keep=h->pos;
   if(h->pos+n>VF_SZ) overflow();
   if(vfs_f[h->f].size<h->pos)
   {
      for(k=0;k<h->pos;k++) if(k>=vfs_f[h->f].size) vfs_f[h->f].data[k]=0;
      vfs_f[h->f].size=h->pos;
   }
   if(n==2 && __CPROVER_OBJECT_SIZE_(p)==2) { uint16_t v=*(const uint16_t *)p; vfs_f[h->f].data[h->pos]=(uint8_t)v; vfs_f[h->f].data[h->pos+1]=(uint8_t)(v>>8); }
   else if(n==4 && __CPROVER_OBJECT_SIZE_(p)==4) { uint32_t v=*(const uint32_t *)p; for(k=0;k<4;k++) vfs_f[h->f].data[h->pos+k]=(uint8_t)(v>>(8*k)); }
   else
   for(k=0;k<n;k++) vfs_f[h->f].data[h->pos+k]=p[k];
   h->pos+=n;
   if(vfs_f[h->f].size<h->pos) vfs_f[h->f].size=h->pos;
   return 1;
}
size_t vh_fwrite(const void *p,size_t sz,size_t n,FILE *fp)
{
   HND;
   if(!put(h,(const uint8_t *)p,(unsigned)(sz*n))) return 0;
   return n;
}
int vh_fputs(const char *s,FILE *fp) { HND; return put(h,(const uint8_t *)s,(unsigned)strlen(s))?1:EOF; }
int vh_fputc(int c,FILE *fp) { uint8_t b=(uint8_t)c; HND; return put(h,&b,1)?c:EOF; }
#ifdef VH_CBMC
int vh_vsnprintf(char *d,size_t cap,const char *f,va_list ap);
#else
#define vh_vsnprintf vsnprintf
#endif
#ifndef VF_LINE
#define VF_LINE 512
#endif
int vh_vfprintf(FILE *fp,const char *f,va_list ap)
{
   char buf[VF_LINE]; int n; HND;
   n=vh_vsnprintf(buf,VF_LINE,f,ap);
   if(n>=VF_LINE) overflow();
   if(n==0) return 0;
   return put(h,(uint8_t *)buf,(unsigned)n)?n:-1;
}
size_t vh_fread(void *p,size_t sz,size_t n,FILE *fp)
{
   unsigned want=(unsigned)(sz*n),k,avail; HND;
   if(!h->rd) { h->err=1; return 0; }
   avail=vfs_f[h->f].size>h->pos?vfs_f[h->f].size-h->pos:0;
   if(want>avail) h->eof=1; else avail=want;
#define D(i) vfs_f[h->f].data[h->pos+(i)]
   if(want==2 && avail==2 && __CPROVER_OBJECT_SIZE_(p)==2) *(uint16_t *)p=(uint16_t)(D(0)|(D(1)<<8));
   else if(want==4 && avail==4 && __CPROVER_OBJECT_SIZE_(p)==4) *(uint32_t *)p=D(0)|((uint32_t)D(1)<<8)|((uint32_t)D(2)<<16)|((uint32_t)D(3)<<24);
   else
   for(k=0;k<want && k<avail;k++) ((uint8_t *)p)[k]=D(k);
   h->pos+=avail;
   return sz==1?avail:avail/sz;
}
int vh_fgetc(FILE *fp)
{
   HND;
   if(!h->rd || h->pos>=vfs_f[h->f].size) { h->eof=1; return EOF; }
   return vfs_f[h->f].data[h->pos++];
}
char *vh_fgets(char *s,int max,FILE *fp)
{
   int n=0; HND;
   if(max<=0) return 0;
   while(n<max-1)
   {
      uint8_t c;
      if(!h->rd || h->pos>=vfs_f[h->f].size) { h->eof=1; break; }
      c=vfs_f[h->f].data[h->pos++];
      s[n++]=(char)c;
      if(c==10) break;
   }
   if(n==0 && max>1) return 0;
   s[n]=0;
   return s;
}
int vh_feof(FILE *fp) { HND; return h->eof; }
int vh_ferror(FILE *fp) { HND; return h->err; }
int vh_fflush(FILE *fp) { return 0; }
int vh_fseeko(FILE *fp,off_t o,int wh)
{
   long b=0; HND;
   if(wh==SEEK_CUR) b=h->pos;
   if(wh==SEEK_END) b=vfs_f[h->f].size;
   if(b+o<0) return -1;
   if(b+o>0x7ffffff0L) return -1;
   h->pos=(unsigned)(b+o);
   h->eof=0;
   return 0;
}
int vh_fseek(FILE *fp,long o,int wh) { return vh_fseeko(fp,o,wh); }
off_t vh_ftello(FILE *fp) { HND; return h->pos; }
long vh_ftell(FILE *fp) { HND; return h->pos; }
void vh_rewind(FILE *fp) { HND; h->pos=0; h->eof=0; }
int vh_fileno(FILE *fp) { return (int)((struct vhandle *)fp-vfs_h); }
#include <fcntl.h>
int vh_fcntl(int fd,int cmd,...)
{
   struct flock *fl; va_list ap;
   va_start(ap,cmd); fl=va_arg(ap,struct flock *); va_end(ap);
   if(fl->l_type==F_UNLCK) { vfs_lock_held=-1; return 0; }
   if(vfs_lock_fail) { vfs_lock_fail--; return -1; }
   vfs_lock_held=vfs_h[fd].f;
   return 0;
}
int vh_rename(const char *a,const char *b)
{
   int f=slot(a),g=slot(b),o;
   if(!vfs_f[f].used) return -1;
   o=op();
   if(o==1) return -1;
   if(o==2) return 0;
   if(g==f) return 0;
   { unsigned k; vfs_f[g].used=1; vfs_f[g].size=vfs_f[f].size; vfs_f[g].date=vfs_f[f].date; for(k=0;k<VF_SZ;k++) vfs_f[g].data[k]=vfs_f[f].data[k]; } /* POSIX: the target is replaced */
   vfs_f[f].used=0;
   return 0;
}
int vh_remove(const char *a)
{
   int f=slot(a),o;
   if(!vfs_f[f].used) return -1;
   o=op();
   if(o==1) return -1;
   if(o==2) return 0;
   vfs_f[f].used=0;
   return 0;
}
int vh_unlink(const char *a) { return vh_remove(a); }
int vh_mkdir(const char *a,int m) { return 0; }
char *vh_getcwd(char *b,size_t n) { b[0]='.'; b[1]=0; return b; }
int vh_chdir(const char *d) { return 0; }
#ifndef VFS_SYSTEM_HOOK
int vh_system(const char *c) { return vfs_system_rc<<8; }
#endif

bool osExists(char *file) { return vfs_f[slot(file)].used; }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return "error"; }
static const char *indir(const char *dir,const char *name)
{
   unsigned k=0;
   while(dir[k] && dir[k]==name[k]) k++;
   if(dir[k]) return 0;
   if(k && dir[k-1]!='/') { if(name[k]!='/') return 0; k++; }
   { unsigned j; for(j=k;name[j];j++) if(name[j]=='/') return 0; }
   return name+k;
}
bool osReadDir(char *dir,struct jbList *l,bool (*accept)(char *))
{
   int i;
   jbNewList(l);
   for(i=0;i<(int)vfs_names;i++) if(vfs_f[i].used)
   {
      const char *p=indir(dir,vfs_name[i]);
      if(p && (!accept || accept((char *)p)))
      {
         struct osFileEntry *e=osAllocCleared(sizeof(struct osFileEntry));
         mystrncpy(e->Name,(char *)p,100); e->Size=vfs_f[i].size; e->Date=vfs_f[i].date;
         jbAddNode(l,(struct jbNode *)e);
      }
   }
   return TRUE;
}
bool osScanDir(char *dir,void (*func)(char *))
{
   int i;
   for(i=0;i<(int)vfs_names;i++) if(vfs_f[i].used)
   {
      const char *p=indir(dir,vfs_name[i]);
      if(p) { char n[VF_NAME]; vh_cpy(n,p); func(n); }
   }
   return TRUE;
}
struct osFileEntry *osGetFileEntry(char *file)
{
   int f=slot(file); struct osFileEntry *e;
   if(!vfs_f[f].used) return 0;
   e=osAllocCleared(sizeof(struct osFileEntry));
   mystrncpy(e->Name,GetFilePart(file),100); e->Size=vfs_f[f].size; e->Date=vfs_f[f].date;
   return e;
}
