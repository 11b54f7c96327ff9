/* Environment shared by all harnesses, CBMC and native alike: process exit,
 * time and sorting. Time is symbolic (see vh_now) unless a harness fixes it. */
#include <stdint.h>
#include <stddef.h>
#include <time.h>
#include <stdlib.h>
#include "h.h"

void vh_exit(int rc) { VH_STOP(); }

/* simple in-place sort with the caller's comparator (qsort's contract) */
void vh_qsort(void *base,size_t n,size_t sz,int (*cmp)(const void *,const void *))
{
   /* elements are pointers everywhere in crashmail except where noted */
   size_t i,j,k;
   char *b=(char *)base;
   if(sz==sizeof(void *))
   {
      void **a=(void **)base;
      for(i=1;i<n;i++)
         for(j=i;j>0;j--)
         {
            if(cmp(&a[j-1],&a[j])<=0) break;
            { void *t=a[j-1]; a[j-1]=a[j]; a[j]=t; }
         }
      return;
   }
   if(sz==sizeof(uint32_t))
   {
      uint32_t *a=(uint32_t *)base;
      for(i=1;i<n;i++)
         for(j=i;j>0;j--)
         {
            if(cmp(&a[j-1],&a[j])<=0) break;
            { uint32_t t=a[j-1]; a[j-1]=a[j]; a[j]=t; }
         }
      return;
   }
   for(i=1;i<n;i++)
      for(j=i;j>0;j--)
      {
         if(cmp(b+(j-1)*sz,b+j*sz)<=0) break;
         for(k=0;k<sz;k++) { char t=b[(j-1)*sz+k]; b[(j-1)*sz+k]=b[j*sz+k]; b[j*sz+k]=t; }
      }
}

unsigned vh_sleep(unsigned s) { return 0; }
int vh_getpid(void) { return 4711; }
char *vh_getenv(const char *n) { return 0; }
void *vh_signal(int s,void *f) { return 0; }

/* ---- time: UTC, current time is whatever the harness put into vh_now ---- */
int64_t vh_now=1000000000;
time_t vh_time(time_t *p) { if(p) *p=(time_t)vh_now; return (time_t)vh_now; }
static struct tm vh_tmbuf;
struct tm *vh_gmtime(const time_t *tp)
{
   int64_t t=*tp,days=t/86400,rem=t%86400,era,y; uint32_t doe,yoe,doy,mp;
   if(rem<0) { rem+=86400; days--; }
   vh_tmbuf.tm_hour=(int)(rem/3600); vh_tmbuf.tm_min=(int)(rem%3600/60); vh_tmbuf.tm_sec=(int)(rem%60);
   vh_tmbuf.tm_wday=(int)((days%7+11)%7);
   days+=719468;
   era=(days>=0?days:days-146096)/146097;
   doe=(uint32_t)(days-era*146097);
   yoe=(doe-doe/1460+doe/36524-doe/146096)/365;
   y=(int64_t)yoe+era*400;
   doy=doe-(365*yoe+yoe/4-yoe/100);
   mp=(5*doy+2)/153;
   vh_tmbuf.tm_mday=(int)(doy-(153*mp+2)/5+1);
   vh_tmbuf.tm_mon=(int)(mp<10?mp+2:mp-10);
   vh_tmbuf.tm_year=(int)(y+(vh_tmbuf.tm_mon<=1)-1900);
   vh_tmbuf.tm_isdst=0; vh_tmbuf.tm_yday=0;
   return &vh_tmbuf;
}
struct tm *vh_localtime(const time_t *tp) { return vh_gmtime(tp); }
time_t vh_mktime(struct tm *t)
{
   int64_t y=(int64_t)t->tm_year+1900+(t->tm_mon/12),m=t->tm_mon%12,era; uint32_t yoe,doy,doe;
   if(m<0) { m+=12; y--; }
   m+=1;
   y-=(m<=2);
   era=(y>=0?y:y-399)/400;
   yoe=(uint32_t)(y-era*400);
   doy=(uint32_t)(153*(m>2?m-3:m+9)+2)/5;
   doe=yoe*365+yoe/4-yoe/100+doy;
   return (time_t)((era*146097+(int64_t)doe-719468+t->tm_mday-1)*86400+t->tm_hour*3600+t->tm_min*60+t->tm_sec);
}

#if !defined(VH_VFS) && !defined(VH_OWN_FILES)
int vh_fflush(void *f) { return 0; }
#endif
