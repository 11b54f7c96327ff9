/* Duplicate detection. The checksum is an arbitrary function of the MSGID (collisions included). */
#include "cm.h"
#include "logstub.h"
uint32_t calcstringcrc(char *str);
void adddupeindex(uint32_t offset,uint32_t crc32);

#if MODE==1   /* history of messages against the set of the last DSIZE different ones, across restarts */
static uint32_t crc[4];
uint32_t calcstringcrc(char *str) { return crc[str[0]&3]; }
static struct { char id,area; } seen[OPS]; static unsigned nseen;
static struct MemMessage mm;
void harness(void)
{
   unsigned i,k,from; int want,got;
   for(i=0;i<4;i++) crc[i]=in_u32();
   vh_fixlen(mm.MSGID,1); vh_fixlen(mm.Area,1);
   vh_cpy(config.cfg_DupeFile,"d"); config.cfg_DupeSize=DSIZE;
   CHECK(OpenDupeDB(),"a new database is created");
   for(i=0;i<OPS;i++)
   {
      char id=(char)in_u8(),area=(char)in_u8();
      ASSUME(id && area);
      mm.MSGID[0]=id; mm.MSGID[1]=0; mm.Area[0]=area; mm.Area[1]=0;
      from=nseen>DSIZE?nseen-DSIZE:0; want=0;
      for(k=0;k<nseen;k++) if(k>=from && seen[k].id==id && seen[k].area==area) want=1;
      got=CheckDupe(&mm);
      CHECK(!want || got,"a message seen among the last remembered ones is a duplicate");
      CHECK(want || !got,"a message not seen before is never taken for a duplicate");
      if(!want) { seen[nseen].id=id; seen[nseen].area=area; nseen++; }
      if(want) REACHED("duplicate");
#if REOPEN
      if(i+1==REOPEN)
      {
         CloseDupeDB();
         CHECK(vfs_open_handles()==0,"files closed");
         CHECK(OpenDupeDB(),"the database is readable after it was closed");
      }
#endif
   }
   { char id=(char)in_u8(); mm.MSGID[0]=0; mm.Area[0]=id; ASSUME(id); CHECK(!CheckDupe(&mm),"messages without MSGID are never duplicates"); }
   REACHED("end");
}
#endif

#if MODE==2   /* the checksum is safe for every text and depends on nothing else */
void harness(void)
{
   char a[LEN+1],b[LEN+1]; uint32_t x,y; unsigned i;
   in_str(a,LEN); for(i=0;i<=LEN;i++) b[i]=a[i];
   x=calcstringcrc(a); y=calcstringcrc(b);
   CHECK(x==y,"equal texts have equal checksums");
   REACHED("end");
}
#endif

#if MODE==3   /* ring index: the newest DSIZE entries are kept, in order */
extern uint32_t dupeentrynum,dupeentrymax;
struct dupeentry { uint32_t offset,crc32; };
extern struct dupeentry *dupebuf;
static struct dupeentry ring[DSIZE+1];
void harness(void)
{
   unsigned i,n=in_range(0,OPS); uint32_t o[OPS],c[OPS];
   dupebuf=ring; config.cfg_DupeSize=DSIZE; ring[DSIZE].offset=0x55;
   for(i=0;i<n;i++) { o[i]=in_u32(); c[i]=in_u32(); adddupeindex(o[i],c[i]); }
   CHECK(ring[DSIZE].offset==0x55,"never more than the configured number of entries");
   CHECK(dupeentrymax==(n<DSIZE?n:DSIZE),"as many entries as there are messages, up to the configured number");
   { unsigned w=in_range(0,OPS-1),k,f=0; ASSUME(w<n && w+DSIZE>=n); for(k=0;k<DSIZE;k++) if(k<dupeentrymax && ring[k].offset==o[w] && ring[k].crc32==c[w]) f=1; CHECK(f,"the newest entries are all kept"); REACHED("kept"); }
}
#endif

#if MODE==4   /* a database of N0 messages, N1 more, a restart, N2 more, a restart, then any message */
#define N (N0+N1+N2)

static uint32_t ring_[4][2*DSIZE]; static unsigned nring;
void *osAlloc(uint32_t n) { CHECK(n<=sizeof(ring_[0]),"room"); return ring_[nring++]; }
void osFree(void *p) { }
void AddDupeBuf(char *buf,uint16_t size);
static uint8_t id[N],area[N]; static uint32_t crc[N],other;
/* any function of the MSGID */
uint32_t calcstringcrc(char *str) { uint32_t r=other; unsigned i; for(i=0;i<N;i++) if(id[i]==(uint8_t)str[0]) r=crc[i]; return r; }
static struct MemMessage mm; static uint8_t file[4+10*N0+1]; static char rec[8];
static void mkrec(uint8_t *p,unsigned i) { unsigned k; for(k=0;k<4;k++) p[k]=(uint8_t)(crc[i]>>(8*k)); p[4]=id[i]; p[5]=0; p[6]=area[i]; p[7]=0; }
static void open_(void) { CHECK(OpenDupeDB(),"the database is readable"); }
void harness(void)
{
   unsigned i,k; int want=0;
   vh_fixlen(mm.MSGID,1); vh_fixlen(mm.Area,1);
   vh_cpy(config.cfg_DupeFile,"d"); config.cfg_DupeSize=DSIZE;
   for(i=0;i<N;i++)
   {
      id[i]=in_u8(); area[i]=in_u8(); crc[i]=in_u32(); ASSUME(id[i] && area[i]);
      for(k=0;k<i;k++) { ASSUME(id[i]!=id[k] || area[i]!=area[k]); ASSUME(id[i]!=id[k] || crc[i]==crc[k]); }
   }
   file[0]='C'; file[1]='D'; file[2]='U'; file[3]='2';
   for(i=0;i<N0;i++) { file[4+10*i]=8; file[5+10*i]=0; mkrec(&file[6+10*i],i); }
   vfs_create("d",file,4+10*N0);
   open_();
   for(i=0;i<N1;i++) { mkrec((uint8_t *)rec,N0+i); AddDupeBuf(rec,8); }
#if FAULT
   vfs_safe_close=vfs_slot("d")+1;   /* the database itself was written before */
   { unsigned k=in_range(0,4*DSIZE+8);
#if FAULT==1
   vfs_fail_len=in_bool()?1:1000; vfs_fail_at=k?vfs_op+k:0;
#else
   vfs_crash_at=k?vfs_op+k:0;
#endif
   }
   CloseDupeDB();
   if((vfs_fail_at && vfs_op>=vfs_fail_at) || (vfs_crash_at && vfs_op>=vfs_crash_at)) REACHED("fault"); else REACHED("no fault");
   vfs_fail_at=vfs_crash_at=0;
   CHECK(vfs_find("d")>=0,"the database is never gone");
   open_();
#elif CLOSE
   CloseDupeDB();
   CHECK(vfs_open_handles()==0,"all files are closed"); CHECK(vfs_find("d")>=0 && vfs_find("d.tmp")<0,"the database is in place");
   CHECK(vfs_f[vfs_find("d")].size==4+10*(N1?(N0+N1<DSIZE?N0+N1:DSIZE):N0),"the database does not grow beyond the configured number of messages");
   open_();
#endif
#if N2
   for(i=0;i<N2;i++) { mkrec((uint8_t *)rec,N0+N1+i); AddDupeBuf(rec,8); }
   if(in_bool()) { CloseDupeDB(); open_(); }
#endif
   mm.MSGID[0]=(char)in_u8(); mm.Area[0]=(char)in_u8(); ASSUME(mm.MSGID[0] && mm.Area[0]); other=in_u32();
   for(i=0;i<(FAULT?N0:N);i++) if(i+DSIZE>=N && id[i]==(uint8_t)mm.MSGID[0] && area[i]==(uint8_t)mm.Area[0]) want=1;
   { int got=CheckDupe(&mm);
   CHECK(!want || got,"the last messages are remembered, also after a restart");
#if FAULT
   { int any=0; for(i=0;i<N;i++) if(id[i]==(uint8_t)mm.MSGID[0] && area[i]==(uint8_t)mm.Area[0]) any=1; CHECK(any || !got,"a message not seen before is never taken for a duplicate"); }
#else
   CHECK(want || !got,"only the last messages are remembered");
#endif
   }
   if(want) REACHED("duplicate"); else REACHED("new");
}
#endif
