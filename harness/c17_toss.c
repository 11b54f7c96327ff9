/* Incoming files are deleted only after everything made from them is stored. */
#include "cm.h"
#include "logstub.h"
#define NF 2
static char *name[NF]={"aaaaaaaa.pkt","bbbbbbbb.pkt"};
static struct osFileEntry fe[NF],bfe,tfe[2],del[8];
static int exists[NF],moved[NF],nread[NF],ndel[NF],ok[NF];     /* inbound packets */
static int bexists=1,bmoved,bdel; static int texists[2],tread[2],tok[2],tdel[2],unpacked; /* bundle and its packets */
static int closed,archived,archok,nb;
static int outcome[NF+2],movefail,arcres,packerok,rderr;
enum { R_OK,R_FAIL,R_BAD,R_CTRLC };
static int which(const char *p)
{
   if(p[0]!='i' || p[1]!='/') return p[0]=='t' && p[1]=='/' ? (p[2]=='c'?10:p[2]=='d'?11:-1) : -1;
   return p[2]=='a'?0:p[2]=='b'?1:p[2]=='z'?20:-1;
}
bool osReadDir(char *dir,struct jbList *l,bool (*acc)(char *))
{
   l->First=l->Last=0;
   if(rderr && nb++==(unsigned)rderr) return(FALSE);
   if(dir[0]=='t') { CHECK(unpacked,"bundles are unpacked before their packets are read"); jbAddNode(l,(struct jbNode *)&tfe[0]); jbAddNode(l,(struct jbNode *)&tfe[1]); return(TRUE); }
   if(acc==IsPkt) { jbAddNode(l,(struct jbNode *)&fe[0]); if(BUNDLE!=1) jbAddNode(l,(struct jbNode *)&fe[1]); }
   else if(acc==IsArc && BUNDLE) jbAddNode(l,(struct jbNode *)&bfe);
   return(TRUE);
}
bool SortFEList(struct jbList *l) { return(TRUE); }
static int cur; static int allocd[8];
void *osAllocCleared(unsigned n) { CHECK(!allocd[cur],"each file is noted for deletion once"); allocd[cur]=1; return &del[cur]; }
void *osAlloc(unsigned n) { return osAllocCleared(n); }
void osFree(void *p) { }
void jbFreeList(struct jbList *l) { l->First=l->Last=0; }
bool osRename(char *a,char *b)
{
   int w=which(a);
   if(movefail) return(FALSE);
   CHECK(b[0]=='i' && b[1]=='/' && (w<10?w>=0:1) && b[14]=='.' && b[15]=='b' && b[16]=='a' && b[17]=='d',"set aside under a bad name in the inbound directory");
   if(w>=0 && w<10) moved[w]++; else if(w==20) bmoved++; else if(w==10 || w==11) { tok[w-10]=1; texists[w-10]=0; }
   return(TRUE);
}
bool copyfile(char *a,char *b) { return(FALSE); }
bool osExists(char *f) { return(FALSE); }
bool osDelete(char *f)
{
   int w=which(f);
   if(w>=0 && w<10) { ndel[w]++; if(!moved[w]) { CHECK(ok[w],"a packet is only deleted when it has been read"); CHECK(closed && archived && archok && !ioerror && !ctrlc,"and only when everything made from it is stored in the outbound"); exists[w]=0; } }
   else if(w==20) { cur=4; bdel++; if(!bmoved && bfe.Size) { CHECK(unpacked && !arcres && tok[0] && tok[1],"a bundle is only deleted when it has been unpacked and all its packets read"); CHECK(closed && archived && archok && !ioerror && !ctrlc,"and only when everything made from it is stored in the outbound"); } bexists=0; }
   else if(w==10 || w==11) { CHECK(tok[w-10] || (ioerror && (bexists || bmoved)),"unpacked packets are only deleted when they have been read, or their bundle is kept"); tdel[w-10]++; texists[w-10]=0; }
   return(TRUE);
}
bool ReadPkt(char *pkt,struct osFileEntry *f,bool bundled,bool (*hf)(struct MemMessage *mm))
{
   int w=which(pkt),o=outcome[w<10?w:w-10+NF];
   CHECK(w>=0 && w<20,"packets are read from the inbound or temporary directory");
   CHECK(hf==HandleMessage,"packets are tossed");
   if(w<10) cur=w;
   if(w<10) { CHECK(!nread[w],"each packet is read once"); nread[w]++; } else { CHECK(!tread[w-10],"each packet is read once"); tread[w-10]++; }
   if(o==R_FAIL) return(FALSE);
   if(o==R_CTRLC) { ctrlc=TRUE; return(FALSE); }
   if(o==R_BAD) { BadFile(pkt,"bad"); return(TRUE); }
   if(w<10) ok[w]=1; else tok[w-10]=1;
   return(TRUE);
}
void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file) { dest[0]='u'; dest[1]=0; }
static int closeerr;
void ClosePackets(void) { closed++; if(closeerr) ioerror=TRUE; }
bool ArchiveOutbound(void) { CHECK(closed,"packets are closed before they are archived"); archived++; return archok; }
struct Packer packer;
struct Packer *DetectPacker(char *f) { cur=4; return packerok?&packer:NULL; }
int osChDirExecute(char *d,char *c) { if(arcres!=-1) { unpacked=1; texists[0]=texists[1]=1; } return arcres; }
bool WriteStats(char *f) { CHECK(0+1,"stats"); return(TRUE); }
bool UpdateConfig(struct Config *c,char *e) { return(TRUE); }
static int beforeok; static int wasbefore;
bool BeforeScanToss(void) { wasbefore++; return beforeok; }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return ""; }
void harness(void)
{
   unsigned i; bool r; int good;
   for(i=0;i<NF;i++) { exists[i]=1; vh_cpy(fe[i].Name,name[i]); fe[i].Size=100; }
   vh_cpy(bfe.Name,"zzzzzzzz.mo0"); bfe.Size=BSIZE; vh_cpy(tfe[0].Name,"cccccccc.pkt"); vh_cpy(tfe[1].Name,"dddddddd.pkt");
   vh_cpy(config.cfg_Inbound,"i"); vh_cpy(config.cfg_TempDir,"t"); vh_cpy(packer.Unpacker,"u"); 
   for(i=0;i<NF+2;i++) outcome[i]=(int)in_range(0,3);
   movefail=in_bool(); packerok=in_bool(); archok=in_bool(); closeerr=in_bool(); beforeok=in_bool(); rderr=(int)in_range(0,3);
   arcres=(int)in_range(0,2)-1;
   config.changed=in_bool();
#if BUNDLE==2
   r=TossFile("i/zzzzzzzz.mo0");
#elif BUNDLE==3
   r=TossFile("i/aaaaaaaa.pkt");
#else
   r=TossDir("i");
#endif
   if(!beforeok) { CHECK(!r && !nread[0] && !nread[1] && !bdel,"nothing happens if the preparations failed"); return; }
   CHECK(closed==1,"packets are closed once");
   good=!ioerror && !ctrlc && archived && archok;
   for(i=0;i<NF;i++)
   {
      if(good && r && nread[i]) { CHECK(ok[i]?ndel[i]==1:moved[i]==1,"packets that have been processed are deleted or set aside"); }
      if(nread[i] && !ok[i] && !moved[i]) CHECK(exists[i],"a packet that was not processed is still there");
   }
#if BUNDLE<2
   if(r && !rderr) CHECK(nread[0] && (nread[1] || BUNDLE==1),"all packets are processed");
   if(r && BUNDLE && bfe.Size && packerok && !rderr) CHECK(unpacked,"all bundles are processed");
#endif
#if BUNDLE==1 || BUNDLE==2
   if(good && r && bexists) CHECK(bmoved || rderr,"bundles that have been processed are deleted");
   if(good && r && bfe.Size && packerok && !arcres && !rderr) { CHECK(tread[0] && tread[1] && bdel && !texists[0] && !texists[1],"all packets of a bundle are processed");
#if BSIZE
 REACHED("bundle");
#endif
 }
   if(bfe.Size && !packerok) CHECK(bexists || bmoved,"unknown archives are kept");
#endif
   if(good && r) REACHED("good");
}
struct osFileEntry *osGetFileEntry(char *f) { return which(f)==20?&bfe:&fe[0]; }
