/* Reading packets: which messages are handed on, from whom, and what happens to bad packets. */
#include "cm.h"
#include "logstub.h"
#include "shared/fidonet.h"
uint32_t ReadNull(char *buf,uint32_t maxlen,osFile fh);
uint32_t ReadCR(char *buf,uint32_t maxlen,osFile fh);
extern bool messageend,shortread,longread;

/* the packet file */
static uint8_t F[FSIZE]; static unsigned flen,fpos; static int opened,closed;
static struct osFileEntry fe; static char fhdummy;
static int openfail;
osFile osOpen(char *n,uint32_t mode) { CHECK(mode==MODE_OLDFILE,"packets are only read"); if(openfail) return 0; opened++; return (osFile)&fhdummy; }
bool osClose(osFile f) { closed++; return(TRUE); }
int osGetChar(osFile f) { if(fpos>=flen) return -1; return F[fpos++]; }
uint32_t osRead(osFile f,void *b,uint32_t n) { unsigned i; for(i=0;i<n && fpos<flen;i++) ((uint8_t *)b)[i]=F[fpos++]; return i; }
off_t osFTell(osFile f) { return (off_t)fpos; }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return ""; }
static unsigned bad; static int removed;
void BadFile(char *f,char *c) { bad++; CHECK(closed==opened,"the packet is closed before it is set aside"); }
int osExecute(char *c) { return 0; }
static struct MemMessage themm; static unsigned freed;
struct MemMessage *mmAlloc(void) { return &themm; }
void mmFree(struct MemMessage *m) { freed++; }
void mmClear(struct MemMessage *mm) { mm->Area[0]=0; mm->Flags=0; mm->Type=0; mm->MSGID[0]=0; mm->OrigNode.Zone=mm->OrigNode.Point=0; mm->DestNode.Zone=mm->DestNode.Point=0; }
static char text[FSIZE+2]; static unsigned tl,added;
bool mmAddLine(struct MemMessage *m,char *b) { unsigned i; for(i=0;b[i];i++) { if(tl<FSIZE) text[tl++]=b[i]; } added++; return(TRUE); }
static unsigned w(unsigned o) { return F[o]|((unsigned)F[o+1]<<8); }

#if MODE==1   /* header: addresses, password, destination check */
static struct Aka aka0,aka1; static struct ConfigNode cn0,cn1; static unsigned handled; static struct Node4D po,pd,mo,md; static unsigned attr,cost,mflags; static char area0;
static bool hf(struct MemMessage *m) { handled++; po=m->PktOrig; pd=m->PktDest; mo=m->OrigNode; md=m->DestNode; attr=m->Attr; cost=m->Cost; mflags=m->Flags; area0=m->Area[0]; return(TRUE); }
static int eq(struct Node4D *a,struct Node4D *b) { return (a->Zone==b->Zone || !a->Zone || !b->Zone) && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static void addr(struct Node4D *n) { n->Zone=in_u16(); n->Net=in_u16(); n->Node=in_u16(); n->Point=in_u16(); ASSUME(n->Zone); }
static int pweq(const uint8_t *h,const char *p)
{
   unsigned i; for(i=0;i<8 && h[i];i++) if(vh_lower((char)h[i])!=vh_lower(p[i])) return 0;
   return p[i]==0;
}
void harness(void)
{
   unsigned i; struct Node4D o,d; int c; uint32_t cf; static const char body[]=BODY;
   for(i=0;i<58;i++) F[i]=in_u8();
   for(i=0;i<14;i++) F[58+i]=in_u8();
   F[58]=2; F[59]=0;
   for(i=0;i<sizeof(body);i++) F[72+i]=(uint8_t)body[i];      /* ends with a zero: end of text */
   F[72+i]=0; F[73+i]=0; flen=74+i;
   addr(&aka0.Node); addr(&cn0.Node); in_str(cn0.PacketPW,3); cn0.Flags=in_u16(); addr(&aka1.Node); addr(&cn1.Node); in_str(cn1.PacketPW,3); cn1.Flags=in_u16();
   ASSUME(!eq(&cn0.Node,&cn1.Node));
   aka0.Next=&aka1; config.AkaList.First=(struct jbNode *)&aka0; config.AkaList.Last=(struct jbNode *)&aka1;
   cn0.Next=&cn1; config.CNodeList.First=(struct jbNode *)&cn0; config.CNodeList.Last=(struct jbNode *)&cn1;
   cf=config.cfg_Flags=in_u32(); config.cfg_DefaultZone=in_u16(); ASSUME(config.cfg_DefaultZone); no_security=in_bool(); openfail=in_bool();
   CHECK(ReadPkt("p",&fe,FALSE,hf),"no error");
   if(openfail) { CHECK(handled==0,"nothing is read from a packet that cannot be opened"); CHECK(bad==1,"a packet that cannot be opened is set aside, never deleted unread"); return; }
   CHECK(opened==closed,"packet closed"); CHECK(handled+bad==1,"the packet is either read or set aside");
   if(w(18)!=2) { CHECK(bad==1,"packets of another type are set aside"); return; }
   if(w(16)==2) { o.Zone=w(34); o.Net=w(20); o.Node=w(0); o.Point=w(4); d.Zone=w(36); d.Net=w(22); d.Node=w(2); d.Point=w(6); }
   else
   {
      o.Zone=w(46)?w(46):w(34); d.Zone=w(46)?w(48):o.Zone?w(36):0; o.Net=w(20); o.Node=w(0); o.Point=0; d.Net=w(22); d.Node=w(2); d.Point=0;
      if(F[40]==F[45] && F[41]==F[44]) { if(w(50) && o.Net==0xffff) o.Net=w(38); o.Point=w(50); d.Point=w(52); }
   }
   if((cf&CFG_CHECKPKTDEST) && !no_security && !eq(&d,&aka0.Node) && !eq(&d,&aka1.Node)) { CHECK(bad==1,"packets for other systems are set aside if so configured"); REACHED("not to me"); return; }
   if(!o.Zone) o.Zone=eq(&o,&cn0.Node)?cn0.Node.Zone:eq(&o,&cn1.Node)?cn1.Node.Zone:config.cfg_DefaultZone;
   if(!d.Zone) d.Zone=eq(&d,&aka0.Node)?aka0.Node.Zone:eq(&d,&aka1.Node)?aka1.Node.Zone:config.cfg_DefaultZone;
#define CNC (c?&cn1:&cn0)
   c=eq(&o,&cn0.Node)?0:eq(&o,&cn1.Node)?1:-1;
   if(c>=0 && CNC->PacketPW[0] && !no_security && (ECHO || !(CNC->Flags&NODE_NONETMAILPASSWORD)) && !pweq(&F[26],CNC->PacketPW))
   {
      CHECK(handled==0 && bad==1,"no mail is accepted from a node without its packet password"); REACHED("wrong password"); return;
   }
   CHECK(handled==1,"all other packets are read");
   CHECK(po.Zone==o.Zone && po.Net==o.Net && po.Node==o.Node && po.Point==o.Point,"the sender of the packet is the one in its header");
   CHECK(pd.Zone==d.Zone && pd.Net==d.Net && pd.Node==d.Node && pd.Point==d.Point,"the destination of the packet is the one in its header");
   CHECK(mo.Net==w(64) && mo.Node==w(60) && md.Net==w(66) && md.Node==w(62) && attr==w(68) && cost==w(70),"addresses and attributes of the message are those in its header");
   CHECK((!md.Zone || md.Zone==d.Zone) && (!mo.Zone || mo.Zone==o.Zone),"the zones of a message are those of the packet");
   CHECK((mflags&MMFLAG_TOSSED) && !(mflags&MMFLAG_NOSECURITY)==!no_security,"the message is marked as tossed, and as insecure only if so");
   CHECK(!area0==!ECHO,"echomail is told from netmail");
   REACHED("accepted");
}
#endif

#if MODE==2   /* structure: a packet of LEN bytes, cut anywhere, one byte (at P) arbitrary */
static unsigned handled,at[3]; static int hfail,intr,addfail; static char got[3][4][80]; static unsigned tlen[3];
static bool hf(struct MemMessage *m)
{
   if(handled<3) { at[handled]=fpos; tlen[handled]=tl; vh_cpy(got[handled][0],m->DateTime); vh_cpy(got[handled][1],m->To); vh_cpy(got[handled][2],m->From); vh_cpy(got[handled][3],m->Subject); }
   handled++; if(intr) ctrlc=TRUE;
   return !hfail;
}
static const unsigned room[4]={20,36,36,72};
void harness(void)
{
   unsigned i,p,s,n,str[4],txt,tend=0,tx=0; bool r; int ok=1,lng;
   static const uint8_t hdr[58]={1,0,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,0,10,0,10,0,0,0,0,0,0,0,0,0,0,0,2,0,2,0,0,0,0,1,0,0,1,0,2,0,2,0};
   static const char body[]=BODY;
   for(i=0;i<58;i++) F[i]=hdr[i];
   for(i=0;i<sizeof(body)-1;i++) F[58+i]=(uint8_t)body[i];
#if P>=0
   F[P]=in_u8();
#endif
   flen=LEN; hfail=in_bool(); intr=in_bool();
   r=ReadPkt("p",&fe,FALSE,hf);
   REACHED("returned");
   CHECK(opened==1 && closed==1,"packet closed"); CHECK(bad<=1,"set aside at most once");
   if(flen<58) { CHECK(r && bad==1 && !handled,"a packet without a complete header is set aside"); return; }
   p=58;
   for(n=0;n<3;n++)
   {
      if(n && intr && flen-p>=2) { CHECK(handled==n,"no message after an interrupt"); CHECK(!bad,"a packet whose reading was interrupted is not taken for a bad one"); if(!(flen-p>=2 && !F[p] && !F[p+1])) CHECK(!r,"and kept as it is"); return; }
      if(flen-p<2) { CHECK(handled==n && (r || intr),"only complete messages are handed on"); if(n && flen-p==1 && !F[p]) CHECK(!bad,"an end mark of one byte is accepted"); else CHECK(bad==1,"a packet that ends without an end mark is set aside"); return; }
      if(!F[p] && !F[p+1]) { CHECK(r && !bad && handled==n,"a packet with an end mark is completely read"); return; }
      if(w(p)!=2) { CHECK(r && bad==1 && handled==n,"a packet with unknown message types is set aside"); return; }
      p+=14; lng=0;
      if(p>flen) { CHECK(r && bad==1 && handled==n,"a packet that ends within a message header is set aside"); return; }
      for(s=0;s<4 && ok;s++) { str[s]=p; for(i=0;i<LEN-58;i++) { if(p>=flen) { ok=0; break; } if(!F[p]) break; p++; if(i+1>=room[s]) lng=1; } if(ok) p++; }
      if(!ok || lng) { CHECK(r && bad==1 && handled==n,"a packet that ends within a message header, or whose header strings are too long, is set aside"); return; }
      txt=p;
      for(i=0;i<LEN-58;i++) { if(p>=flen) { ok=0; break; } if(!F[p]) { tend=p; break; } p++; }
      if(!ok) { CHECK(r && bad==1 && handled==n,"a packet that ends within a text is set aside, its message is not handed on"); return; }
      CHECK(handled>=n+1,"every complete message is handed on");
      CHECK(at[n]==tend+1,"and nothing behind its end was read");
      for(s=0;s<4;s++) for(i=0;i<LEN-58;i++) { CHECK((uint8_t)got[n][s][i]==F[str[s]+i],"its header strings are those of the packet"); if(!F[str[s]+i]) break; }
      if(F[txt]!='A' || F[txt+1]!='R')
      {
         CHECK(tlen[n]==tx+tend-txt,"its text is as long as in the packet");
         for(i=0;i<tend-txt;i++) CHECK((uint8_t)text[tx+i]==F[txt+i],"its text is that of the packet");
         tx+=tend-txt;
      }
      p=tend+1;
      if(hfail) { CHECK(!r && !bad && handled==n+1,"when a message cannot be processed the packet is kept as it is"); return; }
   }
   CHECK(0,"bounds of this harness");
}
#endif

#if MODE==3   /* reading strings and lines: never more than there is room for, nothing lost */
void harness(void)
{
   char b[MAX+1]; unsigned i,n,m=MAX; uint32_t r;
   for(i=0;i<FSIZE;i++) F[i]=in_u8();
   flen=in_range(0,FSIZE); b[MAX]=0x55; 
#if CR
   r=ReadCR(b,m,0);
   for(n=0;n<m-2 && n<flen && F[n] && F[n]!=10 && F[n]!=13;n++);
   CHECK(b[MAX]==0x55,"never more than the room given");
   { unsigned k=in_range(0,MAX-1); if(k<n) CHECK((uint8_t)b[k]==F[k],"the line is that of the file"); }
   if(n<m-2 && n<flen && F[n]) { CHECK(r==n+1 && (uint8_t)b[n]==F[n] && !b[n+1] && fpos==n+1 && !messageend && !shortread,"a line includes its end"); REACHED("line"); }
   else if(n<m-2 && n<flen) { CHECK(r==n && !b[n] && fpos==n+1 && messageend && !shortread,"a zero ends the text"); REACHED("end of text"); }
   else if(n<m-2) CHECK(r==n && !b[n] && shortread && !messageend,"the end of the file is noticed");
   else CHECK(r==n && !b[n] && fpos==n && !messageend,"a long line is continued where it was cut");
#else
   r=ReadNull(b,m,0);
   for(n=0;n<m-1 && n<flen && F[n];n++);
   CHECK(b[MAX]==0x55,"never more than the room given");
   { unsigned k=in_range(0,MAX-1); if(k<n) CHECK((uint8_t)b[k]==F[k],"the string is that of the file"); }
   CHECK(r==n && !b[n],"the string is terminated");
   CHECK(!shortread==(n<flen && (n<m-1 || flen>n)),"the end of the file is noticed");
   CHECK(!longread==(n<m-1 || (n<flen && !F[n])),"a string that does not fit is noticed");
   REACHED("string");
#endif
}
#endif
