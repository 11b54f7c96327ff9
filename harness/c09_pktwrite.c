/* Writing packets: what is written is a well-formed packet with exactly the message. */
#include "cm.h"
#include "logstub.h"
struct Pkt;
#if FAULT
#define RF REACHED("failure");
#else
#define RF
#endif
struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type);
#define NF 3
static uint8_t F[NF][FSIZE]; static unsigned flen[NF]; static int nfile,closed[NF],ren[NF]; static char fh[NF];
static unsigned nops,failat; static int failed,openfail;
static int inchoice;
osFile osOpen(char *n,uint32_t mode) { CHECK(mode==MODE_NEWFILE,"packets are created new"); if(openfail) return 0; CHECK(nfile<NF,"room"); return (osFile)&fh[nfile++]; }
static int which(osFile f) { return f==(osFile)&fh[0]?0:f==(osFile)&fh[1]?1:2; }
bool osWrite(osFile f,const void *b,uint32_t n)
{
   unsigned i,k=which(f);
   CHECK(!closed[k],"nothing is written to a finished packet");
   if(++nops==failat) { failed=1; return(FALSE); }
   if(inchoice) { flen[k]+=n; return(TRUE); }
   for(i=0;i<n;i++) { CHECK(flen[0]<FSIZE,"room"); F[0][flen[0]++]=((const uint8_t *)b)[i]; }
   return(TRUE);
}
bool osPutChar(osFile f,char ch) { return osWrite(f,&ch,1); }
bool osPuts(osFile f,char *s) { return osWrite(f,s,vh_len(s)); }
bool osClose(osFile f) { closed[which(f)]++; return(TRUE); }
bool osExists(char *f) { return(FALSE); }
bool osRename(char *a,char *b) { ren[0]++; return(TRUE); }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return ""; }
static struct { char b[128]; } pool[NF]; static unsigned npool; static struct { char b[2048]; } pool2[2]; static unsigned npool2;
void *osAllocCleared(unsigned n) { CHECK(n<=sizeof(pool[0]) && npool<NF,"room"); return &pool[npool++]; }
void *osAlloc(unsigned n) { return malloc(n); }
void osFree(void *p) { }
void jbFreeList(struct jbList *l) { l->First=l->Last=0; }
static unsigned w(unsigned o) { return F[0][o]|((unsigned)F[0][o+1]<<8); }
static void addr(struct Node4D *n) { n->Zone=in_u16(); n->Net=in_u16(); n->Node=in_u16(); n->Point=in_u16(); }
static int same(struct Node4D *a,struct Node4D *b) { return a->Zone==b->Zone && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static int eq(struct Node4D *a,struct Node4D *b) { return (a->Zone==b->Zone || !a->Zone || !b->Zone) && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
static struct MemMessage mm; static struct ConfigNode cn0,cn1; static struct Aka aka;
static void txt(char *p,unsigned n) { unsigned i; for(i=0;i<n;i++) { p[i]=(char)in_u8(); ASSUME(p[i]); } p[n]=0; vh_fixlen(p,n); }
static struct { struct TextChunk *Next; uint32_t Length; } dummy_;
static struct TextChunk ch0,ch1;

/* SEEN-BY lines are checked elsewhere: here only which nodes are to be written */
static struct { uint16_t net,node; } sb[4]; static unsigned nsb; static int sorted,made,own; static struct jbList *sblist;
bool mmSortNodes2D(struct jbList *l) { sorted=1; return(TRUE); }
static char sbtext[]="SEEN-BY: x\r";
char *mmMakeSeenByBuf(struct jbList *l)
{
   struct Nodes2D *t; unsigned c;
   made++; own=(l==&mm.SeenBy);
   CHECK(sorted,"SEEN-BY lines are sorted");
   if(!own) { t=(struct Nodes2D *)l->First; CHECK(t && !t->Next,"one piece"); nsb=t->Nodes; for(c=0;c<4;c++) if(c<nsb) { sb[c].net=t->Net[c]; sb[c].node=t->Node[c]; } }
   return sbtext;
}
static unsigned p;
static void str(const char *s) { unsigned i; for(i=0;s[i];i++) { CHECK((char)F[0][p]==s[i],"the message is written unchanged, in the order of the format"); p++; } }
static void strz(const char *s,unsigned n) { unsigned i; for(i=0;i<n;i++) { CHECK((char)F[0][p]==s[i],"the header strings are written unchanged"); p++; } CHECK(F[0][p]==0,"and terminated"); p++; }
static void bytes(const char *s,unsigned n) { unsigned i; for(i=0;i<n;i++) { CHECK((char)F[0][p]==s[i],"the text is written unchanged"); p++; } }
static void header(struct Node4D *o,struct Node4D *d,const char *pw)
{
   unsigned i; int e=0;
   CHECK(w(0)==o->Node && w(20)==o->Net && w(34)==o->Zone && w(46)==o->Zone && w(50)==o->Point,"the packet header names its sender");
   CHECK(w(2)==d->Node && w(22)==d->Net && w(36)==d->Zone && w(48)==d->Zone && w(52)==d->Point,"the packet header names its destination");
   CHECK(w(18)==2 && w(38)==0 && w(40)==0x0100 && w(44)==0x0001,"the packet header is of type 2+");
   CHECK(w(4)==2001 && w(6)==8 && w(8)==9 && w(10)==1 && w(12)==46 && w(14)==40,"the packet header holds the time");
   for(i=0;i<8;i++) { CHECK(F[0][26+i]==(uint8_t)(e?0:pw[i]),"the packet header holds the password of the destination, and only that"); if(!pw[i]) e=1; }
   CHECK(w(16)==0 && F[0][54]==0 && F[0][55]==0 && F[0][56]==0 && F[0][57]==0,"the rest of the packet header is defined");
   p=58;
}
static void msghdr(struct Node4D *o,struct Node4D *d)
{
   CHECK(w(p)==2,"message type 2");
   CHECK(w(p+2)==o->Node && w(p+6)==o->Net,"the message header names its sender"); CHECK(w(p+4)==d->Node && w(p+8)==d->Net,"the message header names its destination");
   CHECK(w(p+10)==mm.Attr && w(p+12)==mm.Cost,"attributes and cost are written");
   p+=14;
   strz(mm.DateTime,19); strz(mm.To,LT); strz(mm.From,LF); strz(mm.Subject,LS);
}
static void message(void)
{
   addr(&mm.OrigNode); addr(&mm.DestNode); mm.Attr=in_u16(); mm.Cost=in_u16();
   txt(mm.DateTime,19); txt(mm.To,LT); txt(mm.From,LF); txt(mm.Subject,LS);
   in_buf(ch0.Data,L0); ch0.Length=L0; in_buf(ch1.Data,L1); ch1.Length=L1; ch0.Next=&ch1;
   mm.TextChunks.First=(struct jbNode *)&ch0; mm.TextChunks.Last=(struct jbNode *)&ch1;
   vh_cpy(config.cfg_PacketCreate,"o");
}

#if MODE==1   /* echomail */
static struct Path pa;
void harness(void)
{
   struct Node4D o; bool r; unsigned other; int lim;
   message(); addr(&cn0.Node); addr(&cn0.PktFrom); addr(&aka.Node); cn0.Flags=in_u32(); 
   txt(cn0.PacketPW,PW); vh_cpy(mm.Area,"AB.C"); vh_fixlen(mm.Area,4);
   txt(pa.Path[0],4); pa.Path[1][0]=0; txt(pa.Path[2],2); pa.Paths=3; mm.Path.First=mm.Path.Last=(struct jbNode *)&pa;
   o=(cn0.Flags&NODE_PKTFROM)?cn0.PktFrom:aka.Node;
   failat=FAULT?in_range(1,40):0; openfail=FAULT?in_bool():0;
   r=WriteEchoMail(&mm,&cn0,&aka);
   if(openfail || failed) { CHECK(!r || ioerror,"a failure is always noticed"); RF return; }
   CHECK(r && !ioerror && nfile==1,"written");
#if !FAULT
   header(&o,&cn0.Node,cn0.PacketPW);
   msghdr(&o,&cn0.Node);
   str("AREA:AB.C\r");
   bytes(ch0.Data,L0); bytes(ch1.Data,L1);
   other=cn0.Node.Zone!=aka.Node.Zone; lim=other || (cn0.Flags&NODE_TINYSEENBY);
   if(!lim && (cn0.Flags&NODE_NOSEENBY)) { CHECK(!made,"no SEEN-BY lines for nodes that want none"); REACHED("none"); }
   else
   {
      CHECK(made==1,"SEEN-BY lines are written once"); CHECK(own==!lim,"the SEEN-BY list stays within our zone and is shortened for nodes that want that");
      if(lim)
      {
         unsigned k,a=0,b=0,x=0;
         for(k=0;k<4;k++) if(k<nsb) { if(sb[k].net==cn0.Node.Net && sb[k].node==cn0.Node.Node) a++; if(sb[k].net==aka.Node.Net && sb[k].node==aka.Node.Node) b++; if(!((sb[k].net==cn0.Node.Net && sb[k].node==cn0.Node.Node && !cn0.Node.Point) || (sb[k].net==aka.Node.Net && sb[k].node==aka.Node.Node && !aka.Node.Point))) x++; }
         CHECK((cn0.Node.Point || a==1) && (aka.Node.Point || b==1) && !x,"the short SEEN-BY list has the destination and us, no points"); REACHED("short");
      }
      else REACHED("full");
   }
   { unsigned e=made?sizeof(sbtext)-1:0;
   if(made) str("SEEN-BY: x\r");
   /* the two cases have different offsets: compare from the end, which is concrete in neither; so check both */
   CHECK(flen[0]==p+(7+4+1)+(7+2+1)+1,"nothing else is written"); }
   { char want[24]="\1PATH: ____\r\1PATH: __\r"; unsigned i,q=p; for(i=0;i<4;i++) want[7+i]=pa.Path[0][i]; for(i=0;i<2;i++) want[19+i]=pa.Path[2][i]; for(i=0;i<23;i++) CHECK(F[0][q+i]==(uint8_t)want[i],"PATH lines and the end of the message follow"); }
#endif
}
#endif

#if MODE==2   /* netmail */
void harness(void)
{
   struct Node4D o,dest; bool r; int c; uint16_t t;
   message(); addr(&cn0.Node); addr(&cn1.Node); addr(&cn0.PktFrom); addr(&cn1.PktFrom); addr(&aka.Node); addr(&dest); cn0.Flags=in_u32(); cn1.Flags=in_u32();
   txt(cn0.PacketPW,PW); txt(cn1.PacketPW,8-PW); ASSUME(!eq(&cn0.Node,&cn1.Node));
   cn0.Next=&cn1; config.CNodeList.First=(struct jbNode *)&cn0; config.CNodeList.Last=(struct jbNode *)&cn1;
   ASSUME(dest.Zone && cn0.Node.Zone && cn1.Node.Zone);
   t=in_range(PKTS_ECHOMAIL<PKTS_HOLD?PKTS_ECHOMAIL:PKTS_HOLD,PKTS_CRASH); mm.Type=t;
   c=same(&dest,&cn0.Node)?0:same(&dest,&cn1.Node)?1:-1;
   failat=FAULT?in_range(1,12):0; openfail=FAULT?in_bool():0;
   r=WriteNetMail(&mm,&dest,&aka);
   if(openfail || failed) { CHECK(!r || ioerror,"a failure is always noticed"); RF return; }
   CHECK(r && !ioerror && nfile==1,"written");
#if !FAULT
   o=c<0?aka.Node:c==0?((cn0.Flags&NODE_PKTFROM)?cn0.PktFrom:aka.Node):((cn1.Flags&NODE_PKTFROM)?cn1.PktFrom:aka.Node);
   { uint32_t fl=c<0?0:c?cn1.Flags:cn0.Flags; char pw[9]; unsigned i; int e=0; uint16_t want=t;
     if(c>=0 && (fl&NODE_PACKNETMAIL) && t==PKTS_NORMAL) want=PKTS_ECHOMAIL;
     CHECK(mm.Type==want,"netmail is packed with echomail only for nodes that want that, and only when nothing else was asked for");
     for(i=0;i<9;i++) pw[i]=0;
     if(c>=0 && (want==PKTS_ECHOMAIL || !(fl&NODE_NONETMAILPASSWORD))) for(i=0;i<8;i++) { pw[i]=c?cn1.PacketPW[i]:cn0.PacketPW[i]; }
     header(&o,&dest,pw); }
   msghdr(&mm.OrigNode,&mm.DestNode);
   bytes(ch0.Data,L0); bytes(ch1.Data,L1);
   CHECK(F[0][p]==0 && flen[0]==p+1,"the end of the message follows, nothing else");
   REACHED("end"); if(c>=0) REACHED("known node");
#endif
}
#endif

#if MODE==3   /* which packet: one per destination, sender and type, until it is full */
/* finishing is checked in the harnesses of the outbound */
static struct Pkt *pk[2]; static int fin[2],finx;
void FinishPacket(struct Pkt *p) { if(p==pk[0]) fin[0]++; else if(p==pk[1]) fin[1]++; else finx++; }
void harness(void)
{
   struct Node4D d[2],o[2],dest; uint16_t t[2]; unsigned i,n[3],max,f,want; bool r; uint16_t ty;
   message(); inchoice=1; cn0.Flags=in_u32(); cn0.Flags&=~NODE_PKTFROM; addr(&aka.Node); addr(&dest);
   for(i=0;i<2;i++)
   {
      addr(&d[i]); addr(&o[i]); t[i]=in_range(0,5);
      pk[i]=CreatePkt(&d[i],0,&o[i],t[i]); CHECK(pk[i]!=0,"created"); jbAddNode(&PktList,(struct jbNode *)pk[i]);
   }
   for(i=0;i<2;i++) ASSUME(d[i].Zone && o[i].Zone); ASSUME(dest.Zone && aka.Node.Zone);
   ASSUME(!(same(&d[0],&d[1]) && same(&o[0],&o[1]) && t[0]==t[1]));
   max=config.cfg_MaxPktSize=in_range(0,100);
   n[0]=flen[0]; n[1]=flen[1];
#if ECHO
   cn0.Node=dest; ty=PKTS_ECHOMAIL; r=WriteEchoMail(&mm,&cn0,&aka);
#else
   ty=in_range(0,5); mm.Type=ty; r=WriteNetMail(&mm,&dest,&aka);
#endif
   CHECK(r,"written");
   want=2; for(i=0;i<2;i++) if(same(&d[i],&dest) && same(&o[i],&aka.Node) && t[i]==ty) want=i;
   f=want;
   if(want<2 && max && n[want]>max) { want=2; CHECK(fin[f]==1,"a full packet is finished"); REACHED("full"); }
   else if(want<2) REACHED("existing");
   CHECK(nfile==(want==2?3:2),"a new packet is begun only when there is none for this destination, sender and type, or it is full");
   for(i=0;i<2;i++) if(i!=want) CHECK(flen[i]==n[i] && !closed[i] && (fin[i]==0 || i==f),"other packets stay as they are");
   CHECK(!finx && (want==2 || !fin[want]) && (want==2?flen[2]>58:flen[want]>n[want]),"the message goes to its packet");
   REACHED("end");
}
#endif
