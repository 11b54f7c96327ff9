/* Echomail: who gets a message, who is refused, what happens to duplicates.
 * The messagebase, the packet writer, the duplicate database and the filters
 * are replaced by recorders with arbitrary answers. */
#include "cm.h"
#include "logstub.h"

#define N 3
static struct Area area[2],newarea; static struct Aka aka; static struct ConfigNode cn[N]; static struct TossNode tn[N];
static struct MemMessage mm; static struct Messagebase mb; static struct AddNode an; static struct RemNode rn;
static unsigned sent[N],bad,imp,dupq,filt,added,pathadds,sorted; static int dupans,f_kill,f_twit,autoadd_ans; static unsigned order,sent_order,imp_order;
static struct Aka *sentaka; static uint16_t rmnet,rmnode; static int sb_checked; static unsigned importattr; static int autoarg;
static void seenby_check(void);
static unsigned sb0n; static uint16_t sb0net[2],sb0node[2]; static int samezone,addn,remn;

bool WriteEchoMail(struct MemMessage *m,struct ConfigNode *c,struct Aka *a) { unsigned i; for(i=0;i<N;i++) if(c==&cn[i]) sent[i]++; CHECK(a==area[0].Aka,"mail is sent under the area's own address"); seenby_check(); sent_order=++order; return(TRUE); }
bool WriteBad(struct MemMessage *m,char *r) { bad++; return(TRUE); }
bool CheckDupe(struct MemMessage *m) { dupq++; return dupans; }
bool Filter(struct MemMessage *m) { filt++; if(f_kill) m->Flags|=MMFLAG_KILL; if(f_twit) m->Flags|=MMFLAG_TWIT; return(TRUE); }
struct Area *AddArea(char *name,struct Node4D *node,struct Node4D *mynode,uint32_t active,uint32_t fp) { added++; autoarg=(active!=0); newarea.Flags=active?0:AREA_UNCONFIRMED; newarea.Aka=&aka; return &newarea; }
bool AddNodePath(struct jbList *l,struct Node4D *n) { pathadds++; CHECK(l==&mm.Path && n->Net==aka.Node.Net && n->Node==aka.Node.Node && n->Point==aka.Node.Point,"it is our own address that goes into the PATH"); return(TRUE); }
bool mmSortNodes2D(struct jbList *l) { sorted++; return(TRUE); }
int Compare2DPat(struct Node2DPat *p,uint16_t net,uint16_t node) { return !(net==rmnet && node==rmnode); }
static bool imp_f(struct MemMessage *m,struct Area *a) { imp++; importattr=m->Attr; CHECK(a==&area[0],"imported into the area it was written in"); return(TRUE); }

#if !SB
bool mmAddNodes2DList(struct jbList *l,uint16_t net,uint16_t node) { return(TRUE); }   /* SEEN-BY contents: mode SB */
#endif
static int has(unsigned net,unsigned node)
{
   struct Nodes2D *t; unsigned c; int n=0;
   for(t=(struct Nodes2D *)mm.SeenBy.First;t;t=t->Next) for(c=0;c<t->Nodes;c++) if(t->Net[c]==net && t->Node[c]==node) n++;
   return n;
}
static int active(unsigned i) { return i<(unsigned)area[0].Texts && !(cn[i].Flags & NODE_PASSIVE) && !(tn[i].Flags & TOSSNODE_WRITEONLY); }
static int removed(unsigned net,unsigned node) { return remn && net==rmnet && node==rmnode; }
static void seenby_check(void)
{
#if SB
   unsigned i,net=in_u16(),node=in_u16(); int e=0;   /* any 2D address */
   ASSUME(net!=0 || node!=0);
   if(samezone) for(i=0;i<sb0n;i++) if(sb0net[i]==net && sb0node[i]==node) e=1;
   for(i=0;i<N;i++) if(active(i) && cn[i].Node.Point==0 && cn[i].Node.Zone==aka.Node.Zone && cn[i].Node.Net==net && cn[i].Node.Node==node) e=1;
   if(removed(net,node)) e=0;
   if(addn && an.Node.Net==net && an.Node.Node==node) e=1;
   if(aka.Node.Point==0 && aka.Node.Net==net && aka.Node.Node==node) e=1;
   if(e) CHECK(has(net,node)==1,"SEEN-BY has the nodes it came with, every active link of our zone, the configured ones and ourselves, once each");
   else CHECK(has(net,node)==0,"SEEN-BY has no other nodes");
#endif
}

void harness(void)
{
   unsigned i,j,ntn,which; int from=-1,sec,known; static struct Nodes2D sbs; struct Nodes2D *sb;
   uint32_t cflags; uint16_t mflags; char *tags[3]; unsigned oldflags;
   /* configuration: one area we know (and another), N links with arbitrary addresses and rights */
   aka.Node.Zone=1; aka.Node.Net=in_u16(); aka.Node.Node=in_u16(); aka.Node.Point=in_bool();
   for(i=0;i<N;i++)
   {
      cn[i].Node.Zone=(uint16_t)in_range(1,2); cn[i].Node.Net=in_u16(); cn[i].Node.Node=in_u16(); cn[i].Node.Point=in_bool();
      cn[i].Flags=in_u32(); cn[i].IsInSeenBy=in_bool();   /* whatever an earlier message left behind */
      for(j=0;j<i;j++) ASSUME(!(cn[i].Node.Zone==cn[j].Node.Zone && cn[i].Node.Net==cn[j].Node.Net && cn[i].Node.Node==cn[j].Node.Node && cn[i].Node.Point==cn[j].Node.Point));
      cn[i].Next=i+1<N?&cn[i+1]:NULL; tn[i].ConfigNode=&cn[i]; tn[i].Flags=in_u8()&7;
   }
   ntn=NTN;
   for(i=0;i<N;i++) tn[i].Next=i+1<ntn?&tn[i+1]:NULL;
   config.CNodeList.First=(struct jbNode *)&cn[0]; config.CNodeList.Last=(struct jbNode *)&cn[N-1];
   area[1].Next=&area[0]; area[0].Aka=area[1].Aka=&aka; vh_cpy(area[0].Tagname,"ECHO"); vh_cpy(area[1].Tagname,"ECHO2");
   if(ntn) { area[0].TossNodes.First=(struct jbNode *)&tn[0]; area[0].TossNodes.Last=(struct jbNode *)&tn[ntn-1]; }
   area[0].Texts=ntn;
   area[0].Flags=(char)in_u8(); mb.importfunc=imp_f; area[0].Messagebase=MB?&mb:NULL;
   config.AreaList.First=(struct jbNode *)&area[1]; config.AreaList.Last=(struct jbNode *)&area[0];
   cflags=config.cfg_Flags=in_u32(); config.cfg_DupeMode=(uint16_t)in_range(0,2);
   addn=SB?in_bool():0; remn=SB?in_bool():0;
   an.Node.Net=in_u16(); an.Node.Node=in_u16(); rmnet=in_u16(); rmnode=in_u16();
   if(addn) aka.AddList.First=aka.AddList.Last=(struct jbNode *)&an;
   if(remn) aka.RemList.First=aka.RemList.Last=(struct jbNode *)&rn;
   /* message */
   mm.PktOrig.Zone=SAMEZONE?1:2; mm.PktOrig.Net=in_u16(); mm.PktOrig.Node=in_u16(); mm.PktOrig.Point=in_bool();
   mflags=mm.Flags=in_u16()&(MMFLAG_RESCANNED|MMFLAG_EXPORTED|MMFLAG_TOSSED|MMFLAG_NOSECURITY|MMFLAG_AUTOGEN);
   mm.Attr=in_u16();
   which=UNKNOWN; known=!which;
   vh_cpy(mm.Area,which?"ECH":"eCHO");
   sb0n=SBN; for(i=0;i<2;i++) { sb0net[i]=in_u16(); sb0node[i]=in_u16(); }
   ASSUME(!(sb0net[0]==sb0net[1] && sb0node[0]==sb0node[1]));
   if(sb0n) { sb=malloc(sizeof(*sb)); sb->Next=NULL; sb->Nodes=(uint16_t)sb0n; for(i=0;i<2;i++) { sb->Net[i]=sb0net[i]; sb->Node[i]=sb0node[i]; } mm.SeenBy.First=mm.SeenBy.Last=(struct jbNode *)sb; }
   samezone=mm.PktOrig.Zone==aka.Node.Zone;
   dupans=in_bool(); f_kill=in_bool(); f_twit=in_bool();
   for(i=0;i<N;i++) if(cn[i].Node.Zone==mm.PktOrig.Zone && cn[i].Node.Net==mm.PktOrig.Net && cn[i].Node.Node==mm.PktOrig.Node && cn[i].Node.Point==mm.PktOrig.Point) from=(int)i;
   sec=!(mflags&(MMFLAG_EXPORTED|MMFLAG_NOSECURITY));
#if SB
   ASSUME(known && !(area[0].Flags&AREA_UNCONFIRMED) && !sec);
#endif
   CHECK(HandleMessage(&mm),"no error");
   if(!known)
   {
#if UNKNOWN
      CHECK(added==1 && autoarg==(from>=0 && (cn[from].Flags&NODE_AUTOADD)!=0),"an unknown area is made active only for a link allowed to create areas");
      if(!autoarg) { CHECK(bad==1,"mail for an unknown area goes to the bad area"); }
      CHECK(imp==0 && sent[0]==0 && sent[1]==0 && sent[2]==0,"mail in an unknown area is not passed on");
      REACHED("unknown area");
#endif
      return;
   }
#if !UNKNOWN
   CHECK(added==0,"areas we know are not added again");
   if((area[0].Flags&AREA_UNCONFIRMED) || (sec && (from<0 || from>=(int)ntn || (tn[from].Flags&TOSSNODE_READONLY))))
   {
      CHECK(bad==1,"mail refused goes to the bad area, once");
      CHECK(imp==0 && sent[0]==0 && sent[1]==0 && sent[2]==0 && dupq==0 && filt==0,"mail in unconfirmed areas or from nodes that may not write there goes nowhere else");
#if !SB && !UNKNOWN
      REACHED("refused");
#endif
      return;
   }
   if(config.cfg_DupeMode!=DUPE_IGNORE && (mflags&MMFLAG_TOSSED) && !(area[0].Flags&AREA_IGNOREDUPES))
   {
      CHECK(dupq==1,"every message tossed is checked for duplicates");
      if(dupans)
      {
         CHECK(bad==(config.cfg_DupeMode==DUPE_BAD),"a duplicate is kept in the bad area only if so configured");
         CHECK(imp==0 && sent[0]==0 && sent[1]==0 && sent[2]==0,"a duplicate is neither imported nor passed on");
         REACHED("duplicate");
         return;
      }
   }
   else CHECK(dupq==0,"messages not subject to the duplicate check are not entered as seen");
   CHECK(bad==0,"accepted mail does not go to the bad area");
   CHECK(filt==1,"the filters see every accepted message once");
   if(f_kill) { CHECK(imp==0 && sent[0]==0 && sent[1]==0 && sent[2]==0,"a message killed by a filter goes nowhere"); return; }
   CHECK(sorted>=1,"SEEN-BY is sorted");
   CHECK(pathadds==(aka.Node.Point==0 || (cflags&CFG_PATH3D)!=0),"our address is added to PATH once (points only with 3D PATH)");
   for(i=0;i<N;i++)
   {
      int seen=0,e;
      if((cflags&CFG_CHECKSEENBY) && !(area[0].Flags&AREA_IGNORESEENBY) && samezone && cn[i].Node.Zone==aka.Node.Zone && cn[i].Node.Point==0)
         for(j=0;j<sb0n;j++) if(sb0net[j]==cn[i].Node.Net && sb0node[j]==cn[i].Node.Node) seen=1;
      e=active(i) && (int)i!=from && !seen && !(mflags&MMFLAG_RESCANNED);
      CHECK(sent[i]==(unsigned)e,"a message goes exactly once to every link of the area but the one it came from, passive and write-only ones and those already in SEEN-BY");
   }
   CHECK(imp==(unsigned)(!f_twit && !(mflags&MMFLAG_EXPORTED) && area[0].Messagebase!=NULL),"received mail is imported exactly once unless the area is pass-through or a filter said no");
   if(imp) CHECK((importattr&FLAG_SENT) && !(importattr&FLAG_LOCAL),"imported mail is never exported again");
   REACHED("distributed");
#if MB
   if(imp) REACHED("imported");
#endif
   #if NTN==3
   if(sent[0] && sent[2]) REACHED("sent to two");
#endif
#endif
}
