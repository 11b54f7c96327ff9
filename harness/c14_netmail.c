/* Netmail: import, routing, bouncing. Patterns, nodelist, filters, loop detection
 * and the areafix answer arbitrarily; packet writer, messagebase, bounce and
 * bad-area writers record. */
#include "cm.h"
#include "logstub.h"
#include "nofp.h"
bool IsLoopMail(struct MemMessage *mm); bool AnswerReceipt(struct MemMessage *mm); bool AnswerAudit(struct MemMessage *mm);

static struct Aka aka[2]; static struct Area area[3]; static struct ImportNode inode; static struct Route route[2]; static struct PatternNode bounce,fatt;
static struct ConfigNode cn; static struct AreaFixName afn; static struct MemMessage mm; static struct Messagebase mb; static struct Nodelist nl;
static struct TextChunk chunk,chunk2; static unsigned crs; static struct Node4D dest,expd,sentto; static struct Aka *sentaka;
static unsigned sent,bad,imp,impto,bounced,af,filt,via,receipts,audits,loops,flows,moves,copies; static int ans[4],inlist,f_kill,f_twit,isloop,newtype; static unsigned senttype,sentattr,impattr,ctype_in;
static int fexists; static struct Node4D ctype_dest; static char viabuf[8]; static struct Node4D *printed; static int expanded;

static int eq(struct Node4D *a,struct Node4D *b) { return a->Zone==b->Zone && a->Net==b->Net && a->Node==b->Node && a->Point==b->Point; }
int Compare4DPat(struct Node4DPat *p,struct Node4D *n)
{
   int k=p==&route[0].Pattern?0:p==&route[1].Pattern?1:p==&bounce.Pattern?2:3;
   CHECK(eq(n,&dest),"routing, bouncing and file-attach rules look at the destination of the message");
   return ans[k]?0:1;
}
void ExpandNodePat(struct Node4DPat *p,struct Node4D *d,struct Node4D *s) { CHECK(eq(d,&dest),"the route is applied to the destination"); expanded=p==&route[0].DestPat?1:2; *s=expd; if(expanded==2) s->Net=(uint16_t)(s->Net+1); }
char ChangeType(struct Node4D *d,char pri) { ctype_in=(unsigned char)pri; ctype_dest=*d; return newtype?(char)newtype:pri; }
bool IsLoopMail(struct MemMessage *m) { loops++; return isloop; }
bool AreaFix(struct MemMessage *m) { af++; return(TRUE); }
bool Bounce(struct MemMessage *m,char *r,bool ho) { bounced++; CHECK(ho==((config.cfg_Flags&CFG_BOUNCEHEADERONLY)!=0),"a bounce quotes the whole message unless configured otherwise"); return(TRUE); }
bool WriteBad(struct MemMessage *m,char *r) { bad++; return(TRUE); }
bool Filter(struct MemMessage *m) { filt++; if(f_kill) m->Flags|=MMFLAG_KILL; if(f_twit) m->Flags|=MMFLAG_TWIT; return(TRUE); }
bool WriteNetMail(struct MemMessage *m,struct Node4D *d,struct Aka *a) { sent++; sentto=*d; sentaka=a; senttype=m->Type; sentattr=m->Attr; CHECK(via>=1,"our Via line is in every message we pass on"); return(TRUE); }
bool AnswerReceipt(struct MemMessage *m) { receipts++; return(TRUE); }
bool AnswerAudit(struct MemMessage *m) { audits++; return(TRUE); }
bool mmAddLine(struct MemMessage *m,char *b) { if(b[0]==1 && b[1]=='V' && b[2]=='i' && b[3]=='a' && b[4]==' ' && b[5]=='A') via++; return(TRUE); }
bool mmAddBuf(struct jbList *l,char *b,uint32_t n) { CHECK(l==&mm.TextChunks && n==1 && b[0]==13,"only a missing line end is added to the text"); crs++; return(TRUE); }
void Print4D(struct Node4D *n,char *d) { printed=n; d[0]='A'; d[1]=0; }
void Print4DPat(struct Node4DPat *p,char *d) { d[0]=0; }
void MakeFullPath(char *p,char *f,char *d,uint32_t n) { d[0]=(char)(p==config.cfg_Inbound?73:80); d[1]=0; }
bool osExists(char *f) { return fexists; }
bool AddFlow(char *f,struct Node4D *n,char t,long m) { flows++; return(TRUE); }
bool movefile(char *a,char *b) { moves++; return(TRUE); }
bool copyfile(char *a,char *b) { copies++; return(TRUE); }
static bool imp_f(struct MemMessage *m,struct Area *a) { imp++; impto=(unsigned)(a-area); impattr=m->Attr; return(TRUE); }
static bool chk(struct Node4D *n) { CHECK(n->Zone==dest.Zone && n->Net==dest.Net && n->Node==dest.Node && n->Point==0,"the nodelist is asked for the destination's node"); return inlist; }

static void innode(struct Node4D *n) { n->Zone=(uint16_t)in_range(1,2); n->Net=(uint16_t)in_range(1,3); n->Node=(uint16_t)in_range(1,3); n->Point=(uint16_t)in_range(0,2); }

void harness(void)
{
   unsigned i; int tome=0,where=-1,type,r,boing=0; uint16_t attr,flags; uint32_t cf; struct Node4D want; int isaf,text; struct Aka *viaaka;
   for(i=0;i<2;i++) innode(&aka[i].Node);
   ASSUME(!eq(&aka[0].Node,&aka[1].Node));
   aka[0].Next=&aka[1]; config.AkaList.First=(struct jbNode *)&aka[0]; config.AkaList.Last=(struct jbNode *)&aka[1];
   area[0].AreaType=AREATYPE_ECHOMAIL; area[0].Aka=&aka[0]; area[0].Next=&area[1];
   area[1].AreaType=AREATYPE_NETMAIL; area[1].Aka=&aka[1]; area[1].Next=&area[2];
   area[2].AreaType=AREATYPE_NETMAIL; area[2].Aka=&aka[0];
   area[2].TossNodes.First=area[2].TossNodes.Last=(struct jbNode *)&inode; innode(&inode.Node);
   mb.importfunc=imp_f; for(i=0;i<3;i++) area[i].Messagebase=&mb;
   config.AreaList.First=(struct jbNode *)&area[0]; config.AreaList.Last=(struct jbNode *)&area[2];
   route[0].Next=&route[1]; route[0].Aka=&aka[0]; route[1].Aka=&aka[1];
   config.RouteList.First=(struct jbNode *)&route[0]; config.RouteList.Last=(struct jbNode *)&route[1];
   config.BounceList.First=config.BounceList.Last=(struct jbNode *)&bounce;
   config.FileAttachList.First=config.FileAttachList.Last=(struct jbNode *)&fatt;
   innode(&cn.Node); config.CNodeList.First=config.CNodeList.Last=(struct jbNode *)&cn;
   vh_cpy(afn.Name,"AreaFix"); config.AreaFixList.First=config.AreaFixList.Last=(struct jbNode *)&afn;
#if NODELIST
   nl.nlCheckNode=chk; config.cfg_NodelistType=&nl;
#endif
   cf=config.cfg_Flags=in_u32()&~(uint32_t)CFG_STRIPRE; config.cfg_LoopMode=(uint16_t)in_range(0,1);
   for(i=0;i<4;i++) ans[i]=in_bool();
   inlist=in_bool(); fexists=in_bool(); f_kill=in_bool(); f_twit=in_bool(); isloop=in_bool(); newtype=(int)in_range(0,4);
   innode(&expd);
   /* the message */
   innode(&mm.DestNode); innode(&mm.OrigNode); innode(&mm.PktDest); innode(&mm.PktOrig);
   if(in_bool()) mm.DestNode.Zone=0;
   if(in_bool()) mm.OrigNode.Zone=0;
   dest=mm.DestNode; if(!dest.Zone) dest.Zone=mm.PktDest.Zone;
   attr=mm.Attr=in_u16(); flags=mm.Flags=in_u16()&(MMFLAG_RESCANNED|MMFLAG_EXPORTED|MMFLAG_TOSSED|MMFLAG_NOSECURITY|MMFLAG_AUTOGEN);
#if !ATTACH
   ASSUME(!(attr&FLAG_FILEATTACH));
#else
   ASSUME(attr&FLAG_FILEATTACH);
#endif
   vh_cpy(mm.To,TOAF?"areafix":"Sysop"); vh_cpy(mm.Subject,"f"); isaf=TOAF;
   chunk.Data[0]=TEXT?'x':1; chunk.Data[1]='y'; chunk.Data[2]=13; chunk.Length=3; text=TEXT;
   mm.TextChunks.First=mm.TextChunks.Last=(struct jbNode *)&chunk;
#if TWO
   chunk.Data[2]=E1; chunk2.Data[0]='z'; chunk2.Data[1]=E2; chunk2.Length=2; chunk.Next=&chunk2; mm.TextChunks.Last=(struct jbNode *)&chunk2;
#endif
   CHECK(HandleMessage(&mm),"no error");
#if TWO
   CHECK(crs==(unsigned)(chunk2.Data[1]!=13),"a line end is added to the text if and only if it does not end with one, so that control lines never join the last line");
#else
   CHECK(crs==0,"text that ends with a line end is left alone");
#endif

   CHECK(filt==1,"the filters see every message");
   CHECK(eq(&dest,&mm.DestNode),"the destination does not change, a missing zone is the packet's");
   CHECK(sent+imp+bad+bounced<=1,"a message is either imported, sent on, bounced or bad, and only once");
   if(f_kill) { CHECK(sent+imp+bad+bounced+af==0,"a message killed by a filter goes nowhere"); return; }
   for(i=0;i<2;i++) if(eq(&aka[i].Node,&dest)) tome=1;
   if(tome && isaf && !(flags&MMFLAG_AUTOGEN))
   {
      CHECK(af==1,"requests to the areafix of this system are carried out");
#if TOAF
      REACHED("areafix");
#endif
      if(!(cf&CFG_IMPORTAREAFIX)) { CHECK(sent+imp+bad+bounced==0,"and not imported unless configured"); return; }
   }
   else CHECK(af==0,"only mail to this system's areafix, not written by itself, is a request");
   if(eq(&aka[1].Node,&dest)) where=1;
   else if(eq(&aka[0].Node,&dest) || eq(&inode.Node,&dest)) where=2;
   else if(cf&CFG_NOROUTE) where=1;
   if(where>=0)
   {
      CHECK(sent+bad+bounced==0,"mail for this system is not sent on");
      if(f_twit || !(text || (cf&CFG_IMPORTEMPTYNETMAIL))) CHECK(imp==0,"mail stopped by a filter and empty mail is not imported");
      else
      {
         CHECK(imp==1 && impto==(unsigned)where,"mail for this system is imported once into the netmail area of its address");
         CHECK((impattr&FLAG_SENT) && !(impattr&FLAG_LOCAL),"imported mail is never exported again");
#if !ATTACH && TEXT
         REACHED("imported");
#endif
      }
      CHECK(receipts==(unsigned)(!f_twit && (attr&FLAG_RREQ) && (cf&CFG_ANSWERRECEIPT)),"return receipts are answered if configured");
      return;
   }
   CHECK(imp==0,"mail for others is not imported");
   r=ans[0]?0:ans[1]?1:-1;
   if(r<0) { CHECK(bad==1 && sent==0 && bounced==0,"mail for which there is no route goes to the bad area"); return; }
   CHECK(bad==0,"mail with a route is not bad");
   /* type */
   type=PKTS_NORMAL;
   if(!(flags&MMFLAG_TOSSED) && (attr&FLAG_CRASH)) type=PKTS_CRASH;
   if(!(flags&MMFLAG_TOSSED) && (attr&FLAG_HOLD)) type=PKTS_HOLD;
   if(type==PKTS_NORMAL && (attr&FLAG_FILEATTACH) && !(cf&CFG_NODIRECTATTACH)) type=PKTS_DIRECT;
   if(type==PKTS_NORMAL) { want=expd; if(r) want.Net=(uint16_t)(want.Net+1); } else want=dest;
   CHECK(ctype_in==(unsigned)type && eq(&ctype_dest,&want),"crash and hold are only taken from mail written here; priority changes are looked up for the node it is sent to");
   if(newtype) type=newtype;
   if(type==PKTS_DIRECT || type==PKTS_CRASH) want.Point=0;
   /* bounced? */
#if NODELIST
   if(ans[2] && !inlist) boing=1;
#endif
   if(cf&CFG_BOUNCEPOINTS) for(i=0;i<2;i++) if(aka[i].Node.Point==0 && aka[i].Node.Zone==dest.Zone && aka[i].Node.Net==dest.Net && aka[i].Node.Node==dest.Node && !eq(&cn.Node,&dest)) boing=1;
   if((attr&FLAG_FILEATTACH) && !(flags&MMFLAG_EXPORTED) && !ans[3]) boing=1;
   if(boing)
   {
      CHECK(bounced==1 && sent==0 && flows==0,"mail for unlisted nodes, unknown points or with file-attaches not to be routed is bounced and not sent");
#if NODELIST || ATTACH
      REACHED("bounced");
#endif
      return;
   }
   CHECK(bounced==0,"nothing else is bounced");
   CHECK(sent==1,"all other mail is sent on exactly once");
   CHECK(eq(&sentto,&want),"to the node its route says, or directly to its destination");
   CHECK(sentaka==route[r].Aka,"under the address of the first route that matches");
   CHECK(senttype==(unsigned)type,"with its priority");
   CHECK(printed==&route[r].Aka->Node && via==1,"with one Via line of that address");
   { unsigned keep=attr&(FLAG_PVT|FLAG_CRASH|FLAG_FILEATTACH|FLAG_HOLD|FLAG_RREQ|FLAG_IRRR|FLAG_AUDIT); if(flags&MMFLAG_TOSSED) keep&=~(unsigned)(FLAG_CRASH|FLAG_HOLD); CHECK(sentattr==keep,"attributes that do not concern other systems are removed"); }
   CHECK(loops==(unsigned)(config.cfg_LoopMode!=LOOP_IGNORE && !(flags&MMFLAG_EXPORTED)),"mail passing through is checked for loops if configured");
   CHECK(audits==(unsigned)((attr&FLAG_AUDIT) && (cf&CFG_ANSWERAUDIT) && (flags&MMFLAG_TOSSED)),"audit requests are answered if configured");
   CHECK(flows==(unsigned)((attr&FLAG_FILEATTACH)?1:0),"the attached file is sent along");
   REACHED("sent");
}
