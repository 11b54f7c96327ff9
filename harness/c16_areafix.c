/* Which areas are listed, and which lists are searched for areas to request */
#if KIND==20
#include "cm.h"
#include "logstub.h"
struct afReply; static int dummyreply,sent,freed;
void Print4D(struct Node4D *n,char *d) { d[0]=0; }
struct afReply *afInitReply(char *fn,struct Node4D *f,char *tn,struct Node4D *t,char *s) { return (struct afReply *)&dummyreply; }
void afFreeReply(struct afReply *a) { freed++; }
void afAddLine(struct afReply *a,char *f,...) { }
void afSendMessage(struct afReply *a) { sent++; }
static struct Area area[3]; static struct TossNode tn[3]; static struct ConfigNode cn,cnx; static struct Arealist al[2];
static int listed[3],att[3],fed[3],fwd[2];
bool AddSortList(char *t,char *d,char g,bool a,bool f,long w) { int i=t==area[0].Tagname?0:t==area[1].Tagname?1:2; listed[i]++; att[i]=a; fed[i]=f; CHECK(g==area[i].Group,"under its group"); return(TRUE); }
bool AddForwardList(struct Arealist *l) { fwd[l==&al[1]]++; return(TRUE); }
void FreeSortList(void) { }
void SortSortList(void) { }
long CalculateWeekKB(struct Area *a) { return 0; }
void rawSendList(short type,struct Node4D *from4d,char *toname,struct ConfigNode *cnode);
static int isgrp(char g,const char *s) { return g==s[0] ? s[0]!=0 : g==s[1] && s[0] && s[1]; }
void harness(void)
{
   unsigned i; short type=(short)in_range(1,3); struct Node4D me; int linked[3];
   cn.Groups[0]=(char)in_range('A','B'); cn.Groups[1]=in_bool()?'C':0; cn.ReadOnlyGroups[0]=in_bool()?0:(char)in_range('B','C'); cn.Flags=in_u32(); config.cfg_Flags=in_u32();
   for(i=0;i<3;i++)
   {
      area[i].AreaType=(char)in_range(1,5); area[i].Group=in_bool()?0:(char)in_range('A','C'); linked[i]=in_bool(); tn[i].ConfigNode=linked[i]?&cn:&cnx; tn[i].Flags=(uint16_t)in_range(0,7);
      if(i!=2) area[i].TossNodes.First=area[i].TossNodes.Last=(struct jbNode *)&tn[i]; else linked[i]=0;
   }
   area[0].Next=&area[1]; area[1].Next=&area[2]; config.AreaList.First=(struct jbNode *)&area[0];
   for(i=0;i<2;i++) { al[i].Flags=(uint16_t)in_u8(); al[i].Group=(char)in_range('A','C'); } al[0].Next=&al[1]; config.ArealistList.First=(struct jbNode *)&al[0];
   rawSendList(type,&me,"x",&cn);
   CHECK(sent==1 && freed==1,"one reply");
   for(i=0;i<3;i++)
   {
      int acc=isgrp(area[i].Group,cn.Groups) || isgrp(area[i].Group,cn.ReadOnlyGroups),want;
      want=area[i].AreaType==AREATYPE_ECHOMAIL && (type==SENDLIST_QUERY?linked[i]:type==SENDLIST_UNLINKED?!linked[i] && acc:linked[i] || acc);
      CHECK(listed[i]==want,"exactly the areas the node has or may have are listed");
      if(want) CHECK(!att[i]==!linked[i] && !fed[i]==!(linked[i] && (tn[i].Flags&TOSSNODE_FEED)),"with their state");
   }
   for(i=0;i<2;i++) CHECK(fwd[i]==((config.cfg_Flags&CFG_INCLUDEFORWARD) && type!=SENDLIST_QUERY && (cn.Flags&NODE_FORWARDREQ) && (al[i].Flags&AREALIST_FORWARD) && isgrp(al[i].Group,cn.Groups)),"areas that can be requested are listed only for nodes that may request them");
   REACHED("end");
}
#elif KIND==21
#include "cm.h"
#include "logstub.h"
static struct Arealist al[2]; static int pos[2],open_=-1,closed; static int which[2],okopen[2];
struct Arealist *FindForward(char *tagname,char *flags);
osFile osOpen(char *n,uint32_t m) { int i=n==al[1].AreaFile; if(!okopen[i]) return 0; CHECK(open_<0,"one at a time"); open_=i; pos[i]=0; return (osFile)&pos[i]; }
bool osClose(osFile f) { CHECK(open_>=0,"open"); open_=-1; closed++; return(TRUE); }
uint32_t osFGets(osFile f,char *b,uint32_t n) { int i=f==(osFile)&pos[1]; pos[i]++; if(pos[i]==1) { vh_cpy(b,"AB.D  the first\n"); return 16; } if(pos[i]==2) { vh_cpy(b,"ab.c\n"); b[3]=(char)which[i]; return 5; } return 0; }
uint32_t osError(void) { return 5; }
char *osErrorMsg(uint32_t e) { return ""; }
static int isgrp(char g,const char *s) { return g==s[0] ? s[0]!=0 : g==s[1] && s[0] && s[1]; }
void harness(void)
{
   unsigned i; char groups[3]; int want=-1; struct Arealist *r;
   groups[0]=(char)in_range('A','B'); groups[1]=in_bool()?'C':0; groups[2]=0;
   for(i=0;i<2;i++) { al[i].Flags=(uint16_t)in_u8(); al[i].Group=in_bool()?0:(char)in_range('A','C'); which[i]=(int)in_range('c','e'); okopen[i]=in_bool(); } al[0].Next=&al[1]; config.ArealistList.First=(struct jbNode *)&al[0];
   r=FindForward("Ab.C",groups);
   for(i=2;i-->0;) if((al[i].Flags&AREALIST_FORWARD) && isgrp(al[i].Group,groups) && okopen[i] && which[i]=='c') want=(int)i;
   CHECK(r==(want<0?0:&al[want]),"an area is requested from the first list that has it, allows requests and has a group of the node"); CHECK(open_<0,"closed");
   if(want==1) REACHED("second"); if(want<0) REACHED("none");
}
#else
/* AreaFix: who may do what. Commands are fixed texts, the configuration and the sender are arbitrary. */
#include "cm.h"
#include "logstub.h"
struct afReply;
void Print4D(struct Node4D *n,char *d) { d[0]=0; }   /* only for the log here */
static int dummyreply,inits,sent,freed,lists,helps,infos,remotes;
static struct Node4D rto;
#if KIND==1 && REACH&1
#define RA REACHED("attached")
#else
#define RA
#endif
#if KIND==2 && REACH&1
#define RD REACHED("detached");
#else
#define RD
#endif
#if KIND==2 && REACH&2
#define RG REACHED("area removed");
#else
#define RG
#endif
#if KIND==1 && !WILD
#define RF REACHED("forwarded");
#else
#define RF
#endif
#if RESCAN
#define RR REACHED("rescan");
#else
#define RR
#endif
struct afReply *afInitReply(char *fn,struct Node4D *f,char *tn,struct Node4D *t,char *s) { inits++; rto=*t; return (struct afReply *)&dummyreply; }
void afFreeReply(struct afReply *a) { freed++; }
void afAddLine(struct afReply *a,char *f,...) { }
void afSendMessage(struct afReply *a) { sent++; }
void AddCommandReply(struct afReply *a,char *c,char *r) { }
static struct ConfigNode cn[2]; static struct Area area[2]; static struct TossNode t00,t01,t10,t11,p0,p1,p2; static struct BannedNode ban[2]; static unsigned npool;
static struct ConfigNode *listto;
void rawSendList(short t,struct Node4D *f,char *n,struct ConfigNode *c) { lists++; listto=c; }
void rawSendHelp(struct Node4D *f,char *n,struct ConfigNode *c) { helps++; }
void rawSendInfo(struct Node4D *f,char *n,struct ConfigNode *c) { infos++; listto=c; }
void SendRemoteAreafix(void) { remotes++; }
static int notified[2],rremoved,radded; static struct ConfigNode *rrnode,*ranode;
void SendRemoveMessages(struct Area *a) { notified[a==&area[1]]++; }
void RemoteAreafixRemove(char *t,struct ConfigNode *n) { rremoved++; rrnode=n; }
void RemoteAreafixAdd(char *t,struct ConfigNode *n) { radded++; ranode=n; }
static struct Arealist al; static int forward,asked; static struct Area newarea; static int added,tossadded; static struct ConfigNode *tossnode; static unsigned tossflags; static char *groupsasked;
struct Arealist *FindForward(char *t,char *g) { asked++; groupsasked=g; CHECK(vh_eq(t,TAG),"the area asked for"); return forward?&al:0; }
struct Area *AddArea(char *n,struct Node4D *a,struct Node4D *m,uint32_t act,uint32_t pt) { added++; CHECK(vh_eq(n,TAG),"the area asked for"); return &newarea; }
bool AddTossNode(struct Area *a,struct ConfigNode *c,uint16_t f) { tossadded++; CHECK(a==&newarea,"the new area"); tossnode=c; tossflags=f; return(TRUE); }
void *osAllocCleared(uint32_t n) { CHECK(n==sizeof(struct TossNode) && npool<3,"room"); npool++; return npool==1?&p0:npool==2?&p1:&p2; }
void osFree(void *p) { }
void jbFreeList(struct jbList *l) { l->First=l->Last=0; }
static int match[2];
#ifdef NOTAG
#define TAGCHK
#else
#define TAGCHK CHECK(vh_eq(p,TAG),"the pattern given");
#endif
bool osMatchPattern(char *p,char *s) { TAGCHK return match[s==area[1].Tagname]; }
bool osIsPattern(char *p) { return WILD; }
bool osCheckPattern(char *p) { return TRUE; }
static int rmatch[2]; static struct Route route[2]; static struct Aka aka[2];
int Compare4DPat(struct Node4DPat *p,struct Node4D *n) { return p==&route[0].Pattern?!rmatch[0]:!rmatch[1]; }
static int rescans; static struct Area *rescanned; static struct ConfigNode *rescanfor; static uint32_t rescanmax;
static bool rescan(struct Area *a,uint32_t max,bool (*hf)(struct MemMessage *m)) { rescans++; rescanned=a; rescanfor=RescanNode; rescanmax=max; CHECK(hf==HandleRescan,"rescanned for the node"); return(TRUE); }
static struct Messagebase mb; static struct Packer pk[2];
static struct MemMessage mm; static struct TextChunk ch;
static int links(struct Area *a,struct ConfigNode *c,unsigned *fl) { struct TossNode *t; int n=0,i; t=(struct TossNode *)a->TossNodes.First; for(i=0;i<4;i++) { if(!t) break; if(t->ConfigNode==c) { n++; *fl=t->Flags; } t=t->Next; } CHECK(!t,"list"); return n; }
static int isgrp(char g,const char *s) { return g==s[0] ? s[0]!=0 : g==s[1] && s[0] && s[1]; }
static int inlist(struct Area *a) { struct Area *b=(struct Area *)config.AreaList.First; int i; for(i=0;i<2;i++) { if(!b) break; if(b==a) return 1; b=b->Next; } return 0; }
void harness(void)
{
   unsigned i,k,r,c=2,had[2][2],fl,hadfl[2][2]; uint32_t cf,nf0,nf1; int auth; char pw0[4],pw1[4]; int banned[2]; struct Packer *pk0; char type[2]; int rd[2],hasmb[2]; static const char cmd[]=CMD;
   for(i=0;i<2;i++)
   {
      cn[i].Node.Zone=1; cn[i].Node.Net=1; cn[i].Node.Node=(uint16_t)(1+i); cn[i].Node.Point=(uint16_t)i;
      for(k=0;k<PWL;k++) { cn[i].AreafixPW[k]=(char)in_u8(); ASSUME(cn[i].AreafixPW[k]); } cn[i].AreafixPW[PWL]=0;
      cn[i].Groups[0]=(char)in_range('A','B'); cn[i].Groups[1]=in_bool()?'C':0; cn[i].ReadOnlyGroups[0]=in_bool()?0:(char)in_range('B','C'); cn[i].Flags=in_u32(); cn[i].Packer=&pk[1];
      aka[i].Node.Zone=3; aka[i].Node.Net=1; route[i].Aka=&aka[i]; rmatch[i]=in_bool();
   }
   cn[0].Next=&cn[1]; config.CNodeList.First=(struct jbNode *)&cn[0]; config.CNodeList.Last=(struct jbNode *)&cn[1];
   route[0].Next=&route[1]; config.RouteList.First=(struct jbNode *)&route[0]; config.RouteList.Last=(struct jbNode *)&route[1];
   vh_cpy(pk[0].Name,"ZIP"); pk[0].Packer[0]=in_bool()?'z':0; vh_cpy(pk[1].Name,"LHA"); pk[0].Next=&pk[1]; config.PackerList.First=(struct jbNode *)&pk[0]; config.PackerList.Last=(struct jbNode *)&pk[1];
   mb.rescanfunc=rescan;
   for(i=0;i<2;i++)
   {
      area[i].AreaType=type[i]=i?TYPE1:TYPE0; area[i].Flags=(char)in_u8(); area[i].Group=in_bool()?0:(char)in_range('A','C'); hasmb[i]=in_bool(); area[i].Messagebase=hasmb[i]?&mb:0; area[i].Aka=&aka[0]; area[i].Tagname[0]=(char)('x'+i);
      match[i]=in_bool(); had[i][0]=had[i][1]=0;
      for(k=0;k<2;k++) if((LINKS>>(2*i+k))&1)
      {
         struct TossNode *t=i?(k?&t11:&t10):(k?&t01:&t00);
         t->ConfigNode=&cn[k]; t->Flags=(uint16_t)in_range(0,7); hadfl[i][k]=t->Flags; had[i][k]=1;
         if(area[i].TossNodes.First) ((struct TossNode *)area[i].TossNodes.First)->Next=t; else area[i].TossNodes.First=(struct jbNode *)t;
         area[i].TossNodes.Last=(struct jbNode *)t;
      }
   }
   area[0].Next=&area[1]; config.AreaList.First=(struct jbNode *)&area[0]; config.AreaList.Last=(struct jbNode *)&area[1];
   ban[0].ConfigNode=&cn[0]; ban[1].ConfigNode=&cn[1]; banned[0]=in_bool(); banned[1]=in_bool();     /* in the first area */
   if(banned[1]) area[0].BannedNodes.First=area[0].BannedNodes.Last=(struct jbNode *)&ban[1];
   if(banned[0]) { ban[0].Next=(struct BannedNode *)area[0].BannedNodes.First; area[0].BannedNodes.First=(struct jbNode *)&ban[0]; }
#if NOMATCH
   match[0]=match[1]=0;   /* no area has a name like this */
#endif
   if(!WILD) ASSUME(!match[0] || !match[1]);
   cf=config.cfg_Flags=in_u32(); forward=in_bool(); al.Node=&cn[1]; al.Group=(char)in_range('A','C');
   { static const uint16_t from[6][4]={{1,1,1,0},{1,1,2,1},{1,1,2,0},{1,1,1,1},{2,1,1,0},{1,2,1,0}};   /* the two nodes, and others that differ in one part */
   mm.OrigNode.Zone=from[ME][0]; mm.OrigNode.Net=from[ME][1]; mm.OrigNode.Node=from[ME][2]; mm.OrigNode.Point=from[ME][3]; }
   for(k=0;k<SUBL;k++) mm.Subject[k]="aBc"[k]; mm.Subject[SUBL]=0; vh_cpy(&mm.Subject[SUBL],SUBTAIL);
   for(i=0;i<sizeof(cmd)-1;i++) ch.Data[i]=cmd[i]; ch.Length=sizeof(cmd)-1; mm.TextChunks.First=mm.TextChunks.Last=(struct jbNode *)&ch;
   nf0=cn[0].Flags; nf1=cn[1].Flags; pk0=cn[0].Packer; for(k=0;k<4;k++) { pw0[k]=cn[0].AreafixPW[k]; pw1[k]=cn[1].AreafixPW[k]; }

   r=AreaFix(&mm);

   CHECK(r,"handled");
   c=ME<2?ME:2;
   auth=c<2 && SUBL==PWL && (rmatch[0] || rmatch[1]);
   if(auth) for(k=0;k<PWL;k++) if(vh_lower(mm.Subject[k])!=vh_lower((c?pw1:pw0)[k])) auth=0;
   CHECK(inits==0 || (rto.Zone==mm.OrigNode.Zone && rto.Node==mm.OrigNode.Node && rto.Point==mm.OrigNode.Point),"the reply goes to the sender"); CHECK(inits==freed,"reply released");
   if(rmatch[0] || rmatch[1]) CHECK(sent==1,"every request is answered");
   if(!auth)
   {
      CHECK(!npool && !added && !tossadded && !radded && !rremoved && !rescans && !lists && !helps && !infos && !remotes && !config.changed,"nothing is done for unknown nodes or with a wrong password");
      for(i=0;i<2;i++) for(k=0;k<2;k++) { fl=0; CHECK(links(&area[i],&cn[k],&fl)==(int)had[i][k],"no link changes"); }
      CHECK(cn[0].Flags==nf0 && cn[1].Flags==nf1 && cn[0].Packer==&pk[1] && cn[1].Packer==&pk[1],"no node changes");
      for(k=0;k<4;k++) CHECK(cn[0].AreafixPW[k]==pw0[k] && cn[1].AreafixPW[k]==pw1[k],"no password changes");
      CHECK(inlist(&area[0]) && inlist(&area[1]),"no area is removed");
      REACHED("refused"); return;
   }
#if SUBL==PWL && ME<2
   /* the node and its options */
   { struct ConfigNode *me=c?&cn[1]:&cn[0],*other=c?&cn[0]:&cn[1]; uint32_t mf=c?nf1:nf0,of=c?nf0:nf1; const char *mp=c?pw1:pw0,*op=c?pw0:pw1;
   int o=1-c;
   CHECK(other->Flags==of && other->Packer==&pk[1] && vh_eq(other->AreafixPW,op),"other nodes are not changed");
   CHECK(me->Flags==(KIND==4?mf|NODE_PASSIVE:KIND==5?mf&~NODE_PASSIVE:mf),"only pausing and resuming change the flags of the node");
   if(KIND==6) CHECK(vh_eq(me->AreafixPW,TAG),"the password is changed as asked"); else CHECK(vh_eq(me->AreafixPW,mp),"the password stays");
   if(KIND==7) CHECK(me->Packer==(PKRES==0?0:PKRES==1 && pk[0].Packer[0]?&pk[0]:&pk[1]),"the packer is changed to one that exists and can pack"); else CHECK(me->Packer==&pk[1],"the packer stays");
   CHECK(lists==(KIND==8 || SUBLIST) && (!lists || listto==me),"lists are sent to the sender when asked for");
   /* areas */
   for(i=0;i<2;i++)
   {
      int e=type[i]==AREATYPE_ECHOMAIL && match[i],has,want=had[i][c],acc,ro,gone=0; unsigned mfl=0,ofl=0,wfl=had[i][c]?hadfl[i][c]:0;
      acc=isgrp(area[i].Group,me->Groups) || isgrp(area[i].Group,me->ReadOnlyGroups); ro=(area[i].Flags&AREA_DEFREADONLY) || isgrp(area[i].Group,me->ReadOnlyGroups);
      if(KIND==1 && e && !want && acc && !(i==0 && banned[c])) { want=1; wfl=ro?TOSSNODE_READONLY:0; RA; }
      else if(KIND==2 && e && want && !((area[i].Flags&AREA_MANDATORY) && !(wfl&TOSSNODE_FEED)))
      {
         want=0; RD
         if((wfl&TOSSNODE_FEED) && (cf&CFG_REMOVEWHENFEED)) { gone=1; CHECK(notified[i]==1,"the other nodes are told that the area is gone"); }
         else if((cf&CFG_AREAFIXREMOVE) && !hasmb[i] && (!had[i][o] || (hadfl[i][o]&TOSSNODE_FEED))) { gone=1; CHECK(notified[i]==0,"not announced"); if(had[i][o]) CHECK(rremoved>=1 && rrnode==other,"the feed is told"); }
      }
      if(gone) { CHECK(!inlist(&area[i]),"an area nobody uses any more is removed if so configured"); RG continue; }
      CHECK(inlist(&area[i]) && area[i].AreaType==type[i] && notified[i]==0,"no other area is removed");
      has=links(&area[i],me,&mfl);
      CHECK(has==want,"a node is attached to exactly the areas it asked for and may have, and detached from those it may leave");
      if(want) CHECK(mfl==wfl,"with the rights it is entitled to");
      CHECK(links(&area[i],other,&ofl)==(int)had[i][o] && (!had[i][o] || ofl==hadfl[i][o]),"links of other nodes stay as they are");
      if(want!=(int)had[i][c]) CHECK(config.changed && area[i].changed,"changes are saved");
   }
   if(KIND==1 && !WILD)
   {
      int ex=(type[0]==AREATYPE_ECHOMAIL && match[0]) || (type[1]==AREATYPE_ECHOMAIL && match[1]);
      CHECK(added==(!ex && (me->Flags&NODE_FORWARDREQ) && forward) && radded==added && tossadded==added,"unknown areas are requested only for nodes that may do that, once");
      if(asked) CHECK(groupsasked==me->Groups,"and only from lists whose group the node may have");
      if(added) { CHECK(ranode==&cn[1] && tossnode==me && newarea.Group==al.Group && (tossflags==(isgrp(al.Group,me->ReadOnlyGroups)?TOSSNODE_READONLY:0u)),"the node gets the new area, with its rights"); RF }
   }
   else CHECK(!added && !radded && !tossadded,"nothing is requested elsewhere");
   if(KIND!=2) CHECK(!rremoved,"nothing is cancelled elsewhere");
   /* rescan */
   if(rescans)
   {
      unsigned x=0;
      CHECK(RESCAN && rescans==1 && (cf&CFG_ALLOWRESCAN) && !WILD,"only allowed rescans, once");
      CHECK(rescanfor==me && rescanned && links(rescanned,me,&x)==1 && RescanNode==0,"only areas the node is attached to are rescanned, for that node"); CHECK(rescanmax==RMAX,"as many messages as asked for");
      RR
   }
   }
   REACHED("done");
#endif
}
#endif
