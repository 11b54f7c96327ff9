/* Outgoing mail is never lost on its way from a finished packet to the outbound. */
#include "cm.h"
#include "logstub.h"
#include "nofp.h"
struct Pkt { struct Pkt *Next; osFile fh; uint32_t hexnum; uint32_t Len; uint16_t Type; struct Node4D Dest; struct Node4D Orig; };
bool doAddFlow(char *filename,char *basename,char type,long mode);
bool PackFile(char *file);
void HandleOrphan(char *name);
void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode);
void MakeArcName(struct ConfigNode *cnode,char *dest);
void MakeBaseName(struct Node4D *n4d,char *basename);
void FinishPacket(struct Pkt *pkt);
#ifndef TEXTLEN
#define TEXTLEN 9
#endif
#define NEWSZ (SIZE_PKTHEADER+TEXTLEN+2)
#define OLDSZ (SIZE_PKTHEADER+3+2)
static uint8_t newp[NEWSZ],oldp[64];
static unsigned nold;
#define BASE "o/00050006.pnt/00000007"
static void faults(unsigned n)
{
#if FAULT==1
   vfs_fail_at=in_range(0,n); vfs_fail_len=in_bool()?1:1000; vfs_rfail_at=in_range(0,3);
#elif FAULT==2
   vfs_crash_at=in_range(1,n);
#endif
}
static int same(int s,const uint8_t *p,unsigned n)
{
   unsigned i;
   if(!vfs_f[s].used || vfs_f[s].size!=n) return 0;
   for(i=0;i<n;i++) if(vfs_f[s].data[i]!=p[i]) return 0;
   return 1;
}
#define FL(s) same(s,(const uint8_t *)flow,nflow)
static void setup(void)
{
   static struct Aka aka; unsigned i;
   aka.Node.Zone=2; aka.Node.Net=1; aka.Node.Node=1; jbAddNode(&config.AkaList,(struct jbNode *)&aka);
   vh_cpy(config.cfg_Outbound,"o"); vh_cpy(config.cfg_PacketDir,"p"); vh_cpy(config.cfg_PacketCreate,"c");
   for(i=0;i<NEWSZ;i++) newp[i]=i<NEWSZ-2?in_u8():0;
   for(i=0;i<OLDSZ;i++) oldp[i]=i<OLDSZ-2?in_u8():0;
}
#if MODE==1 || MODE==2 || MODE==3
#define BSY BASE ".bsy"
static int busy;
#endif

#if MODE==1
/* netmail packets are appended to the mail waiting for the node */
void harness(void)
{
   int src,out,bsy,r,i,full; uint8_t want[NEWSZ+OLDSZ]; unsigned n=0;
   setup();
   src=vfs_create("c/0000002a_" TYPE "_2_5_6_7.newpkt",newp,NEWSZ);
   out=vfs_slot(BASE EXT); bsy=vfs_slot(BSY);
   if(OLD) { vfs_create(BASE EXT,oldp,OLDSZ); for(i=0;i<OLDSZ-2;i++) want[n++]=oldp[i]; for(i=SIZE_PKTHEADER;i<NEWSZ;i++) want[n++]=newp[i]; }
   else for(i=0;i<NEWSZ;i++) want[n++]=newp[i];
   busy=in_bool(); if(busy) { vfs_f[bsy].used=1; vfs_f[bsy].size=0; }
   faults(12);
   r=PackFile("c/0000002a_" TYPE "_2_5_6_7.newpkt");
   full=same(out,want,n);
   if(OLD) { CHECK(vfs_f[out].used && vfs_f[out].size>=OLDSZ-2,"mail already waiting is not removed"); for(i=0;i<OLDSZ-2;i++) CHECK(vfs_f[out].data[i]==oldp[i],"mail already waiting is not changed"); }
   CHECK(same(src,newp,NEWSZ) || full,"the packet is either still there or completely in the outbound");
   if(busy) { CHECK(!r && same(src,newp,NEWSZ) && vfs_f[bsy].used && (OLD?same(out,oldp,OLDSZ):!vfs_f[out].used),"nothing is done while the mailer is busy with the node"); return; }
#if FAULT!=2
   if(r) CHECK(full,"success only when the packet is completely in the outbound");
   else CHECK(same(src,newp,NEWSZ),"after a failure the packet is still there under its name");
   if(!r && !OLD && vfs_fail_len==1) CHECK(!vfs_f[out].used,"no incomplete packet is left in the outbound");
   CHECK(!vfs_open_handles(),"all files are closed");
#if FAULT==0
   CHECK(r && !vfs_f[src].used && !vfs_f[bsy].used && full,"without errors the packet is moved to the outbound and the node released");
   REACHED("moved");
#else
   if(r && !vfs_f[src].used) REACHED("moved");
   if(!r) REACHED("kept");
#endif
#else
   if(!full) REACHED("not moved");
   if(full && vfs_f[src].used) REACHED("copied, not deleted");
#endif
}
#endif

#if MODE==2 || MODE==3
#define ARC "p/0000abcd.mo0"
#define SRC "c/0000002a_Echomail_2_5_6_7.newpkt"
#if MODE==2
#define PKT "c/0000002a.pkt"
#define SENT ARC
#else
#define PKT "p/0000002a.pkt"
#define SENT PKT
#endif
static struct ConfigNode cn; static struct Packer pk;
static int src,pkt,arc,stored,ran,rc,before,rcb;
void MakeArcName(struct ConfigNode *c,char *d) { CHECK(c==&cn,"bundle of the destination"); vh_cpy(d,"0000abcd.mo0"); }
void UpdateFile(char *n) { }
#if MODE==2
int vh_system(const char *c)
{
   if(vfs_crash_at && vfs_op+1>=vfs_crash_at) return 256; /* not alive any more */
   if(c[0]=='b') { before++; CHECK(vh_eq(c,"b " ARC " " PKT),"command before packing"); return rcb; }
   ran++;
   CHECK(vh_eq(c,"z " ARC " " PKT),"the packer is called with the bundle and the packet");
   CHECK(vfs_f[vfs_slot(BSY)].used,"the bundle is changed only while the node is locked");
   CHECK(before==(config.cfg_BeforePack[0]!=0),"command before packing is run first");
   if(rc==0 && same(pkt,newp,NEWSZ)) { stored=1; vfs_f[arc].used=1; vfs_f[arc].size=1; }
   return same(pkt,newp,NEWSZ)?rc:1;
}
#endif
static const char oldflow[]="^p/other.mo0\n#o/x\n";
#define ENTRY "^" SENT "\n"
void harness(void)
{
   int r,bsy,flow,orph; static uint8_t want[64],wo[64]; unsigned n=0,i,no=0; int inflow,inorph;
   const char *ot= PRI==PKTS_HOLD?"Hold 2:5/6.7 Delete\n":PRI==PKTS_DIRECT?"Direct 2:5/6.7 Delete\n":PRI==PKTS_CRASH?"Crash 2:5/6.7 Delete\n":"Normal 2:5/6.7 Delete\n";
   setup();
   src=vfs_create(SRC,newp,NEWSZ); pkt=vfs_slot(PKT); arc=vfs_slot(ARC); bsy=vfs_slot(BSY); flow=vfs_slot(BASE EXT); orph=vfs_slot(SENT ".orphan");
   cn.Node.Zone=2; cn.Node.Net=5; cn.Node.Node=6; cn.Node.Point=7; cn.EchomailPri=PRI;
#if KNOWN
   jbAddNode(&config.CNodeList,(struct jbNode *)&cn);
#endif
#if MODE==2
   cn.Packer=&pk; vh_cpy(pk.Packer,"z %a %f"); if(BEFORE) vh_cpy(config.cfg_BeforePack,"b %a %f");
   rc=in_u16(); rcb=in_u16(); /* wait status: exit code or signal */
#define WS(x) (((x)&0x7f)?((x)&0x7f)!=0x7f && (x)<256:!((x)&0x80))
   ASSUME(WS(rc) && WS(rcb));
#endif
   if(OLD) { for(i=0;i<sizeof(oldflow)-1;i++) want[n++]=(uint8_t)oldflow[i]; vfs_create(BASE EXT,want,n); }
   for(i=0;i<sizeof(ENTRY)-1;i++) want[n++]=(uint8_t)ENTRY[i];
   for(i=0;ot[i];i++) wo[no++]=(uint8_t)ot[i];
   busy=in_bool(); if(busy) { vfs_f[bsy].used=1; vfs_f[bsy].size=0; }
   faults(14);
   r=PackFile(SRC);
#if MODE==3
   stored=same(pkt,newp,NEWSZ);
#endif
   inflow=same(flow,want,n); inorph=same(orph,wo,no);
   if(OLD) for(i=0;i<sizeof(oldflow)-1;i++) CHECK(vfs_f[flow].used && vfs_f[flow].size>i && vfs_f[flow].data[i]==(uint8_t)oldflow[i],"files already waiting are still listed");
   CHECK(same(src,newp,NEWSZ) || same(pkt,newp,NEWSZ) || stored,"the packet is either still there or stored");
   if(busy) { CHECK(!r && same(src,newp,NEWSZ) && vfs_f[bsy].used && !ran && !vfs_f[pkt].used,"nothing is done while the mailer is busy with the node"); return; }
#if FAULT!=2
   if(r) { CHECK(stored && (inflow || inorph || vfs_fail_len>1),"success only when the packet is stored and listed for sending, or noted as orphan"); }
   else CHECK(same(src,newp,NEWSZ) || (vfs_fail_at && same(pkt,newp,NEWSZ)),"after a failure the packet is still there");
   if(!r && FAULT==0) CHECK(same(src,newp,NEWSZ),"after a failure the packet is there under its name");
   CHECK(!vfs_open_handles(),"all files are closed");
#if FAULT==0
   CHECK(!vfs_f[bsy].used,"the node is released");
   CHECK(r==(rc==0 && (!BEFORE || rcb==0)),"success when packing succeeded");
   if(r) { CHECK(inflow && !vfs_f[src].used && !vfs_f[orph].used,"without errors the packet is moved and listed once"); REACHED("sent"); }
#if MODE==2
   else REACHED("kept");
#endif
#else
   if(r && inorph) REACHED("orphan");
   if(!r) REACHED("kept");
#endif
#else
   if(!stored) REACHED("not stored");
   if(stored && !inflow) REACHED("stored, not listed");
#endif
}
#endif

#if MODE==4
/* names in the outbound */
static char made[2][40]; static int nmade; static int ex;
bool Compare_ok;
int Compare4DPat(struct Node4DPat *p,struct Node4D *n) { return ex?0:1; }
static const char hx[]="0123456789abcdef";
void harness(void)
{
   static struct Aka a1,a2; static struct Route rt; struct Node4D n; char b[200],w[64]; unsigned k=0,i; int other;
   a1.Node.Zone=in_u16(); n.Zone=in_u16(); n.Net=in_u16(); n.Node=in_u16(); n.Point=in_u16();
   ASSUME(n.Zone<=0xfff);
   if(PT) ASSUME(n.Point!=0); else ASSUME(n.Point==0);
   jbAddNode(&config.AkaList,(struct jbNode *)&a1); jbAddNode(&config.AkaList,(struct jbNode *)&a2);
   jbAddNode(&config.RouteList,(struct jbNode *)&rt); rt.Aka=&a2; ex=in_bool();
   if(D1) vh_cpy(a1.Domain,"FidoNet"); if(D2) vh_cpy(a2.Domain,D2==1?"fidonet":"other");
   vh_cpy(config.cfg_Outbound,SLASH?"d/out/":"d/out");
   MakeBaseName(&n,b);
   other=ex && D1 && D2==2;
   w[k++]='d'; w[k++]='/';
   if(other) { vh_cpy(w+k,"other"); k+=5; } else { vh_cpy(w+k,"out"); k+=3; if(n.Zone!=a1.Node.Zone) { w[k++]='.'; w[k++]=hx[(n.Zone>>8)&15]; w[k++]=hx[(n.Zone>>4)&15]; w[k++]=hx[n.Zone&15]; } }
   w[k++]='/';
   for(i=0;i<4;i++) w[k++]=hx[(n.Net>>(12-4*i))&15];
   for(i=0;i<4;i++) w[k++]=hx[(n.Node>>(12-4*i))&15];
   if(PT) { vh_cpy(w+k,".pnt/0000"); k+=9; for(i=0;i<4;i++) w[k++]=hx[(n.Point>>(12-4*i))&15]; }
   w[k]=0;
   CHECK(vh_eq(b,w),"mail for a node is stored under its BinkleyTerm outbound name");
   REACHED("named");
}
#endif

#if MODE==6
/* a file that could not be listed is noted and listed later exactly as it would have been */
void harness(void)
{
   int flow,orph,r; static uint8_t want[64]; unsigned n=0,i; const char *e; struct Node4D nd; static struct ConfigNode cn;
   setup();
   nd.Zone=2; nd.Net=5; nd.Node=6; nd.Point=7;
   config.cfg_Flags=CRLF?CFG_FLOWCRLF:0;
   flow=vfs_slot(BASE EXT);
   if(OLDTXT[0]) { for(i=0;OLDTXT[i];i++) want[n++]=(uint8_t)OLDTXT[i]; vfs_create(BASE EXT,want,n); }
#if ORPHAN
   MakeOrphan("p/0000abcd.mo0",&nd,PRI,FMODE);
   orph=vfs_find("p/0000abcd.mo0.orphan");
   CHECK(orph>=0,"noted");
   HandleOrphan("p/0000abcd.mo0.orphan");
   CHECK(!vfs_f[orph].used,"the note is removed once the file is listed");
   CHECK(!vfs_f[vfs_slot(BASE ".bsy")].used,"the node is released");
#else
   r=AddFlow("p/0000abcd.mo0",&nd,PRI,FMODE);
   CHECK(r,"listed");
   CHECK(!vfs_f[vfs_slot(BASE ".bsy")].used,"the node is released");
#endif
   if(!LISTED)
   {
      if(FMODE==FLOW_DELETE) want[n++]='^'; if(FMODE==FLOW_TRUNC) want[n++]='#';
      for(e="p/0000abcd.mo0";*e;e++) want[n++]=(uint8_t)*e;
      if(CRLF) want[n++]=13;
      want[n++]=10;
   }
   CHECK(same(flow,want,n),"a file is listed exactly once, with the entries before it untouched");
   CHECK(!vfs_open_handles(),"all files are closed");
   REACHED("listed");
}
#endif

#if MODE==7
/* finishing a packet */
static struct Pkt pk;
void jbFreeNode(struct jbList *l,struct jbNode *n) { }
void harness(void)
{
   int a,b,i; static uint8_t want[16];
   setup();
   for(i=0;i<6;i++) want[i]=newp[i]; want[6]=want[7]=0;
   pk.hexnum=0x2a; pk.Type=TYPE; pk.Dest.Zone=2; pk.Dest.Net=5; pk.Dest.Node=6; pk.Dest.Point=7;
   pk.fh=osOpen("c/0000002a.newpkt",MODE_NEWFILE); a=vfs_slot("c/0000002a.newpkt"); b=vfs_slot("c/0000002a_" TNAME "_2_5_6_7.newpkt");
   osWrite(pk.fh,want,6);
   ioerror=FALSE; vfs_op=0; faults(5);
   FinishPacket(&pk);
   if(!ioerror && vfs_fail_at!=4) CHECK(same(a,want,8) || same(b,want,8),"without reported error the packet is complete on disk");
   if(!ioerror && !vfs_fail_at) { CHECK(same(b,want,8),"the packet is named after its destination"); REACHED("finished"); }
#if FAULT
   if(ioerror) REACHED("error");
#endif
   CHECK(!vfs_open_handles(),"all files are closed");
}
#endif

#if MODE==5
/* bundle names */
void WriteIndex(void) { static int n; n++; CHECK(n==1,"index written once"); }
extern struct jbList ArcList;
static struct ConfigNode me,other;
static struct osFileEntry fe[3];
void harness(void)
{
   char d[32]; static const char *dn[]={"su","mo","tu","we","th","fr","sa"}; static const char *ex[]={EXIST}; unsigned i,n; int have=-1,r,sfx=-1,want,nx,taken=0; uint32_t base;
   vh_now=86400*(3+DAY)+0x2a00; /* 1970-01-04 was a Sunday */
   config.cfg_MaxBundleSize=in_u32(); config.cfg_Flags=in_bool()?CFG_WEEKDAYNAMING:0;
   vh_cpy(me.LastArcName,LAST); vh_cpy(other.LastArcName,OTHER);
   jbAddNode(&config.CNodeList,(struct jbNode *)&other); jbAddNode(&config.CNodeList,(struct jbNode *)&me);
   n=sizeof(ex)/sizeof(ex[0]);
   for(i=0;i<n && ex[i][0];i++) { vh_cpy(fe[i].Name,ex[i]); fe[i].Size=in_u32(); jbAddNode(&ArcList,(struct jbNode *)&fe[i]); if(vh_ieq(ex[i],LAST)) have=(int)i; }
   n=i;
   MakeArcName(&me,d);
   CHECK(IsArc(d),"the name is a bundle name");
   CHECK(vh_ieq(me.LastArcName,d),"the name is remembered");
   for(i=0;i<7;i++) if(d[9]==dn[i][0] && d[10]==dn[i][1]) sfx=(int)i*10+(d[11]-'0');
   for(i=0;i<n;i++) if((int)i!=have && vh_ieq(fe[i].Name,d)) taken=1;
   CHECK(!taken,"mail is never added to a bundle that is not the node's current one");
   if(!LAST[0])
   {
      int dup=0; unsigned k;
      for(i=0;i<n;i++) { for(k=0;k<8 && vh_lower(fe[i].Name[k])==d[k];k++); if(k==8) dup=1; }
      for(k=0;k<8 && vh_lower(OTHER[k])==d[k];k++); if(k==8) dup=1;
      CHECK(!dup,"a node without bundles gets a number nobody uses");
      CHECK(sfx==((config.cfg_Flags & CFG_WEEKDAYNAMING)?DAY*10:0),"and starts with the first name");
   }
   else
   {
      static const char l[]=LAST; int ls=0,keep;
      for(i=0;i<7;i++) if(vh_lower(l[9])==dn[i][0] && vh_lower(l[10])==dn[i][1]) ls=(int)i*10+(l[11]-'0');
      for(i=0;i<8;i++) CHECK(d[i]==vh_lower(l[i]),"a node keeps its number");
      keep=have>=0 && fe[have].Size>0 && fe[have].Size<=config.cfg_MaxBundleSize && (!(config.cfg_Flags & CFG_WEEKDAYNAMING) || ls/10==DAY);
      nx=ls+1; if(nx==70) nx=0; if((config.cfg_Flags & CFG_WEEKDAYNAMING) && nx/10!=DAY) nx=DAY*10;
      for(i=0;i<n;i++) if((int)i!=have && vh_lower(fe[i].Name[9])==dn[nx/10][0] && vh_lower(fe[i].Name[10])==dn[nx/10][1] && fe[i].Name[11]=='0'+nx%10 && vh_lower(fe[i].Name[7])==vh_lower(l[7])) keep=1;
      if(have>=0 && nx==ls) keep=1;
      CHECK(sfx==(keep?ls:nx),"the bundle is continued until it is sent or too large, then the next name is used unless it is taken");
   }
   REACHED("named");
}
#endif

#if MODE==8
/* one run over the outbound */
static int packed[2],res[2],orph,idx; static uint8_t pa[4],pb[4];
#define NEWP "c/0000002a_Normal_2_5_6_7.newpkt"
#define TMPP "p/0000002b_Crash_2_5_6_7.pkttmp"
bool PackFile(char *f)
{
   int i=vh_eq(f,NEWP)?0:vh_eq(f,TMPP)?1:-1;
   CHECK(i>=0,"packets are found where they are"); CHECK(!packed[i],"each packet is handled once"); packed[i]=1;
   if(i==0) CHECK(packed[1],"older packets first");
   if(res[i]) vfs_f[vfs_slot(f)].used=0;
   return res[i];
}
void HandleOrphan(char *n) { CHECK(vh_eq(n,"p/00000001.mo0.orphan"),"orphans are found"); orph++; }
void ReadIndex(void) { idx++; }
bool SortFEList(struct jbList *l) { return(TRUE); }
extern struct jbList ArcList;
void harness(void)
{
   int a,b,t,z,k,r,m; 
   setup();
   in_buf(pa,4); in_buf(pb,4);
   a=vfs_create(NEWP,pa,4); b=vfs_create(TMPP,pb,4); z=vfs_create("p/00000003.tu1",pa,0); k=vfs_create("p/00000001.mo0",pa,1); vfs_create("p/00000001.mo0.orphan",pa,1);
   m=vfs_create("p/00000004.pkt",pa,0);
   t=vfs_slot("p/0000002a_Normal_2_5_6_7.pkttmp");
   res[0]=in_bool(); res[1]=in_bool();
#if FAULT
   vfs_fail_at=in_range(0,3);
#endif
   r=ArchiveOutbound();
   CHECK(packed[0] && packed[1] && orph==1 && idx==1,"everything is handled once");
   CHECK(res[1]?!vfs_f[b].used:same(b,pb,4),"an old packet that could not be stored is kept");
   if(!res[0]) CHECK(same(t,pa,4) || same(a,pa,4),"a new packet that could not be stored is kept for the next run");
   if(!res[0] && !FAULT) CHECK(same(t,pa,4) && !vfs_f[a].used,"under a name that is found by the next run");
   if(r && !res[0]) CHECK(same(t,pa,4),"success only if it is");
   if(!FAULT) CHECK(r && !vfs_f[z].used,"empty bundles are removed");
   CHECK(vfs_f[k].used && vfs_f[m].used,"nothing else is removed");
   CHECK(!ArcList.First,"lists are freed");
   REACHED("done");
}
#endif

#if MODE==9
/* appending fails, and is tried again later */
void harness(void)
{
   int out,r,i; uint8_t want[NEWSZ+OLDSZ]; unsigned n=0;
   setup();
   vfs_create("c/0000002a_Normal_2_5_6_7.newpkt",newp,NEWSZ);
   out=vfs_slot(BASE ".out"); vfs_slot(BASE ".bsy");
   vfs_create(BASE ".out",oldp,OLDSZ); for(i=0;i<OLDSZ-2;i++) want[n++]=oldp[i]; for(i=SIZE_PKTHEADER;i<NEWSZ;i++) want[n++]=newp[i];
   vfs_fail_at=in_range(0,7);
   r=PackFile("c/0000002a_Normal_2_5_6_7.newpkt");
   ASSUME(!r);
   vfs_fail_at=0; ioerror=FALSE; vfs_f[vfs_slot(BASE ".bsy")].used=0;
   r=PackFile("c/0000002a_Normal_2_5_6_7.newpkt");
   CHECK(r,"the next run succeeds");
   REACHED("again");
   CHECK(same(out,want,n),"appending again after a failure gives the packet that should have been there");
}
#endif
