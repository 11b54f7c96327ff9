/* SEEN-BY and PATH handling. */
#include "cm.h"
#include "logstub.h"
bool AddNodePath(struct jbList *list,struct Node4D *node);

static int has(struct jbList *l,unsigned net,unsigned node)
{
   struct Nodes2D *t; unsigned c; int n=0;
   for(t=(struct Nodes2D *)l->First;t;t=t->Next) for(c=0;c<t->Nodes;c++) if(t->Net[c]==net && t->Node[c]==node) n++;
   return n;
}
static unsigned count(struct jbList *l) { struct Nodes2D *t; unsigned n=0; for(t=(struct Nodes2D *)l->First;t;t=t->Next) n+=t->Nodes; return n; }
#if MODE==1
static struct Nodes2D pool[CNT/PKT_NUM2D+1]; static unsigned npool; static char textbuf[(CNT/5+1)*80]; static unsigned textsize;
#define NEWCHUNK &pool[npool++]
void *osAlloc(uint32_t n) { textsize=n; CHECK(n<=sizeof(textbuf),"room"); return textbuf; }
#else
#define NEWCHUNK malloc(sizeof(struct Nodes2D))
#endif
/* puts a node at the end of the list without looking whether it is there */
static void put(struct jbList *l,uint16_t net,uint16_t node)
{
   struct Nodes2D *t=(struct Nodes2D *)l->Last;
   if(!t || t->Nodes==PKT_NUM2D) { t=NEWCHUNK; t->Nodes=0; t->Next=NULL; if(l->First) ((struct Nodes2D *)l->Last)->Next=t; else l->First=(void *)t; l->Last=(void *)t; }
   t->Net[t->Nodes]=net; t->Node[t->Nodes]=node; t->Nodes++;
}

#if MODE==1   /* list -> text: every node is in the text, in order, lines at most 79 characters */
static const unsigned P10[6]={1,10,100,1000,10000,100000};
static char *t; static unsigned j,col;
static unsigned num(void) { unsigned v=0; unsigned n; for(n=0;n<NDIG;n++) { v=v*10+(unsigned)(t[j]-'0'); j++; col++; } return v; }
void harness(void)
{
   struct jbList l; unsigned i,k,v; uint16_t net[CNT],node[CNT]; unsigned lastnet=0;
   jbNewList(&l);
   for(i=0;i<CNT-1;i++)
   {
      net[i]=(uint16_t)(P10[NDIG-1]+(i/PER)%8);
      node[i]=(uint16_t)(P10[NDIG-1]+i%8);
      put(&l,net[i],node[i]);
   }
   /* the last node is arbitrary */
   net[i]=SAMENET==1?net[i-1]:SAMENET==0?(uint16_t)(P10[NDIG-1]*3+1):(uint16_t)in_range(NDIG==1?1:P10[NDIG-1],NDIG==5?65535:P10[NDIG]-1);
   node[i]=(uint16_t)in_range(NDIG==1?0:P10[NDIG-1],NDIG==5?65535:P10[NDIG]-1);
   put(&l,net[i],node[i]);
   t=mmMakeSeenByBuf(&l);
   CHECK(t!=NULL,"text made");
   for(i=0;i<CNT;i++)
   {
      if(col && t[j]==13) { CHECK(col<=79,"no line is longer than 79 characters"); j++; col=0; }
      if(!col) { for(k=0;k<8;k++) CHECK(t[j+k]=="SEEN-BY:"[k],"every line starts with SEEN-BY:"); j+=8; col=8; lastnet=0; }
      CHECK(t[j]==' ',"addresses are separated by a space"); j++; col++;
      v=num();
      if(t[j]=='/') { CHECK(v==net[i],"the net of every node is written"); j++; col++; lastnet=net[i]; v=num(); }
      CHECK(lastnet==net[i],"a net is only left out when it is the one before on the same line");
      CHECK(v==node[i],"no node is lost or changed");
   }
   CHECK(t[j]==13,"the last line is terminated"); CHECK(col<=79,"no line is longer than 79 characters");
   CHECK(t[j+1]==0,"nothing else is written");
   CHECK(j+2<=textsize,"the text fits into the memory allocated for it");
   REACHED("written");
}
#endif

#if MODE==2   /* sorting keeps the nodes and orders them */
void harness(void)
{
   struct jbList l; unsigned i,n; uint16_t net[SYM],node[SYM]; struct Nodes2D *t; unsigned c; uint32_t last=0; int first=1;
   jbNewList(&l);
   for(i=0;i<SYM;i++) { net[i]=in_u16(); node[i]=in_u16(); put(&l,net[i],node[i]); }
   CHECK(mmSortNodes2D(&l),"sorted");
   CHECK(count(&l)==SYM,"the number of nodes is preserved");
   { uint16_t x=in_u16(),y=in_u16();   /* any node */
      for(n=0,c=0;c<SYM;c++) if(net[c]==x && node[c]==y) n++;
      CHECK(has(&l,x,y)==(int)n,"no node is lost, changed or doubled"); }
   for(t=(struct Nodes2D *)l.First;t;t=t->Next) for(c=0;c<t->Nodes;c++)
   {
      uint32_t v=((uint32_t)t->Net[c]<<16)|t->Node[c];
      if(!first) CHECK(last<=v,"nodes are in ascending order");
      first=0; last=v;
   }
   REACHED("sorted");
}
#endif

#if MODE==3   /* PATH: the own address is appended, nothing already there is changed */
static const unsigned P10[6]={1,10,100,1000,10000,100000};
void harness(void)
{
   struct jbList l; struct Node4D n; char old[100]; struct Path *p; unsigned i,len,k,net=0,node=0,pt=0; char *s;
   unsigned onet=P10[NDIG-1]+1,onode=P10[NDIG-1]+5;
   jbNewList(&l);
   /* own address: the node is arbitrary, the net is that of the last address or another one */
   n.Zone=1; n.Net=(uint16_t)(SAMENET?onet:onet+1); n.Node=(uint16_t)in_range(NDIG==1?0:P10[NDIG-1],NDIG==5?65535:P10[NDIG]-1); n.Point=(uint16_t)(POINT?P10[NDIG-1]+2:0);
   /* an existing PATH line of OLDLEN characters ending in onet/onode */
   for(i=0;i+2*NDIG+2<OLDLEN;i++) old[i]=i%2?' ':'7';
   if(i && old[i-1]!=' ') old[i++]=' ';
   for(k=NDIG;k>0;k--) old[i++]=(char)('0'+onet/P10[k-1]%10);
   old[i++]='/';
   for(k=NDIG;k>0;k--) old[i++]=(char)('0'+onode/P10[k-1]%10);
   old[i]=0; len=i;
   CHECK(mmAddPath(old,&l),"line added");
   CHECK(AddNodePath(&l,&n),"own address added");
   p=(struct Path *)l.First;
   CHECK(!p->Next,"no other chunk");
   for(i=0;i<len;i++) CHECK(p->Path[0][i]==old[i],"what was in the PATH stays there");
   if(onet==n.Net && onode==n.Node && n.Point==0)
   {
      CHECK(p->Paths==1 && p->Path[0][len]==0,"an address already last in the PATH is not repeated");
#if SAMENET && !POINT
      REACHED("already there");
#endif
      return;
   }
   CHECK(p->Paths==1 || p->Paths==2,"the address is on the last line or on one new line");
   if(p->Paths==1) { s=p->Path[0]; i=len; CHECK(s[i]==' ',"separated by a space"); i++; net=onet; }
   else { CHECK(p->Path[0][len]==0,"the old line is unchanged"); s=p->Path[1]; i=0; net=0; }
   for(node=0,k=0;k<NDIG;k++) node=node*10+(unsigned)(s[i+k]-'0');
   i+=NDIG;
   if(s[i]=='/') { i++; net=node; for(node=0,k=0;k<NDIG;k++) node=node*10+(unsigned)(s[i+k]-'0'); i+=NDIG; }
   if(s[i]=='.') { i++; for(pt=0,k=0;k<NDIG;k++) pt=pt*10+(unsigned)(s[i+k]-'0'); i+=NDIG; }
   CHECK(s[i]==0,"nothing after the address");
   CHECK(i<=73,"the line stays within 80 characters");
   CHECK(net==n.Net && node==n.Node && pt==n.Point,"the address appended to the PATH is our own");
   REACHED("added");
}
#endif

#if MODE==4   /* building the set: each node once, nothing lost; removal by pattern */
void harness(void)
{
   struct jbList l; unsigned i,j,n=0; uint16_t net[SYM],node[SYM];
   jbNewList(&l);
   for(i=0;i<PRE;i++) put(&l,1,(uint16_t)i);
   for(i=0;i<SYM;i++)
   {
      int dup=0;
      net[i]=in_u16(); node[i]=in_u16();
      for(j=0;j<i;j++) if(net[j]==net[i] && node[j]==node[i]) dup=1;
      if(net[i]==1 && node[i]<PRE) dup=1;
      if(!dup) n++;
      CHECK(mmAddNodes2DList(&l,net[i],node[i]),"added");
   }
   CHECK(count(&l)==PRE+n,"a node is added unless it is already there");
   for(i=0;i<SYM;i++) CHECK(has(&l,net[i],node[i])==1,"every node added is there exactly once");
   for(i=0;i<PRE;i++) CHECK(has(&l,1,i)==1,"what was there stays");
   REACHED("added");
}
#endif

#if MODE==5   /* text -> list: the nodes of the line are added to the list, in order (adding: mode 4) */
static uint16_t rn[8],ro[8]; static unsigned rc_; static struct jbList *rl;
bool mmAddNodes2DList(struct jbList *list,uint16_t net,uint16_t node) { if(rc_<8) { rn[rc_]=net; ro[rc_]=node; } rc_++; rl=list; return(TRUE); }
void harness(void)
{
   static char line[SLEN+12]; static struct MemMessage mm; unsigned i,n=0,net=0,v; uint16_t en[SLEN],eo[SLEN];
   for(i=0;i<9;i++) line[i]="SEEN-BY: "[i];
   for(i=0;i<SLEN;i++) line[9+i]=TEMPLATE[i]=='9'?(char)('0'+in_range(0,9)):TEMPLATE[i];
   line[9+SLEN]=13; line[10+SLEN]=0;
   for(i=0;i<SLEN;)
   {
      for(v=0;TEMPLATE[i]=='9';i++) v=v*10+(unsigned)(line[9+i]-'0');
      if(TEMPLATE[i]=='/') { net=v; i++; for(v=0;TEMPLATE[i]=='9';i++) v=v*10+(unsigned)(line[9+i]-'0'); }
      ASSUME(v<=65535 && net<=65535);
      en[n]=(uint16_t)net; eo[n]=(uint16_t)v; n++;
      while(TEMPLATE[i]==' ') i++;
   }
   mm.Area[0]='A'; mm.Area[1]=0;
   CHECK(mmAddLine(&mm,line),"line read");
   CHECK(!mm.TextChunks.First,"a SEEN-BY line is control information, not text");
   CHECK(rc_==n && rl==&mm.SeenBy,"as many nodes as the line has are added to the SEEN-BY list");
   for(i=0;i<n;i++) CHECK(rn[i]==en[i] && ro[i]==eo[i],"every node of the line is read");
   REACHED("read");
}
#endif
