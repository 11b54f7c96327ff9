/* Reply links in a JAM messagebase (mb_jam.c); the JAM library is a stand-in (C20 decides the library). */
#include "cm.h"
#include "logstub.h"
#include "jamlib/jam.h"
#include <stdlib.h>
bool jam_beforefunc(void); int jam_linkmb(struct Area *area,uint32_t oldnum);
#ifndef N
#define N 3
#endif
#ifndef LINKS
#define LINKS 1
#endif
#define IDL 2
static s_JamBase base_; static struct Area area; static int locked,lockfails,rereadfails,wrote; static bool unread[N];
static s_JamMsgHeader h[N],h0[N]; static s_JamSubfield fm[N],fr[N],fx; static char bm[N][IDL],br[N][IDL]; static bool hasm[N],hasr[N]; static s_JamSubPacket pk[N]; static int inuse[N]; static unsigned cur,curi;
int JAM_OpenMB(char *n,s_JamBase **b) { *b=&base_; return 0; }
int JAM_CreateMB(char *n,uint32_t no,s_JamBase **b) { CHECK(0,"an existing base is not created"); return 1; }
int JAM_CloseMB(s_JamBase *b) { return 0; }
int JAM_GetMBSize(s_JamBase *b,uint32_t *n) { *n=N; return 0; }
int JAM_ReadMBHeader(s_JamBase *b,s_JamBaseHeader *hd) { hd->BaseMsgNum=BASE; return 0; }
int JAM_LockMB(s_JamBase *b,int t) { CHECK(b==&base_,"that base"); if(lockfails) return JAM_LOCK_FAILED; CHECK(!locked,"locked once"); locked=1; return 0; }
int JAM_UnlockMB(s_JamBase *b) { CHECK(locked,"unlocked once"); locked=0; return 0; }
int JAM_ReadMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *p,s_JamSubPacket **sp)
{
   CHECK(n<N,"a message of the base"); if(unread[n] || (locked && rereadfails)) return JAM_NO_MESSAGE;
   *p=h[n]; if(sp) { inuse[n]++; *sp=&pk[n]; } return 0;
}
int JAM_ChangeMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *p)
{
   CHECK(locked && n<N,"changed under the lock"); wrote=1; 
   CHECK(p->MsgIdCRC==h[n].MsgIdCRC && p->ReplyCRC==h[n].ReplyCRC && p->Attribute==h[n].Attribute && p->MsgNum==h[n].MsgNum && p->TxtOffset==h[n].TxtOffset && p->TxtLen==h[n].TxtLen && p->DateWritten==h[n].DateWritten && p->SubfieldLen==h[n].SubfieldLen && p->TimesRead==h[n].TimesRead && p->Cost==h[n].Cost && p->PasswordCRC==h[n].PasswordCRC,"only the links change");
   h[n].ReplyTo=p->ReplyTo; h[n].Reply1st=p->Reply1st; h[n].ReplyNext=p->ReplyNext; return 0;
}
int JAM_DelSubPacket(s_JamSubPacket *p) { unsigned i; for(i=0;i<N;i++) if(p==&pk[i]) { CHECK(inuse[i]>0,"freed once"); inuse[i]--; return 0; } CHECK(0,"a packet that was read"); return 0; }
s_JamSubfield *JAM_GetSubfield(s_JamSubPacket *p)
{
   if(p) { for(cur=0;cur<N-1 && p!=&pk[cur];cur++); curi=0; }
   curi++;
   if(curi==1) return &fx;
   if(curi==2) { if(hasm[cur]) return &fm[cur]; curi=3; }
   if(curi==3) { if(hasr[cur]) return &fr[cur]; curi=4; }
   return NULL;
}
struct shape1 { uint32_t lastuse; s_JamBase *b; void *area; }; struct shape2 { void *Next; struct Area *area; s_JamBase *b; uint32_t n[4]; bool newmsg; };
static struct shape1 s1[2]; static struct shape2 s2; static struct { uint32_t x[8]; } s3[N]; static struct { unsigned long x[8]; } s4[N]; static int u1,u2;
void *osAllocCleared(uint32_t n)
{
   if(n==sizeof(s1) && !u1) { u1=1; return s1; }
   if(n==sizeof(s2) && !u2) { u2=1; return &s2; }
   return calloc(1,n);
}
void *osAlloc(uint32_t n) { if(n==sizeof(s3)) return s3; if(n==sizeof(s4)) return s4; return calloc(1,n); }
void osFree(void *p) { }
static bool match(unsigned d,unsigned c)   /* c answers d */
{
   unsigned i; bool same=h0[d].MsgIdCRC==h0[c].ReplyCRC && h0[c].ReplyCRC!=0xffffffff && !unread[d] && !unread[c] && d!=c;
   if(QUICK) return same;
   if(!hasm[d] || !hasr[c] || fm[d].DatLen!=fr[c].DatLen) same=FALSE;
   for(i=0;i<IDL;i++) if(i<fr[c].DatLen && bm[d][i]!=br[c][i]) same=FALSE;
   return same;
}
#define IN(v) ((v)>=BASE && (v)<BASE+N)
static bool acyclic(s_JamMsgHeader *x) { unsigned i,k; bool ok=TRUE; for(i=0;i<N;i++) { uint32_t v=x[i].ReplyNext; for(k=0;k<N;k++) { if(!IN(v)) break; v=x[v-BASE].ReplyNext; } if(IN(v)) ok=FALSE; } return ok; }
static uint32_t link_(void) { unsigned k=in_range(0,N),i; for(i=1;i<=N;i++) if(k==i) return BASE+i-1; return 0; }
void harness(void)
{
   unsigned i,j,k; int r; bool newly[N];
   config.cfg_jam_MaxOpen=2; config.cfg_jam_Flags=QUICK?CFG_JAM_QUICKLINK:0; fx.LoID=JAMSFLD_SUBJECT; fx.Buffer="ab"; fx.DatLen=2;
   for(i=0;i<N;i++)
   {
      h[i].MsgIdCRC=in_u32(); h[i].ReplyCRC=in_u32(); h[i].Attribute=in_u32(); h[i].MsgNum=BASE+i; h[i].TxtOffset=100*i; h[i].TxtLen=7; h[i].DateWritten=in_u32(); h[i].SubfieldLen=30+i; h[i].TimesRead=3; h[i].Cost=5; h[i].PasswordCRC=6;
      unread[i]=in_bool(); hasm[i]=in_bool(); hasr[i]=in_bool();
      fm[i].LoID=JAMSFLD_MSGID; fm[i].Buffer=bm[i]; fm[i].DatLen=in_range(0,IDL); fr[i].LoID=JAMSFLD_REPLYID; fr[i].Buffer=br[i]; fr[i].DatLen=in_range(0,IDL);
      for(j=0;j<IDL;j++) { bm[i][j]=(char)in_range(1,255); br[i][j]=(char)in_range(1,255); }
#if MODE==1
      if(!unread[i]) { if(LINKS) { h[i].ReplyTo=link_(); h[i].Reply1st=link_(); h[i].ReplyNext=link_(); } }
      /* a base as programs leave it: links lead to messages of the base, chains end, messages outside all chains lead nowhere */
      ASSUME((!h[i].ReplyTo || IN(h[i].ReplyTo)) && (!h[i].Reply1st || IN(h[i].Reply1st)) && (!h[i].ReplyNext || IN(h[i].ReplyNext)));
      ASSUME(h[i].ReplyTo || !h[i].ReplyNext);
#elif MODE==2
      if(!unread[i]) { h[i].ReplyTo=in_u32(); h[i].Reply1st=in_u32(); h[i].ReplyNext=in_u32(); }
      ASSUME(!IN(h[i].ReplyNext) || h[i].ReplyNext>BASE+i); ASSUME(h[i].ReplyTo || !h[i].ReplyNext);
#else
      unread[i]=FALSE; hasm[i]=hasr[i]=TRUE; fm[i].DatLen=fr[i].DatLen=1; bm[i][0]='a'+i; br[i][0]=i?'a':'z'; h[i].MsgIdCRC=100+i; h[i].ReplyCRC=i?100:0xffffffff; h[i].ReplyTo=i==N-1?0:BASE; h[i].Reply1st=i?0:BASE+1; h[i].ReplyNext=i==0?0:i==N-2?BASE+1:i==N-1?0:BASE+i+1;   /* a ring of answers to the first */
#endif
   }
#if MODE==1
   ASSUME(acyclic(h));
   for(i=0;i<N;i++) for(j=0;j<N;j++) ASSUME(!(h[j].Reply1st==BASE+i || h[j].ReplyNext==BASE+i) || h[i].ReplyTo);
#endif
   for(i=0;i<N;i++) h0[i]=h[i];
#if MODE==1
   lockfails=in_bool(); rereadfails=in_bool();
#endif
   jam_beforefunc();
   r=jam_linkmb(&area,OLDNUM);
   CHECK(!locked,"not locked afterwards"); for(i=0;i<N;i++) CHECK(!inuse[i],"everything freed");
   if(lockfails) { CHECK(!wrote,"nothing without the lock"); return; }
   if(rereadfails) return;
   CHECK(r,"linked");
   for(i=0;i<N;i++)
   {
      bool ans=FALSE,to=FALSE;
      for(j=0;j<N;j++) if(match(j,i) && (i>=OLDNUM || j>=OLDNUM)) { ans=TRUE; if(h[i].ReplyTo==BASE+j) to=TRUE; }
      newly[i]=!h0[i].ReplyTo && ans;
      if(h0[i].ReplyTo || !ans) CHECK(h[i].ReplyTo==h0[i].ReplyTo,"only answers are linked, once");
      else if(MODE!=3) CHECK(to,"an answer is linked to the message it answers");
   }
   for(i=0;i<N;i++)
   {
      bool one=FALSE,is=FALSE,isn=FALSE;
      for(j=0;j<N;j++) if(newly[j] && h[j].ReplyTo==BASE+i) { one=TRUE; if(h[i].Reply1st==BASE+j) is=TRUE; }
      if(h0[i].Reply1st || !one) CHECK(h[i].Reply1st==h0[i].Reply1st,"the first answer stays");
      else CHECK(is,"the first answer is one of the answers");
      for(j=0;j<N;j++) if(newly[j] && j!=i && h[i].ReplyNext==BASE+j) isn=TRUE;
      if(h0[i].ReplyNext) CHECK(h[i].ReplyNext==h0[i].ReplyNext,"chains are only continued");
      else CHECK(!h[i].ReplyNext || isn,"chains lead to new answers");
   }
#if MODE==1
   CHECK(acyclic(h),"chains end");
   for(i=0;i<N;i++) if(newly[i])
   {
      uint32_t v=h[h[i].ReplyTo-BASE].Reply1st; bool f=FALSE;
      for(k=0;k<N;k++) { if(v==BASE+i) f=TRUE; if(!IN(v)) break; v=h[v-BASE].ReplyNext; }
      CHECK(f,"every answer is found from the message it answers");
   }
#endif
   REACHED("end");
}
