/* Messages into and out of a JAM messagebase (mb_jam.c); the JAM library is a recording stand-in (C20 decides the library). */
#include "cm.h"
#include "logstub.h"
#include "jamlib/jam.h"
#include <stdlib.h>
extern long jam_utcoffset;
bool jam_beforefunc(void); bool jam_importfunc(struct MemMessage *mm,struct Area *area);
bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*h)(struct MemMessage *mm));
bool jam_exportfunc(struct Area *area,bool (*h)(struct MemMessage *mm));
static int vh_same(const char *a,const char *b) { unsigned i; for(i=0;a[i] && a[i]==b[i];i++); return a[i]==b[i]; }
#if MODE==4 && defined(VH_CBMC)
char *strcat(char *d,const char *s) { return d; }   /* the text of the lines does not matter here */
#endif
static s_JamBase base_; static struct Area area; static struct Aka aka; static int locked,lockfails,unlockfails,opened;
static uint32_t nmsgs,basenum;
int JAM_OpenMB(char *n,s_JamBase **b) { CHECK(n==area.Path,"the base of the area"); opened++; *b=&base_; return 0; }
int JAM_CreateMB(char *n,uint32_t no,s_JamBase **b) { CHECK(0,"an existing base is not created"); return 1; }
int JAM_CloseMB(s_JamBase *b) { return 0; }
int JAM_GetMBSize(s_JamBase *b,uint32_t *n) { *n=nmsgs; return 0; }
int JAM_ReadMBHeader(s_JamBase *b,s_JamBaseHeader *h) { h->BaseMsgNum=basenum; return 0; }
int JAM_LockMB(s_JamBase *b,int t) { CHECK(b==&base_,"that base"); if(lockfails) return JAM_LOCK_FAILED; CHECK(!locked,"locked once"); locked=1; return 0; }
int JAM_UnlockMB(s_JamBase *b) { CHECK(locked,"unlocked once"); locked=0; return unlockfails?JAM_IO_ERROR:0; }
uint32_t JAM_Crc32(char *b,uint32_t n) { return n?(uint32_t)(0x1000*n+(uint8_t)b[0]):0xffffffff; }
static s_JamSubPacket pk; static int packs;
s_JamSubPacket *JAM_NewSubPacket(void) { packs++; return &pk; }
int JAM_DelSubPacket(s_JamSubPacket *p) { CHECK(p==&pk && packs==1,"freed once"); packs--; return 0; }
#define NF 24
#define FL 100
static struct rec { uint16_t id; unsigned len; char d[FL]; } got[NF],want[NF]; static unsigned ngot,nwant;
static void expect(uint16_t id,const char *s,unsigned n) { unsigned i; want[nwant].id=id; want[nwant].len=n; for(i=0;i<n;i++) want[nwant].d[i]=s[i]; nwant++; }
static void compare(void)   /* for every type the same fields in the same order; the order of different types does not matter */
{
   unsigned i,j,k,a,b;
   CHECK(ngot==nwant,"exactly the fields of the message");
   for(i=0;i<nwant;i++)
   {
      for(a=0,j=0;j<i;j++) if(want[j].id==want[i].id) a++;
      for(b=0,j=0;j<ngot;j++) if(got[j].id==want[i].id && b++==a) break;
      CHECK(j<ngot,"every field"); if(j>=ngot) return;
      CHECK(got[j].len==want[i].len,"with its length");
      for(k=0;k<want[i].len;k++) CHECK(got[j].d[k]==want[i].d[k],"with its data");
   }
}
/* memory in typed pieces where the shapes are known (constants stay constant) */
struct shape1 { uint32_t lastuse; s_JamBase *b; void *area; }; struct shape2 { void *Next; struct Area *area; s_JamBase *b; uint32_t n[4]; bool newmsg; };
static struct shape1 s1[2]; static struct shape2 s2; static int u1,u2; static char big[400]; static int bigused;
void *osAllocCleared(uint32_t n)
{
   if(n==sizeof(s1) && !u1) { u1=1; return s1; }
   if(n==sizeof(s2) && !u2) { u2=1; return &s2; }
   return calloc(1,n);
}
void *osAlloc(uint32_t n) { if(n<=400 && !bigused) { bigused=1; return big; } return calloc(1,n); }
void osFree(void *p) { if(p==big) bigused=0; }

#if MODE==1 || MODE==2
#ifndef BODY
#define BODY ""
#endif
static struct MemMessage mm; static struct TextChunk c1,c2; static int added,addres; static char wtext[200]; static unsigned wlen; static s_JamMsgHeader hd; static uint32_t wattr;
int JAM_PutSubfield(s_JamSubPacket *p,s_JamSubfield *f)
{
#if MODE==1
   unsigned i; CHECK(p==&pk && f->HiID==0 && f->DatLen<FL && ngot<NF,"field"); got[ngot].id=f->LoID; got[ngot].len=f->DatLen; for(i=0;i<f->DatLen;i++) got[ngot].d[i]=f->Buffer[i]; ngot++;
#endif
   return 0;
}
int JAM_AddMessage(s_JamBase *b,s_JamMsgHeader *h,s_JamSubPacket *p,char *t,uint32_t n)
{
   unsigned i;
   CHECK(locked && p==&pk && b==&base_,"added under the lock"); added++; hd=*h;
#if MODE==1
   if(wlen) { CHECK(n==wlen,"the text without the lines kept as fields"); for(i=0;i<wlen;i++) CHECK(t[i]==wtext[i],"the text byte for byte"); }
   else CHECK(n==0 || (n==1 && t[0]==0),"no text");
#endif
   return addres;
}
time_t FidoToTime(char *s) { CHECK(s==mm.DateTime,"the date of the message"); return 123456789; }
void Print4D(struct Node4D *n,char *d) { vh_cpy(d,n==&mm.OrigNode?"O4D":n==&mm.DestNode?"D4D":n==&mm.Origin4D?"ORG":"???"); }
char *mmMakeSeenByBuf(struct jbList *l) { static char sb[40]; CHECK(l==&mm.SeenBy,"its seen-bys"); vh_cpy(sb,"SEEN-BY: 1/2 3\rSEEN-BY: 4/5\r"); return sb; }
static struct Path pn;
static unsigned ltrim(const char *s,unsigned *n) { unsigned a=0; while(a<*n && s[a]==' ') a++; while(*n>a && (uint8_t)s[*n-1]<33) --*n; *n-=a; return a; }
void harness(void)
{
   unsigned i,n,k; bool r; static const char tpl[]=BODY; unsigned L=sizeof(BODY)-1;
   mm.Cost=in_u16(); jam_utcoffset=0;
   vh_cpy(mm.From,FROM); vh_cpy(mm.To,TO); vh_cpy(mm.Subject,SUBJ); if(FROM[0]) { mm.From[1]=(char)in_u8(); ASSUME(mm.From[1]); vh_fixlen(mm.From,sizeof(FROM)-1); } if(TO[0]) { mm.To[1]=(char)in_u8(); ASSUME(mm.To[1]); vh_fixlen(mm.To,sizeof(TO)-1); }
   if(ECHO) vh_cpy(mm.Area,"AREA");
   vh_cpy(mm.MSGID,"mid"); mm.MSGID[0]=(char)in_range(1,255); vh_fixlen(mm.MSGID,3); vh_cpy(mm.REPLY,ECHO?"":"rep");
   for(i=0;i<L;i++) { char c=tpl[i]; if(c=='?') c=(char)0xf6; if(i<SPLIT) { c1.Data[i]=c; c1.Length=i+1; } else { c2.Data[i-SPLIT]=c; c2.Length=i-SPLIT+1; } }
   if(L) { mm.TextChunks.First=mm.TextChunks.Last=(struct jbNode *)&c1; if(c2.Length) { c1.Next=&c2; mm.TextChunks.Last=(struct jbNode *)&c2; } }
   vh_cpy(pn.Path[0],"1/1 2"); vh_cpy(pn.Path[1],"3/3"); pn.Paths=NPATH; mm.Path.First=mm.Path.Last=(struct jbNode *)&pn;
   config.cfg_Flags=SEENBY?CFG_IMPORTSEENBY:0; config.cfg_jam_MaxOpen=2;
#if MODE==1
   mm.Attr=ATT;
   /* reference */
   { char t[200]; unsigned p=0; for(i=0;i<L;i++) { char c=i<SPLIT?c1.Data[i]:c2.Data[i-SPLIT]; if(tpl[i]!='\n') t[p++]=tpl[i]=='?'?c:tpl[i]; } t[p]=0;
     static const struct { const char *n; uint16_t id; } K[]={{"\1PID:",JAMSFLD_PID},{"\1MSGID:",JAMSFLD_MSGID},{"\1REPLY:",JAMSFLD_REPLYID},{"\1FLAGS:",JAMSFLD_FLAGS},{"\1INTL",0},{"\1TOPT",0},{"\1FMPT",0},{"\1",JAMSFLD_FTSKLUDGE}};
     char T[200]; unsigned q=0; for(i=0;i<L;i++) if(tpl[i]!='\n') T[q++]=tpl[i]; T[q]=0;       /* the template decides the kind of a line */
     for(i=0;i<p;)
     {
        unsigned b=i,e; while(i<p && T[i]!=13) i++; e=i; if(i<p) i++;
        for(k=0;k<8;k++) { unsigned m=0; while(K[k].n[m] && b+m<e && T[b+m]==K[k].n[m]) m++; if(!K[k].n[m]) break; }
        if(k==8) { for(n=b;n<i;n++) wtext[wlen++]=t[n]; continue; }
        if(!K[k].id) continue;
        b+=vh_len(K[k].n); n=e-b; { unsigned a=0; while(a<n && T[b+a]==' ') a++; while(n>a && (uint8_t)T[b+n-1]<33) n--; b+=a; n-=a; }
        if(K[k].id!=JAMSFLD_FLAGS) { expect(K[k].id,t+b,n); continue; }
        { char fl[100]; unsigned x=0,s; for(s=b;s<b+n;) { unsigned y=s; while(y<b+n && T[y]!=' ') y++; if(y-s==3 && T[s]=='D' && T[s+1]=='I' && T[s+2]=='R') wattr|=MSG_DIRECT; else if(y-s==3 && T[s]=='k' && T[s+1]=='f' && T[s+2]=='s') wattr|=MSG_KILLFILE; else if(y>s) { if(x) fl[x++]=' '; while(s<y && x<99) fl[x++]=t[s++]; } s=y+1; }
          if(x) expect(JAMSFLD_FLAGS,fl,x); }
     }
   }
   if(FROM[0]) expect(JAMSFLD_SENDERNAME,mm.From,sizeof(FROM)-1);
   if(TO[0]) expect(JAMSFLD_RECVRNAME,mm.To,sizeof(TO)-1);
   if(SUBJ[0]) expect(JAMSFLD_SUBJECT,SUBJ,sizeof(SUBJ)-1);
   if(ECHO) expect(JAMSFLD_OADDRESS,"ORG",3); else { expect(JAMSFLD_OADDRESS,"O4D",3); expect(JAMSFLD_DADDRESS,"D4D",3); }
   if(ATT&(FLAG_FILEATTACH|FLAG_FILEREQ)) { static const char s[]=SUBJ; unsigned a,b; for(a=0;a<sizeof(SUBJ)-1;a=b+1) { for(b=a;b<sizeof(SUBJ)-1 && s[b]!=' ' && s[b]!=',';b++); if(b>a) { if(ATT&FLAG_FILEATTACH) expect(JAMSFLD_ENCLFILE,s+a,b-a); if(ATT&FLAG_FILEREQ) expect(JAMSFLD_ENCLFREQ,s+a,b-a); } } }
   if(SEENBY) { expect(JAMSFLD_SEENBY2D,"1/2 3",5); expect(JAMSFLD_SEENBY2D,"4/5",3); }
   if(NPATH>0) expect(JAMSFLD_PATH2D,"1/1 2",5); if(NPATH>1) expect(JAMSFLD_PATH2D,"3/3",3);
#else
   mm.Attr=in_u16(); addres=in_bool()?JAM_IO_ERROR:0; lockfails=in_bool(); unlockfails=in_bool();
#endif
   jam_beforefunc();
   r=jam_importfunc(&mm,&area);
   CHECK(!locked && packs==0,"unlocked and cleaned up");
   CHECK(!!r==(!lockfails && !addres && !unlockfails),"success is reported exactly when the message is stored");
   CHECK(added==!lockfails,"added once");
   if(added)
   {
      uint32_t a=mm.Attr,w=ECHO?MSG_TYPEECHO:MSG_TYPENET; s_JamMsgHeader *h=&hd;
      w|=wattr|(a&FLAG_PVT?MSG_PRIVATE:0)|(a&FLAG_HOLD?MSG_HOLD:0)|(a&FLAG_CRASH?MSG_CRASH:0)|(a&FLAG_KILLSENT?MSG_KILLSENT:0)|(a&FLAG_SENT?MSG_SENT:0)|(a&FLAG_RECD?MSG_READ:0)|(a&FLAG_FILEATTACH?MSG_FILEATTACH:0)|(a&FLAG_FILEREQ?MSG_FILEREQUEST:0)|(a&FLAG_LOCAL?MSG_LOCAL:0)|(a&FLAG_RREQ?MSG_RECEIPTREQ:0)|(a&FLAG_INTRANSIT?MSG_INTRANSIT:0)|(a&FLAG_ORPHAN?MSG_ORPHAN:0);
      CHECK(h->Attribute==w,"the attributes of the message");
      CHECK(h->Cost==mm.Cost && h->DateWritten==123456789,"cost and date");
      CHECK(h->MsgIdCRC==JAM_Crc32(mm.MSGID,3) && h->ReplyCRC==(ECHO?0xffffffff:JAM_Crc32("rep",3)),"checksums of the message id and of the one replied to");
      CHECK(h->ReplyTo==0 && h->Reply1st==0 && h->ReplyNext==0,"not linked yet");
#if MODE==1
      compare();
#endif
   }
   REACHED("end");
}
#endif

#if MODE==3 || MODE==4
#ifndef TEXT
#define TEXT ""
#endif
static s_JamMsgHeader sh; static s_JamSubfield fld[NF+1]; static unsigned nfld,fpos; static char fd[NF][220]; static char text[120]; static unsigned tlen;
static int hres,tres,handled,handres,changed,changeres,freed,alloced; static uint32_t readno,chno; static s_JamMsgHeader ch;
static struct MemMessage mm; static char buf_[200]; static unsigned nbuf; static int tid; static uint16_t hattr,hflags;
int JAM_ReadMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *h,s_JamSubPacket **p) { readno=n; if(hres) return hres; *h=sh; packs++; *p=&pk; return 0; }
s_JamSubfield *JAM_GetSubfield(s_JamSubPacket *p) { if(p) { CHECK(p==&pk,"fields of the message"); fpos=0; } else fpos++; return fpos<nfld?&fld[fpos]:0; }
int JAM_ReadMsgText(s_JamBase *b,uint32_t o,uint32_t n,char *t) { unsigned i; CHECK(o==sh.TxtOffset && n==sh.TxtLen,"its text"); if(tres) return tres; for(i=0;i<n;i++) t[i]=text[i]; return 0; }
int JAM_ChangeMsgHeader(s_JamBase *b,uint32_t n,s_JamMsgHeader *h) { CHECK(locked,"changed under the lock"); changed++; chno=n; ch=*h; return changeres; }
struct MemMessage *mmAlloc(void) { alloced++; return &mm; }
void mmFree(struct MemMessage *m) { CHECK(m==&mm,"message"); freed++; }
bool mmAddLine(struct MemMessage *m,char *s)
{
#if MODE==3
   unsigned n=vh_len(s),i; CHECK(n && s[n-1]==13 && n<FL && ngot<NF,"a line"); got[ngot].len=n; got[ngot].id=s[0]==1?1:2; for(i=0;i<n;i++) got[ngot].d[i]=s[i]; ngot++;
#endif
   return(TRUE);
}
bool mmAddBuf(struct jbList *l,char *b,uint32_t n) { unsigned i; CHECK(l==&mm.TextChunks,"its text"); for(i=0;i<n;i++) buf_[nbuf++]=b[i]; return(TRUE); }
bool AddTID(struct MemMessage *m) { tid++; return(TRUE); }
void MakeFidoDate(time_t t,char *d) { CHECK((uint32_t)t==sh.DateWritten,"the date it was written"); vh_cpy(d,"date"); }
static bool hf(struct MemMessage *m) { CHECK(m==&mm && packs==0 && !locked,"one message"); handled++; hattr=m->Attr; hflags=m->Flags; return handres; }
static unsigned fl(uint16_t id,const char *s,unsigned n) { unsigned i; fld[nfld].LoID=id; fld[nfld].HiID=0; fld[nfld].DatLen=n; fld[nfld].Buffer=n?&fd[nfld][0]:(char *)0; for(i=0;i<n;i++) fd[nfld][i]=s[i]; return nfld++; }
#define F(id,s) fl(id,s,sizeof(s)-1)
static void symb(unsigned f,unsigned at) { fd[f][at]=(char)0xf6; }
static void line(const char *pre,unsigned f,unsigned n) { unsigned i,k=vh_len(pre); want[nwant].id=pre[0]==1?1:2; for(i=0;i<k;i++) want[nwant].d[i]=pre[i]; for(i=0;i<n;i++) want[nwant].d[k+i]=fd[f][i]; want[nwant].d[k+n]=13; want[nwant].len=k+n+1; nwant++; }
static void linec(const char *s) { expect(s[0]==1?1:2,s,vh_len(s)); }
void harness(void)
{
   unsigned i,f; bool r; uint32_t at;
   area.Aka=&aka; aka.Node.Zone=2; aka.Node.Net=201; aka.Node.Node=9; aka.Node.Point=1; vh_cpy(area.Tagname,"TAG"); area.AreaType=NET?AREATYPE_NETMAIL:AREATYPE_ECHOMAIL;
   nmsgs=1; basenum=BASE; config.cfg_jam_MaxOpen=2;
   sh.Cost=in_u16(); sh.DateWritten=in_u32(); sh.TxtOffset=in_u32(); sh.MsgIdCRC=in_u32(); sh.ReplyTo=in_u32(); sh.Reply1st=in_u32(); sh.ReplyNext=in_u32(); sh.TimesRead=in_u32();
   { static const char tp[]=TEXT; tlen=sizeof(TEXT)-1; for(i=0;i<tlen;i++) { text[i]=tp[i]; if(tp[i]=='?') text[i]=NET?(char)in_u8():(char)0xf6; } sh.TxtLen=tlen; }
   handres=1;
#if MODE==3
   at=ATTR; config.cfg_Flags=FORCEINTL?CFG_FORCEINTL:0;
   f=F(JAMSFLD_OADDRESS,OADDR); 
   f=F(JAMSFLD_DADDRESS,"3:4/5.6"); 
   if(SECOND) F(JAMSFLD_DADDRESS,"9:9/9.9");
   f=fl(JAMSFLD_SENDERNAME,"Sender of this message with a name that has more than thirty-five characters in it and more and more and more and more and more and more and more and more and more and more and more and more and mooore and moore",SLEN); if(SLEN) symb(f,SLEN-1);
   f=F(JAMSFLD_RECVRNAME,"Bob"); symb(f,2);
   f=F(JAMSFLD_SUBJECT,"Hi!"); symb(f,0);
   f=F(JAMSFLD_MSGID,"2:1/2 abcd"); symb(f,9); line("\1MSGID: ",f,10);
   f=F(JAMSFLD_REPLYID,"2:1/2 bcd"); symb(f,8); line("\1REPLY: ",f,9);
   f=F(JAMSFLD_PID,"CM"); symb(f,1); line("\1PID: ",f,2);
   f=F(JAMSFLD_FTSKLUDGE,"Via x"); symb(f,4); line("\1",f,5);
   f=F(JAMSFLD_FTSKLUDGE,"CHRS y"); line("\1",f,6);
   f=F(JAMSFLD_SEENBY2D,"1/2 3"); line("SEEN-BY: ",f,5);
   f=F(JAMSFLD_PATH2D,"1/2 4"); line("\1PATH: ",f,5);
   if(FLG==1) { f=F(JAMSFLD_FLAGS,"XMA"); symb(f,2); }
   if(FILE_) F(JAMSFLD_ENCLFILE,"f.zip");
   { char x[60]; unsigned p=0; x[0]=0; if(FLG==1) { vh_cpy(x,"\1FLAGS: XMA"); x[10]=fd[f][2]; p=11; }
#define FN(b,s) if(at&b) { if(!p) { vh_cpy(x,"\1FLAGS: "); p=8; } else x[p++]=' '; x[p]=s[0]; x[p+1]=s[1]; x[p+2]=s[2]; p+=3; }
     FN(MSG_ARCHIVESENT,"A/S") FN(MSG_DIRECT,"DIR") FN(MSG_IMMEDIATE,"IMM") FN(MSG_KILLFILE,"KFS") FN(MSG_TRUNCFILE,"TFS") FN(MSG_CONFIRMREQ,"CFM") FN(MSG_FPU,"FPU")
     if(p) { x[p++]=13; x[p]=0; expect(1,x,p); } }
   if(NET) { if(OZ!=3 || FORCEINTL) linec(OZ==2?"\1INTL 3:4/5 2:201/7\r":"\1INTL 3:4/5 3:4/7\r"); if(OZ==2) linec("\1FMPT 8\r"); linec("\1TOPT 6\r"); }
   if(RESCAN) linec("\1RESCANNED 2:201/9.1\r");
#else
   at=in_u32(); config.cfg_Flags=in_u32(); ASSUME(!(config.cfg_Flags&CFG_FORCEINTL));
   hres=HRES; tres=in_bool()?JAM_IO_ERROR:0; handres=in_bool(); changeres=in_bool(); lockfails=in_bool(); unlockfails=in_bool();
#endif
   sh.Attribute=at;
   jam_beforefunc(); jam_utcoffset=0;
   r=RESCAN?jam_rescanfunc(&area,0,hf):jam_exportfunc(&area,hf);
   { int skip=hres || (at&MSG_DELETED) || (!RESCAN && ((at&MSG_SENT) || !(at&MSG_LOCAL))); int text_=tres && tlen;
     CHECK(readno==0 && packs==0 && freed==alloced && !locked,"the message that is asked for, cleaned up");
     CHECK(handled==(!skip && !text_),"handled exactly when it is there, not deleted and, unless rescanned, written here and not yet sent");
     CHECK(!!r==(skip || (!text_ && handres && (RESCAN || !lockfails))),"failures are reported");
     CHECK(changed==(handled && handres && !RESCAN && !lockfails),"marked as sent once it has been handled");
     if(handled)
     {
        uint16_t w=(at&MSG_PRIVATE?FLAG_PVT:0)|(at&MSG_CRASH?FLAG_CRASH:0)|(at&MSG_FILEATTACH?FLAG_FILEATTACH:0)|(at&MSG_FILEREQUEST?FLAG_FILEREQ:0)|(at&MSG_RECEIPTREQ?FLAG_RREQ:0)|(at&MSG_HOLD?FLAG_HOLD:0);
        if(MODE==3 && FILE_) w|=FLAG_FILEATTACH;
        CHECK(hattr==w,"the attributes that may leave the system");
        CHECK(hflags==(RESCAN?MMFLAG_RESCANNED:MMFLAG_EXPORTED),"marked as exported or rescanned");
        CHECK(mm.Cost==sh.Cost && mm.msgnum==BASE,"cost and number");
        CHECK(vh_same(mm.DateTime,"date") && vh_same(mm.Area,NET?"":"TAG"),"date and area");
        CHECK(nbuf==tlen,"the text"); for(i=0;i<tlen;i++) CHECK(buf_[i]==text[i],"the text byte for byte");
        CHECK(tid==(!RESCAN && (config.cfg_Flags&CFG_ADDTID)?1:0),"tearline id only when asked for");
     }
     if(changed)
     {
        int del=(config.cfg_Flags&CFG_ALLOWKILLSENT) && (at&MSG_KILLSENT) && NET;
        CHECK(chno==0 && ch.Attribute==(at|MSG_SENT|(del?MSG_DELETED:0)),"marked as sent, and deleted if that is asked for");
        CHECK(ch.Cost==sh.Cost && ch.DateWritten==sh.DateWritten && ch.TxtOffset==sh.TxtOffset && ch.TxtLen==sh.TxtLen && ch.MsgIdCRC==sh.MsgIdCRC && ch.ReplyTo==sh.ReplyTo && ch.Reply1st==sh.Reply1st && ch.ReplyNext==sh.ReplyNext && ch.TimesRead==sh.TimesRead,"nothing else of the header changed");
     }
#if MODE==3
     if(handled)
     {
        compare();
        CHECK(mm.OrigNode.Zone==(OZ==2?2:3) && mm.OrigNode.Net==(OZ==2?201:4) && mm.OrigNode.Node==7 && mm.OrigNode.Point==(OZ==2?8:0) && mm.DestNode.Zone==3 && mm.DestNode.Net==4 && mm.DestNode.Node==5 && mm.DestNode.Point==6,"its addresses");
        f=(SECOND?3:2); for(i=0;i<35 && i<SLEN;i++) CHECK(mm.From[i]==fd[f][i],"its sender"); CHECK(mm.From[i]==0,"its sender");
        CHECK(mm.To[0]=='B' && mm.To[1]=='o' && mm.To[2]==fd[f+1][2] && mm.To[3]==0,"its recipient");
        if(FILE_) CHECK(vh_same(mm.Subject,"f.zip"),"its file"); else CHECK(mm.Subject[0]==fd[f+2][0] && mm.Subject[1]=='i' && mm.Subject[2]=='!' && mm.Subject[3]==0,"its subject");
        if(ORIG) CHECK(mm.Origin4D.Zone==2 && mm.Origin4D.Net==3 && mm.Origin4D.Node==4 && mm.Origin4D.Point==5,"address of the origin line");
     }
#endif
   }
   REACHED("end");
}
#endif
