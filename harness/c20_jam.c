/* The JAM messagebase library on a model of its four files (bytes, positions, failures).
 * Of the 1024 byte base header the model keeps the first 32 bytes. */
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include "h.h"
#include "jamlib/jam.h"
#ifndef HSZ
#define HSZ (32+2*(76+SUBS))
#endif
#ifndef XSZ
#define XSZ 32
#endif
#ifdef VH_CBMC
/* bytewise: keeps constants constant. Of the reserved 1000 bytes of the base header 8 are followed. */
void *memcpy(void *d,const void *s,size_t n) { size_t i,m=n==1000?8:n; for(i=0;i<m;i++) ((unsigned char *)d)[i]=((const unsigned char *)s)[i]; return d; }
#if MODE==4
static uint8_t mem4[CUT]; void *malloc(size_t n) { __CPROVER_assert(n==CUT,"M: piece of memory"); return mem4; } void free(void *p) { }
#endif
#if MODE==1 || MODE==2
/* memory handed out in typed pieces (constants stay constant); real allocation in the other harnesses */
static s_JamSubfield sfp[24]; static uint8_t byp[24][48]; static s_JamBase bsp[3]; static s_JamSubfield *ptp[8][20]; static s_JamSubPacket spp[8]; static unsigned nsf,nby,nbs,nsp;
s_JamSubPacket *JAM_NewSubPacket(void) { s_JamSubPacket *p=&spp[nsp]; p->NumAlloc=20; p->NumFields=0; p->Fields=ptp[nsp]; nsp++; return p; }
void *malloc(size_t n) { if(n==sizeof(s_JamSubfield)) return &sfp[nsf++]; __CPROVER_assert(n<=48,"M: piece of memory"); return byp[nby++]; }
void *calloc(size_t n,size_t k) { __CPROVER_assert(n*k==sizeof(s_JamBase),"M: piece of memory"); return &bsp[nbs++]; }
void free(void *p) { }
#endif
#endif
static struct mf { uint8_t *d; long sz,len,pos; int eof,open,dirty,exists,last; } F[4];
static uint8_t d0[HSZ],d1[XSZ],d2[32],d3[64];
static int ops,failat=-1,lasting,failed,locked,lockok=1;
static int fails(void) { ops++; if(failat>=0 && (ops-1==failat || (lasting && ops-1>failat))) { failed++; errno=28; return 1; } return 0; }
#define M(fp) ((struct mf *)(fp))
static unsigned w(const char *n) { unsigned l=vh_len(n); return n[l-1]=='r' ? (n[l-2]=='h'?0:3) : n[l-1]=='t'?1:2; }
FILE *vh_fopen(const char *n,const char *m)
{
   struct mf *f=&F[w(n)];
   if(fails()) return 0;
   if(m[0]=='r' && !f->exists) { errno=2; return 0; }
   if(m[0]=='w') { f->len=0; f->exists=1; }
   CHECK(!f->open,"not opened twice"); f->open=1; f->pos=0; f->eof=0; f->last=0; return (FILE *)f;
}
int vh_fclose(FILE *fp) { CHECK(M(fp)->open,"closed once"); M(fp)->open=0; if(M(fp)->dirty && fails()) return -1; M(fp)->dirty=0; return 0; }
int vh_fflush(FILE *fp) { if(!fp) return 0; M(fp)->last=0; if(M(fp)->dirty && fails()) return -1; M(fp)->dirty=0; return 0; }
int vh_fseek(FILE *fp,long o,int wh) { struct mf *f=M(fp); if(fails()) { failed--; return -1; } f->last=0; f->eof=0; f->pos=wh==SEEK_END?f->len+o:wh==SEEK_CUR?f->pos+o:o; if(f->pos<0) { errno=22; return -1; } return 0; }
long vh_ftell(FILE *fp) { if(fails()) return -1; return M(fp)->pos; }
int vh_feof(FILE *fp) { return M(fp)->eof; }
int vh_fileno(FILE *fp) { return fp==(FILE *)&F[0]?3:fp==(FILE *)&F[1]?4:fp==(FILE *)&F[2]?5:6; }
int vh_fcntl(int fd,int cmd,...) { va_list va; struct flock *fl; va_start(va,cmd); fl=va_arg(va,struct flock *); va_end(va); CHECK(fd==3 && cmd==F_SETLK && fl->l_whence==SEEK_SET && fl->l_start==0 && fl->l_len==1,"the first byte of the header file is locked"); if(fl->l_type==F_WRLCK) { if(!lockok) { errno=11; return -1; } locked=1; } else { int i; for(i=0;i<4;i++) CHECK(!F[i].dirty || failed,"everything is written before the lock is given up"); locked=0; } return 0; }
static long at(struct mf *f) { return f==&F[0] && f->pos>=1024?f->pos-1024+32:f->pos; }
size_t vh_fread(void *p,size_t sz,size_t n,FILE *fp)
{
   struct mf *f=M(fp); size_t i; CHECK(n==1 && f->open,"one record"); CHECK(f->last!=2,"position set between writing and reading"); f->last=1;
   if(fails()) return 0;
   if(f->pos+(long)sz>f->len) { f->eof=1; f->pos=f->len; return 0; }
   for(i=0;i<(sz==1024?32:sz);i++) ((uint8_t *)p)[i]=f->d[at(f)+i];
   f->pos+=sz; return 1;
}
size_t vh_fwrite(const void *p,size_t sz,size_t n,FILE *fp)
{
   struct mf *f=M(fp); size_t i; CHECK(n==1 && f->open,"one record"); CHECK(f->last!=1,"position set between reading and writing"); CHECK(locked || fp==(FILE *)&F[3],"nothing is written without the lock"); f->last=2;
   if(fails()) return 0;
   ASSUME(f->pos+(long)sz<=f->sz);
   for(i=0;i<(sz==1024?32:sz);i++) f->d[at(f)+i]=((const uint8_t *)p)[i];
   f->dirty=1; f->pos+=sz; if(f->pos>f->len) f->len=f->pos; return 1;
}
int vh_remove(const char *n) { F[w(n)].exists=0; return 0; }
static void init(void) { F[0].d=d0; F[0].sz=1024-32+HSZ; F[1].d=d1; F[1].sz=XSZ; F[2].d=d2; F[2].sz=32; F[3].d=d3; F[3].sz=64; }
#if MODE!=5
uint32_t JAM_Crc32(char *b,uint32_t n) { return n?(uint32_t)(0x1000*n+(uint8_t)b[0]):0xffffffff; }   /* has its own harness */
#endif

/* one message: N1,N2 lengths of its two subfields, T length of its text */
struct smsg { s_JamMsgHeader h; uint16_t id[2]; uint8_t sub[2][8],txt[8]; unsigned n[2],t; };
#ifndef IDA
#define IDA JAMSFLD_RECVRNAME
#define IDB 2
#endif
static struct smsg a,b2;
static void any(struct smsg *m,unsigned n1,unsigned n2,unsigned t)
{
   unsigned i; m->n[0]=n1; m->n[1]=n2; m->t=t;
   JAM_ClearMsgHeader(&m->h);
   m->h.TimesRead=in_u32(); m->h.MsgIdCRC=in_u32(); m->h.ReplyCRC=in_u32(); m->h.ReplyTo=in_u32(); m->h.Reply1st=in_u32(); m->h.ReplyNext=in_u32();
   m->h.DateWritten=in_u32(); m->h.DateReceived=in_u32(); m->h.DateProcessed=in_u32(); m->h.Attribute=in_u32(); m->h.Attribute2=in_u32(); m->h.PasswordCRC=in_u32(); m->h.Cost=in_u32(); m->h.ReservedWord=in_u16();
   m->id[0]=m==&a?IDA:IDB; m->id[1]=in_u16(); ASSUME(m->id[1]!=JAMSFLD_RECVRNAME);
   in_buf(m->sub[0],n1); in_buf(m->sub[1],n2); in_buf(m->txt,t);
   for(i=0;i<n1;i++) ASSUME(m->sub[0][i]); for(i=0;i<n2;i++) ASSUME(m->sub[1][i]);
}
static int add(s_JamBase *b,struct smsg *m)
{
   s_JamSubPacket *sp=JAM_NewSubPacket(); s_JamSubfield sf; unsigned i; int r; s_JamMsgHeader h=m->h;
   for(i=0;i<2;i++) { sf.LoID=m->id[i]; sf.HiID=0; sf.DatLen=m->n[i]; sf.Buffer=(char *)m->sub[i]; CHECK(JAM_PutSubfield(sp,&sf)==0,"subfield kept"); }
   r=JAM_AddMessage(b,&h,sp,(char *)m->txt,m->t);
   JAM_DelSubPacket(sp);
   return r;
}
static void same(s_JamBase *b,uint32_t no,struct smsg *m,uint32_t base)
{
   s_JamMsgHeader h; s_JamSubPacket *sp; uint32_t c=0; s_JamSubfield *f; char t[9]; unsigned i,k;
   CHECK(JAM_ReadMsgHeader(b,no,&h,&sp)==0,"a stored message can be read");
   CHECK(h.MsgNum==no+base && h.Signature[0]=='J' && h.Signature[1]=='A' && h.Signature[2]=='M' && h.Signature[3]==0 && h.Revision==1,"numbered and marked as a JAM message");
   CHECK(h.TimesRead==m->h.TimesRead && h.MsgIdCRC==m->h.MsgIdCRC && h.ReplyCRC==m->h.ReplyCRC && h.ReplyTo==m->h.ReplyTo && h.Reply1st==m->h.Reply1st && h.ReplyNext==m->h.ReplyNext,"header fields as stored");
   CHECK(h.DateWritten==m->h.DateWritten && h.DateReceived==m->h.DateReceived && h.DateProcessed==m->h.DateProcessed && h.Attribute==m->h.Attribute && h.Attribute2==m->h.Attribute2 && h.PasswordCRC==m->h.PasswordCRC && h.Cost==m->h.Cost && h.ReservedWord==m->h.ReservedWord,"header fields as stored");
   CHECK(h.TxtLen==m->t,"length of the text");
   CHECK(h.SubfieldLen==16+m->n[0]+m->n[1],"length of the subfields");
   for(i=0;i<2;i++)
   {
      f=JAM_GetSubfield_R(sp,&c); CHECK(f!=0,"all subfields"); 
      CHECK(f->LoID==m->id[i] && f->HiID==0 && f->DatLen==m->n[i],"subfields in order");
      for(k=0;k<m->n[i];k++) CHECK((uint8_t)f->Buffer[k]==m->sub[i][k],"data of the subfield");
   }
   CHECK(JAM_GetSubfield_R(sp,&c)==0,"no more subfields");
   JAM_DelSubPacket(sp);
   CHECK(JAM_ReadMsgText(b,h.TxtOffset,h.TxtLen,t)==0,"the text can be read");
   for(i=0;i<m->t;i++) CHECK((uint8_t)t[i]==m->txt[i],"the text byte for byte");
}
static uint32_t active(s_JamBase *b,uint32_t base,uint32_t mods) { s_JamBaseHeader bh; CHECK(JAM_ReadMBHeader(b,&bh)==0,"base header"); CHECK(bh.BaseMsgNum==base && bh.Signature[0]=='J' && bh.Signature[1]=='A' && bh.Signature[2]=='M' && bh.Signature[3]==0,"base header kept"); CHECK(bh.ModCounter==mods,"every change counted"); return bh.ActiveMsgs; }
static int live(struct smsg *m) { return !(m->h.Attribute&MSG_DELETED); }
static uint32_t crcof(struct smsg *m)
{
   int i; uint32_t r=0xffffffff;
   for(i=0;i<2;i++) if(m->id[i]==JAMSFLD_RECVRNAME) r=m->n[i]?0x1000*m->n[i]+m->sub[i][0]:0xffffffff;
   return r;
}

#if MODE==1   /* two messages, one of them deleted or changed, after the base was closed and opened again */
void harness(void)
{
   s_JamBase *b; uint32_t n,base=in_range(1,0x7fffffff); int r;
   init(); any(&a,A1,A2,AT); any(&b2,B1,B2,BT);
   CHECK(JAM_CreateMB("x",7,&b)==0,"created"); CHECK(d0[20]==7 && !d0[21] && !d0[22] && !d0[23],"first number kept"); memcpy(d0+20,&base,4);
   CHECK(JAM_AddMessage(b,&a.h,0,0,0)==JAM_NOT_LOCKED,"nothing is added without the lock");
   CHECK(JAM_LockMB(b,0)==0 && locked,"locked");
   CHECK(add(b,&a)==0 && add(b,&b2)==0,"added");
   CHECK(JAM_UnlockMB(b)==0 && !locked,"unlocked");
   CHECK(JAM_CloseMB(b)==0,"closed"); CHECK(!F[0].open && !F[1].open && !F[2].open && !F[3].open,"files closed");
   CHECK(JAM_OpenMB("x",&b)==0,"opened again");
   CHECK(JAM_GetMBSize(b,&n)==0 && n==2,"two messages");
   same(b,0,&a,base); same(b,1,&b2,base);
   CHECK(active(b,base,3)==(uint32_t)live(&a)+live(&b2),"messages that are not deleted are counted");
   if(crcof(&b2)!=0xffffffff && crcof(&a)!=crcof(&b2)) { CHECK(JAM_FindUser(b,crcof(&b2),0,&n)==0 && n==1,"found by its recipient"); }
   if(crcof(&a)!=0xffffffff) { CHECK(JAM_FindUser(b,crcof(&a),0,&n)==0 && n==0,"found by its recipient"); }
#if THEN==1
   CHECK(JAM_DeleteMessage(b,0)==JAM_NOT_LOCKED,"nothing is deleted without the lock");
   CHECK(JAM_LockMB(b,0)==0,"locked");
   r=JAM_DeleteMessage(b,0); CHECK(r==0,"deleted");
   { s_JamMsgHeader h; CHECK(JAM_ReadMsgHeader(b,0,&h,0)==JAM_NO_MESSAGE,"no longer there"); CHECK(JAM_DeleteMessage(b,0)==JAM_NO_MESSAGE,"deleted once"); }
   same(b,1,&b2,base);
   CHECK(active(b,base,4)==(uint32_t)live(&b2),"counted");
   CHECK(JAM_GetMBSize(b,&n)==0 && n==2,"numbers are kept");
#elif THEN==2
   { s_JamMsgHeader h; uint32_t at=in_u32(),pa=in_u32(); int was=live(&a);
     CHECK(JAM_ReadMsgHeader(b,0,&h,0)==0,"read"); h.Attribute=at; h.ReplyTo=pa;
     CHECK(JAM_ChangeMsgHeader(b,0,&h)==JAM_NOT_LOCKED,"nothing is changed without the lock");
     CHECK(JAM_LockMB(b,0)==0,"locked");
     CHECK(JAM_ChangeMsgHeader(b,0,&h)==0,"changed");
     a.h.Attribute=at; a.h.ReplyTo=pa; same(b,0,&a,base); same(b,1,&b2,base);
     if(was || !live(&a)) CHECK(active(b,base,4)==(uint32_t)live(&a)+live(&b2),"counted"); }
#elif THEN==3
   CHECK(JAM_LockMB(b,0)==0,"locked"); CHECK(JAM_AddEmptyMessage(b)==0,"empty entry"); 
   { s_JamMsgHeader h; CHECK(JAM_ReadMsgHeader(b,2,&h,0)==JAM_NO_MESSAGE,"empty entry"); }
   CHECK(JAM_GetMBSize(b,&n)==0 && n==3,"three entries"); same(b,0,&a,base); same(b,1,&b2,base);
#endif
   CHECK(JAM_CloseMB(b)==0 && !locked,"closing gives up the lock");
   REACHED("end");
}
#endif
#if MODE==2   /* any file operation fails while a message is added: it is reported and the other message stays */
void harness(void)
{
   s_JamBase *b; int r,u; uint32_t n;
   init(); any(&a,1,0,1); any(&b2,1,1,2);
   CHECK(JAM_CreateMB("x",1,&b)==0 && JAM_LockMB(b,0)==0 && add(b,&a)==0 && JAM_UnlockMB(b)==0 && JAM_LockMB(b,0)==0,"base with one message");
   ops=0; failat=FAILAT; lasting=LASTING;
   r=add(b,&b2); u=JAM_UnlockMB(b);
   failat=-1;
   CHECK(!failed || r || u,"every failure is reported");   /* a seek that fails may be without effect: then the message has to be there */
   JAM_CloseMB(b);
   CHECK(JAM_OpenMB("x",&b)==0,"opened again");
   same(b,0,&a,1);
   if(!r && !u) { same(b,1,&b2,1); CHECK(JAM_GetMBSize(b,&n)==0 && n==2,"two messages"); }
   REACHED("end");
}
#endif
#if MODE==3   /* lastread records */
static s_JamLastRead r0,r1,nw;
void harness(void)
{
   s_JamBase *b; s_JamLastRead x; uint32_t u=in_u32(); int i,k,n=NREC,want=-1; s_JamLastRead rec[3];
   init(); CHECK(JAM_CreateMB("x",1,&b)==0,"created");
   for(i=0;i<n;i++) { rec[i].UserCRC=in_u32(); rec[i].UserID=in_u32(); rec[i].LastReadMsg=in_u32(); rec[i].HighReadMsg=in_u32(); for(k=0;k<i;k++) ASSUME(rec[k].UserID!=rec[i].UserID); ASSUME(rec[i].UserID); memcpy(d3+16*i,&rec[i],16); if(rec[i].UserID==u) want=i; }
   F[3].len=16*n; ASSUME(u);
   i=JAM_ReadLastRead(b,u,&x); CHECK(i==(want<0?JAM_NO_USER:0),"the record of the user is found if there is one");
   if(want>=0) CHECK(x.UserCRC==rec[want].UserCRC && x.LastReadMsg==rec[want].LastReadMsg && x.HighReadMsg==rec[want].HighReadMsg && x.UserID==u,"and is his");
   nw.UserID=u; nw.UserCRC=in_u32(); nw.LastReadMsg=in_u32(); nw.HighReadMsg=in_u32();
#if OTHER
   { uint32_t v=in_u32(); ASSUME(v); JAM_ReadLastRead(b,v,&x); }   /* another one, known or not, read meanwhile */
#endif
   CHECK(JAM_WriteLastRead(b,u,&nw)==0,"written");
   CHECK(F[3].len==16*(want<0?n+1:n),"one record per user");
   CHECK(JAM_ReadLastRead(b,u,&x)==0 && x.LastReadMsg==nw.LastReadMsg && x.HighReadMsg==nw.HighReadMsg && x.UserCRC==nw.UserCRC,"and is read back");
   for(i=0;i<n;i++) if(i!=want) { memcpy(&x,d3+16*i,16); CHECK(x.UserID==rec[i].UserID && x.UserCRC==rec[i].UserCRC && x.LastReadMsg==rec[i].LastReadMsg && x.HighReadMsg==rec[i].HighReadMsg,"records of others unchanged"); }
   REACHED("end");
}
#endif
#if MODE==4   /* damaged subfields are reported, nothing outside is read */
static s_JamSubPacket pk; static s_JamBase bs; static uint8_t area[CUT]; static unsigned nput; static int gone,live4;
static struct { uint16_t id; uint32_t len; uint8_t d[CUT]; } put[4];
s_JamSubPacket *JAM_NewSubPacket(void) { live4=1; return &pk; }
int JAM_DelSubPacket(s_JamSubPacket *p) { CHECK(p==&pk && live4,"the packet"); gone=1; return 0; }
int JAM_PutSubfield(s_JamSubPacket *p,s_JamSubfield *f) { CHECK(nput<4,"room"); put[nput].id=f->LoID; put[nput].len=f->DatLen; { unsigned k; for(k=0;k<CUT;k++) put[nput].d[k]=k<f->DatLen?f->Buffer[k]:0; } nput++; return 0; }
void harness(void)
{
   s_JamMsgHeader h; s_JamSubPacket *sp=0; int r; unsigned i,k,p=0,n=0,ok=1; uint32_t l; uint32_t off=1024,cut=CUT;
   init(); F[0].open=F[1].open=F[2].open=F[3].open=1; F[0].len=1024+76+CUT; F[2].len=8; memcpy(d2+4,&off,4); memset(d0,0,32+76); memcpy(d0+32+8,&cut,4); in_buf(area,CUT); memcpy(d0+32+76,area,CUT);
   bs.HdrFile_PS=(FILE *)&F[0]; bs.TxtFile_PS=(FILE *)&F[1]; bs.IdxFile_PS=(FILE *)&F[2]; bs.LrdFile_PS=(FILE *)&F[3];
   r=JAM_ReadMsgHeader(&bs,0,&h,&sp);
   /* reference: fields of 8+length bytes fill the area exactly */
   for(i=0;i<CUT/8+1 && ok && p<CUT;i++)
   {
      if(CUT-p<8) { ok=0; break; }
      l=area[p+4]|area[p+5]<<8|area[p+6]<<16|(uint32_t)area[p+7]<<24;
      if(l>CUT-p-8) { ok=0; break; }
      CHECK(n<nput && put[n].len==l && put[n].id==(area[p]|area[p+1]<<8),"each field with its type and its length"); for(k=0;k<CUT;k++) if(k<l) CHECK(put[n].d[k]==area[p+8+k],"and its data");
      n++; p+=8+l;
   }
   CHECK((r==0)==!!ok,"damaged subfields are reported, others are read");
   if(!ok) CHECK(r==JAM_CORRUPT_MSG && gone,"as a damaged message");
   else { CHECK(sp==&pk && !gone,"the packet is handed over"); CHECK(nput==n,"no other fields"); }
#if CUT>=8
   if(ok) REACHED("ok");
#endif
   if(!ok) REACHED("damaged");
}
#endif
#if MODE==5   /* checksum: the standard one, of the text in lower case; every byte */
void harness(void)
{
   char t[LEN+1]; uint32_t r=0xffffffff,k; unsigned i,j;
   in_buf(t,LEN);
   for(i=0;i<LEN;i++) { r^=(uint8_t)vh_lower(t[i]); for(j=0;j<8;j++) r=(r&1)?(r>>1)^0xedb88320:r>>1; }
   k=JAM_Crc32(t,LEN);
   CHECK(k==r,"checksum as in the JAM specification");
   REACHED("end");
}
#endif
