/* Files of the inbound: names, order, packers, bad files (misc.c, toss.c) */
#include "cm.h"
#include "logstub.h"
#include <stdlib.h>
struct Packer *DetectPacker(char *file);
static bool ends(const char *s,const char *e) { unsigned a=vh_len(s),b=vh_len(e),i; if(a<b) return FALSE; for(i=0;i<b;i++) if(vh_lower(s[a-b+i])!=e[i]) return FALSE; return TRUE; }
#if MODE==1
void harness(void)
{
   static const char days[]="sumotuwethfrsa"; char s[L+1]; unsigned i; bool arc,pkt; 
   for(i=0;i<L;i++) { s[i]=(char)in_u8(); ASSUME(s[i]); } s[L]=0;
   arc=L==12 && s[8]=='.'; pkt=arc && ends(s,".pkt");
   if(arc) { for(i=0;i<8;i++) { char c=vh_lower(s[i]); if(!((c>='0' && c<='9') || (c>='a' && c<='z'))) arc=FALSE; }
             { bool day=FALSE; for(i=0;i<14;i+=2) if(vh_lower(s[9])==days[i] && vh_lower(s[10])==days[i+1]) day=TRUE; if(!day) arc=FALSE; } }
   CHECK(IsArc(s)==arc,"bundles"); CHECK(IsPkt(s)==pkt,"packets");
   CHECK(IsNewPkt(s)==ends(s,".newpkt"),"packets being written"); CHECK(IsPktTmp(s)==ends(s,".pkttmp"),"packets not packed yet"); CHECK(IsOrphan(s)==ends(s,".orphan"),"orphans");
   CHECK(IsBad(s)==(L>4 && ends(s,".bad")),"bad files");
   REACHED("end");
}
#elif MODE==2
static struct osFileEntry f0,f1,f2; static struct osFileEntry *buf[4];
void *osAlloc(uint32_t n) { if(n<=sizeof(buf)) return buf; return calloc(1,n); }
void osFree(void *p) { }
static int order(struct osFileEntry *a,struct osFileEntry *b)
{
   unsigned i; if(a->Date!=b->Date) return a->Date<b->Date?-1:1;
   for(i=0;i<3;i++) { int x=(unsigned char)vh_lower(a->Name[i]),y=(unsigned char)vh_lower(b->Name[i]); if(x!=y) return x<y?-1:1; if(!x) return 0; }
   return 0;
}
void harness(void)
{
   struct jbList l; struct osFileEntry *f,*e[3]={&f0,&f1,&f2}; unsigned i,k,seen[3]={0,0,0};
   jbNewList(&l);
   for(i=0;i<NF_;i++) { e[i]->Date=(time_t)in_u32(); in_str(e[i]->Name,2); for(k=0;k<2;k++) ASSUME((uint8_t)e[i]->Name[k]<127); jbAddNode(&l,(struct jbNode *)e[i]); }
   CHECK(SortFEList(&l),"sorted");
   for(i=0,f=(struct osFileEntry *)l.First;f && i<5;f=f->Next,i++)
   {
      for(k=0;k<3;k++) if(f==e[k]) seen[k]++;
      if(f->Next) CHECK(order(f,f->Next)<=0,"oldest first, those of the same time by name");
   }
   CHECK(i==NF_,"as many as before"); for(k=0;k<NF_;k++) CHECK(seen[k]==1,"every file once");
   REACHED("end");
}
#elif MODE==3
static char data[90]; static int openfails; static struct Packer p1,p2;
osFile osOpen(char *n,uint32_t m) { CHECK(m==MODE_OLDFILE,"only read"); return openfails?(osFile)0:(osFile)data; }
uint32_t osRead(osFile f,void *b,uint32_t n) { uint32_t i; for(i=0;i<FL && i<n;i++) ((char *)b)[i]=data[i]; return FL<n?FL:n; }
bool osClose(osFile f) { CHECK(!openfails,"closed once"); return TRUE; }
static unsigned hx(char c) { c=vh_lower(c); return c<='9'?c-'0':c-'a'+10; }
static bool hexd(char c) { c=vh_lower(c); return (c>='0' && c<='9') || (c>='a' && c<='f'); }
static bool recog(const char *r)
{
   unsigned i,c=0; bool ok=TRUE;
   for(i=0;r[i];c++)
   {
      uint8_t b=c<FL?(uint8_t)data[c]:0;
      if(r[i]=='$') { ASSUME(hexd(r[i+1]) && hexd(r[i+2])); if(b!=hx(r[i+1])*16+hx(r[i+2])) ok=FALSE; i+=3; }
      else { if(r[i]!='?' && b!=(uint8_t)r[i]) ok=FALSE; i++; }
   }
   return ok;
}
void harness(void)
{
   struct Packer *r; unsigned i; in_buf(data,FL); openfails=in_bool();
#ifdef RL
   in_str(p1.Recog,RL); in_str(p2.Recog,RL);
#else
   vh_cpy(p1.Recog,R1); vh_cpy(p2.Recog,R2);
#endif
   p1.Next=&p2; config.PackerList.First=(struct jbNode *)&p1; config.PackerList.Last=(struct jbNode *)&p2;
   r=DetectPacker("f");
   if(openfails) CHECK(!r,"a file that cannot be read has no packer");
   else { bool a=recog(p1.Recog),b=recog(p2.Recog); CHECK(r==(a?&p1:b?&p2:(struct Packer *)0),"the first packer whose characters are at the start of the file"); }
   REACHED("end");
}
#elif MODE==4
void harness(void)
{
   char s[L+1]; unsigned long v=0; unsigned i; bool on=TRUE; in_str(s,L);
   for(i=0;i<L;i++) { char c=vh_lower(s[i]); unsigned x=c>='0' && c<='9'?(unsigned)(c-'0'):c>='a' && c<='f'?(unsigned)(c-'a'+10):99u; if(x==99) on=FALSE; if(on) v=v*16+x; }
   CHECK(hextodec(s)==v,"the hexadecimal number");
   REACHED("end");
}
#else
static char moved[100],name[40]; static int moves,movefails,nexist,asked;
static bool is(const char *d,int k)   /* d is the k-th name for the bad file */
{
   char e[100]; unsigned n=0,i; static const char in[]=INB;
   for(i=0;i<sizeof(in)-1;i++) e[n++]=in[i]; if(n && e[n-1]!='/') e[n++]='/';
   for(i=0;i<NL;i++) e[n++]=name[i]; e[n++]='.'; e[n++]='b'; e[n++]='a'; e[n++]='d'; if(k) { e[n++]=','; e[n++]=(char)('0'+k); } e[n]=0;
   return vh_eq(d,e);
}
bool osExists(char *n) { CHECK(is(n,asked),"the names are tried in order"); return asked++<nexist; }
bool movefile(char *a,char *b) { moves++; CHECK(is(b,nexist),"moved to the first free name in the inbound"); return !movefails; }
uint32_t osError(void) { return 7; }
char *osErrorMsg(uint32_t e) { return ""; }
void osSetComment(char *f,char *c) { CHECK(moves==1 && !movefails,"comment of the moved file"); }
void harness(void)
{
   unsigned i; static char f[40]; vh_cpy(config.cfg_Inbound,INB); vh_cpy(f,"d/"); for(i=0;i<NL;i++) { f[2+i]=name[i]=(char)in_range(48,122); } f[2+NL]=0; vh_fixlen(f,2+NL);
   nexist=NEX; movefails=in_bool(); ioerror=FALSE;
   BadFile(f,"x");
   CHECK(moves==1,"moved once"); CHECK(ioerror==(movefails?TRUE:FALSE),"a failure is remembered so that the file is kept");
   REACHED("end");
}
#endif
