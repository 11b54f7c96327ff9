/* Paths and command lines (path.c, mystrncpy.c, misc.c) */
#include "cm.h"
#include "logstub.h"
#ifndef D
#define D 8
#endif
#define B (16+D)
static char box[B]; static char full[60]; static unsigned fl;
static void put(const char *s) { while(*s) full[fl++]=*s++; full[fl]=0; }
static char *room(void) { unsigned i; for(i=0;i<B;i++) box[i]=0x5a; return box+8; }
static void within(unsigned size,bool exact)   /* a beginning of the wanted text, terminated, and nothing else written */
{
   unsigned i,n; char *d=box+8;
   for(n=0;n<size && d[n];n++);
   CHECK(n<size,"terminated"); if(n>=size) return;
   for(i=0;i<B;i++) if(i<8 || i>=8+size) CHECK(box[i]==0x5a,"nothing outside the buffer is written");
   for(i=0;i<n;i++) CHECK(i<fl && d[i]==full[i],"the text wanted");
   if(exact) CHECK(n==(fl<size-1?fl:size-1),"all of it that fits");
   else { if(fl+1<size) CHECK(n==fl,"all of it when it fits"); CHECK(n+2>=size || n==fl,"cut only at the end of the buffer"); }
}
#if MODE==1
void harness(void)
{
   char p[P+1],f[F+1]; char *d=room();
   in_str(p,P); in_str(f,F); put(p); if(fl && p[fl-1]!='/') put("/"); put(f);
   MakeFullPath(p,f,d,D); within(D,FALSE);
   REACHED("end");
}
#elif MODE==2
void harness(void)
{
   char s[F+1]; unsigned i,l=0; char *r; in_str(s,F); for(i=0;s[i];i++) if(s[i]=='/') l=i+1;
   r=GetFilePart(s); CHECK(r==s+l,"the part behind the last slash");
   REACHED("end");
}
#elif MODE==3
void harness(void)
{
   char s[F+1]; char *d=room(); in_str(s,F); put(s); mystrncpy(d,s,D); within(D,TRUE);
   REACHED("end");
}
#else
static char a[10][4];
void harness(void)
{
   static const char letters[]="rRmasxfto""d"; char c[F+1]; unsigned i,k; char *d=room(); bool hit;
   in_str(c,F); for(i=0;i<10;i++) { a[i][0]=(char)('0'+i); if(i&1) a[i][1]='y'; if(i==0 || i==9) a[i][1]=a[i][2]='z'; } a[2][0]=0;
#if MODE==4
   a[2][0]=F2;
#endif
#ifdef TPL
   { static const char t[]=TPL; for(i=0;i<F;i++) if(i<sizeof(t)-1) c[i]=t[i]=='?'?c[i]:t[i]; for(i=0;i<sizeof(t)-1;i++) ASSUME(c[i]); c[sizeof(t)-1]=0; }
#endif
   for(i=0;c[i];i++)
   {
      char s[2]={c[i],0};
      if(c[i]!='%' || !c[i+1]) { put(s); continue; }
      hit=FALSE;
#if MODE==4
      if(c[i+1]=='a' || c[i+1]=='A') { put(a[0]); hit=TRUE; }
      if(c[i+1]=='f' || c[i+1]=='F') { put(a[2]); hit=TRUE; }
#else
      for(k=0;k<10;k++) if(!hit && (c[i+1]==letters[k] || (k!=0 && k!=1 && k!=3 && c[i+1]==letters[k]-32))) { put(a[k]); hit=TRUE; }
#endif
      if(!hit) { s[0]=c[i+1]; put(s); }
      i++;
   }
#if MODE==4
   ExpandPacker(c,d,D,a[0],a[2]);
#else
   ExpandFilter(c,d,D,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]);
#endif
   within(D,TRUE);
   REACHED("end");
}
#endif
