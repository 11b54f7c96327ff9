/* Node addresses: text <-> number, ordering. */
#include <string.h>
#include "cm.h"

#ifndef SLEN
#define SLEN 8
#endif

#if MODE==1   /* print then parse gives the address back */
void harness(void)
{
   struct Node4D a,b; char buf[24];
   a.Zone=a.Net=a.Node=a.Point=OTHER;
#if PART==0
   a.Zone=in_u16();
#elif PART==1
   a.Net=in_u16();
#elif PART==2
   a.Node=in_u16();
#else
   a.Point=in_u16();
#endif
   Print4D(&a,buf);
   b.Zone=in_u16(); b.Net=in_u16(); b.Node=in_u16(); b.Point=in_u16();
   CHECK(Parse4D(buf,&b),"a printed address parses");
   CHECK(a.Zone==b.Zone && a.Net==b.Net && a.Node==b.Node && a.Point==b.Point,"printing and parsing an address is the identity");
   REACHED("round trip");
}
#endif

#if MODE==2   /* comparison */
static struct Node4D any(void)
{
   struct Node4D n; n.Zone=in_u16(); n.Net=in_u16(); n.Node=in_u16(); n.Point=in_u16(); return n;
}
static int same(struct Node4D *a,struct Node4D *b)
{
   if(a->Net!=b->Net || a->Node!=b->Node || a->Point!=b->Point) return 0;
   return a->Zone==b->Zone || a->Zone==0 || b->Zone==0;
}
void harness(void)
{
   struct Node4D a=any(),b=any(),c=any(),d;
   int ab=Compare4D(&a,&b),ba=Compare4D(&b,&a);
   CHECK((ab==0)==same(&a,&b),"two addresses compare equal exactly when all parts agree (zone 0 = any zone)");
   CHECK((ab<0)==(ba>0) && (ab>0)==(ba<0),"comparison is antisymmetric");
   if(a.Zone && b.Zone && c.Zone && ab<=0 && Compare4D(&b,&c)<=0)
   {
      CHECK(Compare4D(&a,&c)<=0,"comparison is transitive");
      REACHED("transitive");
   }
   if(a.Zone && b.Zone && a.Zone<b.Zone) CHECK(ab<0,"order is zone first");
   if(a.Zone==b.Zone && a.Net<b.Net) CHECK(ab<0,"then net");
   if(a.Zone==b.Zone && a.Net==b.Net && a.Node<b.Node) CHECK(ab<0,"then node");
   if(a.Zone==b.Zone && a.Net==b.Net && a.Node==b.Node && a.Point<b.Point) CHECK(ab<0,"then point");
   d=any();
   Copy4D(&d,&a);
   CHECK(a.Zone==d.Zone && a.Net==d.Net && a.Node==d.Node && a.Point==d.Point,"copying copies every part");
   REACHED("compare");
}
#endif

#if MODE==3   /* any text: accepted iff well formed, parts as written, missing parts from the template */
void harness(void)
{
   char s[SLEN+1]; struct Node4D t,n; int ok,good=1; unsigned i;
   /* independent reading of the text */
   int colon=-1,slash=-1,dot=-1,len;
   uint32_t part[4]; int have[4]; /* zone net node point */
   int cur=0,got=0; uint32_t val=0; int stage=0;
   in_str(s,SLEN);
   t.Zone=in_u16(); t.Net=in_u16(); t.Node=in_u16(); t.Point=in_u16();
   for(i=0;i<4;i++) { part[i]=0; have[i]=0; }
   for(i=0;s[i];i++)
   {
      char c=s[i];
      if(c==':') { if(colon>=0 || slash>=0 || dot>=0) good=0; colon=i; }
      else if(c=='/') { if(slash>=0 || dot>=0) good=0; slash=i; }
      else if(c=='.') { if(dot>=0) good=0; dot=i; }
      else if(c<'0' || c>'9') good=0;
   }
   len=i;
   /* zone:x.y without a slash has no documented meaning */
   ASSUME(!(colon>=0 && slash<0 && dot>=0));
   ok=Parse4DTemplate(s,&n,&t);
   CHECK((ok!=0)==good,"an address text is accepted exactly when it is [zone:][net/]node[.point] with digits only");
   if(good)
   {
      /* which part does each run of digits belong to */
      int p=0;
      for(i=0;;i++)
      {
         char c=s[i];
         if(c>='0' && c<='9') { val=val*10+(uint32_t)(c-'0'); got=1; continue; }
         if(c==':') p=0;
         else if(c=='/') p=1;
         else if(c=='.') p=2;
         else { /* end */
            if(dot>=0) p=3; else if(colon>=0 && slash<0) p=1; else p=2; }
         if(got) { part[p]=val; have[p]=1; }
         val=0; got=0;
         if(!c) break;
      }
      for(i=0;i<4;i++) ASSUME(part[i]<=65535);
      CHECK(n.Zone==(have[0]?part[0]:t.Zone),"zone as written or from the default");
      CHECK(n.Net==(have[1]?part[1]:t.Net),"net as written or from the default");
      CHECK(n.Node==(have[2]?part[2]:t.Node),"node as written or from the default");
      CHECK(n.Point==(have[3]?part[3]:t.Point),"point as written or from the default");
      REACHED("accepted");
      if(have[0] && have[1] && have[2] && have[3]) REACHED("full 4D");
   }
   else REACHED("rejected");
}
#endif
