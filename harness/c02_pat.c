/* Node patterns and destination patterns. */
#include "cm.h"

/* decimal text of n, without division: the digits are inputs */
static unsigned numtext(char *t)   /* returns the value, text in t (<=5 digits) */
{
   unsigned len=in_range(1,MAXDIG),i,v=0;
   for(i=0;i<MAXDIG;i++)
   {
      unsigned d=in_range(0,9);
      if(i<len) { if(i==0 && len>1) ASSUME(d!=0); t[i]=(char)('0'+d); v=v*10+d; } else t[i]=0;
   }
   t[MAXDIG]=0;
   ASSUME(v<=65535);
   return v;
}
static int match(const char *p,const char *t)
{
   unsigned i;
   if(!p[0]) return 1;
   for(i=0;;i++)
   {
      if(p[i]=='*') return 1;
      if(!p[i]) return !t[i];
      if(!t[i]) return 0;
      if(p[i]!='?' && p[i]!=t[i]) return 0;
   }
}
static int patch(char c) { return (c>='0' && c<='9') || c=='*' || c=='?'; }
static void anypat(char *p,unsigned n)
{
   unsigned i;
   in_str(p,n);
   for(i=0;i<n;i++) ASSUME(!p[i] || patch(p[i]));
}

static int region,hub; static struct Node4D asked; static int askn;
static long getregion(struct Node4D *n) { asked=*n; askn++; return region; }
static long gethub(struct Node4D *n) { asked=*n; askn++; return hub; }
static struct Nodelist nl;
static char rtext[8],htext[8];
static void nodelist(void)
{
   nl.nlGetRegion=getregion; nl.nlGetHub=gethub;
   config.cfg_NodelistType=&nl;
   nodelistopen=in_bool();
   region=in_bool()?-1:(int)numtext(rtext);
   hub=in_bool()?-1:(int)numtext(htext);
}

#if MODE==1   /* one component */
void harness(void)
{
   char p[10],t[MAXDIG+1]; unsigned v,i;
   for(i=0;i<10;i++) p[i]=0;
   anypat(p,PLEN);
   v=numtext(t);
   CHECK((NodeCompare(p,(uint16_t)v)==0)==match(p,t),"a pattern part matches exactly the numbers whose decimal text it describes");
   if(match(p,t)) REACHED("match"); else REACHED("no match");
}
#endif

#if MODE==2   /* whole pattern */
void harness(void)
{
   struct Node4DPat pat; struct Node4D n; char z[MAXDIG+1],e[MAXDIG+1],o[MAXDIG+1],q[MAXDIG+1]; int want,got,zm;
   memset(&pat,0,sizeof(pat));
   pat.Type=TYPE;
   anypat(pat.Zone,PLEN); anypat(pat.Net,PLEN); anypat(pat.Node,PLEN); anypat(pat.Point,PLEN);
   n.Zone=(uint16_t)numtext(z); n.Net=(uint16_t)numtext(e); n.Node=(uint16_t)numtext(o); n.Point=(uint16_t)numtext(q);
   nodelist();
   zm=n.Zone==0 || match(pat.Zone,z);
   switch(TYPE)
   {
      case PAT_PATTERN: want=zm && match(pat.Net,e) && match(pat.Node,o) && match(pat.Point,q); break;
      case PAT_ZONE:    want=match(pat.Zone,z); break;
      case PAT_REGION:  want=nodelistopen && region!=-1 && zm && match(pat.Net,rtext); break;
      case PAT_NET:     want=zm && match(pat.Net,e); break;
      case PAT_HUB:     want=nodelistopen && hub!=-1 && zm && match(pat.Net,e) && match(pat.Node,htext); break;
      default:          want=zm && match(pat.Net,e) && match(pat.Node,o); break;
   }
   got=Compare4DPat(&pat,&n)==0;
   CHECK(got==want,"a node pattern matches exactly the addresses it describes");
   if(askn) CHECK(asked.Zone==n.Zone && asked.Net==n.Net && asked.Node==n.Node && asked.Point==0,"region and hub are looked up for the boss node");
   if(got) REACHED("match"); else REACHED("no match");
}
#endif

#if MODE==3   /* text of a pattern */
static const char *kw[6]={"","ZONE ","REGION ","NET ","HUB ","NODE "};
static void star(char *p) { p[0]='*'; p[1]=0; }
static const int ty[6]={PAT_PATTERN,PAT_ZONE,PAT_REGION,PAT_NET,PAT_HUB,PAT_NODE};
void harness(void)
{
   char s[8+PLEN+1],p0[PLEN+2],p1[PLEN+2],p2[PLEN+2],p3[PLEN+2]; struct Node4DPat p; unsigned i,k=0,l,np=0; int good=1,colon=0,slash=0,dot=0,have[4]={0,0,0,0}; char run[PLEN+1]; unsigned rl=0;
   memset(&p,in_u8(),sizeof(p));
   for(l=0;kw[KW][l];l++) s[l]=kw[KW][l];
   if(KW) { for(i=0;i<l-1;i++) if(in_bool()) s[i]=(char)(s[i]+32); }
   in_str(s+l,PLEN);
#if KW==0
   for(i=0;i<PLEN;i++) ASSUME(s[i]!=' ');   /* no keyword */
#endif
   star(p0); star(p1); star(p2); star(p3);
   if(!(s[l]=='*' && !s[l+1]))
   {
      for(i=l;;i++)
      {
         char c=s[i]; int to=-1; unsigned j;
         if(patch(c)) { if(rl<9) run[rl++]=c; continue; }
         run[rl]=0;
         if(c==':') { if(colon||slash||dot) good=0; colon=1; to=0; }
         else if(c=='/') { if(slash||dot) good=0; slash=1; to=1; }
         else if(c=='.') { if(dot) good=0; dot=1; to=2; }
         else if(!c)
         {
            if(colon && !slash) to=1; else if(dot) to=3; else { to=2; p3[0]='0'; p3[1]=0; }
         }
         else good=0;
         if(!good) break;
         for(j=0;j<=PLEN;j++) if(j<=rl) { if(to==0) p0[j]=run[j]; else if(to==1) p1[j]=run[j]; else if(to==2) p2[j]=run[j]; else p3[j]=run[j]; }
         rl=0;
         if(!c) break;
      }
      if(good) ASSUME(!(colon && !slash && dot));
   }
   CHECK((Parse4DPat(s,&p)!=0)==good,"a pattern text is accepted exactly when it is well formed");
   if(good)
   {
      CHECK(p.Type==ty[KW],"the keyword selects the kind of pattern");
#if KW==0
      {
         CHECK(vh_eq(p.Zone,p0) && vh_eq(p.Net,p1) && vh_eq(p.Node,p2) && vh_eq(p.Point,p3),"every part is the one written, omitted zone and net match anything");
         if(colon && slash && dot) REACHED("full pattern");
      }
#endif
      if(KW==1) CHECK(vh_eq(p.Zone,p2),"ZONE n is zone n");
      if(KW==2 || KW==3) CHECK(vh_eq(p.Zone,p0) && vh_eq(p.Net,p1),"REGION/NET zone:net");
      if(KW==4 || KW==5) CHECK(vh_eq(p.Zone,p0) && vh_eq(p.Net,p1) && vh_eq(p.Node,p2),"HUB/NODE zone:net/node");
      REACHED("accepted");
   }
   else REACHED("rejected");
}
#endif

#if MODE==4   /* destination patterns */
static unsigned val(const char *p) { unsigned v=0,i; for(i=0;p[i];i++) v=v*10+(unsigned)(p[i]-'0'); return v; }
static int wild(const char *p) { unsigned i; for(i=0;p[i];i++) if(p[i]=='*' || p[i]=='?') return 1; return 0; }
void harness(void)
{
   struct Node4DPat pat; struct Node4D d,s; 
   memset(&pat,0,sizeof(pat));
   anypat(pat.Zone,PLEN); anypat(pat.Net,PLEN); anypat(pat.Node,PLEN); anypat(pat.Point,PLEN);
   pat.Type=TYPE;
   nodelist();
   d.Zone=in_u16(); d.Net=in_u16(); d.Node=in_u16(); d.Point=in_u16();
   s.Zone=in_u16(); s.Net=in_u16(); s.Node=in_u16(); s.Point=in_u16();
   ExpandNodePat(&pat,&d,&s);
   if(TYPE==PAT_PATTERN)
   {
      CHECK(s.Zone==(wild(pat.Zone)?d.Zone:val(pat.Zone)),"zone kept or replaced");
      CHECK(s.Net==(wild(pat.Net)?d.Net:val(pat.Net)),"net kept or replaced");
      CHECK(s.Node==(wild(pat.Node)?d.Node:val(pat.Node)),"node kept or replaced");
      CHECK(s.Point==(wild(pat.Point)?d.Point:val(pat.Point)),"point kept or replaced");
   }
   else
   {
      CHECK(s.Zone==d.Zone && s.Point==0,"coordinator routing keeps the zone and drops the point");
      if(TYPE==PAT_ZONE) CHECK(s.Net==d.Zone && s.Node==0,"ZONE is zone:zone/0");
      if(TYPE==PAT_NET) CHECK(s.Net==d.Net && s.Node==0,"NET is zone:net/0");
      if(TYPE==PAT_NODE) CHECK(s.Net==d.Net && s.Node==d.Node,"NODE is the boss");
      if(TYPE==PAT_REGION) { CHECK(s.Node==0,"REGION is node 0"); CHECK(s.Net==((nodelistopen && region>0)?region:d.Net),"REGION is the region of the destination, its net if unknown"); }
      if(TYPE==PAT_HUB) { CHECK(s.Net==d.Net,"HUB stays in the net"); CHECK(s.Node==((nodelistopen && hub>0)?hub:0),"HUB is the hub of the destination, the host if unknown"); }
      if(askn) CHECK(asked.Zone==d.Zone && asked.Net==d.Net && asked.Node==d.Node && asked.Point==0,"looked up for the boss node");
   }
   REACHED("expanded");
}
#endif

#if MODE==5   /* 2D patterns */
void harness(void)
{
   char s[PLEN+1],pn[PLEN+1],po[PLEN+1],e[MAXDIG+1],o[MAXDIG+1]; struct Node2DPat p; unsigned i,rl=0,net,node; int good=1,slash=0;
   memset(&p,in_u8(),sizeof(p));
   in_str(s,PLEN);
   pn[0]='*'; pn[1]=0; po[0]=0;
   if(s[0]=='*' && !s[1]) { po[0]='*'; po[1]=0; }
   else for(i=0;s[i];i++)
   {
      if(s[i]=='/') { unsigned j; if(slash) { good=0; break; } slash=1; po[rl]=0; for(j=0;j<=rl;j++) pn[j]=po[j]; rl=0; po[0]=0; }
      else if(patch(s[i])) { if(rl<9) { po[rl++]=s[i]; po[rl]=0; } }
      else { good=0; break; }
   }
   net=numtext(e); node=numtext(o);
   CHECK((Parse2DPat(s,&p)!=0)==good,"accepted exactly when well formed");
   if(good)
   {
      CHECK((Compare2DPat(&p,(uint16_t)net,(uint16_t)node)==0)==(match(pn,e) && match(po,o)),"net/node pattern matches exactly what it describes");
      if(slash && match(pn,e) && match(po,o)) REACHED("match");
      REACHED("accepted");
   }
}
#endif
