/* Filter expressions: the value of the text is the value of the formula. */
#include "cm.h"
#ifndef QC
#define QC 'x'
#endif

static int val[4];      /* truth value of a,b,c,d */
static int asked[4];
static int ev(char *s,int *errpos,char **errstr)
{
   int i=s[0]-'a';
#if PART==6
   if(s[0]>='a' && s[0]<='d' && s[1]=='=' && s[2]=='"' && s[3]=='(' && s[4]==QC && s[5]==' ' && s[6]=='"' && !s[7]) { asked[i]++; return val[i]; }
#endif
   if(s[0]<'a' || s[0]>'d' || s[1]) { *errpos=0; *errstr="bad"; return -1; }
   asked[i]++;
   return val[i];
}
static char buf[64]; static unsigned bl;
static void put(const char *s) { unsigned i; for(i=0;s[i];i++) buf[bl++]=s[i]; buf[bl]=0; }
static void word(const char *s) { unsigned i; for(i=0;s[i];i++) buf[bl++]=(char)((s[i]>='A' && s[i]<='Z' && (CASE))?s[i]+32:s[i]); buf[bl]=0; }

static void q(const char *v) { static const char t[]={'=','"','(',QC,' ','"',0}; put(v); put(t); }
static void init(void) { int i; for(i=0;i<4;i++) { val[i]=in_bool(); asked[i]=0; } }
static int run(void)
{
   struct expr *e; int pos=0,r; char *err=0;
   e=expr_makeexpr(buf);
   r=expr_eval(e,ev,&pos,&err);
   expr_free(e);
   bl=0;
   return r;
}
#define OP(k,x,y) ((k)?((x)&&(y)):((x)||(y)))
#define SP(k) word((k)?" AND ":" OR ")
static void nt(int n) { if(n) word("NOT "); }
#define NV(n,x) ((n)?!(x):(x))

void harness(void)
{
   int n1,n2,n3,n4,k1,k2,k3;
   init();
   /* every shape below is one formula text; its truth is decided for all values of its variables */
#if PART==1 || PART==0
   for(n1=0;n1<2;n1++)
   {
      nt(n1); put("a");
      CHECK(run()==NV(n1,val[0]),"single condition");
      nt(n1); put("(a)");
      CHECK(run()==NV(n1,val[0]),"parenthesised condition");
      put("("); nt(n1); put("a)");
      CHECK(run()==NV(n1,val[0]),"parenthesised negation");
   }
#endif
#if PART==2
   for(k1=0;k1<2;k1++)
   {
      for(n1=0;n1<2;n1++) for(n2=0;n2<2;n2++)
      {
         nt(n1); put("a"); SP(k1); nt(n2); put("b");
         CHECK(run()==OP(k1,NV(n1,val[0]),NV(n2,val[1])),"two conditions");
      }
      for(n1=0;n1<2;n1++)
      {
         nt(n1); put("(a"); SP(k1); put("b)");
         CHECK(run()==NV(n1,OP(k1,val[0],val[1])),"negated group");
      }
   }
#endif
#if PART==3
   for(k1=0;k1<2;k1++) for(k2=0;k2<2;k2++)
   {
      put("a"); SP(k1); put("b"); SP(k2); put("c");
      CHECK(run()==OP(k2,OP(k1,val[0],val[1]),val[2]),"chains are evaluated from left to right");
      for(n1=0;n1<2;n1++)
      {
         put("a"); SP(k1); nt(n1); put("(b"); SP(k2); put("c)");
         CHECK(run()==OP(k1,val[0],NV(n1,OP(k2,val[1],val[2]))),"group on the right");
         nt(n1); put("(a"); SP(k1); put("b)"); SP(k2); put("c");
         CHECK(run()==OP(k2,NV(n1,OP(k1,val[0],val[1])),val[2]),"group on the left");
      }
   }
#endif
#if PART==4
   for(k1=0;k1<2;k1++) for(k2=0;k2<2;k2++) for(k3=0;k3<2;k3++)
   {
      put("a"); SP(k1); put("b"); SP(k2); put("c"); SP(k3); put("d");
      CHECK(run()==OP(k3,OP(k2,OP(k1,val[0],val[1]),val[2]),val[3]),"chain of four");
      put("(a"); SP(k1); put("b)"); SP(k2); put("NOT (c"); SP(k3); put("d)");
      CHECK(run()==OP(k2,OP(k1,val[0],val[1]),!OP(k3,val[2],val[3])),"two groups");
      put("a"); SP(k1); put("(b"); SP(k2); put("NOT (c"); SP(k3); put("d))");
      CHECK(run()==OP(k1,val[0],OP(k2,val[1],!OP(k3,val[2],val[3]))),"nested groups");
   }
#endif
#if PART==5
   for(k1=0;k1<2;k1++) for(k2=0;k2<2;k2++)
   {
      put("((a"); SP(k1); put("b)"); SP(k2); put("c)");
      CHECK(run()==OP(k2,OP(k1,val[0],val[1]),val[2]),"group at the start of a group");
      for(k3=0;k3<2;k3++)
      {
         put("((a"); SP(k1); put("b)"); SP(k2); put("c)"); SP(k3); put("d");
         CHECK(run()==OP(k3,OP(k2,OP(k1,val[0],val[1]),val[2]),val[3]),"group at the start of a group on the left");
         put("a"); SP(k1); put("((b"); SP(k2); put("c)"); SP(k3); put("d)");
         CHECK(run()==OP(k1,val[0],OP(k3,OP(k2,val[1],val[2]),val[3])),"group at the start of a group on the right");
      }
   }
   for(k1=0;k1<2;k1++)
   {
      put(" ( a "); SP(k1); put(" b )  "); CHECK(run()==OP(k1,val[0],val[1]),"spaces do not matter");
      put("NOT ((a"); SP(k1); put("b))"); CHECK(run()==!OP(k1,val[0],val[1]),"negated doubled parentheses");
      put("(NOT (a)"); SP(k1); put("NOT (b))"); CHECK(run()==OP(k1,!val[0],!val[1]),"groups of one condition");
   }
#endif
#if PART==6
   for(k1=0;k1<2;k1++)
   {
      q("a"); SP(k1); q("b"); CHECK(run()==OP(k1,val[0],val[1]),"quoted texts with spaces and parentheses are part of their condition");
      put("("); q("a"); SP(k1); put("b)"); CHECK(run()==OP(k1,val[0],val[1]),"also within a group");
      put("NOT ("); put("a"); SP(k1); q("b"); put(")"); CHECK(run()==!OP(k1,val[0],val[1]),"also at the end of a group");
   }
#endif
#if PART==0 || PART==1
   /* malformed: reported, never treated as true or false */
   put("a b"); CHECK(run()==-1,"missing operator is an error");
   put("a"); SP(1); CHECK(run()==-1,"missing operand is an error");
   put("(a"); CHECK(run()==-1,"missing parenthesis is an error");
   put("a"); SP(0); put("zz"); CHECK(run()==-1,"bad condition is an error");
#endif
   REACHED("end");
}
