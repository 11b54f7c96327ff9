/* String patterns. */
#include "cm.h"
static char low(char c) { return vh_lower(c); }
void harness(void)
{
   char p[PLEN+1],s[SLEN+1]; int want=1; unsigned i;
   in_str(p,PLEN); in_str(s,SLEN);
   for(i=0;;i++)
   {
      if(p[i]=='*') break;
      if(!p[i]) { want=!s[i]; break; }
      if(!s[i]) { want=0; break; }
      if(p[i]!='?' && low(p[i])!=low(s[i])) { want=0; break; }
   }
   CHECK((osMatchPattern(p,s)!=0)==want,"? stands for any one character, * for the rest, letters match in either case");
   { int st=0; for(i=0;p[i];i++) if(p[i]=='*' || p[i]=='?') st=1;
     CHECK((osIsPattern(p)!=0)==st,"a text with a wildcard is recognised as a pattern"); }
   if(want) REACHED("match"); else REACHED("no match");
}
