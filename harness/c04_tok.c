/* Words of a configuration line. */
#include "cm.h"
void WriteSafely(osFile fh,char *str);

#if MODE==1      /* tokeniser against a reference reading, any line, any room */
void harness(void)
{
   char s[SLEN+1],d[16],want[SLEN+1]; uint32_t pos,end,max; unsigned n=0,i,k; int q=0,ok;
   in_str(s,SLEN);
   pos=in_range(0,SLEN);
   for(k=0;k<SLEN;k++) if(k<pos) ASSUME(s[k]!=0);
   max=in_range(1,MAXD);
   for(i=0;i<16;i++) d[i]=(char)0x55;
   i=pos;
   while(s[i]==' ' || s[i]==9) i++;
   if(s[i]=='"') { q=1; i++; }
   for(;;)
   {
      char c=s[i];
      if(c==0 || c==10) break;
      if(q && c=='"') break;
      if(!q && (c==' ' || c==9)) break;
      if(c=='\\' && s[i+1]!=0 && s[i+1]!=10) { i++; c=s[i]; }
      want[n++]=c;
      i++;
   }
   want[n]=0;
   if(n>max-1) want[max-1]=0;
   end=pos;
   ok=jbstrcpy(d,s,max,&end);
   CHECK((ok!=0)==((n>0 && max>1) || q),"a word is reported exactly when there is one (an empty quoted word counts)");
   CHECK(vh_eq(d,want),"the word is the text with quotes and backslashes removed, cut to the room available");
   for(k=0;k<16;k++) if(k>=max) CHECK(d[k]==0x55,"nothing is written beyond the room available");
   if(s[i]==' ' || s[i]==9 || s[i]=='"') CHECK(end==i+1,"reading continues after the separator"); else CHECK(end==i,"reading stops at the end of the line");
   if(ok && q && n==2 && max>3) REACHED("quoted word");
   if(ok && !q && n>max) REACHED("cut word");
}
#endif

#if MODE==2      /* rest of line */
void harness(void)
{
   char s[SLEN+1],d[16]; uint32_t pos,end,max; unsigned i,k,n=0; int ok;
   in_str(s,SLEN);
   pos=in_range(0,SLEN);
   for(k=0;k<SLEN;k++) if(k<pos) ASSUME(s[k]!=0);
   max=in_range(1,MAXD);
   for(i=0;i<16;i++) d[i]=(char)0x55;
   i=pos;
   while(s[i]==' ' || s[i]==9) i++;
   end=pos;
   ok=jbstrcpyrest(d,s,max,&end);
   for(;s[i]!=10 && s[i]!=0;i++,n++) if(n<max-1) CHECK(d[n]==s[i],"the rest of the line is copied as it is");
   CHECK(d[n<max-1?n:max-1]==0,"terminated");
   for(k=0;k<16;k++) if(k>=max) CHECK(d[k]==0x55,"nothing is written beyond the room available");
   CHECK((ok!=0)==(n>0 && max>1),"reported");
   CHECK(end==i,"all of the line is consumed");
   REACHED("end");
}
#endif

#if MODE==3      /* a value written to the configuration reads back unchanged */
void harness(void)
{
   char v[SLEN+1],line[3*SLEN+20],back[SLEN+8]; osFile fh; uint32_t pos=0,i; char nx[8];
   in_str(v,SLEN);
   for(i=0;i<SLEN;i++) ASSUME(v[i]!=10);
   fh=osOpen("f",MODE_NEWFILE);
   osFPrintf(fh,"KEY ");
   WriteSafely(fh,v);
   osFPrintf(fh," NEXT\n");
   osClose(fh);
   fh=osOpen("f",MODE_OLDFILE);
   CHECK(osFGets(fh,line,sizeof(line))>0,"line there");
   CHECK(osFGets(fh,nx,sizeof(nx))==0,"one line only");
   CHECK(jbstrcpy(nx,line,8,&pos) && vh_eq(nx,"KEY"),"keyword first");
   CHECK(jbstrcpy(back,line,sizeof(back),&pos),"value present");
   CHECK(vh_eq(v,back),"a value written to the configuration reads back unchanged");
   CHECK(jbstrcpy(nx,line,8,&pos) && vh_eq(nx,"NEXT"),"what follows the value is still read");
   CHECK(!jbstrcpy(nx,line,8,&pos),"and nothing else");
   REACHED("read back");
}
#endif
