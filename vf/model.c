/* C library model, CBMC only (natively the real C library is used).
 * Formatting is exact for the conversions crashmail uses. ctype is the C
 * locale. Functions not defined here come from CBMC's own library. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

int isdigit(int c)  { return c>='0' && c<='9'; }
int isupper(int c)  { return c>='A' && c<='Z'; }
int islower(int c)  { return c>='a' && c<='z'; }
int isalpha(int c)  { return isupper(c) || islower(c); }
int isalnum(int c)  { return isalpha(c) || isdigit(c); }
int isspace(int c)  { return c==' ' || (c>=9 && c<=13); }
int isprint(int c)  { return c>=32 && c<127; }
int iscntrl(int c)  { return (c>=0 && c<32) || c==127; }
int isgraph(int c)  { return c>32 && c<127; }
int ispunct(int c)  { return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c>='a' && c<='f') || (c>='A' && c<='F'); }
int tolower(int c)  { return isupper(c) ? c+32 : c; }
int toupper(int c)  { return islower(c) ? c-32 : c; }

/* strings of fixed length with arbitrary (nonzero) characters, announced by the
 * harness with vh_fixlen(): keeps lengths constant during symbolic execution.
 * The announcement is checked. */
#define VH_NFIX 8
static const char *vh_fp[VH_NFIX]; static size_t vh_fl[VH_NFIX]; static unsigned vh_nf;
void vh_fixlen(const char *p,unsigned n) { vh_fp[vh_nf]=p; vh_fl[vh_nf]=n; vh_nf++; }
static int vh_fixed(const char *s,size_t *n)
{
   unsigned i; size_t k;
   for(i=0;i<vh_nf;i++) if(vh_fp[i]==s)
   {
      *n=vh_fl[i];
      for(k=0;k<vh_fl[i];k++) { __CPROVER_assert(s[k]!=0,"M: announced string length"); __CPROVER_assume(s[k]!=0); }
      __CPROVER_assert(s[k]==0,"M: announced string length"); __CPROVER_assume(s[k]==0);
      return 1;
   }
   return 0;
}
size_t strlen(const char *s) { size_t n; if(vh_nf && vh_fixed(s,&n)) return n; n=0; while(s[n]) n++; return n; }
char *strcpy(char *d,const char *s)
{
   size_t i=0,n; char c;
   if(vh_nf && vh_fixed(s,&n)) { for(i=0;i<=n;i++) d[i]=s[i]; return d; }
   do { c=s[i]; d[i]=c; i++; } while(c);
   return d;
}
char *strncpy(char *d,const char *s,size_t n)
{
   size_t i; int end=0;
   for(i=0;i<n;i++) { if(!end) { d[i]=s[i]; if(!s[i]) end=1; } else d[i]=0; }
   return d;
}
char *strcat(char *d,const char *s)
{
   size_t i,l=strlen(d),n;
   if(vh_nf && vh_fixed(s,&n)) { for(i=0;i<=n;i++) d[l+i]=s[i]; return d; }
   for(i=0;;i++) { char c=s[i]; d[l+i]=c; if(!c) break; }
   return d;
}
char *strncat(char *d,const char *s,size_t n)
{
   size_t i,l=0;
   while(d[l]) l++;
   for(i=0;i<n && s[i];i++) d[l+i]=s[i];
   d[l+i]=0;
   return d;
}
int strcasecmp(const char *a,const char *b)
{
   size_t i;
   for(i=0;;i++)
   {
      int x=tolower((unsigned char)a[i]),y=tolower((unsigned char)b[i]);
      if(x!=y) return x-y;
      if(!x) return 0;
   }
}
int strncasecmp(const char *a,const char *b,size_t n)
{
   size_t i;
   for(i=0;i<n;i++)
   {
      int x=tolower((unsigned char)a[i]),y=tolower((unsigned char)b[i]);
      if(x!=y) return x-y;
      if(!x) return 0;
   }
   return 0;
}

long strtol(const char *s,char **e,int base)
{
   size_t i=0,any=0; int neg=0; long v=0;
   while(isspace((unsigned char)s[i])) i++;
   if(s[i]=='-') { neg=1; i++; } else if(s[i]=='+') i++;
   if((base==16 || base==0) && s[i]=='0' && (s[i+1]=='x' || s[i+1]=='X') && isxdigit((unsigned char)s[i+2])) { i+=2; base=16; }
   else if(base==0) base=(s[i]=='0')?8:10;
   for(;;i++)
   {
      int d;
      if(isdigit((unsigned char)s[i])) d=s[i]-'0';
      else if(isalpha((unsigned char)s[i])) d=tolower((unsigned char)s[i])-'a'+10;
      else break;
      if(d>=base) break;
      any=1;
      if(v>(9223372036854775807L-d)/base) v=9223372036854775807L; else v=v*base+d;
   }
   if(e) *e=(char *)(any?s+i:s);
   return neg?-v:v;
}
unsigned long strtoul(const char *s,char **e,int base) { return (unsigned long)strtol(s,e,base); }
/* bounded-digit fast path: decimal text as used by atoi/atol callers */
long atol(const char *s)
{
   size_t i=0; int neg=0; unsigned long v=0;
   while(isspace((unsigned char)s[i])) i++;
   if(s[i]=='-') { neg=1; i++; } else if(s[i]=='+') i++;
   for(;isdigit((unsigned char)s[i]);i++) v=v*10+(unsigned long)(s[i]-'0');
   return neg?-(long)v:(long)v;
}
int atoi(const char *s) { return (int)atol(s); }

char *strpbrk(const char *s,const char *a)
{
   size_t i,j;
   for(i=0;s[i];i++) for(j=0;a[j];j++) if(s[i]==a[j]) return (char *)s+i;
   return 0;
}
size_t strspn(const char *s,const char *a)
{
   size_t i,j;
   for(i=0;s[i];i++) { for(j=0;a[j] && a[j]!=s[i];j++); if(!a[j]) break; }
   return i;
}
size_t strcspn(const char *s,const char *a)
{
   size_t i,j;
   for(i=0;s[i];i++) { for(j=0;a[j] && a[j]!=s[i];j++); if(a[j]) break; }
   return i;
}
size_t strnlen(const char *s,size_t n) { size_t i; for(i=0;i<n && s[i];i++); return i; }
char *strstr(const char *h,const char *n)
{
   size_t i,j;
   for(i=0;;i++)
   {
      for(j=0;n[j] && h[i+j]==n[j];j++);
      if(!n[j]) return (char *)h+i;
      if(!h[i]) return 0;
   }
}
void *memchr(const void *p,int c,size_t n)
{
   size_t i;
   for(i=0;i<n;i++) if(((const unsigned char *)p)[i]==(unsigned char)c) return (char *)p+i;
   return 0;
}

/* ---- formatting ---- */
#ifndef VH_DIGITS
#define VH_DIGITS 10   /* decimal digits of a 32-bit value */
#endif
/* goto-cc does not apply the default argument promotions: look at the size actually passed */
#define VA_SZ(ap) __CPROVER_OBJECT_SIZE(*(void **)(ap))
unsigned nondet_vh_q(void);
struct out { char *d; size_t cap; size_t n; };
static void oput(struct out *o,char c) { if(o->n+1<o->cap) o->d[o->n]=c; o->n++; }

static const unsigned vh_p10[5]={1,10,100,1000,10000};
static unsigned vh_dig(unsigned w,unsigned p) { return (w>=p)+(w>=2*p)+(w>=3*p)+(w>=4*p)+(w>=5*p)+(w>=6*p)+(w>=7*p)+(w>=8*p)+(w>=9*p); }
int vh_vsnprintf(char *d,size_t cap,const char *f,va_list ap)
{
   struct out o; size_t i;
   o.d=d; o.cap=cap; o.n=0;
   for(i=0;f[i];i++)
   {
      int zero=0,left=0,width=0,prec=-1,lng=0;
      if(f[i]!='%') { oput(&o,f[i]); continue; }
      i++;
      while(f[i]=='0' || f[i]=='-' || f[i]=='#' || f[i]=='+' || f[i]==' ') { if(f[i]=='0') zero=1; if(f[i]=='-') left=1; i++; }
      while(f[i]>='0' && f[i]<='9') { width=width*10+(f[i]-'0'); i++; }
      if(f[i]=='*') { width=va_arg(ap,int); i++; }
      if(f[i]=='.') { i++; prec=0; if(f[i]=='*') { prec=va_arg(ap,int); i++; } while(f[i]>='0' && f[i]<='9') { prec=prec*10+(f[i]-'0'); i++; } }
      while(f[i]=='l' || f[i]=='h' || f[i]=='z') { if(f[i]!='h') lng++; i++; }
      if(f[i]=='%') { oput(&o,'%'); continue; }
      if(f[i]=='c') { oput(&o,VA_SZ(ap)==1?va_arg(ap,char):(char)va_arg(ap,int)); continue; }
      if(f[i]=='s')
      {
         const char *s=va_arg(ap,char *); int k,l=0;
         if(width) { while((prec<0 || l<prec) && s[l]) l++; if(!left) for(k=l;k<width;k++) oput(&o,' '); }
         for(k=0;(prec<0 || k<prec) && s[k];k++) oput(&o,s[k]);
         if(width && left) for(k=l;k<width;k++) oput(&o,' ');
         continue;
      }
      if(f[i]=='d' || f[i]=='i' || f[i]=='u' || f[i]=='x' || f[i]=='X' || f[i]=='o')
      {
         unsigned long v; int neg=0,k=0; char t[24]; unsigned base=(f[i]=='x' || f[i]=='X')?16:(f[i]=='o'?8:10);
         if(f[i]=='d' || f[i]=='i')
         {
            long sv; if(lng && VA_SZ(ap)==8) sv=va_arg(ap,long); else if(VA_SZ(ap)==2) sv=va_arg(ap,unsigned short); else if(VA_SZ(ap)==1) sv=va_arg(ap,unsigned char); else sv=va_arg(ap,int);
            if(sv<0) { neg=1; v=0-(unsigned long)sv; } else v=(unsigned long)sv;
         }
         else { if(lng && VA_SZ(ap)==8) v=va_arg(ap,unsigned long); else if(VA_SZ(ap)==2) v=va_arg(ap,unsigned short); else if(VA_SZ(ap)==1) v=va_arg(ap,unsigned char); else v=va_arg(ap,unsigned int); }
#ifdef VH_FMTNUM1
         /* the harness does not look at numbers in texts: one placeholder character */
         oput(&o,'#'); continue;
#endif
         { int j;
         if(base==16 && zero && !left && (unsigned)width<=8 && (width==8?v<=0xffffffffUL:v<(1UL<<(4*width))))
         {
            /* the value fills the field: constant number of characters */
            for(j=width-1;j>=0;j--) { unsigned dg=(unsigned)((v>>(4*j))&15); oput(&o,(char)(dg<10?'0'+dg:(f[i]=='X'?'A':'a')+dg-10)); }
            continue;
         }
         if(base==16 || base==8)
         {
            unsigned sh=base==16?4:3;
            for(j=0;j<22;j++)
            {
               unsigned dg=(unsigned)(v&(base-1));
               t[j]=(char)(dg<10?'0'+dg:(f[i]=='X'?'A':'a')+dg-10); v>>=sh; k=j+1;
               if(!v) break;
            }
         }
#if defined(VH_NDIG)
         else
         {
            /* every number formatted in this harness has exactly VH_NDIG digits */
            unsigned w=(unsigned)v;
            __CPROVER_assert(v>=VH_NLO && v<=VH_NHI,"M: number outside the stated range");
            __CPROVER_assume(v>=VH_NLO && v<=VH_NHI);
            for(j=VH_NDIG-1;j>=0;j--) { unsigned r=vh_dig(w,vh_p10[j]); t[j]=(char)('0'+r); w-=r*vh_p10[j]; }
            k=VH_NDIG;
         }
#else
#if VH_DIGITS<10
         else
         {
            __CPROVER_assert(v<=99999,"M: number larger than the model's bound");
            __CPROVER_assume(v<=99999);
#else
         else if(v<=0xffffffffUL)
         {
#endif
            unsigned w=(unsigned)v;
#ifdef VH_DIVFREE
            for(j=VH_DIGITS-1;j>=0;j--) { unsigned r=vh_dig(w,vh_p10[j]); t[j]=(char)('0'+r); w-=r*vh_p10[j]; if(r && !k) k=j+1; }
            if(!k) k=1;
#else
            for(j=0;j<VH_DIGITS;j++)
            {
               unsigned q=w/10,r=w%10;
               t[j]=(char)('0'+r); k=j+1; w=q;
               if(!w) break;
            }
#endif
         }
#if VH_DIGITS>=10
         else
            for(j=0;j<20;j++) { t[j]=(char)('0'+v%10); v/=10; k=j+1; if(!v) break; }
#endif
#endif
         }
         if(neg && zero) oput(&o,'-');
         { int pad=0,z=0;
           if(prec>0) z=prec>k?prec-k:0;
           if(width) pad=width-k-neg-z;
           if(width && !left) for(;pad>0;pad--) oput(&o,zero?'0':' ');
           if(neg && !zero) oput(&o,'-');
           if(prec>0) for(;z>0;z--) oput(&o,'0');
#ifdef VH_NDIG
           if(base==10) { int j; for(j=VH_NDIG-1;j>=0;j--) oput(&o,t[j]); } else
#endif
           { int j; if(base==10 && k<=VH_DIGITS) { for(j=VH_DIGITS-1;j>=0;j--) if(j<k) oput(&o,t[j]); } else for(j=21;j>=0;j--) if(j<k) oput(&o,t[j]); }
           if(width && left) for(;pad>0;pad--) oput(&o,' '); }
         continue;
      }
      __CPROVER_assert(0,"M: printf conversion outside the model");
   }
   if(cap) d[o.n<cap?o.n:cap-1]=0;
   return (int)o.n;
}
int vsprintf(char *d,const char *f,va_list ap) { return vh_vsnprintf(d,(size_t)1<<30,f,ap); }
int vsnprintf(char *d,size_t n,const char *f,va_list ap) { return vh_vsnprintf(d,n,f,ap); }
int sprintf(char *d,const char *f,...) { int r; va_list ap; va_start(ap,f); r=vh_vsnprintf(d,(size_t)1<<30,f,ap); va_end(ap); return r; }
int snprintf(char *d,size_t n,const char *f,...) { int r; va_list ap; va_start(ap,f); r=vh_vsnprintf(d,n,f,ap); va_end(ap); return r; }
int printf(const char *f,...) { return 1; }
int fprintf(FILE *fp,const char *f,...) { return 1; }
int puts(const char *s) { return 1; }
int putchar(int c) { return c; }
