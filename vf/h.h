/* Common harness interface.
 *
 * The same harness source is used twice:
 *   - compiled by goto-cc (VH_CBMC defined): every in_*() is a symbolic input,
 *     CHECK() is the property, REACHED() is a reachability witness that must
 *     come back violated (otherwise the harness is vacuous);
 *   - compiled by gcc (VH_CBMC not defined): in_*() replays the values of a
 *     counterexample, CHECK() fails concretely against the real code.
 */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>

#ifdef VH_CBMC
uint8_t  nondet_vh_u8(void);
uint16_t nondet_vh_u16(void);
uint32_t nondet_vh_u32(void);
uint64_t nondet_vh_u64(void);
static inline uint8_t  in_u8(void)  { uint8_t  v=nondet_vh_u8();  __CPROVER_input("vhin",v); return v; }
static inline uint16_t in_u16(void) { uint16_t v=nondet_vh_u16(); __CPROVER_input("vhin",v); return v; }
static inline uint32_t in_u32(void) { uint32_t v=nondet_vh_u32(); __CPROVER_input("vhin",v); return v; }
static inline uint64_t in_u64(void) { uint64_t v=nondet_vh_u64(); __CPROVER_input("vhin",v); return v; }
#define ASSUME(c)     __CPROVER_assume(c)
#define CHECK(c,msg)  __CPROVER_assert(c,"P: " msg)
#define REACHED(msg)  __CPROVER_assert(0,"V: " msg)
#define VH_STOP()     __CPROVER_assume(0)
void vh_fixlen(const char *p,unsigned n);   /* the string at p has exactly n characters (checked) */
#else
#define vh_fixlen(p,n) ((void)0)
uint64_t vh_next(void);
static inline uint8_t  in_u8(void)  { return (uint8_t)vh_next(); }
static inline uint16_t in_u16(void) { return (uint16_t)vh_next(); }
static inline uint32_t in_u32(void) { return (uint32_t)vh_next(); }
static inline uint64_t in_u64(void) { return (uint64_t)vh_next(); }
void vh_assume_failed(const char *what);
void vh_check_failed(const char *what,const char *file,int line);
void vh_stop(void);
#define ASSUME(c)     do { if(!(c)) vh_assume_failed(#c); } while(0)
#define CHECK(c,msg)  do { if(!(c)) vh_check_failed(msg,__FILE__,__LINE__); } while(0)
#define REACHED(msg)  do { } while(0)
#define VH_STOP()     vh_stop()
#endif

#define in_bool() (in_u8()&1)

/* symbolic integer in lo..hi (inclusive) */
static inline uint32_t in_range(uint32_t lo,uint32_t hi)
{
   uint32_t v=in_u32();
   ASSUME(v>=lo && v<=hi);
   return v;
}

/* n arbitrary bytes */
static inline void in_buf(void *p,unsigned n)
{
   unsigned i;
   for(i=0;i<n;i++) ((uint8_t *)p)[i]=in_u8();
}

/* arbitrary string of at most n characters in a buffer of n+1 bytes */
static inline void in_str(char *p,unsigned n)
{
   unsigned i;
   for(i=0;i<n;i++) p[i]=(char)in_u8();
   p[n]=0;
}

/* reference string helpers, independent of the code under test */
static inline unsigned vh_len(const char *s) { unsigned n=0; while(s[n]) n++; return n; }
static inline int vh_eq(const char *a,const char *b)
{
   unsigned i=0;
   while(a[i] && a[i]==b[i]) i++;
   return a[i]==b[i];
}
static inline char vh_lower(char c) { return (c>='A' && c<='Z') ? (char)(c+32) : c; }
static inline int vh_ieq(const char *a,const char *b)
{
   unsigned i=0;
   while(a[i] && vh_lower(a[i])==vh_lower(b[i])) i++;
   return vh_lower(a[i])==vh_lower(b[i]);
}
static inline void vh_cpy(char *d,const char *s) { unsigned i=0; while((d[i]=s[i])) i++; }

extern int64_t vh_now;   /* current time of the model, UTC */
void harness(void);
#endif
