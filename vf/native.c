/* Replay runtime: feeds the solver's values to the harness, natively. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>

static FILE *in;
static unsigned long used;

uint64_t vh_next(void)
{
   unsigned long long v;
   if(!in || fscanf(in,"%llu",&v)!=1) v=0;   /* inputs the trace did not need */
   used++;
   return v;
}
void vh_assume_failed(const char *what)
{
   printf("VH-ASSUME %s\n",what); fflush(stdout); _exit(3);
}
void vh_check_failed(const char *what,const char *file,int line)
{
   printf("VH-FAIL %s (%s:%d)\n",what,file,line); fflush(stdout); _exit(7);
}
void vh_stop(void) { printf("VH-STOP\n"); fflush(stdout); _exit(0); }
/* calls routed to the file-system model when a harness does without it */
#define W __attribute__((weak))
W int vh_fflush(void *f) { return 0; }
W int vh_setbuf(void *f,char *b) { return 0; }
W int vh_fputs(const char *s,void *f) { return 1; }
W int vh_fputc(int c,void *f) { return c; }
W int vh_system(const char *s) { return 0; }
W char *vh_getenv(const char *s) { return 0; }
void harness(void);
int main(int argc,char **argv)
{
   if(argc>1) in=fopen(argv[1],"r");
   harness();
   printf("VH-OK inputs=%lu\n",used);
   fflush(stdout);
   _exit(0);
}
