/* LD_PRELOAD stand-in for the environment of the programs under test:
   - time() starts at CM_TIME and goes on in real time from there
   - the CM_OPN-th file operation (counted from 1) is made to fail (CM_OPMODE=fail)
     or ends the process there and then (CM_OPMODE=kill) or is interrupted (CM_OPMODE=int)
   - CM_OPLOG: append one line per counted operation to that file
   - CM_SCHED: number of an inherited socket; before each operation the process says what it is
     about to do and waits for g(o), f(ail), k(ill) or i(nterrupt, then go)                  */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static long base, start; static int inited, opn, opmode, cnt, logfd=-1, sched=-1;
static const char *opname; static long killgrp;

static void init(void)
{
   char *s; struct timespec ts;
   if(inited) return;
   inited=1;
   if((s=getenv("CM_TIME"))) { base=atol(s); clock_gettime(CLOCK_MONOTONIC,&ts); start=ts.tv_sec; }
   if((s=getenv("CM_OPN"))) opn=atoi(s);
   if((s=getenv("CM_OPMODE"))) opmode=!strcmp(s,"kill") ? 1 : !strcmp(s,"int") ? 3 : 2;
   if((s=getenv("CM_OPLOG"))) logfd=open(s,O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0666);
   if((s=getenv("CM_SCHED"))) { sched=atoi(s); fcntl(sched,F_SETFD,FD_CLOEXEC); unsetenv("CM_SCHED"); }
   /* child processes (packers) are not injected into */
   unsetenv("CM_OPN"); unsetenv("CM_OPLOG"); unsetenv("LD_PRELOAD");
}
__attribute__((constructor)) static void ctor(void) { init(); }

time_t time(time_t *t)
{
   struct timespec ts; time_t r;
   init();
   if(base) { clock_gettime(CLOCK_MONOTONIC,&ts); r=base+(ts.tv_sec-start); }
   else { clock_gettime(CLOCK_REALTIME,&ts); r=ts.tv_sec; }
   if(t) *t=r;
   return r;
}

#define MAXF 1024
static char fskip[MAXF]; static char fname[MAXF][120];

static int point(const char *what,const char *name)
{
   char b[400],c; int n,e=errno;
   if(sched<0) return 0;
   n=snprintf(b,400,"%s %s",what,name?name:""); if(n>399) n=399;
   while(write(sched,b,n)<0) if(errno!=EINTR) _exit(99);
   for(;;) { n=read(sched,&c,1); if(n==1) break; if(n==0 || errno!=EINTR) _exit(99); }
   errno=e;
   if(c=='k') _exit(137);
   if(c=='i') { raise(SIGINT); return 2; }
   return c=='f';
}

/* returns 1 if the operation has to fail */
static int op(const char *what,const char *name)
{
   init();
   cnt++;
   if(sched>=0)
   {
      if(point(what,name)!=1) return 0;
      errno = !strcmp(what,"write") ? ENOSPC : EIO;
      return 1;
   }
   if(logfd>=0) { char b[400]; int n=snprintf(b,400,"%d %s %s\n",cnt,what,name?name:""); write(logfd,b,n); }
   if(opn && cnt==opn)
   {
      if(opmode==1) { _exit(137); }
      if(opmode==3) { raise(SIGINT); return 0; }
      errno = !strcmp(what,"write") ? ENOSPC : EIO;
      return 1;
   }
   return 0;
}
#define REAL(ret,name,args) static ret (*r) args; if(!r) r=dlsym(RTLD_NEXT,name)

/* log file writes are not interesting */
static int skipname(const char *n) { return n && (strstr(n,"crashmail.log") || !strncmp(n,"/etc",4) || !strncmp(n,"/proc",5)); }
FILE *fopen(const char *n,const char *m)
{
   REAL(FILE*,"fopen",(const char*,const char*)); FILE *f;
   if(skipname(n)) { f=r(n,m); if(f && fileno(f)<MAXF) fskip[fileno(f)]=1; return f; }
   if(op(m[0]=='r' && !strchr(m,'+') ? "openr":"openw",n)) return NULL;
   f=r(n,m); if(f && fileno(f)<MAXF) { fskip[fileno(f)]=0; snprintf(fname[fileno(f)],120,"%s",n); }
   return f;
}
FILE *fopen64(const char *n,const char *m) { return fopen(n,m); }
static const char *fn(FILE *f) { int d=fileno(f); return d>2 && d<MAXF ? fname[d] : ""; }
static int sk(FILE *f) { int d=fileno(f); return d<=2 || (d<MAXF && fskip[d]); }
size_t fwrite(const void *p,size_t s,size_t n,FILE *f)
{
   REAL(size_t,"fwrite",(const void*,size_t,size_t,FILE*));
   if(!sk(f) && op("write",fn(f))) { r(p,1,(s*n)/2,f); f->_flags|=0x20; return 0; }
   return r(p,s,n,f);
}
int fputs(const char *p,FILE *f)
{
   REAL(int,"fputs",(const char*,FILE*));
   if(!sk(f) && op("write",fn(f))) { f->_flags|=0x20; return EOF; }
   return r(p,f);
}
int vfprintf(FILE *f,const char *fmt,va_list a)
{
   REAL(int,"vfprintf",(FILE*,const char*,va_list));
   if(!sk(f) && op("write",fn(f))) { f->_flags|=0x20; return -1; }
   return r(f,fmt,a);
}
int fflush(FILE *f)
{
   REAL(int,"fflush",(FILE*));
   if(f && !sk(f) && (f->_flags & 0x800) && op("flush",fn(f))) { __fpurge(f); f->_flags|=0x20; return EOF; }
   return r(f);
}
/* reading is an operation when there is nothing left in the buffer */
static int rd(FILE *f)
{
   if(sched>=0 || sk(f) || (f->_flags & 0x10) || f->_IO_read_ptr!=f->_IO_read_end) return 0;
   if(!op("read",fn(f))) return 0;
   f->_flags|=0x20;
   return 1;
}
size_t fread(void *p,size_t s,size_t n,FILE *f)
{
   REAL(size_t,"fread",(void*,size_t,size_t,FILE*));
   if(rd(f)) return 0;
   return r(p,s,n,f);
}
char *fgets(char *p,int n,FILE *f)
{
   REAL(char*,"fgets",(char*,int,FILE*));
   if(rd(f)) return NULL;
   return r(p,n,f);
}
int fgetc(FILE *f)
{
   REAL(int,"fgetc",(FILE*));
   if(rd(f)) return EOF;
   return r(f);
}
int getc(FILE *f) { return fgetc(f); }
int _IO_getc(FILE *f) { return fgetc(f); }
int fputc(int c,FILE *f)
{
   REAL(int,"fputc",(int,FILE*));
   if(!sk(f) && op("write",fn(f))) { f->_flags|=0x20; return EOF; }
   return r(c,f);
}
int fclose(FILE *f)
{
   REAL(int,"fclose",(FILE*));
   /* what was not written yet is lost */
   if(!sk(f) && op("close",fn(f))) { __fpurge(f); r(f); errno=ENOSPC; return EOF; }
   return r(f);
}
int rename(const char *a,const char *b)
{
   REAL(int,"rename",(const char*,const char*));
   if(op("rename",a)) return -1;
   return r(a,b);
}
int remove(const char *a)
{
   REAL(int,"remove",(const char*));
   if(op("remove",a)) return -1;
   return r(a);
}
int unlink(const char *a)
{
   REAL(int,"unlink",(const char*));
   if(op("remove",a)) return -1;
   return r(a);
}
int mkdir(const char *a,mode_t m)
{
   REAL(int,"mkdir",(const char*,mode_t));
   if(op("mkdir",a)) return -1;
   return r(a,m);
}
int system(const char *c)
{
   REAL(int,"system",(const char*));
   if(op("exec",c)) return 256;
   return r(c);
}
int ftruncate(int fd,off_t l)
{
   REAL(int,"ftruncate",(int,off_t));
   if(op("trunc","")) return -1;
   return r(fd,l);
}

/* only points at which another process may run */
int stat(const char *n,struct stat *st)
{
   REAL(int,"stat",(const char*,struct stat*));
   if(!skipname(n)) point("stat",n);
   return r(n,st);
}
DIR *opendir(const char *n)
{
   REAL(DIR*,"opendir",(const char*));
   if(op("opendir",n)) return NULL;
   return r(n);
}
unsigned int sleep(unsigned int s)
{
   REAL(unsigned int,"sleep",(unsigned int));
   if(sched<0) return r(s);
   return point("sleep","")==2 ? s : 0;
}
