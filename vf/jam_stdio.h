/* Included in front of the JAM library (and the proof): its stdio calls go to
   the ghost files of jamfs_model.h, in cbmc as in the native replay. */
#ifndef JAM_STDIO_H
#define JAM_STDIO_H
#include <stdio.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
size_t vf_fread(void *b,size_t s,size_t n,FILE *f);
size_t vf_fwrite(const void *b,size_t s,size_t n,FILE *f);
int vf_fseek(FILE *f,long o,int w);
long vf_ftell(FILE *f);
int vf_fflush(FILE *f);
int vf_feof(FILE *f);
int vf_fclose(FILE *f);
int vf_fileno(FILE *f);
FILE *vf_fopen(const char *n,const char *m);
int vf_lock(int fd,int cmd,struct flock *l);
time_t vf_time(time_t *t);
unsigned vf_sleep(unsigned n);
#undef feof
#undef fileno
#define fread vf_fread
#define fwrite vf_fwrite
#define fseek vf_fseek
#define ftell vf_ftell
#define fflush vf_fflush
#define feof vf_feof
#define fclose vf_fclose
#define fileno vf_fileno
#define fopen vf_fopen
#define fcntl vf_lock
#define time vf_time
#define sleep vf_sleep
#define getpid vf_getpid
int vf_getpid(void);
#endif
