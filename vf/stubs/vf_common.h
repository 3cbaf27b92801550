#ifndef VF_COMMON_H
#define VF_COMMON_H
typedef unsigned long size_t; typedef long ssize_t; typedef long clock_t; typedef long time_t;
typedef struct vf_file { int vf_fd; } FILE;
#ifndef NULL
#define NULL ((void*)0)
#endif
extern FILE *stdin, *stdout, *stderr;
extern const double vf_DBL_MAX, vf_FLT_MAX; extern const int vf_hybrid; extern const long vf_CLOCKS_PER_SEC;
#define DBL_MAX vf_DBL_MAX
#define FLT_MAX ((float) vf_FLT_MAX)
#define DBL_DIG 15
#define CLOCKS_PER_SEC vf_CLOCKS_PER_SEC
#define bool _Bool
#define true 1
#define false 0
#define EOF (-1)
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#define INT_MAX 2147483647
#define USHRT_MAX 65535
#define SHRT_MAX 32767
#define UINT_MAX 4294967295u
int printf(const char*,...); int fprintf(FILE*,const char*,...); int sprintf(char*,const char*,...); int snprintf(char*,size_t,const char*,...);
void perror(const char*); FILE *fopen(const char*,const char*); int fclose(FILE*); FILE *freopen(const char*,const char*,FILE*);
ssize_t getline(char**,size_t*,FILE*); int sscanf(const char*,const char*,...); int puts(const char*); int putchar(int); int fflush(FILE*); int fputs(const char*,FILE*);
char *strcat(char*,const char*); char *strstr(const char*,const char*); char *strtok(char*,const char*); int strcmp(const char*,const char*); size_t strlen(const char*);
char *strcpy(char*,const char*); int strncmp(const char*,const char*,size_t); void *memcpy(void*,const void*,size_t); void *memset(void*,int,size_t); void *memmove(void*,const void*,size_t);
void *malloc(size_t); void *calloc(size_t,size_t); void *realloc(void*,size_t); void free(void*); void exit(int) __attribute__((noreturn)); void abort(void) __attribute__((noreturn)); int abs(int); int atoi(const char*);
double sqrt(double); double pow(double,double); double fabs(double); double log(double); double log2(double); double ceil(double); double floor(double); double fmax(double,double); double fmin(double,double); double hypot(double,double); float sqrtf(float); float fabsf(float);
clock_t clock(void); time_t time(time_t*);
#define assert(x) ((void)(x))
#endif
