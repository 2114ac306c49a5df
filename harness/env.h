/* The modelled environment: file descriptors, stdio, a small file system, processes, dlopen. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

#define ENV_MAXFD 128
#define ENV_MAXOF 64
#define ENV_MAXNODE 64

struct ofile { /* an open file description */
  int used, refs, rd, wr, append, kind; /* kind 0 node, 1 stream (std/pipe) */
  int node;
  size_t pos;
  char* data; size_t len, cap; /* for streams */
};
struct node { int used, isdir, mode; char path[128]; char* data; size_t len, cap; };

struct mfile { /* what a FILE* points to */
  int magic, fd, open, eof, err;
  int unbuffered; size_t ibeg, iend; /* what was read ahead: this part of the open file description */
  char* obuf; size_t olen, ocap; /* unflushed output */
};

extern struct ofile env_of[ENV_MAXOF];
extern int env_fd[ENV_MAXFD];          /* -> open file description or -1 */
extern struct node env_node[ENV_MAXNODE];
extern struct mfile env_std[3];
extern int env_files_open;             /* FILE objects made by fopen/fdopen and not closed */
extern int env_dirs_open;
extern int env_dl_open;
extern int env_faults;                 /* number of faults that may still be injected */
extern int env_line_buffered;
extern int env_errno_v;

/* Hook: called first by every environment call; returns 1 when it supplies the result. */
typedef int (*env_hook_t)(const char* name, long a0, long a1, long a2, long* ret);
extern env_hook_t env_hook;

void env_init(void);
void env_setenv(const char* name, const char* val); /* val NULL: unset */
int env_mkfile(const char* path, const char* data, size_t len);
int env_mkdir(const char* path);
int env_find(const char* path);
void env_stdin(const char* data, size_t len);
const char* env_stdout(size_t* len); /* what reached descriptor 1's stream */
int env_fds_open(void);
FILE* env_stdfile(int i);
int env_fault(const char* what);
void env_module(const char* path, const char* modname); /* path dlopens as module modname */
extern int env_exit_ok, env_exit_code; /* exit() ends the path; it is a failure unless env_exit_ok */
extern void (*env_at_exit)(int);
extern int env_ai_live;
