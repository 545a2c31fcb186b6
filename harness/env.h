// Model of the operating system for harnesses: files, descriptors, mappings, streams, connections.
// The same source is used by the engine (as bitcode) and by the native replay (calls redirected with objcopy).
#pragma once
#include "sym.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define ENV_PAGE 4096u
struct env_vfile { const char *path; const unsigned char *data; size_t size; int exists, openable, mappable; unsigned mode; long mtime; size_t huge; }; /* huge: only the first so many bytes of the file are there to be looked at */
extern struct env_vfile env_vfs[8]; extern int env_nvfs;
struct env_vfile *env_add_file(const char *path, const void *data, size_t size);
extern int env_open_fds, env_bad_close, env_open_maps, env_bad_unmap, env_open_streams, env_opens;
extern int env_fd0;
// connection descriptors
extern int env_conn_fd, env_conn_closed;                 /* the connection's descriptor and how often it was closed */
struct env_seg { const unsigned char *data; size_t len; long end; };
extern struct env_seg env_segs[8]; extern int env_nsegs, env_segi; extern size_t env_segoff; extern long env_recv_end; extern int env_recv_calls; /* env_recv_end: what recv answers after the last segment (0 closed, -1 reset) */
extern int env_would_block;                              /* 1: a read past the last segment ends the path (peer silent) */
extern int env_sigpipe_off; extern unsigned char *env_wire; extern size_t env_wire_n, env_wire_cap; extern int env_send_calls;
void env_out(int fd, const char *s, size_t n);           /* weak: text written to stdout (1) / stderr (2) */
void env_point(void);                                    /* weak: another thread may run here */
void env_reset_conn(int fd);
int env_close(int fd);
long env_read(int fd, void *b, size_t n);
