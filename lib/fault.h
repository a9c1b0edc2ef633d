/* Allocation seam: linked with --wrap=malloc,calloc,realloc,strdup,strndup,free so that every
 * allocation made by the library (and, through cJSON_InitHooks, by cJSON) is a choice point. */
#ifndef FAULT_H
#define FAULT_H
#include <stddef.h>
#include <stdint.h>
void fault_install(void);          /* route cJSON through the seam (once per process) */
void fault_reset(void);            /* start of an execution: forget live blocks       */
void fault_arm(void);              /* allocations may fail from here (deviations)     */
void fault_disarm(void);
int  fault_pause(void);            /* in a callback of the harness: its own allocations are not the library's */
void fault_resume(int);
int  fault_injected(void);         /* failures injected in this execution             */
uint64_t fault_allocs(void);       /* allocations seen while armed                    */
void fault_track(int on);          /* account live blocks                             */
long fault_live(void);             /* tracked blocks not yet freed                    */
const char *fault_live_desc(void);
extern int fault_realloc_moves;    /* 1: realloc always returns a different address   */
/* OpenSSL's own allocations: install (before its first use, returns 1) and let them fail as well */
int  fault_openssl(void);
void fault_openssl_arm(int on);
/* when set, tracked blocks are handed to it instead of being freed; untracked ones come with size -1
   and are freed unless it returns nonzero */
extern int (*fault_on_free)(void *p, size_t n);
extern void (*fault_on_alloc)(void *p, size_t n);   /* every block handed out */
#endif
