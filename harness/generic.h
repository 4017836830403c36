/* Forced include: compile the library as if the target were an unknown architecture
 * (no x86 macros, no 128-bit integers), on this machine. The standard headers come first. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
#undef i386
#undef __i386
#undef __i386__
#undef __i486__
#undef __i586
#undef __i586__
#undef __i686
#undef __i686__
#undef __x86_64
#undef __x86_64__
#undef __amd64
#undef __amd64__
#ifdef GENERIC_NO_INT128
#undef __SIZEOF_INT128__
#endif
#ifdef GENERIC_NO_INLINE_BSWAP
/* nothing */
#endif
