// Sends system calls to the harness with a fixed number of arguments.
#ifndef SYSMACRO_H
#define SYSMACRO_H
#include <sys/syscall.h>
#include <unistd.h>
long vh_syscall(long nr, long a, long b, long c, long d, long e, long f);
#define VH_SYS6(N, A, B, C, D, E, F, ...) vh_syscall((long)(N), (long)(A), (long)(B), (long)(C), (long)(D), (long)(E), (long)(F))
#define syscall(...) VH_SYS6(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)
#endif
