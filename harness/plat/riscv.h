// The RISC-V configurations of the library, analysed on this machine: every system header the library and
// the harnesses use is read first, as what it is, and the library then sees the other target's macros.
#ifndef VF_RISCV_H
#define VF_RISCV_H
#include <bits/stdc++.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#undef __x86_64__
#undef __x86__
#undef __i386__
#undef __linux__
#define __riscv 1
#ifndef __NUTTX__
#define pthread_yield vf_nobody_has_pthread_yield_here
#endif
#endif
