// Selects the library's pthread backend: no futex system call number is visible to it.
#include <sys/syscall.h>
#include <unistd.h>
#undef SYS_futex
#undef __NR_futex
#undef SYS_futex_time64
#undef __NR_futex_time64
