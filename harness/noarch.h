// Lets the library choose its portable compiler-based backend, as it would on an architecture it has no assembler code for.
#include <boost/config.hpp>
#include <boost/predef.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdint>
#include <chrono>
#include <string>
#undef __x86_64__
#include <boost/atomic/detail/platform.hpp>
#define __x86_64__ 1
