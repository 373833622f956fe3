// Included first in the code under test: its exit() becomes an observation of the
// monitor (which may throw: the library's own declaration says it does not).
#ifndef VERIF_EXIT_H
#define VERIF_EXIT_H
#include <cstdlib>
#include <unistd.h>
extern void verif_exit(int) __attribute__((noreturn));
namespace std { using ::verif_exit; }
#define exit(x) verif_exit(x)
#define _exit(x) verif_exit(x)
#define _Exit(x) verif_exit(x)
#define quick_exit(x) verif_exit(x)
#endif
