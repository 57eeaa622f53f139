/* Reconstructed: on POSIX hosts this header only pulls in the system's own definitions. */
#ifndef MRI_POSIX4WIN_H_
#define MRI_POSIX4WIN_H_
#include <signal.h>
#endif
