/* Reconstructed from debug information of bins/lin64/CrashDebug: the CrashCatcher/ submodule is empty here. */
#ifndef CRASH_CATCHER_H_
#define CRASH_CATCHER_H_
#include <stdint.h>
#define CRASH_CATCHER_SIGNATURE_BYTE0       'c'
#define CRASH_CATCHER_SIGNATURE_BYTE1       'C'
#define CRASH_CATCHER_VERSION_MAJOR         3
#define CRASH_CATCHER_VERSION_MINOR         0
#define CRASH_CATCHER_FLAGS_FLOATING_POINT  (1 << 0)
#define CRASH_CATCHER_STACK_SENTINEL        0xACCE55ED
typedef struct
{
    uint32_t startAddress;
    uint32_t endAddress;
} CrashCatcherMemoryRegionInfo;
#define CRASH_CATCHER_TRUE  1
#define CRASH_CATCHER_FALSE 0
#ifndef TRUE
#define TRUE 1
#endif
#ifndef FALSE
#define FALSE 0
#endif
#endif
