/* Reconstructed from debug information of bins/lin64/CrashDebug. */
#ifndef MRI_H_
#define MRI_H_
#define MRI_ERROR_INVALID_ARGUMENT          "E01"
#define MRI_ERROR_MEMORY_ACCESS_FAILURE     "E03"
#define MRI_ERROR_BUFFER_OVERRUN            "E04"
#define MRI_ERROR_NO_FREE_BREAKPOINT        "E05"
void __mriInit(const char* pDebuggerParameters);
#endif
