/* Reconstructed from debug information of bins/lin64/CrashDebug. */
#ifndef MRI_GDB_CONSOLE_H_
#define MRI_GDB_CONSOLE_H_
#include <stdint.h>
void __mriGdbConsole_WriteString(const char* pString);
void __mriGdbConsole_WriteHexValue(uint32_t value);
#define WriteStringToGdbConsole     __mriGdbConsole_WriteString
#define WriteHexValueToGdbConsole   __mriGdbConsole_WriteHexValue
#endif
