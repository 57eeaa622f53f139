/* Reconstructed from debug information of bins/lin64/CrashDebug. */
#ifndef MRI_CORE_H_
#define MRI_CORE_H_
#include <stdint.h>
#include "buffer.h"
int     __mriCore_IsFirstException(void);
int     __mriCore_WasSuccessfullyInit(void);
int     __mriCore_IsWaitingForGdbToConnect(void);
uint8_t __mriCore_GetSignalValue(void);
void    __mriCore_SetSignalValue(uint8_t signalValue);
#define IsFirstException        __mriCore_IsFirstException
#define WasSuccessfullyInit     __mriCore_WasSuccessfullyInit
#define IsWaitingForGdbToConnect __mriCore_IsWaitingForGdbToConnect
#define GetSignalValue          __mriCore_GetSignalValue
#define SetSignalValue          __mriCore_SetSignalValue
#endif
