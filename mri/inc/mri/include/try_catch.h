/* Reconstructed from the macro debug information (DW_MACRO) of bins/lin64/CrashDebug: the mri/ submodule is empty here.
   Only the part libCrashDebug uses (exception codes; MRI_SKIP_TRY_CATCH_MACRO_DEFINES is always set by it). */
#ifndef MRI_TRY_CATCH_H_
#define MRI_TRY_CATCH_H_
#define noException                         0
#define bufferOverrunException              1
#define invalidHexDigitException            2
#define invalidValueException               3
#define invalidArgumentException            4
#define timeoutException                    5
#define invalidIndexException               6
#define notFoundException                   7
#define exceededHardwareResourcesException  8
#define invalidDecDigitException            9
#define memFaultException                   10
#define mriMaxException                     15
#ifndef MRI_SKIP_TRY_CATCH_MACRO_DEFINES
#define __throws
#endif
#endif
