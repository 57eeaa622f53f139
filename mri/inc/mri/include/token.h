/* Reconstructed from debug information of bins/lin64/CrashDebug. */
#ifndef MRI_TOKEN_H_
#define MRI_TOKEN_H_
#include <stddef.h>
#define TOKEN_MAX_TOKENS 10
#define TOKEN_MAX_STRING 64
typedef struct
{
    const char* tokenPointers[TOKEN_MAX_TOKENS];
    const char* pTokenSeparators;
    size_t      tokenCount;
    char        copyOfString[TOKEN_MAX_STRING + 1];
} Token;
#endif
