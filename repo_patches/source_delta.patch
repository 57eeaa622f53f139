From f3b7e2145c9c0e9536807947178596bbff0b5a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 01/15] fix: GDB log lines with fewer than four complete words
 no longer add zero words

A memory line that ended early (x/2wx, 'Cannot access memory at ...', a log cut in the
middle of a value) or that only started with an address (0x00000234 in ?? ()) was
padded with zero words, which inflated or split the memory region and showed the user
memory content which was never in the log.
---
 libCrashDebug/src/GdbLogParser.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index ee3abf2..7f357a1 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -74,7 +74,7 @@ static int isHexDigit(char c);
 static ParseResults parseMemoryLine(const char* pLine);
 static const char* parseAddress(ParseResults* pResults, const char* pLine);
 static int areMoreValuesToParseOnLine(const ParseResults* pResults, const char* pLine);
-static const char* skipWhitespaceSymbolsAndParseNextValue(ParseResults* pResults, const char* pLine);
+static int isCompleteValue(const char* pLine);
 static const char* skipWhitespaceAndSymbol(const char* pLine);
 static const char* skipWhitespace(const char* pLine);
 static const char* skipSymbol(const char* pLine);
@@ -238,8 +238,14 @@ static ParseResults parseMemoryLine(const char* pLine)
     results.type = TYPE_MEMORY;
     results.valueCount = 0;
     pLine = parseAddress(&results, pLine);
+    pLine = skipWhitespaceAndSymbol(pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
-        pLine = skipWhitespaceSymbolsAndParseNextValue(&results, pLine);
+    {
+        pLine = parseValue(&results, pLine);
+        pLine = skipWhitespaceAndSymbol(pLine);
+    }
+    if (results.valueCount == 0)
+        return parseOtherLine(pLine);
     return results;
 }
 
@@ -252,14 +258,20 @@ static const char* parseAddress(ParseResults* pResults, const char* pLine)
 
 static int areMoreValuesToParseOnLine(const ParseResults* pResults, const char* pLine)
 {
-    return (*pLine && pResults->valueCount < ARRAY_SIZE(pResults->values));
+    return (pResults->valueCount < ARRAY_SIZE(pResults->values) && isCompleteValue(pLine));
 }
 
-static const char* skipWhitespaceSymbolsAndParseNextValue(ParseResults* pResults, const char* pLine)
+static int isCompleteValue(const char* pLine)
 {
-    pLine = skipWhitespaceAndSymbol(pLine);
-    pLine = parseValue(pResults, pLine);
-    return pLine;
+    char* pNext = NULL;
+
+    // Lines can contain less than 4 values, end with a message from GDB, or even be cut short in the middle of a value.
+    if (!isdigit((unsigned char)*pLine))
+        return FALSE;
+    strtoul(pLine, &pNext, 0);
+    return (isspace((unsigned char)*pNext) ||
+            *pNext == '<' ||
+            (is8DigitHexValue(pLine) && pNext == &pLine[10]));
 }
 
 static const char* skipWhitespaceAndSymbol(const char* pLine)
-- 
2.43.0


From ddc7ded29c7477651617d856e7126eb6643dd2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 02/15] fix: GDB log memory lines with C++ operator symbols are
 parsed correctly

Symbols such as <operator<<(Stream&)::buf+4> have unbalanced angle brackets, which
made the parser skip the words on that line.
---
 libCrashDebug/src/GdbLogParser.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 7f357a1..7220a48 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -75,6 +75,7 @@ static ParseResults parseMemoryLine(const char* pLine);
 static const char* parseAddress(ParseResults* pResults, const char* pLine);
 static int areMoreValuesToParseOnLine(const ParseResults* pResults, const char* pLine);
 static int isCompleteValue(const char* pLine);
+static const char* skipAddressSymbol(const char* pLine);
 static const char* skipWhitespaceAndSymbol(const char* pLine);
 static const char* skipWhitespace(const char* pLine);
 static const char* skipSymbol(const char* pLine);
@@ -238,6 +239,7 @@ static ParseResults parseMemoryLine(const char* pLine)
     results.type = TYPE_MEMORY;
     results.valueCount = 0;
     pLine = parseAddress(&results, pLine);
+    pLine = skipAddressSymbol(pLine);
     pLine = skipWhitespaceAndSymbol(pLine);
     while (areMoreValuesToParseOnLine(&results, pLine))
     {
@@ -274,6 +276,23 @@ static int isCompleteValue(const char* pLine)
             (is8DigitHexValue(pLine) && pNext == &pLine[10]));
 }
 
+static const char* skipAddressSymbol(const char* pLine)
+{
+    const char* pEnd = pLine;
+
+    // C++ symbols such as operator<<() don't contain balanced angle brackets so search for the ">:" found at the end of
+    // the symbol placed after the address.
+    if (*pLine != '<')
+        return pLine;
+    while (NULL != (pEnd = strstr(pEnd, ">:")))
+    {
+        pEnd += 2;
+        if (isspace((unsigned char)*pEnd))
+            return pEnd;
+    }
+    return pLine;
+}
+
 static const char* skipWhitespaceAndSymbol(const char* pLine)
 {
     pLine = skipWhitespace(pLine);
-- 
2.43.0


From 0555ee2c3ed11e43c09892d19d5b5ff501b084ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 03/15] fix: GDB log register values which were cut short are
 no longer used

When the log ends in the middle of a register value, the digits which made it into the
file were used as if they were the whole value.
---
 libCrashDebug/src/GdbLogParser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 7220a48..67fd3e0 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -422,13 +422,19 @@ static ParseResults parseRegisterLine(const char* pLine, size_t registerOffset)
     else
     {
         // Register value is found after 15 character long register name field.
-        results.registerValue = strtoul(&pLine[15], NULL, 0);
+        pLine = skipWhitespace(&pLine[15]);
+        if (!isCompleteValue(pLine))
+            return parseOtherLine(pLine);
+        results.registerValue = strtoul(pLine, NULL, 0);
     }
     return results;
 }
 
 static uint32_t parseFloatRegisterLine(const char* pLine)
 {
+    uint32_t value;
+    char*    pEnd = NULL;
+
     // Floating point  lines haves following format and we want to use the raw hexadecimal value.
     // "s1             1	(raw 0x3f800000)"
 
@@ -439,7 +445,10 @@ static uint32_t parseFloatRegisterLine(const char* pLine)
 
     if (strncmp(pLine, "(raw ", 5) != 0)
         return -1;
-    return strtoul(&pLine[5], NULL, 0);
+    value = strtoul(&pLine[5], &pEnd, 0);
+    if (*pEnd != ')')
+        return -1;
+    return value;
 }
 
 static const char* findWhitespace(const char* pLine)
-- 
2.43.0


From f66268b87d01b8afd6906272c2eb518ea4020169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 04/15] fix: read errors in the dump file are no longer treated
 as the end of the dump

An I/O error while probing the file type, between two memory regions of a CrashCatcher
dump, or anywhere in a GDB log silently resulted in a debug session which was missing
registers and memory regions.
---
 libCrashDebug/src/CrashCatcherDump.c      |  2 ++
 libCrashDebug/src/CrashDebugCommandLine.c |  4 ++++
 libCrashDebug/src/GdbLogParser.c          | 16 +++++++++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/CrashCatcherDump.c b/libCrashDebug/src/CrashCatcherDump.c
index 7baf723..37d5044 100644
--- a/libCrashDebug/src/CrashCatcherDump.c
+++ b/libCrashDebug/src/CrashCatcherDump.c
@@ -190,6 +190,8 @@ static int readNextMemoryRegion(Object* pObject)
     bytesRead = pObject->read(pObject, &regionOrSentinel, sizeof(regionOrSentinel));
     if (isStackOverflowSentinelInsteadOfRegionDescription(bytesRead, &regionOrSentinel))
         __throw_msg(stackOverflowException, "The dump file ended with an indication that CrashCatcher detected a stack overflow.");
+    else if (ferror(pObject->pFile))
+        __throw_msg(fileException, "Failed to read the next memory region from the dump file.");
     else if (bytesRead == 0)
         return TRUE;
     else if (bytesRead != sizeof(regionOrSentinel.region))
diff --git a/libCrashDebug/src/CrashDebugCommandLine.c b/libCrashDebug/src/CrashDebugCommandLine.c
index 87a74a6..0ecf2a7 100644
--- a/libCrashDebug/src/CrashDebugCommandLine.c
+++ b/libCrashDebug/src/CrashDebugCommandLine.c
@@ -329,12 +329,16 @@ static void loadDumpFile(CrashDebugCommandLine* pThis)
 static DumpFileType getFileType(const char* pDumpFilename)
 {
     uint8_t fileHeader[4] = { 0, 0, 0, 0 };
+    int     readFailed = FALSE;
 
     FILE*   pFile = fopen(pDumpFilename, "rb");
     if (!pFile)
         __throw_msg(fileException, "Failed to open \"%s\".", pDumpFilename);
     fread(fileHeader, 1, sizeof(fileHeader), pFile);
+    readFailed = ferror(pFile);
     fclose(pFile);
+    if (readFailed)
+        __throw_msg(fileException, "Failed to read \"%s\".", pDumpFilename);
 
     if (hasBinaryCrashCatcherSignature(fileHeader))
         return CRASH_CATCHER_BIN;
diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 67fd3e0..a883e00 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -13,6 +13,7 @@
 #include <common.h>
 #include <CrashCatcher.h>
 #include <ctype.h>
+#include <errno.h>
 #include <GdbLogParser.h>
 #include <FileFailureInject.h>
 #include <stddef.h>
@@ -67,6 +68,7 @@ static void parseLines(IMemory* pMem,
                        RegisterContext* pContext,
                        FILE* pLogFile,
                        void (*passHandler)(ParseObject*, const ParseResults*));
+static char* readLineAndThrowOnError(char* pLine, size_t lineSize, FILE* pLogFile);
 static ParseResults parseLine(const char* pLine);
 static int isMemoryLine(const char* pLine);
 static int is8DigitHexValue(const char* pLine);
@@ -186,7 +188,7 @@ static void parseLines(IMemory* pMem,
     object.regionSize = 0;
     object.nextExpectedAddress = 0xFFFFFFFF;
 
-    while (NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))
+    while (NULL != readLineAndThrowOnError(object.lineText, sizeof(object.lineText), pLogFile))
     {
         ParseResults parseResults = parseLine(object.lineText);
         passHandler(&object, &parseResults);
@@ -195,6 +197,18 @@ static void parseLines(IMemory* pMem,
         MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
 }
 
+static char* readLineAndThrowOnError(char* pLine, size_t lineSize, FILE* pLogFile)
+{
+    char* pResult;
+
+    // fgets() returns NULL for both end of file and read errors but only sets errno for the later.
+    errno = 0;
+    pResult = fgets(pLine, lineSize, pLogFile);
+    if (pResult == NULL && errno != 0)
+        __throw_msg(fileException, "Failed to read from GDB log.");
+    return pResult;
+}
+
 static ParseResults parseLine(const char* pLine)
 {
     size_t registerOffset = 0;
-- 
2.43.0


From 2fcd073462dcf547af2970f4a4aa60beedc61906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 05/15] fix: exit when GDB closes its end of the pipe rather
 than spinning forever

read() returning 0 bytes for end of file was taken for a received NUL character so
CrashDebug kept running, at 100% CPU, after GDB had exited or crashed.
---
 main/MockDefaults.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index c5a29df..22338b1 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -108,7 +108,7 @@ int Console_ReadStdIn()
     char    c = 0;
 
     result = read(STDIN_FILENO, &c, sizeof(c));
-    if (result == -1)
+    if (result != sizeof(c))
         __throw(fileException);
     return c;
 }
-- 
2.43.0


From 5e290cb72938cdac02e209ef8107623a9566de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 06/15] fix: ELF offset and size which overflow 32-bits are
 rejected

The sum of p_offset and p_filesz wrapped around which allowed corrupt program headers to
read past the end of the image.
---
 libCrashDebug/src/ElfLoad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libCrashDebug/src/ElfLoad.c b/libCrashDebug/src/ElfLoad.c
index 4455583..cb1f9cd 100644
--- a/libCrashDebug/src/ElfLoad.c
+++ b/libCrashDebug/src/ElfLoad.c
@@ -70,7 +70,7 @@ static SizedBlob initSizedBlob(const char* pBlob, size_t blobSize)
 
 static const void* fetchSizedByteArray(const SizedBlob* pBlob, uint32_t offset, uint32_t size)
 {
-    if (offset > pBlob->blobSize || (offset + size) > pBlob->blobSize)
+    if (offset > pBlob->blobSize || size > pBlob->blobSize - offset)
         __throw(elfFormatException);
     return (void*)(pBlob->pBlob + offset);
 }
-- 
2.43.0


From d268f3628892d1d03d4b4d8f89b2cb147651d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 07/15] fix: aliases which redirect to another alias access the
 correct memory

The offset into the redirected region was calculated from the address of the first alias
which resulted in accesses outside of the region's buffer. Aliases also no longer allocate
a data buffer (of the size requested before it was truncated), as it was never used.
---
 libCrashDebug/src/MemorySim.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index e10c041..879caa8 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -216,15 +216,15 @@ void MemorySim_CreateAlias(IMemory* pMemory, uint32_t aliasAddress, uint32_t red
     {
         pRegion = throwingZeroedMalloc(sizeof(*pRegion));
         pRegion->baseAddress = aliasAddress;
-        pRegion->redirectAddress = redirectAddress;
+        // redirectAddress is updated to be within pRedirect if it was found in another alias.
         pRedirect = findMatchingRegion(pThis, &redirectAddress, 1);
-        uint32_t maxSize = pRedirect->size - (pRegion->redirectAddress - pRedirect->baseAddress);
+        pRegion->redirectAddress = redirectAddress;
+        uint32_t maxSize = pRedirect->size - (redirectAddress - pRedirect->baseAddress);
         if (size > maxSize)
             pRegion->size = maxSize;
         else
             pRegion->size = size;
         pRegion->pRedirect = pRedirect;
-        pRegion->pData = throwingZeroedMalloc(size);
         pRegion->isAlias = 1;
         pRegion->isReadOnly = pRedirect->isReadOnly;
         addRegionToTail(pThis, pRegion);
-- 
2.43.0


From eb7b126f6e9c3d7ffb0f231fffcffe0b738205aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 08/15] fix: making a region read-only is atomic and can be
 repeated

The read count array was leaked when a region was made read-only more than once, as happens
when program segments overlap in an ELF. A failed allocation left the region read-only but
without a read count array.
---
 libCrashDebug/src/MemorySim.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 879caa8..483aa04 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -241,8 +241,10 @@ void MemorySim_MakeRegionReadOnly(IMemory* pMemory, uint32_t baseAddress)
 {
     MemorySim* pThis = (MemorySim*)pMemory;
     MemoryRegion* pRegion = findMatchingRegion(pThis, &baseAddress, 1);
-    pRegion->isReadOnly = 1;
+    if (pRegion->isReadOnly)
+        return;
     allocateReadCountArrayForReadOnlyRegion(pRegion);
+    pRegion->isReadOnly = 1;
 }
 
 static MemoryRegion* findMatchingRegion(MemorySim* pThis, uint32_t* pAddress, uint32_t size)
-- 
2.43.0


From 0a26e2c6b9eb8662d98df034614e2104b833773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 09/15] fix: a register write request which is too short no
 longer modifies registers

GDB was told that the request failed but the registers had already been modified, with the
ones missing from the request being zeroed.
---
 libCrashDebug/src/mriPlatform.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/mriPlatform.c b/libCrashDebug/src/mriPlatform.c
index 8b0ce10..50256dd 100644
--- a/libCrashDebug/src/mriPlatform.c
+++ b/libCrashDebug/src/mriPlatform.c
@@ -618,9 +618,15 @@ static int hasFPURegisters()
 
 void Platform_CopyContextFromBuffer(Buffer* pBuffer)
 {
-    readBytesFromBufferAsHex(pBuffer, g_pContext->R, sizeof(g_pContext->R));
+    RegisterContext newContext = *g_pContext;
+
+    readBytesFromBufferAsHex(pBuffer, newContext.R, sizeof(newContext.R));
     if (hasFPURegisters())
-        readBytesFromBufferAsHex(pBuffer, g_pContext->FPR, sizeof(g_pContext->FPR));
+        readBytesFromBufferAsHex(pBuffer, newContext.FPR, sizeof(newContext.FPR));
+
+    // Leave all of the registers as they were when GDB is going to be told that there was an error in its request.
+    if (!Buffer_OverrunDetected(pBuffer))
+        *g_pContext = newContext;
 }
 
 static void readBytesFromBufferAsHex(Buffer* pBuffer, void* pBytes, size_t byteCount)
-- 
2.43.0


From 964d248f8ce377b47739a4ae257fedae04257678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 10/15] fix: break/watchpoints which end at the top of the
 address space match correctly

---
 libCrashDebug/src/MemorySim.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libCrashDebug/src/MemorySim.c b/libCrashDebug/src/MemorySim.c
index 483aa04..0353bc0 100644
--- a/libCrashDebug/src/MemorySim.c
+++ b/libCrashDebug/src/MemorySim.c
@@ -78,7 +78,7 @@ static void* getDataPointer(MemorySim* pThis, uint32_t address, uint32_t size, A
 static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type);
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress);
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress);
 
 static uint32_t read32(IMemory* pMemory, uint32_t address);
 static uint16_t read16(IMemory* pMemory, uint32_t address);
@@ -93,7 +93,7 @@ struct Watchpoint
 {
     WatchpointType type;
     uint32_t       startAddress;
-    uint32_t       endAddress;
+    uint64_t       endAddress;  // 64-bit as it is 2^32 for the top of the address space.
 
 };
 
@@ -461,7 +461,7 @@ __throws void MemorySim_SetHardwareBreakpoint(IMemory* pMemory, uint32_t address
 static void setWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -538,7 +538,7 @@ __throws void MemorySim_ClearHardwareBreakpoint(IMemory* pMemory, uint32_t addre
 static void clearWatchpoint(IMemory* pMemory, uint32_t address, uint32_t size, WatchpointType type)
 {
     MemoryRegion* pRegion = findMatchingRegion((MemorySim*)pMemory, &address, size);
-    uint32_t      endAddress = address + size;
+    uint64_t      endAddress = (uint64_t)address + size;
     Watchpoint    watchpoint = {type, address, endAddress};
     uint32_t      i;
     MatchResult   match = findMatchingOrHigherWatchpoint(pRegion, &watchpoint, &i);
@@ -624,7 +624,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
                                     MemoryRegion* pRegion,
                                     uint32_t address, uint32_t size, AccessType type)
 {
-    uint32_t endAddress = address + size;
+    uint64_t endAddress = (uint64_t)address + size;
     uint32_t i;
 
     for (i = 0 ; i < pRegion->watchpointCount ; i++)
@@ -649,7 +649,7 @@ static void checkForBreakWatchPoint(MemorySim* pThis,
     }
 }
 
-static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint32_t endAddress)
+static int accessInRange(Watchpoint* pWatchpoint, uint32_t startAddress, uint64_t endAddress)
 {
     return startAddress >= pWatchpoint->startAddress && endAddress <= pWatchpoint->endAddress;
 }
-- 
2.43.0


From 1ea90e591414971a8d8c64db76e606966677032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 11/15] fix: fseekRestore() also forgets the calls which were
 still to be let through

---
 libmocks/src/FileFailureInject.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmocks/src/FileFailureInject.c b/libmocks/src/FileFailureInject.c
index 491aa35..3968ac8 100644
--- a/libmocks/src/FileFailureInject.c
+++ b/libmocks/src/FileFailureInject.c
@@ -107,6 +107,7 @@ void fseekSetCallsBeforeFailure(int callCountToAllowBeforeFailing)
 void fseekRestore(void)
 {
     hook_fseek = fseek;
+    g_fseekCallsToPass = 0;
 }
 
 
-- 
2.43.0


From 82c911517b058b9a03ffe12582ea222702187256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 12/15] fix: GDB log memory at the top and the bottom of the
 address space stay separate regions

---
 libCrashDebug/src/GdbLogParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index a883e00..4915f90 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -26,7 +26,7 @@ typedef struct ParseObject
     RegisterContext* pContext;
     uint32_t         regionStart;
     uint32_t         regionSize;
-    uint32_t         nextExpectedAddress;
+    uint64_t         nextExpectedAddress;    // 64-bit as it is 2^32 for the top of the address space.
     char             lineText[1024];
 } ParseObject;
 
@@ -151,7 +151,7 @@ static void firstPassMemoryHandler(ParseObject* pObject, const ParseResults* pPa
         pObject->regionSize = 0;
     }
     pObject->regionSize += pParseResults->valueCount * sizeof(uint32_t);
-    pObject->nextExpectedAddress = pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
+    pObject->nextExpectedAddress = (uint64_t)pParseResults->address + pParseResults->valueCount * sizeof(uint32_t);
 }
 
 static void firstPassRegisterHandler(ParseObject* pObject, const ParseResults* pParseResults)
-- 
2.43.0


From da3d63aa48c5775f34045d911f302274d960a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 13/15] fix: GDB log lines which are longer than 1023
 characters are parsed as a single line

---
 libCrashDebug/src/GdbLogParser.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 4915f90..63cedbe 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -27,7 +27,7 @@ typedef struct ParseObject
     uint32_t         regionStart;
     uint32_t         regionSize;
     uint64_t         nextExpectedAddress;    // 64-bit as it is 2^32 for the top of the address space.
-    char             lineText[1024];
+    char             lineText[64 * 1024];    // GDB doesn't limit the length of the C++ symbols it displays.
 } ParseObject;
 
 typedef enum ParseType
@@ -69,6 +69,7 @@ static void parseLines(IMemory* pMem,
                        FILE* pLogFile,
                        void (*passHandler)(ParseObject*, const ParseResults*));
 static char* readLineAndThrowOnError(char* pLine, size_t lineSize, FILE* pLogFile);
+static int isRestOfLineStillUnread(const char* pLine, size_t lineSize);
 static ParseResults parseLine(const char* pLine);
 static int isMemoryLine(const char* pLine);
 static int is8DigitHexValue(const char* pLine);
@@ -182,6 +183,7 @@ static void parseLines(IMemory* pMem,
                        void (*passHandler)(ParseObject*, const ParseResults*))
 {
     ParseObject object;
+    int         isRestOfLine = FALSE;
     object.pMem = pMem;
     object.pContext = pContext;
     object.regionStart = 0xFFFFFFFF;
@@ -190,8 +192,14 @@ static void parseLines(IMemory* pMem,
 
     while (NULL != readLineAndThrowOnError(object.lineText, sizeof(object.lineText), pLogFile))
     {
-        ParseResults parseResults = parseLine(object.lineText);
-        passHandler(&object, &parseResults);
+        // The text which didn't fit in lineText isn't at the beginning of a line so it can't be a register or memory line.
+        int skip = isRestOfLine;
+        isRestOfLine = isRestOfLineStillUnread(object.lineText, sizeof(object.lineText));
+        if (!skip)
+        {
+            ParseResults parseResults = parseLine(object.lineText);
+            passHandler(&object, &parseResults);
+        }
     }
     if (object.regionSize != 0)
         MemorySim_CreateRegion(object.pMem, object.regionStart, object.regionSize);
@@ -209,6 +217,11 @@ static char* readLineAndThrowOnError(char* pLine, size_t lineSize, FILE* pLogFil
     return pResult;
 }
 
+static int isRestOfLineStillUnread(const char* pLine, size_t lineSize)
+{
+    return strlen(pLine) == lineSize - 1 && pLine[lineSize - 2] != '\n';
+}
+
 static ParseResults parseLine(const char* pLine)
 {
     size_t registerOffset = 0;
-- 
2.43.0


From b40a8c4c2f29b051323b24e3f8e033af039e6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 14/15] fix: Terminate rather than spin forever when stdin
 isn't usable

---
 main/MockDefaults.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main/MockDefaults.c b/main/MockDefaults.c
index 22338b1..e72ae7a 100644
--- a/main/MockDefaults.c
+++ b/main/MockDefaults.c
@@ -85,6 +85,7 @@ void Console_WriteStdOut(int character)
 #else
 /* Posix */
 
+#include <errno.h>
 #include <sys/select.h>
 #include <unistd.h>
 
@@ -97,6 +98,8 @@ int Console_HasStdInDataToRead()
     FD_ZERO(&readSet);
     FD_SET(STDIN_FILENO, &readSet);
     result = select(STDIN_FILENO + 1, &readSet, NULL, NULL, &zeroTimeout);
+    if (result == -1 && errno != EINTR)
+        return 1;   /* stdin isn't usable.  Let Console_ReadStdIn() report it as callers would otherwise poll it forever. */
     if (result == -1)
         __throw(fileException);
     return result;
-- 
2.43.0


From f4f40e0a4ffe4bab02f2256814298fbb6796437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 15/15] fix: GDB log values followed by C++ operator symbols no
 longer hide the rest of the line

Symbols such as <operator<<(Stream&)+4> or <Ptr::operator->()+4> after a value have unbalanced
angle brackets, which made the parser skip the values after them.
---
 libCrashDebug/src/GdbLogParser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libCrashDebug/src/GdbLogParser.c b/libCrashDebug/src/GdbLogParser.c
index 63cedbe..fb0ac3a 100644
--- a/libCrashDebug/src/GdbLogParser.c
+++ b/libCrashDebug/src/GdbLogParser.c
@@ -82,6 +82,7 @@ static const char* skipAddressSymbol(const char* pLine);
 static const char* skipWhitespaceAndSymbol(const char* pLine);
 static const char* skipWhitespace(const char* pLine);
 static const char* skipSymbol(const char* pLine);
+static int isEndOfSymbol(const char* pLine);
 static const char* parseValue(ParseResults* pResults, const char* pLine);
 static int isRegisterLine(const char* pLine, size_t* pRegisterOffset);
 static ParseResults parseRegisterLine(const char* pLine, size_t registerOffset);
@@ -347,14 +348,22 @@ static const char* skipSymbol(const char* pLine)
             nestingLevel++;
         else if (*pLine == '>')
             nestingLevel--;
-        else if (isspace(*pLine) && nestingLevel == 0)
+        else if (isspace(*pLine) && nestingLevel == 0 && pLine[-1] == '>')
             break;
+        if (isEndOfSymbol(pLine))
+            return pLine + 1;
         pLine++;
     }
     return pLine;
 
 }
 
+static int isEndOfSymbol(const char* pLine)
+{
+    // C++ symbols such as operator<<() don't contain balanced angle brackets but GDB separates the values with tabs.
+    return pLine[0] == '>' && (pLine[1] == '\t' || pLine[1] == '\r' || pLine[1] == '\n' || pLine[1] == '\0');
+}
+
 static const char* parseValue(ParseResults* pResults, const char* pLine)
 {
     char* pNext = NULL;
-- 
2.43.0

