/* Calls into the repository's C interfaces that need its own exception macros. Every entry point returns the code of
   the exception that was thrown (0: none). */
#include <MemorySim.h>
#include <IMemory.h>
#include <common.h>
#include <try_catch.h>

static IMemory* m;
#define GUARD(X) { volatile int rc = 0; __try { X; } __catch { rc = getExceptionCode(); clearExceptionCode(); } return rc; }

void ms_init(void) { m = MemorySim_Init(); }
void ms_uninit(void) { MemorySim_Uninit(m); }
int ms_create(uint32_t b, uint32_t s) GUARD(MemorySim_CreateRegion(m, b, s))
int ms_alias(uint32_t b, uint32_t r, uint32_t s) GUARD(MemorySim_CreateAlias(m, b, r, s))
int ms_readonly(uint32_t b) GUARD(MemorySim_MakeRegionReadOnly(m, b))
int ms_load(uint32_t b, const void* p, uint32_t n) GUARD(MemorySim_LoadFromFlashImage(m, b, p, n))
int ms_flash(const void* p, uint32_t n) GUARD(MemorySim_CreateRegionsFromFlashImage(m, p, n))
int ms_xml(const char* volatile* pp) GUARD(*pp = MemorySim_GetMemoryMapXML(m))
int ms_mapw(uint32_t a, uint32_t n, void* volatile* pp) GUARD(*pp = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, a, n))
int ms_mapr(uint32_t a, uint32_t n, const void* volatile* pp) GUARD(*pp = MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, n))
int ms_count(uint32_t a, volatile uint32_t* p) GUARD(*p = MemorySim_GetFlashReadCount(m, a))
int ms_setbp(uint32_t a, uint32_t n) GUARD(MemorySim_SetHardwareBreakpoint(m, a, n))
int ms_clrbp(uint32_t a, uint32_t n) GUARD(MemorySim_ClearHardwareBreakpoint(m, a, n))
int ms_setwp(uint32_t a, uint32_t n, int t) GUARD(MemorySim_SetHardwareWatchpoint(m, a, n, (WatchpointType)t))
int ms_clrwp(uint32_t a, uint32_t n, int t) GUARD(MemorySim_ClearHardwareWatchpoint(m, a, n, (WatchpointType)t))
int ms_hit(void) { return MemorySim_WasWatchpointEncountered(m); }
int ms_read(uint32_t a, int n, volatile uint32_t* p)
  GUARD(*p = n == 4 ? IMemory_Read32(m, a) : n == 2 ? IMemory_Read16(m, a) : IMemory_Read8(m, a))
int ms_write(uint32_t a, int n, uint32_t v)
  GUARD(if (n == 4) IMemory_Write32(m, a, v); else if (n == 2) IMemory_Write16(m, a, (uint16_t)v); else IMemory_Write8(m, a, (uint8_t)v))
const int ms_exc_bus = busErrorException, ms_exc_oom = outOfMemoryException, ms_exc_bp = hardwareBreakpointException,
          ms_exc_overrun = bufferOverrunException;
int ms_handlers_balanced(void) { return g_pExceptionHandlers == NULL; }

/* ---- one load after the other through the command line object ---- */
#include <CrashDebugCommandLine.h>
#include <string.h>
static CrashDebugCommandLine g_cl;
uint32_t cd_size(void) { return sizeof g_cl; }
void cd_scribble(const void* p) { memcpy(&g_cl, p, sizeof g_cl); }
int cd_load(int argc, const char** argv) GUARD(CrashDebugCommandLine_Init(&g_cl, argc, argv); m = g_cl.pMemory)
void cd_unload(void) { CrashDebugCommandLine_Uninit(&g_cl); }
int cd_haveMemory(void) { return g_cl.pMemory != NULL; }
uint32_t cd_reg(int i) { return g_cl.context.R[i]; }
uint32_t cd_psr(void) { return g_cl.context.exceptionPSR; }
uint32_t cd_fpr(int i) { return g_cl.context.FPR[i]; }
uint32_t cd_flags(void) { return g_cl.context.flags; }
const int ms_exc_arg = invalidArgumentException, ms_exc_file = fileException, ms_exc_elf = elfFormatException,
          ms_exc_format = fileFormatException, ms_exc_stack = stackOverflowException;

/* ---- the exception macros themselves: an interpreter of small programs which try, throw, call and handle ---- */
enum { T_TRACE, T_THROW, T_THROWMSG, T_BUS, T_CALL, T_LOOP, T_TRY };          /* the same in props_exc.cpp */
enum { H_SWALLOW, H_RETHROW, H_NOTHROW, H_NOTHROWRET, H_THROW, H_THROWMSG, H_CLEARTHROW };
extern void tc_event(int kind, int id, int code, const char* msg);
extern const char* tc_text(int i);
static int tc_exec(const int* p, int n);
static void tc_void(const int* p, int n, int deep) { volatile char pad[200]; pad[deep & 127] = 1; tc_exec(p, n); tc_event(1, n, pad[deep & 127], NULL); }
static int tc_exec(const int* p, int n)
{
    int i = 0;
    while (i < n)
    {
        const int* q = p + i;
        switch (q[0])
        {
        case T_TRACE: tc_event(0, q[1], 0, NULL); i += 2; break;
        case T_THROW: __throw(q[1]); i += 2; break;
        case T_THROWMSG: __throw_msg(q[1], "%s|%d", tc_text(q[2]), q[2]); i += 3; break;
        case T_BUS: IMemory_Read32(m, q[1]); i += 2; break;
        case T_CALL: tc_void(q + 2, q[1], q[1]); i += 2 + q[1]; break;
        case T_LOOP: { int k; for (k = 0; k < q[1]; k++) tc_exec(q + 3, q[2]); } i += 3 + q[2]; break;
        case T_TRY: /* id, body length, handler length, kind, a, b */
        {
            volatile int mark = q[1] * 7;
            int          before = q[1] ^ 0x55AA;
            __try
            {
                mark++;
                tc_event(2, q[1], 0, NULL);
                tc_exec(q + 7, q[2]);
                mark++;
            }
            __catch
            {
                tc_event(3, q[1], getExceptionCode(), getExceptionMessage());
                if (mark != q[1] * 7 + 1 || before != (q[1] ^ 0x55AA)) tc_event(9, q[1], mark, NULL);
                tc_exec(q + 7 + q[2], q[3]);
                switch (q[4])
                {
                case H_RETHROW: __rethrow;
                case H_NOTHROW: __nothrow_and_return(1);
                case H_NOTHROWRET: __nothrow_and_return(q[5]);
                case H_THROW: __throw(q[5]);
                case H_THROWMSG: __throw_msg(q[5], "%s|%d", tc_text(q[6]), q[6]);
                case H_CLEARTHROW: clearExceptionCode(); __throw(q[5]);
                default: clearExceptionCode();
                }
            }
            tc_event(4, q[1], 0, NULL);
            i += 7 + q[2] + q[3];
            break;
        }
        }
    }
    return 0;
}
static void tc_nothrow(const int* p, int n) { __try { tc_exec(p, n); } __catch __nothrow; tc_event(5, n, 0, NULL); }
static int tc_nothrowret(const int* p, int n) { __try { tc_exec(p, n); } __catch __nothrow_and_return(-77); return 77; }
/* 0: plain, 1: through __nothrow, 2: through __nothrow_and_return, 3: directly under another handler */
int tc_run(const int* p, int n, int how, volatile int* pResult)
    GUARD(if (how == 1) tc_nothrow(p, n); else if (how == 2) *pResult = tc_nothrowret(p, n); else tc_exec(p, n))
int tc_code(void) { return getExceptionCode(); }
const int tc_first = undefinedException, tc_last = stackOverflowException, tc_bus = busErrorException;
