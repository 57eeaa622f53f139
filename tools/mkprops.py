import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="libCrashDebug/src/"
FE=["GDB remote protocol replies on stdout","stderr and exit status"]
p("C01","Binary crash dumps are shown to GDB exactly as captured",
 "A session started from an image and a well-formed binary crash dump (either dump version, with or without floating point registers) shows GDB exactly the register values, memory contents and mapped address ranges which were captured, whatever the order of inspection and however the file reads are broken up. Addresses that were not captured and are not part of the image are reported as unreadable, and a read that runs off the end of mapped memory returns exactly the mapped prefix. Dumps of an unknown version are refused with an error.",
 ["inputs","configurations","schedules"],"Every capture (registers, flags, region count/size/placement/adjacency, odd sizes, top of memory), every pacing of the console and every short-read pattern of the file.",
 "The tests parse a few hand-written dumps through the parser alone; none runs a whole session, none varies read chunking, placement at 2^32, adjacency or region counts.",
 [L+"CrashCatcherDump.c",L+"CrashDebugCommandLine.c",L+"MemorySim.c",L+"mriPlatform.c"],
 [("record by record dump reader",L+"CrashCatcherDump.c:CrashCatcherDump_ReadBinary"),("dump type detection",L+"CrashDebugCommandLine.c:getFileType"),("region lookup",L+"MemorySim.c:findMatchingRegion"),("register context packing",L+"mriPlatform.c")],None,FE)
p("C02","Hex crash dumps are shown to GDB exactly as captured",
 "A session started from the hexadecimal form of a crash dump shows exactly the same registers, memory contents and mapped ranges as the binary form of the same capture. This holds for every arrangement of line lengths, line endings and blank lines, either case of the digits, and every read pattern of the file, given that the signature 6343 comes first as documented. A dump in which a digit was garbled into some other character is refused with an error.",
 ["inputs","configurations","schedules"],"Every capture, every line wrapping and line ending (LF, CRLF, blank lines), every chunking of reads and console traffic.",
 "Tests use a handful of fixed hex dumps; layouts, regions spanning lines, and whole sessions are not sampled.",
 [L+"CrashCatcherDump.c",L+"CrashDebugCommandLine.c"],
 [("hex reader",L+"CrashCatcherDump.c:CrashCatcherDump_ReadHex"),("signature detection",L+"CrashDebugCommandLine.c:hasHexCrashCatcherSignature")],None,FE)
p("C03","GDB session logs are shown to GDB exactly as logged",
 "A session started from a text log of GDB's register and memory printouts shows exactly the values logged: consecutive memory lines form one contiguous region, a gap starts a new one, printing the same memory again adds nothing, symbol annotations (including templates and operators) and unrelated lines of any length are ignored, and lines with fewer words contribute only the words they have. Core, special and floating point registers take the last logged value, and registers which were not logged keep their defined defaults.",
 ["inputs","configurations"],"Every log: any order and repetition of register lines, any layout of memory lines, annotations, noise lines, line endings, every read chunking.",
 "The tests feed individual lines through a mocked reader; they never combine annotations, gaps, partial lines, noise and both passes over a real stream.",
 [L+"GdbLogParser.c"],[("two pass line parser",L+"GdbLogParser.c:GdbLogParse"),("symbol skipping",L+"GdbLogParser.c:skipAddressSymbol"),("register line recognition",L+"GdbLogParser.c:isRegisterLine")],None,FE)
p("C04","Program images appear at the right addresses, byte for byte, read only",
 "Every loadable segment of an ELF image with file content appears at its load (physical) address with exactly the bytes of the file, and a raw binary image appears at the given base address; both are listed to GDB as flash with exact start and length, and nothing else of the image is mapped. ELF files which are not 32-bit little-endian executables, or have no usable program headers, are refused with an error.",
 ["inputs","configurations"],"Every ELF (program header count, size and location, segment order, alignment, virtual/physical split, empty and non-loadable segments, odd lengths) and every raw image and base.",
 "Tests build one or two tiny ELF images in memory; header stride, many segments, odd lengths and end-to-end visibility are not covered.",
 [L+"ElfLoad.c",L+"CrashDebugCommandLine.c",L+"MemorySim.c"],[("ELF loader",L+"ElfLoad.c:ElfLoad_FromMemory"),("raw image loader",L+"CrashDebugCommandLine.c:loadBinFile"),("load into flash",L+"MemorySim.c:MemorySim_LoadFromFlashImage")],None,FE)
p("C05","Cut-short captures and images never yield invented or partial state",
 "A capture or image that was cut off at any byte is either refused with an error, nonzero exit status and nothing sent to GDB, or the session shows only complete values that were really captured: no register or memory word is invented, zero-filled or shortened. A crash dump cut inside a record is refused, one cut between memory records shows exactly the complete records, and a dump that ends with the stack overflow marker is refused with a message saying so.",
 ["inputs","crash_points"],"Every cut point of every capture in every format (binary, hex, log, ELF, raw): the crash point of the device or of the serial capture.",
 "Tests cut files at a few chosen places of the parser; every byte offset of every structure in combination with whole sessions is out of their reach.",
 [L+"CrashCatcherDump.c",L+"GdbLogParser.c",L+"ElfLoad.c",L+"CrashDebugCommandLine.c"],
 [("short read detection",L+"CrashCatcherDump.c"),("complete value check",L+"GdbLogParser.c:isCompleteValue"),("size checks",L+"ElfLoad.c")],None,FE)
p("C06","Unreadable input files never produce a wrong session",
 "When opening, reading, seeking, sizing or closing an input file fails at any point, CrashDebug either ends with an error message and nonzero status without sending GDB a single byte, or starts a session whose contents are complete and exactly right. Whenever it ends this way no input file stays open and no memory stays allocated.",
 ["fault_sequences","inputs"],"Every input file and format, every system call on it as the failing one, permanent or transient errors, missing files, files that grow between the two passes over a log.",
 "Tests inject one failure into a mocked call at a time and check a thrown exception, not what a user would see, and cannot place an error inside a buffered read.",
 [L+"CrashDebugCommandLine.c",L+"CrashCatcherDump.c",L+"GdbLogParser.c","libcommon/src/common.c"],
 [("error checks and stream cleanup",L+"CrashDebugCommandLine.c:loadFileData"),("read error versus end of file",L+"CrashCatcherDump.c"),("file size",
 "libcommon/src/common.c:GetFileSize")],None,FE+["open streams and live allocations at exit"])
p("C07","Running out of memory fails cleanly at every allocation",
 "If any allocation fails while the inputs are loaded, CrashDebug ends with an error message and nonzero status, sends GDB nothing, releases everything it allocated and closes its input files. If an allocation fails during a session, GDB gets an error reply or the process ends with an error, and what GDB is shown is never wrong.",
 ["fault_sequences","inputs","configurations"],"Every allocation (single, double and permanent failures, memory limits, captures which ask for too much) of every capture format, with and without aliases.",
 "Tests fail chosen allocations of single functions; leaks and the user-visible outcome of each allocation of a whole run are not checked.",
 [L+"MemorySim.c",L+"CrashDebugCommandLine.c",L+"CrashCatcherDump.c",L+"GdbLogParser.c",L+"mriPlatform.c","main/main.c"],
 [("exception based unwinding","include/try_catch.h"),("region cleanup",L+"MemorySim.c:freeRegion"),("teardown","main/main.c:main")],None,FE+["open streams and live allocations at exit"])
p("C08","Hostile files, options and requests cannot corrupt or hang the process",
 "Whatever bytes the dump, image, command line and GDB's requests contain, CrashDebug never accesses memory out of bounds, never crashes and never hangs: it either refuses the input with an error and nonzero status, releasing everything, or serves a session that stays responsive. No request ends the session, and no reply exceeds the announced packet size.",
 ["inputs","histories","fault_sequences"],"All byte strings as inputs (explored as mutations of well-formed ones, including 32-bit overflow values in every size and offset field) and all request sequences.",
 "The tests contain a few malformed inputs per parser and do not run under memory checking with adversarial lengths.",
 [L+"ElfLoad.c",L+"CrashCatcherDump.c",L+"GdbLogParser.c",L+"MemorySim.c",L+"CrashDebugCommandLine.c",L+"mriPlatform.c"],
 [("offset and size checks",L+"ElfLoad.c"),("bounds in region lookup",L+"MemorySim.c:findMatchingRegion"),("request parsing and reply buffers",L+"mriPlatform.c")],None,FE)
p("C09","Flash contents never change, whatever GDB writes",
 "No sequence of debugger requests changes a byte of memory that came from the program image, neither directly nor through an alias nor as part of a write that also covers RAM. Such a write is answered with an error and bytes of flash read back unchanged throughout the session. A capture with memory at addresses of the image is refused or shows the image's bytes there, never its own.",
 ["histories","inputs","configurations"],"All sequences of text and binary writes of all sizes and alignments, ranges across region boundaries, aliases of flash, mixed with all other requests.",
 "Tests write one word to one read-only region; sequences, straddling ranges and alias paths are not explored.",
 [L+"MemorySim.c",L+"ElfLoad.c",L+"CrashDebugCommandLine.c"],[("read-only check",L+"MemorySim.c:getDataPointer"),("marking image regions",L+"MemorySim.c:MemorySim_MakeRegionReadOnly")],None,FE)
p("C10","GDB's memory and register writes take effect exactly and nowhere else",
 "A write to RAM or registers that is acknowledged reads back exactly, and no other memory or register changes, over any sequence of writes of any size, alignment and encoding. A request that is refused never leaves anything but old or requested bytes in the requested range, and a malformed or short register write changes no register.",
 ["histories","inputs"],"All sequences of memory writes (text and binary with escapes), register writes, malformed writes, interleaved with reads and resumes.",
 "Tests perform single writes against a mock memory; isolation over histories is a universally quantified claim.",
 [L+"MemorySim.c",L+"mriPlatform.c"],[("address translation",L+"MemorySim.c:getDataPointer"),("register write",L+"mriPlatform.c:Platform_CopyContextFromBuffer")],None,FE)
p("C11","A post-mortem session never executes anything",
 "Continue, step, signal-continue, breakpoints and watchpoints never change a register or a byte of memory, and never change what later requests show. Every resume request is answered promptly with the same stop reason and the same fault description as before.",
 ["histories","inputs","configurations"],"All sequences of resume, break/watchpoint, read and write requests over all captures and fault states.",
 "Tests check single resume requests with fixed contexts; that no history of them has an effect cannot be sampled.",
 [L+"mriPlatform.c","main/main.c"],[("resume re-enters the debugger",L+"mriPlatform.c:mriPlatform_Run"),("step handling",L+"mriPlatform.c")],None,FE)
p("C12","The stop reason and fault description match the captured crash",
 "The stop reply carries the signal that belongs to the captured exception number, and on resume the fault description printed to GDB's console names exactly the faults whose status bits are set in the captured (or since modified) fault registers, with the fault addresses shown only when marked valid. If the fault registers were not captured the description says so or is absent, never made up.",
 ["inputs","configurations","histories"],"All exception numbers, all combinations of fault status bits and addresses, complete, partial or missing fault register captures.",
 "Tests cover the individual fault bits one at a time, with mocks; combinations and whole sessions are not covered.",
 [L+"mriPlatform.c"],[("cause of exception to signal",L+"mriPlatform.c:Platform_DetermineCauseOfException"),("fault description",L+"mriPlatform.c:Platform_DisplayFaultCauseToGdbConsole")],None,FE)
p("C13","A bad line to GDB never corrupts the session and always recovers",
 "When bytes between GDB and CrashDebug are lost, corrupted, duplicated or injected, damaged requests have no effect and every request GDB retransmits according to the protocol is eventually served exactly as on a perfect line. Once the disturbance stops, requests are served at once again with all registers and memory as they should be.",
 ["schedules","fault_sequences","histories"],"All interleavings of byte delays, chunking and bounded sequences of byte loss, corruption, duplication, noise, negative acknowledgements and stray Ctrl-C in both directions.",
 "The tests replay fixed packet strings through a mocked link with at most one error.",
 ["main/MockDefaults.c",L+"StandardIComm.c",L+"mriPlatform.c"],[("console transport",L+"StandardIComm.c"),("platform link hooks",L+"mriPlatform.c:Platform_CommReceiveChar")],None,FE)
p("C14","CrashDebug ends soon after GDB goes away, cleanly and with an error status",
 "When GDB disappears at any moment - before connecting, between or inside packets, while a reply or stop notification is unacknowledged - or a console read or write fails, or stdin is not open to begin with, CrashDebug ends within a bounded number of steps instead of spinning or waiting for ever. Its exit status is nonzero (or it dies from the broken pipe), with every input file closed and every allocation released.",
 ["crash_points","schedules","fault_sequences"],"All points of the conversation as the moment of disappearance, all combinations of which direction closes first, console I/O errors, ignored or default SIGPIPE.",
 "No test ends the connection; it is a liveness claim over every crash point of the peer.",
 ["main/MockDefaults.c",L+"StandardIComm.c",L+"mriPlatform.c","main/main.c"],[("end of file and error detection","main/MockDefaults.c"),("teardown","main/main.c:main")],None,FE)
p("C15","The memory map and target description given to GDB are exact",
 "The memory map is well-formed XML which lists every region (image segment, captured memory region, alias) exactly once with its true start, length and kind (flash for read-only) and nothing else, and the target description matches the register packet (floating point registers present exactly when captured). Both are in the form GDB accepts: flash has a block size, registers are in the features GDB looks for. Both read the same in any chunk sizes, at any offsets and at any time of the session.",
 ["inputs","histories","configurations"],"All sets of regions and aliases, all chunk sizes and offsets of the transfer, at any time between other requests.",
 "Tests compare a few fixed XML strings and one chunk size.",
 [L+"MemorySim.c",L+"mriPlatform.c"],[("memory map builder",L+"MemorySim.c:MemorySim_GetMemoryMapXML"),("target XML choice",L+"mriPlatform.c:Platform_GetTargetXml")],None,FE)
p("C16","Aliases behave exactly as a second window onto the memory they name",
 "Reading or writing through an alias, at any offset and size, has exactly the effect of the same access at the aliased location, and vice versa, including read-only protection, aliases of aliases and aliases clamped to the end of the memory they name. An alias to memory that does not exist is refused with an error.",
 ["histories","inputs","configurations"],"All sets of aliases (nested, clamped, adjacent, overlapping) and all sequences of accesses through either window.",
 "Tests create one alias of one region and access a word or two.",
 [L+"MemorySim.c",L+"CrashDebugCommandLine.c"],[("alias creation and clamping",L+"MemorySim.c:MemorySim_CreateAlias"),("redirection",L+"MemorySim.c:findMatchingRegion"),("option parsing",L+"CrashDebugCommandLine.c:parseAliasOption")],None,FE)
p("C17","Only protocol bytes reach GDB: one reply per request at any pace",
 "Stdout carries nothing but correctly framed acknowledgements and packets: nothing before GDB speaks, exactly one reply per request, nothing unasked, and nothing on stderr during a healthy session. The contents of the conversation do not depend on how the bytes are delayed or split, on how full the pipes are or on interrupted system calls, and unsupported requests get an empty reply.",
 ["schedules","histories","inputs"],"All delays and chunkings in both directions, tiny pipe capacities, interrupted waits, all sequences of supported and unsupported requests, replies up to the packet size.",
 "Tests use a mocked link that never delays, splits or blocks.",
 ["main/MockDefaults.c",L+"StandardIComm.c",L+"mriPlatform.c","main/main.c"],[("receive/transmit and readiness polling","main/MockDefaults.c"),("main loop",L+"mriPlatform.c:mriPlatform_Run")],None,FE)
p("C18","Simulated break and watchpoints fire exactly when they should",
 "Over any history of setting and clearing, a memory access is reported as a watchpoint hit exactly when it lies wholly inside a currently set range of matching kind, and a halfword read is interrupted exactly when it lies wholly inside a currently set breakpoint; clearing removes just the one with the same range and kind, and setting twice counts once. Accesses through aliases count (loading and mapping memory do not), values read and written are unaffected, and the per-halfword flash read counts equal the number of halfword reads.",
 ["histories","fault_sequences","inputs"],"All histories of set, clear, access and query over overlapping, nested, touching ranges of all kinds in several regions and aliases, up to the top of memory, with failing allocations.",
 "Tests set one to three watchpoints and make single accesses.",
 [L+"MemorySim.c"],[("sorted watchpoint list",L+"MemorySim.c:setWatchpoint"),("hit detection",L+"MemorySim.c:checkForBreakWatchPoint"),("read counts",L+"MemorySim.c:getDataPointer")],
 [("watchpoint list","break/watchpoints currently set on a region",L+"MemorySim.c:MemoryRegion")],["memory simulation library API"])
p("C19","Operations on the simulated memory either succeed completely or change nothing",
 "When creating a region, alias or flash/RAM pair, making memory read only, building the memory map or setting a break/watchpoint fails, by lack of memory or because it is invalid, the memory simulation behaves as if it had never been tried. Every access goes to the memory that holds the address or fails with the bus error it should, handlers stay balanced, and tearing down releases every allocation after any history.",
 ["histories","fault_sequences"],"All histories of library operations with any allocation failing at any point, several lifetimes in one process.",
 "Tests fail the first or second allocation of a fresh object; histories before and after a failure are not covered.",
 [L+"MemorySim.c","include/try_catch.h","libcommon/src/try_catch.c"],[("cleanup and rethrow",L+"MemorySim.c:MemorySim_CreateRegion"),("partial flash image cleanup",L+"MemorySim.c:MemorySim_CreateRegionsFromFlashImage"),("exception handler chain","include/try_catch.h")],None,["memory simulation library API"])
p("C20","Test-support injectors fail exactly the requested calls and nothing else",
 "Over any history of arming, using and restoring them, the file and allocation failure injectors fail exactly the calls that were requested with the requested result, pass every other call through unmodified, and after being restored leave no trace on later use. The printf spy swallows output while hooked, counts calls and reports the last four outputs truncated to the requested size, and releases its buffers when unhooked.",
 ["histories","inputs"],"All interleavings of arming, restoring and using every injector on a live stream and heap; all output lengths and spy sizes.",
 "The unit tests exercise each injector once from a clean state, and the file injector tests are not among those that run here.",
 ["libmocks/src/FileFailureInject.c","libmocks/src/MallocFailureInject.c","libmocks/src/printfSpy.c"],[("hook function pointers","libmocks/src/FileFailureInject.c"),("allocation countdown","libmocks/src/MallocFailureInject.c"),("output ring","libmocks/src/printfSpy.c")],None,["injector API"])
p("C21","The command line selects exactly the session it describes, or is refused",
 "The session depends only on the meaning of the options: their order, letter case, the notation of numbers (decimal, octal, hexadecimal), repetition (the last one counts) and file names do not matter otherwise; where both an ELF and a raw image are named, the ELF one is used, in whatever order. Unknown, incomplete or missing options and missing files end with an error message naming the problem and the usage on stderr, nonzero status and nothing on stdout.",
 ["configurations","inputs"],"All argument vectors: option order, case, number notation, repetition, odd and very long names, every kind of mistake at every position.",
 "Tests parse about twenty fixed argument vectors against mocked files.",
 [L+"CrashDebugCommandLine.c","main/main.c","libcommon/src/try_catch.c"],[("two pass option parser",L+"CrashDebugCommandLine.c:parseArguments"),("error and usage display",L+"CrashDebugCommandLine.c:CrashDebugCommandLine_Init")],None,FE)
p("C22","Loads made one after the other in one process do not depend on each other",
 "Every load through the library's command line object gives exactly the registers, memory and memory map its own files and options describe, or is refused for its own faults, whatever was loaded, used, refused or failed before it in the same process and whatever the object held before. A refused load prints one error message and the usage on stderr and leaves no memory, open file or installed handler behind; unloading releases everything.",
 ["histories","fault_sequences","inputs"],"All sequences of loads of all kinds of image and dump with aliases, each possibly cut short, mistyped or hit by a failing open, read or allocation, with any use of the memory between.",
 "Tests start every load from a fresh fixture; state which survives in statics from one load to the next is not looked at.",
 [L+"CrashDebugCommandLine.c",L+"CrashCatcherDump.c",L+"GdbLogParser.c",L+"ElfLoad.c",L+"MemorySim.c","include/CrashDebugCommandLine.h"],
 [("load and cleanup on error",L+"CrashDebugCommandLine.c:CrashDebugCommandLine_Init"),("static memory object",L+"MemorySim.c:MemorySim_Init"),("per-dump parser state",L+"CrashCatcherDump.c:initObject")],
 [("g_object","regions, memory map and watchpoint hit flag of the one simulated memory",L+"MemorySim.c:g_object")],["library load and unload calls"])
p("C23","A raised error reaches the innermost active handler with its code and message",
 "In any nesting of calls, loops, protected blocks and handlers, raising an error with the exception macros ends exactly the blocks between it and the innermost active handler, which receives its code and, when it was raised with one, its message (cut at the end of the buffer only; empty when no message was given since the block began). Handlers can swallow, raise again or replace it; a block in which nothing was raised never runs its handler, and leaving a block in any of these ways removes its handler and disturbs no local variable. An error raised while another is being handled has the higher of the two codes.",
 ["histories","fault_sequences"],"All programs built from nested and repeated protected blocks, calls, loops, throws with and without a message (of any length), library errors, and handlers which swallow, rethrow, replace, return or fail themselves.",
 "Tests of the other modules throw one error at a time through one or two levels; the macros have no tests of their own.",
 ["include/try_catch.h","libcommon/src/try_catch.c"],
 [("handler chain and code","include/try_catch.h"),("message buffer","libcommon/src/try_catch.c")],
 [("g_pExceptionHandlers","handlers installed, innermost first","libcommon/src/try_catch.c:g_pExceptionHandlers"),("g_exceptionCode","error being handled","libcommon/src/try_catch.c:g_exceptionCode")],["exception macros"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
