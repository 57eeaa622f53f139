"""What each check counts as non-trivial, and which rare conditions must have occurred for its answer to mean anything."""
REAL = ["main/main.c and main/MockDefaults.c (console transport)", "libCrashDebug/src/*.c (all: command line, dump, log and ELF "
        "parsers, memory simulation, mri platform layer)", "libcommon/src/*.c",
        "mri debug-monitor core: the machine code the project ships in bin/ (sources are an absent submodule), with the "
        "repository's platform layer of the working tree spliced in"]
STUB = ["C library calls at the process boundary (files, stdio, heap, read/write/select, exit, signals, clocks): simulated",
        "GDB: a protocol model which drives the session and checks every byte", "disk and pipes: in-memory, with faults"]
ASSUME = ["the exploration is seeded sampling: a clean run is evidence, not proof",
          "the simulated C library follows POSIX/ISO C for the calls the code makes",
          "the shipped mri core is the one a release is linked with"]
API = {"real": ["libCrashDebug/src/MemorySim.c", "libcommon/src/*.c", "include/try_catch.h"],
       "stub": ["heap: simulated, with failing allocations", "callers: a model which drives the library API"]}
MOCK = {"real": ["libmocks/src/*.c"], "stub": ["the C library behind the injectors: simulated streams and heap"]}

N = "Non-trivial: "
PROPS = {
 "C01": {"rule": N + "the session started and at least one register packet and one memory read of captured bytes were compared.",
         "probes": ["read_short", "p_mem_read_err", "p_mem_read_prefix", "p_adjacent_regions", "p_fpu", "p_odd_size", "p_empty_dump",
                    "p_many_regions", "p_top_of_memory", "p_v2", "p_big_region", "p_other_flags", "p_bad_version", "p_dump_overlap"]},
 "C02": {"rule": N + "as C01, from the hexadecimal form.",
         "probes": ["read_short", "p_mem_read_err", "p_mem_read_prefix", "p_adjacent_regions", "p_fpu", "p_odd_size", "p_top_of_memory", "p_v2", "p_big_region", "p_bad_digit", "p_bad_version", "p_dump_overlap"]},
 "C03": {"rule": N + "as C01, from a GDB log.", "probes": ["read_short", "p_mem_read_err", "p_mem_read_prefix", "p_adjacent_regions", "p_fpu", "p_big_region", "p_log_reprint", "p_log_odd_base", "p_join"]},
 "C04": {"rule": N + "the session started and bytes of the image were compared, or a foreign ELF was refused.",
         "probes": ["p_top_of_memory", "p_odd_size", "p_many_regions", "p_many_headers", "p_huge_headers", "p_elf_shared", "p_elf_header_loaded"]},
 "C05": {"rule": N + "a file was really cut (or ended in the overflow marker) and the outcome judged.",
         "probes": ["file_torn", "p_overflow_sentinel", "p_region_boundary_cut", "p_midregion_cut"]},
 "C06": {"rule": N + "an injected file fault really fired and the outcome was judged.",
         "probes": ["read_eio", "open_enoent", "open_emfile", "seek_fail", "tell_fail", "close_fail", "file_grow_between_passes", "p_leakcheck", "p_load_failed"]},
 "C07": {"rule": N + "an allocation really failed and the outcome was judged.", "probes": ["alloc_fail", "alloc_cap", "p_leakcheck"]},
 "C08": {"rule": N + "the inputs or requests were mutated and the outcome was judged.",
         "probes": ["file_flip", "alloc_cap", "p_leakcheck", "p_session_started"]},
 "C09": {"rule": N + "at least one write which touches flash was attempted.", "probes": ["p_flash_write", "p_mem_write_ok", "p_alias_access", "p_dump_hits_flash"]},
 "C10": {"rule": N + "at least one acknowledged write was read back.", "probes": ["p_mem_write_ok", "p_reg_write", "p_straddle"]},
 "C11": {"rule": N + "at least one resume request was answered.", "probes": ["p_resume", "p_fault_text", "p_at_bkpt"]},
 "C12": {"rule": N + "a stop reply or fault description was judged.", "probes": ["p_fault_text", "p_resume", "p_reg_write"]},
 "C13": {"rule": N + "at least one byte on the line was really disturbed.",
         "probes": ["c2s_corrupt", "c2s_drop", "c2s_dup", "c2s_noise", "c2s_lost_packet", "c2s_ctrl_c", "c2s_nak", "s2c_corrupt",
                    "s2c_drop", "s2c_ack_lost", "retransmit"]},
 "C14": {"rule": N + "GDB really went away or a console call failed, and the end of the process was judged.",
         "probes": ["read_stdin_err", "write_stdout_err", "hangup_both", "hangup_input", "hangup_output", "hangup_midpacket",
                    "hangup_before_connect", "stdin_not_open", "sigpipe", "p_leakcheck"]},
 "C15": {"rule": N + "a complete memory map or target description was reassembled and compared.", "probes": ["p_qxfer_chunked", "p_straddle", "p_other_flags"]},
 "C16": {"rule": N + "at least one access went through an alias.", "real": REAL, "assume": ["one run in three drives the simulated memory directly through its public interface instead of through GDB"], "probes": ["p_alias_access", "p_alias_clamped"]},
 "C17": {"rule": N + "at least one request was answered under a disturbed pace.", "probes": ["select_eintr", "s2c_backpressure", "c2s_chunked", "p_big_packet"]},
 "C18": dict(API, rule=N + "at least one access was judged while a break or watchpoint was set.",
             probes=["p_wp_hit", "p_bp_hit", "p_wp_set", "p_wp_clear", "alloc_fail", "p_top_of_memory"]),
 "C19": dict(API, rule=N + "at least one operation failed and the state after it was compared.", probes=["alloc_fail", "alloc_cap", "p_leakcheck"]),
 "C20": dict(MOCK, rule=N + "at least one injected failure was delivered or one spied output was compared.", probes=["read_short", "open_enoent"]),
 "C21": {"rule": N + "an argument vector with at least one rewriting or mistake was judged.", "probes": ["open_enoent", "p_load_failed", "p_session_started"]},
 "C22": {"rule": N + "a load which was not the first of its process was judged.",
         "real": ["libCrashDebug/src/CrashDebugCommandLine.c, CrashCatcherDump.c, GdbLogParser.c, ElfLoad.c, MemorySim.c", "libcommon/src/*.c"],
         "stub": ["files and heap: simulated, with failing opens, reads and allocations", "main(): a model which loads, uses and unloads again and again"],
         "probes": ["p_reload", "p_empty_dump", "p_load_failed", "alloc_fail", "read_eio", "open_emfile", "open_enoent", "p_leakcheck"]},
 "C23": dict(API, rule=N + "at least one raised error reached a handler and was compared.", probes=["p_rethrown", "p_long_message"]),
}
