#!/usr/bin/env python3
# Writes properties.jsonl (one place to keep the texts readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
S = "sljit_src/"
p("C01", "A failed allocation never corrupts, leaks or mis-compiles",
  "If any heap or executable-memory allocation fails at any point of creating a compiler, emitting any program, or generating its code, the failing call reports an error, the error is sticky (every later emit and sljit_generate_code on that compiler fails too, never crashing), and freeing the compiler returns every byte it obtained exactly once. Code that is generated despite a failure behaves exactly like the code of a failure-free compilation, and repeating the compilation once memory is available yields that same code.",
  ["fault_sequences", "programs"], "every program of LIR operations, every position (and combination of positions) of a failing heap / executable allocation, on every back end",
  "The tests never make an allocation fail, except for the compiler's explicit memory-error setter; every error path of every back end's code generator is unexecuted.",
  [S + "sljitLir.c", S + "sljitLir.h", S + "sljitNativeX86_common.c", S + "sljitNativeARM_32.c", S + "sljitNativeARM_64.c", S + "sljitNativeARM_T2_32.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeS390X.c", S + "sljitNativeLOONGARCH_64.c"],
  [("sticky compiler->error, PTR_FAIL_IF / FAIL_IF / CHECK_ERROR macros", S + "sljitLir.c"), ("ensure_buf / ensure_abuf fragment lists", S + "sljitLir.c"), ("allocate_executable_memory and each sljit_generate_code", S + "sljitLir.c and sljitNative*.c"), ("SLJIT_MALLOC / SLJIT_FREE seam", S + "sljitConfigInternal.h")],
  [("compiler->error", "sticky error code", S + "sljitLir.h"), ("buf / abuf", "fragment chains that own every heap block", S + "sljitLir.h")],
  ["sljit_create_compiler", "sljit_get_compiler_error", "sljit_generate_code", "sljit_free_compiler"])
p("C02", "The executable memory allocator never overlaps, loses or leaks blocks",
  "For every history of executable-memory allocations, frees and unused-memory releases, in which any operating-system call may fail, each returned block is aligned, large enough, mapped, disjoint from every other live block and from allocator bookkeeping, and keeps its contents until it is freed. An allocation returns NULL only when the operating system refused memory during that call, a failed call leaves all live blocks usable, and once every block is freed and unused memory is released all mappings and file descriptors are given back exactly once (a refused first permission probe may disable the W^X allocator for the process).",
  ["histories", "fault_sequences"], "every sequence of allocate/free/release operations with any sizes, and any pattern of failing mmap/mprotect/ftruncate/temp-file calls, for the default, dual-mapping and W^X allocators",
  "The tests allocate a handful of blocks in stack order with an always succeeding operating system, so splitting, coalescing, chunk release and every error path are sampled at a few points only.",
  [S + "allocator_src/sljitExecAllocatorCore.c", S + "allocator_src/sljitExecAllocatorPosix.c", S + "allocator_src/sljitProtExecAllocatorPosix.c", S + "allocator_src/sljitWXExecAllocatorPosix.c", S + "sljitUtils.c"],
  [("boundary-tag free list with splitting and coalescing", S + "allocator_src/sljitExecAllocatorCore.c"), ("temp file + two shared mappings", S + "allocator_src/sljitProtExecAllocatorPosix.c"), ("one mapping per block", S + "allocator_src/sljitWXExecAllocatorPosix.c")],
  [("free block list, allocated/total size", "allocator bookkeeping", S + "allocator_src/sljitExecAllocatorCore.c")],
  ["the SLJIT_MALLOC_EXEC / SLJIT_FREE_EXEC functions", "sljit_free_unused_memory_exec", "sljit_generate_code / sljit_free_code", "the mmap family of calls"])
p("C03", "Independent compilers and the shared allocator are thread safe",
  "When several threads concurrently create compilers, generate code, run it, patch it and free it, and allocate or release executable memory, using no object of another thread, every thread gets exactly the result it gets when it runs alone, for every interleaving of their memory accesses and lock operations. No interleaving lets two threads access the same memory unordered by a lock when one of them changes it (except for the first-use detection of CPU features and page size, which stores the same values in every thread), corrupts the shared executable-memory allocator, loses a block, or blocks all threads forever.",
  ["schedules"], "every interleaving of the memory accesses, lock operations and system calls of any number of threads, in warm and cold (first use) processes",
  "The test suite is single threaded; a stress test would sample the few interleavings the kernel happens to produce.",
  [S + "sljitUtils.c", S + "sljitLir.c", S + "allocator_src/sljitExecAllocatorCore.c", S + "allocator_src/sljitWXExecAllocatorPosix.c", S + "sljitNativeX86_common.c", S + "sljitNativeS390X.c", S + "sljitNativeRISCV_common.c"],
  [("allocator lock around every exec allocator operation", S + "sljitUtils.c"), ("sljit only uses local variables and the compiler structure", S + "sljitLir.c"), ("idempotent lazy initialisation of CPU features / page size", S + "sljitNativeX86_common.c")],
  [("allocator free list", "the only mutable shared state", S + "allocator_src/sljitExecAllocatorCore.c")],
  ["the whole public API used from several threads"])
p("C04", "Serializing a compiler survives a crash at any point of compilation",
  "At any point of emitting any program, a compiler can be serialized, lost, and rebuilt from nothing but the serialized buffer (repeatedly, and with allocation failures in between, which yield NULL without leaks and leave the buffer usable and the source compiler usable or in the sticky out-of-memory state), and continuing the compilation from there gives code equivalent to that of an uninterrupted compilation. Serialization does not disturb the original compiler, and the labels, jumps and constants enumerate in the same order, with the same targets and the same relative code locations as without the interruption.",
  ["crash_points", "programs", "fault_sequences"], "every program, every set of cut points between two API calls, every allocation failing inside serialization or deserialization, on every back end",
  "Each serialization test cuts one fixed program at one fixed place; most compiler state (flags, partially built constant pools, open float/vector contexts, unresolved jumps) is never live at a cut.",
  [S + "sljitSerialize.c", S + "sljitLir.c", S + "sljitLir.h", S + "sljitNativeARM_32.c", S + "sljitNativeX86_32.c", S + "sljitNativeMIPS_common.c"],
  [("sljit_serialize_compiler / sljit_deserialize_compiler", S + "sljitSerialize.c"), ("creation-order label/jump/const lists", S + "sljitLir.c")],
  [("struct sljit_compiler", "all state that has to survive", S + "sljitLir.h")],
  ["sljit_serialize_compiler", "sljit_deserialize_compiler", "sljit_generate_code", "sljit_get_first_label/jump/const"])
p("C05", "A torn or foreign serialized buffer is rejected safely",
  "Deserializing a buffer that was cut short at any word boundary, or whose header has a different signature, byte order or format version, or that lacks the debug information the running build needs, returns NULL. It never reads beyond the given size, never writes to the buffer, and leaks nothing.",
  ["fault_sequences", "programs"], "every serialized program and every truncation length or header mismatch a storage device or another build can produce",
  "The tests only ever deserialize intact buffers of the running build.",
  [S + "sljitSerialize.c"],
  [("header signature/version and remaining-size checks before each section", S + "sljitSerialize.c")], (),
  ["sljit_deserialize_compiler"])
p("C06", "Stack resizing never loses live stack contents",
  "For every history of allocating, growing, shrinking and freeing util stacks, a successful resize returns the requested start and keeps every byte that is inside the stack both before and after it, an out-of-range resize returns NULL and changes nothing, and the pointers describing the stack stay consistent. Any refusal by the operating system (memory, page release advice) or the heap yields NULL or is absorbed, without losing contents, touching other memory, or leaking the reservation.",
  ["histories", "fault_sequences"], "every sequence of stack operations with any byte-granular starts, any page size and any pattern of failing or lazily acting memory calls",
  "The tests allocate one stack and resize it at two or three fixed places with an always succeeding operating system.",
  [S + "sljitUtils.c"],
  [("reserve once, release whole pages below the new start on shrink", S + "sljitUtils.c")],
  [("struct sljit_stack", "top/end/start/min_start", S + "sljitLir.h")],
  ["sljit_allocate_stack", "sljit_stack_resize", "sljit_free_stack"])
p("C07", "Run-time patches take effect exactly where they were made",
  "For every history of sljit_set_const, sljit_set_jump_addr, read-only-buffer writes and executions of a generated program, each execution sees, for every constant, rewritable jump or call and read-only buffer, the value or target written last (or the initial one), and everything else in the program behaves as it did before any patch. This holds for every value and every target address, with every executable allocator, after the compiler has been freed and no matter which other code was generated or freed in between.",
  ["histories", "programs"], "every interleaving of patching and executing, every patched value and jump distance, for every encoding a back end may have chosen for the patched site",
  "The tests patch a few sites with a few values once; encodings depend on the site, the operand, the neighbouring code and the distance to the target.",
  [S + "sljitLir.c", S + "sljitNativeX86_common.c", S + "sljitNativeARM_32.c", S + "sljitNativeARM_64.c", S + "sljitNativeARM_T2_32.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeS390X.c", S + "sljitNativeLOONGARCH_64.c"],
  [("sljit_set_jump_addr / sljit_set_const of each back end", "sljitNative*.c"), ("sljit_read_only_buffer_start/end_writing", S + "sljitLir.c"), ("SLJIT_UPDATE_WX_FLAGS and SLJIT_CACHE_FLUSH around each modification", S + "sljitConfigInternal.h")], (),
  ["sljit_set_jump_addr", "sljit_set_const", "sljit_read_only_buffer_start_writing", "execution of the code"])
p("C08", "Atomic load/store pairs are atomic under every thread interleaving",
  "When several threads run generated code that updates shared memory through sljit_emit_atomic_load and sljit_emit_atomic_store (of any operand size, with any supported options), every history is linearizable: a store reported as done took effect on exactly the value its load returned, with no update by another thread lost or torn, and a store reported as not done changed nothing. Bytes next to the accessed value are never changed, and threads that retry eventually succeed once interference stops.",
  ["schedules", "programs"], "every interleaving of the machine instructions of two or more threads inside and around the atomic sequences, on every back end",
  "The atomic tests run in one thread, where a plain load and store would pass; a real concurrent test would almost never preempt inside a two-instruction window.",
  [S + "sljitNativeX86_common.c", S + "sljitNativeX86_64.c", S + "sljitNativeX86_32.c", S + "sljitNativeARM_32.c", S + "sljitNativeARM_64.c", S + "sljitNativeARM_T2_32.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeS390X.c", S + "sljitNativeLOONGARCH_64.c"],
  [("compare-and-swap or load-linked/store-conditional sequences", "sljit_emit_atomic_load / sljit_emit_atomic_store in sljitNative*.c")], (),
  ["execution of generated code by several simulated CPUs"])
p("C09", "Generated code survives an interrupt at any instruction",
  "If generated code is interrupted at any instruction boundary by a handler that saves and restores the registers but may overwrite everything below the stack area protected by the platform ABI, the program still computes exactly what it computes uninterrupted. At every instruction the stack pointer stays inside the stack at or below the live frame, and when the function returns the stack pointer and all registers the ABI requires to be preserved hold the values they had at the call.",
  ["schedules", "programs"], "every instruction boundary at which a signal or preemption can arrive, for every program, frame layout and calling convention, on every back end",
  "The tests run without signals; code that keeps live data below the stack pointer for one instruction, or clobbers a preserved register its C caller happens not to use, passes every one of them.",
  [S + "sljitNativeX86_64.c", S + "sljitNativeX86_32.c", S + "sljitNativeX86_common.c", S + "sljitNativeARM_32.c", S + "sljitNativeARM_64.c", S + "sljitNativeARM_T2_32.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeS390X.c", S + "sljitNativeLOONGARCH_64.c"],
  [("prologue / epilogue / call frame code (sljit_emit_enter, emit_stack_frame_release, sljit_emit_call)", "sljitNative*.c")], (),
  ["registers and stack memory at each executed instruction", "results of the call"])
p("C10", "Code works wherever memory lands and never leaves its buffer",
  "Wherever the operating system places the code (or the caller places its own code buffer), and however far from it the jump targets, called functions, labels and data are, generated code behaves identically, and label, jump and constant addresses point to the places they name. Code generation writes only inside the memory it allocated or was given: when a given buffer is too small it fails with an error instead of writing past it.",
  ["fault_sequences", "programs", "configurations"], "every placement of the executable memory in the address space, every distance between code and targets or between two labels, and every size of user supplied buffer",
  "The tests run at the one or two addresses the kernel picks and with branch distances of a few hundred bytes, so most of the distance dependent encodings and size estimates are never selected.",
  [S + "sljitLir.c", S + "sljitNativeX86_common.c", S + "sljitNativeARM_32.c", S + "sljitNativeARM_64.c", S + "sljitNativeARM_T2_32.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeS390X.c", S + "sljitNativeLOONGARCH_64.c"],
  [("reduce_code_size estimate and detect_jump_type choose the shortest encoding for the final address", "sljitNative*.c"), ("SLJIT_GENERATE_CODE_BUFFER handling", S + "sljitLir.c")], (),
  ["sljit_generate_code", "sljit_get_label_addr / jump_addr / const_addr", "sljit_get_generated_code_size", "execution of the code"])
p("C11", "Results do not depend on which optional CPU features are present",
  "A program accepted by the compiler computes the same results on machines of the same architecture with different sets of optional instructions, and never executes an instruction the running machine does not have. Operations reported as unavailable by sljit_has_cpu_feature or by their test form are refused when emitted instead of being mis-compiled.",
  ["configurations", "programs"], "every program and every set of optional CPU features a machine may report at run time",
  "The tests run on the one CPU (or emulator default) of the machine, so fallback sequences for missing features, or the fast ones for present features, are never executed.",
  [S + "sljitNativeX86_common.c", S + "sljitNativeX86_64.c", S + "sljitNativeX86_32.c", S + "sljitNativeS390X.c", S + "sljitNativeLOONGARCH_64.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c"],
  [("run-time feature detection (cpuid, hwprobe, stfle, getauxval) and the fallbacks selected by it", "sljitNative*.c")], (),
  ["sljit_has_cpu_feature", "execution under different simulated CPU models"])
p("C12", "Regex matching is independent of input fragmentation and faults",
  "For every pattern and input, feeding the input in any sequence of fragments (including empty ones), pausing, resetting, or interleaving with other matches of the same or other machines, gives the same result (match begin, end and identifier) as feeding it at once. An allocation failure during regex compilation or match creation returns an error or NULL, leaks nothing and leaves existing machines and matches working.",
  ["schedules", "inputs", "fault_sequences"], "every split of every input into delivered fragments, every interleaving of several matches, and every failing allocation",
  "The regex tests feed each of a fixed list of inputs in one piece, one match at a time, with an always succeeding allocator.",
  ["regex_src/regexJIT.c", "regex_src/regexJIT.h"],
  [("JIT compiled state machine with its state saved in struct regex_match between calls", "regex_src/regexJIT.c")],
  [("struct regex_match", "current state set, best match so far, position", "regex_src/regexJIT.c")],
  ["regex_compile", "regex_continue_match", "regex_get_result", "regex_is_match_finished"])
p("C13", "Protected executable memory is never writable and executable at once",
  "With the dual-mapping and W^X allocators no page is ever mapped writable and executable through one address, generated code is executable and not writable through its executable address whenever control is outside the library, and after every code generation or run-time patch, successful or failed, it is still so. A refused permission change is reported (no code is returned) or leaves the previously generated code callable; it never makes an address writable that the library should not write or lets the library write to a read-only page.",
  ["histories", "fault_sequences"], "every history of code generation, patching, read-only-buffer writing and freeing, with any permission or mapping call refused",
  "The tests check that the code runs, not how its pages are mapped in between, and no system call ever fails in them.",
  [S + "allocator_src/sljitProtExecAllocatorPosix.c", S + "allocator_src/sljitWXExecAllocatorPosix.c", S + "sljitLir.c", S + "sljitNativeX86_common.c"],
  [("SLJIT_UPDATE_WX_FLAGS around each write", "sljitNative*.c and sljitLir.c"), ("separate RW and RX mappings joined by an executable offset", S + "allocator_src/sljitProtExecAllocatorPosix.c")], (),
  ["mmap / mprotect calls", "sljit_generate_code", "sljit_set_const / sljit_set_jump_addr / sljit_read_only_buffer_*"])
p("C14", "Tracing output never affects compilation, even when its stream fails",
  "Turning the verbose output of a compiler on or off at any point, and any failure of the stream it is written to (short writes, full disk, errors), changes neither the return values of the API, nor the generated code, nor the memory it uses and releases.",
  ["fault_sequences", "programs"], "every program, every point at which tracing is switched, and every pattern of failing or short writes of the stream",
  "The tests enable tracing only as a command-line option of the driver, and its stream never fails.",
  [S + "sljitLir.c"],
  [("CHECK macros run argument checks and tracing before each emit function", S + "sljitLir.c")],
  [("compiler->verbose", "the stream", S + "sljitLir.h")],
  ["sljit_compiler_verbose", "sljit_generate_code"])
p("C15", "Every LIR operation computes its documented result on every back end",
  "For all operand values, operand kinds and register assignments, each LIR operation stores the documented result and sets exactly the documented flags on every supported architecture.",
  ["inputs", "programs"], "every operand value, addressing form and operation",
  "The tests sample a few operands per operation.",
  [S + "sljitNativeX86_common.c", S + "sljitNativeARM_64.c", S + "sljitLir.h"],
  [("per back end instruction selection", "sljitNative*.c")], (), ["execution of the code"])
p("C16", "Invalid arguments are rejected before code is emitted",
  "With argument checking enabled every call whose arguments violate the documented rules is rejected with SLJIT_ERR_BAD_ARGUMENT before any code is emitted.",
  ["inputs"], "every combination of arguments of every API function",
  "The tests only issue valid calls.",
  [S + "sljitLir.c"], [("check_sljit_* functions", S + "sljitLir.c")], (), ["return values of the API"])
p("C17", "A regex match result is the leftmost longest match of the pattern",
  "For every pattern of the supported syntax and every input, the reported begin and end are those of the match defined by the pattern and its flags.",
  ["inputs"], "every pattern, flag set and input string",
  "The tests use a fixed list of patterns and inputs.",
  ["regex_src/regexJIT.c"], [("Thompson construction compiled to machine code", "regex_src/regexJIT.c")], (), ["regex_get_result"])
p("C18", "Generated code depends on nothing but the emit calls",
  "Compiling the same sequence of API calls again yields the same code: the same size, the same relative label, jump and constant addresses, byte for byte the same instructions when it is placed at the same address, and the same results when it runs. Nothing else may influence it: not the contents of uninitialised or recycled heap, stack or executable memory, not what the process compiled, ran, freed, abandoned or failed to compile before, and not other compilers that are in use in between the calls.",
  ["histories", "programs"], "every program, every history of the process (including failed and abandoned compilations and compilations nested inside each other) and every content of the memory that malloc, the stack and the executable allocator hand out",
  "The tests compile each program once, in one process history, with whatever the C library's heap happens to contain; reading an uninitialised field or a stale static variable usually goes unnoticed.",
  [S + "sljitLir.c", S + "sljitNativeX86_common.c", S + "sljitNativeARM_32.c", S + "sljitNativeARM_64.c", S + "sljitNativeRISCV_common.c", S + "sljitNativeS390X.c", S + "sljitNativeMIPS_common.c", S + "sljitNativePPC_common.c"],
  [("sljit_create_compiler clears the compiler and initialises statics once", S + "sljitLir.c"), ("set_label / set_jump / set_const / set_put_label initialise records in abuf memory", S + "sljitLir.c"), ("each sljit_generate_code lays out code in recycled executable memory", "sljitNative*.c")],
  [("compiler fields without an initial value on some path", "temporaries of the back ends", S + "sljitLir.h")],
  ["sljit_generate_code", "sljit_get_generated_code_size", "sljit_get_label_addr / sljit_get_jump_addr / sljit_get_const_addr", "bytes and execution of the generated code"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
for q in P: assert len(q["title"]) <= 80, q["title"]
print(len(P))
