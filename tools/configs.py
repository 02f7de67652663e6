# Build configurations, properties and their budgets.
def C(cc, *flags, run=()): return dict(cc=cc, objcopy='objcopy' if cc == 'gcc' else cc.replace('gcc-14', 'objcopy').replace('gcc', 'objcopy'), flags=list(flags), run=list(run))
CONFIGS = {
 'x86_64': C('gcc'),
 'x86_64_prot': C('gcc', '-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1'),
 'x86_64_wx': C('gcc', '-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1'),
 'x86_64_rel': C('gcc', '-DSLJIT_DEBUG=0', '-DSLJIT_VERBOSE=0'),
 'x86_32': C('i686-linux-gnu-gcc'),
 'aarch64': C('aarch64-linux-gnu-gcc', run=['qemu-aarch64']),
 'armv7': C('arm-linux-gnueabihf-gcc', '-marm', run=['qemu-arm']),
 'armv6': C('arm-linux-gnueabihf-gcc', '-marm', '-DSLJIT_CONFIG_ARM_V6=1', run=['qemu-arm']),
 'armt2': C('arm-linux-gnueabihf-gcc', '-mthumb', run=['qemu-arm']),
 'riscv64': C('riscv64-linux-gnu-gcc', '-march=rv64g', run=['qemu-riscv64']),
 'riscv64_ext': C('riscv64-linux-gnu-gcc', '-march=rv64gv_zba_zbb', run=['qemu-riscv64']),
 's390x': C('s390x-linux-gnu-gcc', '-march=z13', run=['qemu-s390x']),
 'loongarch64': C('loongarch64-linux-gnu-gcc-14', '-march=la464', run=['qemu-loongarch64']),
 'ppc64le': C('powerpc64le-linux-gnu-gcc', run=['qemu-ppc64le']),
 'ppc32': C('powerpc-linux-gnu-gcc', run=['qemu-ppc']),
 'mips32': C('mipsel-linux-gnu-gcc', run=['qemu-mipsel']),
 'mips64': C('mips64el-linux-gnuabi64-gcc', run=['qemu-mips64el']),
}
WRAPS = 'mmap mmap64 munmap mprotect madvise posix_madvise open open64 mkostemp mkostemp64 unlink memfd_create ftruncate ftruncate64 close fchmod sysconf secure_getenv getauxval'.split()
THR_WRAPS = ['pthread_' + w for w in 'mutex_lock mutex_trylock mutex_timedlock mutex_unlock mutex_init mutex_destroy spin_init spin_lock spin_trylock spin_unlock rwlock_rdlock rwlock_wrlock rwlock_unlock once'.split()]
SIM_SRC = {'sim': ['core.c', 'prog.c', 'util.c', 'props.c'], 'thr': ['core.c', 'prog.c', 'util.c', 'props.c', 'thr.c']}
SMALLDATA = {'riscv64': ['-msmall-data-limit=0'], 'riscv64_ext': ['-msmall-data-limit=0'], 'riscv64_c': ['-msmall-data-limit=0'], 'riscv64_gc': ['-msmall-data-limit=0'], 'mips32': ['-G0'], 'mips64': ['-G0'], 'ppc32': ['-msdata=none']}
# order of the enum in sim/core.h
STATS = ('runs programs ops execs mallocs fault_malloc fault_mmap fault_mprotect fault_ftruncate fault_open fault_mkostemp fault_unlink fault_memfd fault_madvise '
 'fault_stream fault_munmap crash_restart snapshot fault_truncation fault_foreign patch_const patch_jump patch_buf actions fail_seen gen_fail gen_ok_fault retry_ok '
 'placed_far buf_small buf_ok switch steps racechk fragments skipped chunk_release wx_flips stale_lines badret unsupp mach_runs mach_compared').split()
FAULT_STATS = {s for s in STATS if s.startswith('fault_')}
# what the environment does to a run besides failing calls
ENV_STATS = {'C03': {'switch': 'thread_switch'}, 'C04': {'crash_restart': 'crash_and_restart'}, 'C07': {'placed_far': 'hostile_placement', 'actions': 'interleaved_action'},
 'C08': {'switch': 'processor_switch', 'racechk': 'split_read_modify_write'}, 'C09': {'switch': 'interrupt'}, 'C10': {'placed_far': 'hostile_placement', 'buf_small': 'too_small_buffer'},
 'C11': {'mach_runs': 'run_on_another_machine'}, 'C12': {'fragments': 'input_fragment'}, 'C13': {'placed_far': 'hostile_placement'}, 'C18': {'actions': 'interfering_compilation_or_junk'}}
NATIVE = ['x86_64', 'x86_64_prot', 'x86_64_wx', 'x86_64_rel', 'x86_32']
CROSS = [c for c in CONFIGS if c not in NATIVE]
ALL = NATIVE + CROSS
# builds for other instruction sets of the same architectures: machines of C11
VARIANTS = {
 'x86_64_cpu': C('gcc', '-DSIM_CPUSEAM=1', run=['qemu-x86_64', '-cpu', 'max']),
 'x86_32_cpu': C('i686-linux-gnu-gcc', '-DSIM_CPUSEAM=1', run=['qemu-i386', '-cpu', 'max']),
 'aarch64_lse': C('aarch64-linux-gnu-gcc', '-march=armv8.2-a', run=['qemu-aarch64']),
 'armv7_div': C('arm-linux-gnueabihf-gcc', '-marm', '-mcpu=cortex-a15', '-mfpu=vfpv4-d16', run=['qemu-arm']),
 'armt2_div': C('arm-linux-gnueabihf-gcc', '-mthumb', '-mcpu=cortex-a15', '-mfpu=vfpv4-d16', run=['qemu-arm']),
 'riscv64_c': C('riscv64-linux-gnu-gcc', '-march=rv64gcv_zba_zbb', run=['qemu-riscv64']),
 'riscv64_gc': C('riscv64-linux-gnu-gcc', '-march=rv64gc', run=['qemu-riscv64']),
 's390x_z10': C('s390x-linux-gnu-gcc', '-march=z9-109', run=['qemu-s390x']),
 's390x_z15': C('s390x-linux-gnu-gcc', '-march=z15', run=['qemu-s390x']),
 'ppc64le_p10': C('powerpc64le-linux-gnu-gcc', '-mcpu=power10', run=['qemu-ppc64le', '-cpu', 'power10']),
 'mips32_r1': C('mipsel-linux-gnu-gcc', '-mips32', run=['qemu-mipsel']),
 'mips64_m3': C('mips64el-linux-gnuabi64-gcc', '-mips3', run=['qemu-mips64el']),
 'mips64_r1': C('mips64el-linux-gnuabi64-gcc', '-mips64', run=['qemu-mips64el']),
}
CONFIGS.update(VARIANTS)
# the other back ends with the dual-mapping and the W^X allocators
PROT, WX = [], []
for _c in ('x86_32', 'aarch64', 'armv7', 'armv6', 'armt2', 'riscv64', 'riscv64_c', 's390x', 'loongarch64', 'ppc64le', 'ppc32', 'mips32', 'mips64'):
    for _s, _d, _l in (('_prot', 'PROT', PROT), ('_wx', 'WX', WX)):
        CONFIGS[_c + _s] = dict(CONFIGS[_c], flags=CONFIGS[_c]['flags'] + ['-DSLJIT_%s_EXECUTABLE_ALLOCATOR=1' % _d]); _l.append(_c + _s)
        if _c in SMALLDATA: SMALLDATA[_c + _s] = SMALLDATA[_c]
# C11: machines a program runs on; the first of each group is the reference: (name, build, command, SIM_CPUMASK)
def Q(arch, cpu=None): return ['qemu-' + arch] + (['-cpu', cpu] if cpu else [])
def _m(build, arch, *cpus): return [(build + (':' + c if c else ''), build, Q(arch, c), '') for c in (cpus or (None,))]
X86CPU = ['max', 'max,-avx', 'max,-avx2', 'max,-ssse3,-sse4.1,-sse4.2,-avx', 'max,-abm,-bmi1,-bmi2', 'max,-xsave', 'Nehalem', 'Haswell']
MACHINES = {
 'x86_64': _m('x86_64_cpu', 'x86_64', *X86CPU, 'qemu64'),
 'x86_32': _m('x86_32_cpu', 'i386', *X86CPU, 'qemu32', 'max,-sse2'),
 'aarch64': _m('aarch64', 'aarch64', None, 'cortex-a53') + _m('aarch64_lse', 'aarch64', None, 'neoverse-n1'),
 'armv7': _m('armv7', 'arm', None, 'cortex-a9') + _m('armv7_div', 'arm', 'cortex-a15') + _m('armv6', 'arm') + _m('armt2', 'arm', 'cortex-a9') + _m('armt2_div', 'arm', 'cortex-a15'),
 'riscv64': _m('riscv64', 'riscv64', 'sifive-u54') + _m('riscv64_ext', 'riscv64', None, 'rv64,v=on,zbc=off,zbs=off') + _m('riscv64_c', 'riscv64') + _m('riscv64_gc', 'riscv64', 'sifive-u54'),
 's390x': _m('s390x', 's390x') + _m('s390x_z10', 's390x', None, 'max,vxeh=off') + _m('s390x_z15', 's390x'),
 'loongarch64': _m('loongarch64', 'loongarch64', 'la464', 'max') + [('loongarch64:no-lsx', 'loongarch64', Q('loongarch64'), 'h:0:30'), ('loongarch64:no-lasx', 'loongarch64', Q('loongarch64'), 'h:0:20')],
 'ppc64le': _m('ppc64le', 'ppc64le', 'power9') + _m('ppc64le_p10', 'ppc64le', 'power10'),
 'ppc32': _m('ppc32', 'ppc', None, '603', '750', '7447a'),
 'mips32': _m('mips32', 'mipsel', None, '74Kf') + _m('mips32_r1', 'mipsel'),
 'mips64': _m('mips64', 'mips64el', None, '5KEf') + _m('mips64_r1', 'mips64el') + _m('mips64_m3', 'mips64el'),
}
def builds_of(prop, cfgs):
    return sorted({m[1] for c in cfgs for m in MACHINES[c]} | set(cfgs)) if PROPS[prop].get('mach') else list(cfgs)
def counts(native, cross, over=(), only=None):
    d = {c: (native if c in NATIVE else cross) for c in (only or ALL)}
    d.update(dict(over))
    return {c: n for c, n in d.items() if n}
# a shared mapping turns on a code path of qemu 8.2 whose 16-byte stores go wrong in some translation blocks (see DESIGN.md)
CONFIGS['aarch64_prot']['run'] = ['qemu-aarch64', '-one-insn-per-tb']
# builds for other instruction sets that change much of the emitted code
MORE = ['riscv64_c', 'aarch64_lse', 'armt2_div', 's390x_z15', 'ppc64le_p10']
def rate(native, cross, only=None, drop=(), more=(), light=(), light_s=6):
    """runs per second of one core; quick: 10 s (native) / 20 s (emulated) per configuration, thorough: 20 times that"""
    cf = [c for c in (only or ALL) if c not in drop] + list(more)
    r = lambda c: native if c in NATIVE else cross
    q = {c: int(r(c) * (10 if c in NATIVE else 20)) for c in cf}
    q.update({c: int(cross * light_s) for c in light})
    return dict(quick=q, thorough={c: n * 20 for c, n in q.items()})
def tiers(nq, cq, nt, ct, over=(), only=None, factor=12):
    return dict(quick=counts(nq, cq, over, only), thorough=counts(nt, ct, [(c, n * factor) for c, n in dict(over).items()], only))
ASSUME = ['the code generated by the cross compilers and executed by qemu-user behaves as on real hardware',
          'the oracle compares executions of the library with each other (fault-free twin, retry, restart, other placement), so a miscompilation common to all of them is out of scope (see C15)']
REAL_J = ['sljitLir.c with the complete back end, executable allocator and utilities of the configuration', 'generated machine code (executed natively on x86, by qemu-user elsewhere)']
STUB_OS = ['heap (SLJIT_MALLOC/SLJIT_FREE): guarded, poisoned simulated heap', 'mmap/munmap/mprotect/madvise/open/mkostemp/unlink/memfd_create/ftruncate/close/sysconf: simulated operating system deciding placement, page size and failures on top of real pages',
           'instruction cache: model of flushed ranges on non-coherent architectures']
PROPS = {
 'C01': dict(rate(4000, 250, more=MORE, light=PROT), rule='a run compiles a generated LIR program fault free, then again with allocation faults drawn from the seed, then retries; non-trivial: distinct (operations, failing call, error) fingerprints',
   measure='fingerprint of (emitted operation kind, failing allocation number, stage, outcome)', real=REAL_J, stub=STUB_OS, assume=ASSUME),
 'C02': dict(rate(1200, 50), rule='a run is a random history of executable allocations, frees and releases with operating-system faults; non-trivial: distinct allocator layouts',
   measure='fingerprint of (live blocks, sizes, mappings)', real=['executable allocators (default, dual mapping, W^X)', 'sljit_free_unused_memory_exec'], stub=STUB_OS, assume=[]),
 'C03': dict(rate(900, 60), tag='thr', rule='a run executes 2-4 simulated threads that compile, run, patch, serialize and free code, use the executable allocator, stacks and regular expressions, switched at accesses, lock operations and system calls chosen by the seed; non-trivial: distinct schedules (order of switches, locks, results)',
   measure='fingerprint of the whole event history of a run (thread switches, lock operations, heap and system calls, results)', real=REAL_J + ['allocator locking', 'regexJIT.c', 'sljit_allocate_stack'], stub=STUB_OS + ['threads (coroutines under a seeded scheduler)', 'pthread mutexes, once and spin locks', 'thread sanitizer runtime (own vector-clock race detector)'], assume=ASSUME + ['weak memory orderings beyond what the race detector rules out are not simulated', 'generated code runs without being preempted (see C08, C09)']),
 'C04': dict(rate(2500, 200, more=MORE, light=PROT), rule='a run serializes at random points, loses the compiler and continues from the buffer, with allocation faults; non-trivial: distinct (operation, stage) of the restart',
   measure='fingerprint of (operation at the restart, sizes, fault outcome)', real=REAL_J + ['sljit_serialize_compiler / sljit_deserialize_compiler'], stub=STUB_OS, assume=ASSUME),
 'C05': dict(rate(490, 80), rule='a run serializes a program and deserializes torn or foreign variants of the buffer placed against an unmapped page; non-trivial: distinct (buffer size, variant, cut)',
   measure='fingerprint of (variant, cut position class, outcome)', real=['sljit_serialize_compiler / sljit_deserialize_compiler'], stub=STUB_OS, assume=[]),
 'C06': dict(rate(490, 73), rule='a run is a random history of stack allocations, resizes and frees with refused memory, advice and heap; non-trivial: distinct stack geometries',
   measure='fingerprint of (stack geometry, action, outcome)', real=['sljit_allocate_stack / sljit_stack_resize / sljit_free_stack'], stub=STUB_OS, assume=[]),
 'C07': dict(rate(4000, 150, more=MORE, light=PROT + WX, light_s=8), rule='a run patches constants, jumps, calls and read-only buffers of generated code in random order, interleaved with executions and other compilations; non-trivial: distinct (site kind, value class, history)',
   measure='fingerprint of (patched site kind, operation, value class)', real=REAL_J, stub=STUB_OS, assume=ASSUME),
 'C08': dict(rate(33, 28, more=('aarch64_lse', 'riscv64_c', 'armt2_div')), ctl=True, rule='a run lets 2-4 simulated processors execute generated loops of atomic load/store pairs on one memory cell, switched after any machine instruction the seed chooses; non-trivial: distinct histories',
   measure='fingerprint of the complete history of a run (loaded values, instructions executed, final memory)', real=['sljit_emit_atomic_load / sljit_emit_atomic_store of every back end', 'generated machine code, executed one instruction at a time by qemu-user'],
   stub=STUB_OS + ['processors: register files owned by the controller, which picks the processor of each instruction and drops LL/SC reservations at a switch; an x86 read-modify-write without LOCK is a load and a store'], assume=['qemu-user executes single instructions as hardware does', 'memory is sequentially consistent between instructions: orderings of other locations by the atomic operations are not decided']),
 'C09': dict(rate(20, 12), ctl=True, rule='a run executes a generated program twice, undisturbed and with an interrupt after every machine instruction that overwrites the unprotected stack; non-trivial: distinct (stack depth, instruction count)',
   measure='(deepest stack use, instructions executed)', real=REAL_J[:1] + ['generated machine code, executed one instruction at a time by qemu-user'], stub=STUB_OS + ['interrupt handlers (the controller writes the stack)', 'caller of the generated code (chooses the values of preserved registers)'], assume=ASSUME[:1]),
 'C10': dict(rate(370, 26, None, ('x86_64_rel',), MORE, PROT + WX, 8), rule='a run compiles one program at several random placements (near, far, boundary, caller-supplied buffers of every size class); non-trivial: distinct (program, placement class)',
   measure='fingerprint of (placement class, size class, outcome)', real=REAL_J, stub=STUB_OS, assume=ASSUME),
 'C11': dict(quick={g: 2500 if g.startswith('x86') else 3500 for g in MACHINES}, thorough={g: 30000 for g in MACHINES}, mach=True, rule='a run executes a generated program on a reference machine and on machines that lack features of it (other processors of the emulator, other instruction sets at compile time, masked feature reports); non-trivial: distinct results',
   measure='final state of the program', real=REAL_J + ['feature detection'], stub=STUB_OS + ['processor identification (cpuid, xgetbv, hardware capabilities): feature bits cleared by the simulator'], assume=['qemu-user refuses instructions that the selected processor lacks (true of the features used here; masked features of the x86 processors are still executable)']),
 'C12': dict(rate(1500, 100, None, ('x86_64_rel', 'riscv64_ext', 'armv6')), rule='a run compiles regular expressions and feeds inputs in random fragments, interleaved between machines, with allocation faults; non-trivial: distinct (pattern, fragmentation, result)',
   measure='fingerprint of (pattern, input, fragmentation, result)', real=['regexJIT.c', 'sljitLir.c and back end'], stub=STUB_OS, assume=ASSUME),
 'C13': dict(quick=dict({'x86_64_prot': 120000, 'x86_64_wx': 80000, 'x86_32_prot': 40000, 'x86_32_wx': 40000}, **{c: 1500 for c in PROT[1:] + WX[1:]}), thorough=dict({'x86_64_prot': 2400000, 'x86_64_wx': 1600000, 'x86_32_prot': 800000, 'x86_32_wx': 800000}, **{c: 30000 for c in PROT[1:] + WX[1:]}), rule='a run generates, patches and frees code with the protecting allocators while permission changes and mappings are refused; non-trivial: distinct (action, mapping protection) states',
   measure='fingerprint of (action, protections, outcome)', real=REAL_J, stub=STUB_OS, assume=ASSUME),
 'C14': dict(rate(4000, 180, None, ('x86_64_rel',)), rule='a run compiles one program with the verbose stream switched on and off at random points, the stream failing in every way; non-trivial: distinct (operation, stream fault)',
   measure='fingerprint of (operation, stream state, fault)', real=REAL_J + ['verbose output', 'C library streams (fopencookie back ends are simulated)'], stub=STUB_OS, assume=ASSUME),
 'C18': dict(rate(900, 55, more=MORE, light=PROT, light_s=6), rule='a run compiles one program again and again after random histories (other, failed and abandoned compilations, compilations nested in it, recycled memory) with different contents of uninitialised heap, stack and executable memory; non-trivial: distinct (memory contents, history, program)',
   measure='fingerprint of (heap and stack contents, live neighbours, program result)', real=REAL_J, stub=STUB_OS + ['contents of uninitialised heap, stack and executable memory'], assume=ASSUME),
}
