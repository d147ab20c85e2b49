#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

# ---------------------------------------------------------------- claimed
p('C01', 'Aligned allocation: right size, alignment and ownership, or a clean failure',
  'Every successful aligned allocation returns a block aligned for the widest SIMD unit of the build whose whole requested length belongs to the caller alone, and the matching free releases exactly that block to the system allocator and nothing else. '
  'When the system cannot supply the memory - at any call, in any order of calls from any number of threads - the allocation reports failure with a null pointer, leaks nothing and leaves every other block untouched. '
  'A typed request for n elements never yields a block shorter than n elements, however large n is.',
  ['schedules', 'fault_sequences', 'inputs', 'histories'],
  'For every sequence of allocations and frees of every size (zero, odd, page sized, overflowing) by interleaved threads and for every choice of which underlying allocator calls fail.',
  'Tests only allocate small buffers that always succeed on one thread; no test makes the system allocator fail, interleaves callers or asks for a size near the address-space limit.',
  ['src/memory.cpp', 'include/nsimd/nsimd.h'],
  [('posix_memalign / _aligned_malloc / malloc fallback with error-to-NULL translation', 'src/memory.cpp'),
   ('typed wrappers multiplying the element count by the element size', 'include/nsimd/nsimd.h: nsimd_aligned_alloc_for, nsimd::aligned_alloc_for')],
  ['return values', 'calls reaching the system allocator', 'content of live blocks'])

p('C02', 'Containers and scoped buffers stay sound when allocation fails',
  'A standard container using the library allocator reports memory exhaustion by an exception and never through a null buffer: after the failing operation its elements are exactly those it had before, it remains usable, and once it is destroyed no memory is leaked, freed twice or freed with another size. '
  'A scoped aligned buffer of n elements owns an aligned block of n elements from construction to the end of its scope, whichever way the scope is left, and shares it with no other buffer, copies included; when the block cannot be obtained its construction throws.',
  ['fault_sequences', 'histories', 'programs'],
  'For every history of container operations, for every subset of failing underlying allocations, for the pre-C++11 and the C++11 allocator, and for scopes left normally or by an exception.',
  'The allocator tests run only with memory available; the failure paths of the allocators and of the scoped buffer are never executed.',
  ['include/nsimd/nsimd.h', 'src/memory.cpp'],
  [('allocator::allocate / deallocate for C++98 and C++11', 'include/nsimd/nsimd.h'),
   ('scoped_aligned_mem_for constructor and destructor', 'include/nsimd/nsimd.h')],
  ['container contents', 'thrown exceptions', 'calls reaching the system allocator'])

p('C03', 'Masked loads and stores never touch the lanes that are switched off',
  'A masked store changes only the elements whose lane is on and a masked load reads only those elements: at no instant does a masked store write, even transiently, an element whose lane is off, so that whatever another thread writes there meanwhile is never lost or altered. '
  'A masked load returns memory contents in the lanes that are on and the fallback value (zero or the supplied vector) in the others, and it never faults because an element whose lane is off is inaccessible.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'For every mask, element type, addressing mode (aligned, unaligned), x86 or emulated SIMD level, vector length and unroll, for every interleaving with threads owning the other elements, and for every placement of inaccessible pages.',
  'Tests run the operation alone on one mask pattern and look at memory afterwards: a read-modify-write of the inactive lanes is invisible to them, as is a read beyond a page end; only part of the SIMD levels is tested at all.',
  ['egg/platform_x86.py', 'egg/platform_cpu.py', 'include/nsimd/cxx_adv_api.hpp'],
  [('hardware masked moves or per-lane scalar loops', 'egg/platform_x86.py: maskoz_load, mask_store'),
   ('per-lane conditionals', 'egg/platform_cpu.py')],
  ['memory contents after every machine instruction', 'faults on inaccessible pages', 'returned vectors'])

p('C04', 'Vector memory operations access exactly the elements they name',
  'A load, store, interleaved (2, 3 or 4 way) load or store, logical-mask load or store, gather, scatter, strided gather or strided scatter reads and writes exactly the elements it addresses: the values land in the right place and nothing before, after or between them is written even transiently or needs to be accessible. '
  'An interleaved load gives one vector per structure member, all in the same lane order, and the interleaved store of the same vectors puts every member back where it came from. '
  'Hence threads working on neighbouring elements never lose updates and buffers ending at a page end can be processed.',
  ['schedules', 'inputs', 'configurations', 'fault_sequences'],
  'For every such operation, type, SIMD level, alignment, stride and index vector, every interleaving with threads owning the neighbouring elements, every buffer placement against inaccessible pages.',
  'Tests place operands in the middle of large buffers on one thread, never at a page end and never beside a concurrent writer.',
  ['egg/platform_x86.py', 'egg/platform_cpu.py', 'egg/x86_load_store_deg234.py', 'include/nsimd/cxx_adv_api.hpp', 'egg/gen_base_apis.py'],
  [('native and decomposed loads/stores, gathers and scatters', 'egg/platform_x86.py, egg/x86_load_store_deg234.py'),
   ('element loops of the emulated SIMD level', 'egg/platform_cpu.py')],
  ['memory contents after every machine instruction', 'faults on inaccessible pages', 'returned vectors'])

p('C05', 'Operators are re-entrant and leave the floating-point environment alone',
  'Any operation of the library, interrupted at any machine instruction by any other operations on other threads of control, returns the result it returns when run alone: no operation keeps hidden state shared between callers. '
  'Every operation leaves the caller\'s floating-point control state (rounding mode, denormal handling, exception masks) and processor mode as it found it, and other threads of control never observe it changed.',
  ['schedules', 'inputs', 'configurations', 'programs'],
  'For every pair or triple of operation sequences over all operators, types and x86/emulated SIMD levels, and for every instruction-level interleaving of them.',
  'Tests call one operation at a time on one thread; an interleaving inside an operation can not be expressed in them, and they never look at the control registers.',
  ['egg/platform_x86.py', 'egg/platform_cpu.py', 'src/fp16.cpp', 'src/ufp.cpp', 'egg/scalar.py', 'src'],
  [('operations are stateless functions without static storage', 'generated headers, src/*.cpp')],
  ['returned vectors', 'control registers at every operation boundary'])

p('C06', 'Printing a vector writes its full text or reports the stream error',
  'Printing a vector or a logical vector to a stream writes its textual form (all lanes, in order) and returns the number of characters written. '
  'When the stream fails at any byte it returns a negative number, never a success count, writes at most a prefix of the text, and a later print on a recovered stream is complete and correct.',
  ['fault_sequences', 'inputs', 'configurations'],
  'For every element type, SIMD level and value, every buffering mode and every failure point (full disk, I/O error, short write, interrupted write) of the stream.',
  'No test prints to a failing stream; printing is used only by humans debugging.',
  ['egg/gen_src.py', 'src', 'include/nsimd/cxx_adv_api.hpp'],
  [('per-lane fprintf with the return code checked and accumulated', 'egg/gen_src.py')],
  ['bytes received by the stream', 'return value'])

p('C07', 'A kernel launch runs every index exactly once, on every backend',
  'Launching an SPMD kernel over n items executes the kernel body exactly once for each index from 0 to n-1 and for no other index, for plain and templated kernels, whatever the block size or unroll factor and in whatever order the device runs its threads. '
  'Kernel loads and stores touch only the n elements of each array, and each item sees its own elements.',
  ['schedules', 'inputs', 'configurations'],
  'For every n including 0 and sizes around multiples of the block or vector length, every threads-per-block or unroll, every element width, every backend (emulated CPU, each x86 SIMD level, CUDA, ROCm, oneAPI) and every device thread schedule.',
  'The GPU code paths are never compiled nor run by the available tests, and the CPU tests use one size and one unroll factor.',
  ['include/nsimd/modules/spmd.hpp', 'src/gpu.cpp', 'egg/modules/spmd/hatch.py'],
  [('launch macros: grid computation and index guard on GPUs, vector loop plus scalar tail on CPUs', 'include/nsimd/modules/spmd.hpp'),
   ('grid size computation', 'src/gpu.cpp: nsimd_kernel_param')],
  ['array contents', 'guard zones around the arrays', 'execution counters'])

p('C08', 'Divergent SPMD control flow behaves per item as in sequential code and ends',
  'In an SPMD kernel or device function each item behaves as if it alone ran the sequential program: if / else if / else, while, break, continue, return and assignment affect only the items that reach them, however differently the items of one vector or warp branch. '
  'If every item\'s sequential program ends, the whole launch ends.',
  ['programs', 'schedules', 'inputs', 'configurations'],
  'For every nest of control-flow constructs, every per-item data (hence every divergence pattern between lanes), every backend, element width, unroll factor and thread schedule.',
  'Tests contain no break, continue, return nor loop inside a condition; the divergence patterns of a nest are exponential in its depth.',
  ['include/nsimd/modules/spmd.hpp', 'egg/modules/spmd/hatch.py'],
  [('mask stack: active mask, lanes off by break, continue and return', 'include/nsimd/modules/spmd.hpp: k_if ... k_endwhile, k_set, k_load, k_store'),
   ('plain C++ control flow on GPUs', 'include/nsimd/modules/spmd.hpp')],
  ['array contents', 'number of condition evaluations (bounded progress)'])

p('C09', 'Array-expression assignment writes each selected element exactly once',
  'Assigning a one-dimensional array expression to an output evaluates it once for every element and stores each result at its own index; a conditional assignment stores only where the condition holds and leaves every other element unchanged. '
  'Nothing outside the expression\'s length is read or written, slices denote the inclusive range they name, scalars are broadcast, and the effect is the same on every backend, for any block size, on any stream and device thread order, with assignments queued on one stream taking effect in order.',
  ['schedules', 'inputs', 'configurations', 'histories'],
  'For every expression, length, mask, slice, block size, stream and element type, on CPU SIMD levels, CUDA, ROCm and oneAPI, and every device thread schedule and stream interleaving.',
  'The GPU code paths are never run by the available tests; the CPU tests use fixed sizes without guard zones and no mask corner cases.',
  ['include/nsimd/modules/tet1d.hpp', 'egg/modules/tet1d/hatch.py', 'src/gpu.cpp'],
  [('component-wise kernels with index guard', 'include/nsimd/modules/tet1d.hpp'),
   ('masked store through select', 'include/nsimd/modules/tet1d.hpp')],
  ['array contents', 'guard zones around the arrays'])

p('C10', 'Device and paired memory: all or nothing, right size, no leak, no lost copy',
  'A device or paired (host and device) allocation of n elements gives room for n elements on each side, zeroed for the clearing variants, or - when any underlying allocation or clearing step fails - returns null pointers and a zero size without leaking the half already obtained; the or-exit variants end the process with a failure status. '
  'Freeing a pair releases both sides once, copies transfer all n elements in the requested direction, and fill functions write each of the n elements once and nothing else.',
  ['fault_sequences', 'histories', 'inputs', 'configurations', 'schedules'],
  'For every history of allocations, fills, copies and frees, every subset of failing host and device runtime calls, every element type and length, on CPU, CUDA, ROCm and oneAPI runtimes.',
  'The GPU branches are not even compiled by the available tests (several did not compile or allocated the wrong size), and no test makes an allocation fail.',
  ['include/nsimd/modules/memory_management.hpp', 'src/gpu.cpp'],
  [('roll back of the device half when the host half fails', 'include/nsimd/modules/memory_management.hpp: pair_malloc, pair_calloc'),
   ('fill kernels with index guard', 'include/nsimd/modules/memory_management.hpp: nsimd_fill_dev_mem_func')],
  ['runtime call ledger', 'array contents', 'process exit status'])

p('C11', 'The same kernel source gives the same values on every backend and schedule',
  'A kernel or array expression built from exactly specified operations (integer, bitwise, shift, comparison, logical, saturated arithmetic and correctly rounded floating-point operations; half precision stands for its emulation in single precision, so bitwise operations on halves, whose last bits it may change, are not among them) produces the same element values on the emulated CPU, every x86 SIMD level, CUDA, ROCm and oneAPI, for every item position and every order in which device threads run. '
  'In particular an item\'s value does not depend on whether it falls in the vector part or in the remainder of the range, nor on which other items run beside it.',
  ['schedules', 'inputs', 'configurations', 'programs'],
  'For every operation with exactly specified result, element type, operand values, position in the range and device schedule, over all backends that can be simulated here.',
  'The GPU operators are never compiled or run by the available tests, so a wrong GPU or remainder-loop implementation of an operation is invisible.',
  ['egg/cuda.py', 'egg/oneapi.py', 'egg/scalar.py', 'egg/gen_scalar_utilities.py', 'egg/modules/spmd/hatch.py', 'egg/modules/tet1d/hatch.py', 'egg/platform_cpu.py', 'egg/platform_x86.py'],
  [('one implementation table per backend', 'egg/cuda.py, egg/oneapi.py, egg/scalar.py, egg/platform_x86.py, egg/platform_cpu.py'),
   ('dispatch from DSL operation to backend operation', 'egg/modules/spmd/hatch.py, egg/modules/tet1d/hatch.py')],
  ['array contents'])

p('C12', 'Code generation is deterministic',
  'Generating the library twice from the same sources with the same options writes the same set of files with byte-identical contents, whatever the hash randomisation of the interpreter, the order in which the file system lists directories, the clock, the locale and the process environment. '
  'Restricting generation to some SIMD units or operators writes the same bytes into the library and test files it does write for them (documentation pages may depend on the SIMD units chosen).',
  ['configurations', 'schedules', 'histories'],
  'For every hash seed, directory order, clock value, locale, file mode mask and repetition of the generator.',
  'The tests use one generated tree produced under one fixed hash seed.',
  ['egg/hatch.py', 'egg/common.py', 'egg/gen_tests.py', 'egg/gen_archis.py', 'egg/gen_src.py', 'egg/modules'],
  [('ordered iteration over operators, types and SIMD units', 'egg/*.py')],
  ['generated tree'])

p('C13', 'Code generation survives crashes and disk faults',
  'If writing any generated file fails (full disk, I/O error, refused directory or file creation) the generator reports failure through its exit status instead of success. '
  'After a crash or failure at any point, running the generator again in forced mode, as the build scripts do, yields exactly the tree a fault-free run yields; list-only mode creates nothing, existing files are left untouched without forced mode (a HTML page or .cu copy follows the file it is made from), and no file outside the generated set is ever created, changed or removed.',
  ['crash_points', 'fault_sequences', 'histories'],
  'For every crash point and every single or multiple failing file-system call during generation, from a clean or partly generated tree.',
  'No test interrupts the generator or makes a write fail.',
  ['egg/hatch.py', 'egg/common.py', 'egg/gen_archis.py', 'egg/gen_src.py', 'egg/gen_modules.py'],
  [('exceptions propagate from the writers to the exit status', 'egg/hatch.py'),
   ('can_create_filename / list_files / force options', 'egg/common.py')],
  ['exit status', 'file tree after recovery'])

p('C14', 'Fetching the Sleef sources is all-or-nothing under network and disk faults',
  'Fetching the third-party Sleef sources either succeeds and leaves exactly the expected renamed files in the source directory, or fails with a non-zero status. '
  'A failed download (server error, timeout, connection reset, truncated or corrupted archive) never alters the files already in the source directory, and after a fault or crash at any point a later fault-free fetch gives the same tree as if nothing had happened.',
  ['fault_sequences', 'crash_points', 'histories'],
  'For every network fault, archive corruption, file-system fault and crash point during the fetch, from a clean tree or one left behind by an earlier interrupted fetch.',
  'There is no test of the fetch: it needs the network.',
  ['egg/get_sleef_code.py', 'egg/hatch.py'],
  [('status check of the download, extraction in a build directory, copy with renaming into the source directory', 'egg/get_sleef_code.py')],
  ['exit status', 'content of the source directory'])

# ---------------------------------------------------------------- not applicable (pure functions of their input)
p('N01', 'Arithmetic, logical and shift operators compute their documented per-lane result',
  'On every SIMD level each lane of an operator result equals the documented scalar operation on the corresponding input lanes, for every input.',
  ['inputs', 'configurations'], 'For every operand value, operator, type and SIMD level.',
  'Tests sample a few hundred values per operator.',
  ['egg/platform_x86.py', 'egg/platform_cpu.py', 'egg/scalar.py'], [('intrinsic selection per operator', 'egg/platform_x86.py')])
p('N02', 'Mathematical functions respect their stated error bound',
  'Every mathematical function stays within the number of units in the last place its name promises, over its whole domain.',
  ['inputs'], 'For every argument of every function and type.', 'Tests sample the domain.',
  ['src', 'egg/operators.py'], [('Sleef kernels', 'src')])
p('N03', 'Half-precision conversion is IEEE correct',
  'Converting between half and single precision rounds to nearest even and preserves infinities, NaN-ness, signed zeros and denormals, in software and hardware paths alike.',
  ['inputs'], 'For all 2^16 halves and 2^32 floats.', 'Tests sample values.',
  ['src/fp16.cpp', 'include/nsimd/nsimd.h'], [('bit manipulation', 'src/fp16.cpp')])
p('N04', 'Shuffles, up- and down-conversions and reinterpretations move the right lanes',
  'Zip, unzip, interleave, reverse, up-conversion, down-conversion and reinterpretation place every lane where documented on every SIMD level.',
  ['inputs', 'configurations'], 'For every operator, type pair and SIMD level.', 'Tests cover one SIMD level per run.',
  ['egg/platform_x86.py', 'egg/platform_cpu.py'], [('shuffle sequences', 'egg/platform_x86.py')])
p('N05', 'Random generators are pure functions of key and counter',
  'The counter-based generators return the published output for every key and counter and give the same stream for every vector length.',
  ['inputs', 'configurations'], 'For every key and counter.', 'Tests compare a few counters.',
  ['egg/modules/random/hatch.py'], [('counter-based rounds without state', 'egg/modules/random/hatch.py')])
p('N06', 'Fixed-point arithmetic respects its format',
  'Fixed-point operations return the exact result truncated to the format for all representable operands.',
  ['inputs'], 'For every format and operand.', 'Tests sample operands.',
  ['include/nsimd/modules/fixed_point.hpp', 'include/nsimd/modules/fixed_point'], [('integer arithmetic with shifts', 'include/nsimd/modules/fixed_point')])
p('N07', 'C, C++ and advanced interfaces agree',
  'The C base, C advanced, C++ base and C++ advanced interfaces of one operation return identical results.',
  ['inputs', 'configurations', 'programs'], 'For every operation and type.', 'Each interface is tested separately.',
  ['egg/gen_base_apis.py', 'egg/gen_adv_c_api.py', 'egg/gen_adv_cxx_api.py', 'include/nsimd/cxx_adv_api.hpp'], [('thin generated wrappers', 'egg/gen_base_apis.py')])
p('N08', 'Units-in-first-place distance is exact',
  'The accuracy helper returns the number of common leading bits of two floating-point numbers for every pair.',
  ['inputs'], 'For every pair of numbers.', 'It is used by tests and not itself tested.',
  ['src/ufp.cpp'], [('bit comparison', 'src/ufp.cpp')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
