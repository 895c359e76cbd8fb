import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="src/core/"
p("M01","Device memory accesses are accepted exactly when inside one live allocation",
 "Every device memory access (load, store, copy, atomic or host pointer/mapping request) of n >= 1 bytes at an address is accepted if and only if all n bytes lie inside a single live allocation of that address space; null, unallocated, freed and out-of-range addresses, and sizes so large that address arithmetic would wrap around, are rejected. A rejected access changes no byte of any allocation.",
 ["inputs","histories"],"every address, access size and allocation table (any number of live and freed allocations, any address/offset split)",
 "Tests touch a few in-range addresses; the accept/reject boundary, wrap-around sizes and freed slots cannot be enumerated over 2^64 addresses and sizes.",
 [C+"Memory.cpp",C+"Memory.h"],"bounds test on buffer index and offset before every access","return value of Memory::load/store/copy/getPointer/mapBuffer/atomic and the buffer contents",
 [("allocation table","map from slot to live buffer size/flags/bytes"),("free slot queue","slots available for reuse")])
p("M02","Stores, loads and copies move exactly the addressed bytes",
 "An accepted load returns exactly the n bytes stored at the addressed location and changes no device memory; an accepted store or copy makes exactly the n addressed destination bytes equal to the source bytes and leaves every other byte of every allocation unchanged. A pointer or mapping handed to the host designates exactly the addressed byte plus the requested offset.",
 ["inputs","histories"],"every address, offset, length and memory content",
 "Tests compare small buffers after whole kernels; they do not check that unrelated bytes in every allocation stay unchanged for every offset and length.",
 [C+"Memory.cpp"],"offset extraction and byte copy","device memory contents, destination buffer, returned pointer")
p("M03","Allocations get distinct non-null addresses; freed ones become invalid",
 "A successful allocation returns a non-null address whose whole range [address, address+size) becomes accessible, distinct from every other live allocation, with contents equal to the supplied initial data or zero; a request that exceeds the address-space limits fails and changes nothing. Deallocation makes exactly that allocation inaccessible, keeps all others, and the reported total of allocated bytes always equals the sum of live allocation sizes.",
 ["inputs","histories"],"every allocation size, initial content and history of allocate/deallocate operations",
 "Needs an invariant over all histories of allocation and reuse; tests perform only short fixed sequences.",
 [C+"Memory.cpp"],"slot selection, free-slot queue, address = slot shifted by address bits","addresses returned, validity of accesses, total allocated counter",
 [("allocation table","slot to buffer"),("free slot queue","recycled slots"),("total allocated","bytes live")])
p("M04","Atomic operations return the old value and write exactly the specified new value",
 "Each atomic read-modify-write (add, sub, and, or, xor, xchg, inc, dec, signed and unsigned min/max, compare-exchange, 32- and 64-bit) on a valid location returns the previous value and leaves exactly the OpenCL-specified new value there, modifying no other byte; on global memory the read and write happen while holding one lock determined by the location. An atomic on an invalid location modifies nothing.",
 ["inputs","schedules"],"every operation, width, signedness, operand value and address; every interleaving (by lock discipline)",
 "Tests run a few atomics with small operands; wrap-around, signed extremes, and the lock held across the read-modify-write for every address are not sampled.",
 [C+"Memory.cpp",C+"WorkItemBuiltins.cpp",C+"WorkItem.cpp"],"templated atomic handlers guarded by an address-hashed mutex table","returned old value, memory contents")
p("I01","Integer instructions compute the LLVM-specified result in every lane",
 "Integer add, sub, mul, signed/unsigned division and remainder, and, or, xor, shl, lshr and ashr on scalars and vectors of 8, 16, 32 and 64-bit elements yield in each lane the value LLVM specifies for that lane's operands modulo the element width, for all operand values for which LLVM defines a result. Division or remainder by zero and overflowing signed division do not crash the simulator.",
 ["inputs","programs"],"every operand value, element width and vector length",
 "Tests execute a handful of operand values per operator; signed extremes, narrow widths and all lanes are not covered.",
 [C+"WorkItem.cpp",C+"common.cpp"],"per-lane evaluation through sign/zero-extending value accessors","result value of each executed instruction")
p("I02","Conversion instructions produce the LLVM-specified value",
 "trunc, zext, sext, inttoptr, ptrtoint, bitcast, fpext, fptrunc, fptosi, fptoui, sitofp and uitofp produce in each lane the value LLVM specifies, including one-bit integers and booleans produced by comparisons, and correctly rounded results for integer to floating-point conversion.",
 ["inputs","programs"],"every operand value, source/destination width (1, 8, 16, 32, 64 bits; float, double) and lane count",
 "Rounding of 64-bit integers and one-bit vectors depend on exact values; tests use small integers.",
 [C+"WorkItem.cpp",C+"common.cpp"],"cast handlers over typed values","result value of each executed instruction")
p("I03","Comparison and select instructions decide by the specified predicate",
 "icmp and fcmp with every predicate yield true exactly when LLVM's definition of the predicate holds for the operands at their own width (including NaN handling for ordered/unordered predicates), and select yields the operand chosen by its condition, per lane for vector conditions.",
 ["inputs","programs"],"every predicate, operand value (including NaN, infinities, signed zeros), width and lane count",
 "Tests never sweep the predicate/NaN/width combinations.",
 [C+"WorkItem.cpp"],"predicate switch over zero-/sign-extended lane values","result value of each executed instruction")
p("I04","Vector and aggregate element operations select exactly the named element",
 "extractelement, insertelement, shufflevector, extractvalue and insertvalue return exactly the selected element(s), leave all other lanes or members of the result equal to the source operand, and follow the mask for shuffles.",
 ["inputs","programs"],"every index, mask, lane count, element size and aggregate type",
 "Depends on all index/mask/lane-count combinations.",
 [C+"WorkItem.cpp"],"byte copies at element offsets","result value of each executed instruction")
p("I05","Floating-point instructions are correctly rounded at their own precision",
 "fadd, fsub, fmul, fdiv, frem and fneg on single- or double-precision scalars and vectors yield in each lane the IEEE-754 round-to-nearest result at the element precision.",
 ["inputs","programs"],"every operand value and lane count",
 "Tests check a few values; correct rounding is a statement about all operand pairs.",
 [C+"WorkItem.cpp",C+"common.cpp"],"double arithmetic followed by store at element precision","result value of each executed instruction")
p("I06","Memory instructions access exactly the addressed object",
 "load, store and alloca access exactly the number of bytes of the accessed type at exactly the address given by the pointer operand in the operand's address space; getelementptr yields base plus the sum of index times element stride and struct member offsets for signed indices of any width. Allocated private variables occupy distinct, sufficiently large memory.",
 ["inputs","programs"],"every pointer value, type, index value (including negative) and address space",
 "Index signs, widths and type layouts are unbounded.",
 [C+"WorkItem.cpp",C+"common.cpp"],"resolveGEP, getMemory by address space, load/store of value size","memory traffic of executed instructions and result values")
p("I07","Control flow follows the program: branches, switches, phis, calls and returns",
 "After each terminator the next block executed is the successor selected by the condition or case value (default otherwise), all phi nodes of a block take the values for the edge just traversed as read before any of them is updated, and a call/return pair resumes at the instruction after the call with the returned value.",
 ["inputs","programs"],"every control-flow graph, condition and case value and phi dependency (including swaps)",
 "Tests execute few CFG shapes; phi swap and multi-case values are not enumerated.",
 [C+"WorkItem.cpp"],"current/next/previous block tracking, phi temporaries, call stack","sequence of executed blocks and phi values")
p("B01","Integer builtin functions match the OpenCL C specification",
 "abs, abs_diff, add_sat, sub_sat, hadd, rhadd, clz, popcount, clamp, min, max, mad_hi, mad_sat, mul_hi, mul24, mad24, rotate and upsample return in each lane the exact value defined by OpenCL C, evaluated in unbounded integer arithmetic and then reduced, saturated or shifted as specified, for every integer type and vector width.",
 ["inputs"],"every operand value, type (char..ulong) and vector width",
 "Saturation and high-half results go wrong only at extreme operand combinations that the tests do not contain.",
 [C+"WorkItemBuiltins.cpp"],"per-lane builtin handlers dispatched on the mangled argument type","value returned by each builtin")
p("B02","Relational, selection and bit-reinterpreting builtins follow the specification",
 "all, any, bitselect, select, shuffle, shuffle2, as_type, isequal/isgreater/isless/... , isfinite, isinf, isnan, isnormal, isordered, isunordered and signbit return for scalars 1/0 and for vectors -1/0 (or the selected bits) exactly as OpenCL C defines for every operand, including NaNs, infinities and denormals.",
 ["inputs"],"every operand bit pattern, type and vector width",
 "Special values times widths times functions exceed any test set.",
 [C+"WorkItemBuiltins.cpp"],"per-lane builtin handlers","value returned by each builtin")
p("B03","Vector load/store builtins access element offset*n in element units",
 "vload/vstore (and their half-precision and aligned variants) access exactly the n consecutive elements starting at p + offset*n (4*offset for aligned 3-vectors), convert half values exactly on load and with the requested rounding mode on store, and touch no other memory.",
 ["inputs"],"every offset, pointer, vector width, address space and value",
 "Tests use few offsets and values; half rounding has 2^32 inputs per mode.",
 [C+"WorkItemBuiltins.cpp",C+"common.cpp"],"address computation and half conversion helpers","memory traffic and returned value")
p("B04","Work-item query functions report the position in the NDRange",
 "get_global_id, get_local_id, get_group_id, get_global_size, get_local_size, get_enqueued_local_size, get_num_groups, get_global_offset, get_global_linear_id, get_local_linear_id and get_work_dim return the values OpenCL defines for the executing work-item for every dimension argument, including the defined defaults (0 or 1) for dimensions beyond the NDRange's.",
 ["inputs","configurations"],"every NDRange, work-item and dimension argument (including out-of-range ones)",
 "Out-of-range dimensions, offsets and remainder groups are sampled at best.",
 [C+"WorkItemBuiltins.cpp",C+"WorkItem.cpp",C+"WorkGroup.cpp"],"query builtins reading work-item, group and invocation state","value returned by each query")
p("B05","Explicit conversions saturate and round as specified",
 "convert_<type>[_sat][_rte|_rtz|_rtp|_rtn] between integer types returns the value reduced modulo the width or clamped to the destination range, and from floating point to integer rounds in the requested mode and clamps when saturation is requested, in every lane.",
 ["inputs"],"every source value, source/destination type, rounding mode and saturation flag",
 "Boundary values of each type pair are not all tested.",
 [C+"WorkItemBuiltins.cpp"],"convert handlers with parsed rounding/saturation flags","value returned by each conversion")
p("B06","Image accesses address exactly the texel the sampler and coordinates select",
 "Reading or writing an image at integer, unnormalised or normalised coordinates accesses only the texel(s) selected by the OpenCL addressing mode and filter, never memory outside the image, and coordinates outside the image return the border colour or the clamped/wrapped texel as specified.",
 ["inputs"],"every image geometry, format, sampler and coordinate",
 "Coordinates and samplers at boundaries are unbounded.",
 [C+"WorkItemBuiltins.cpp"],"coordinate resolution and texel address computation","memory traffic and returned colour")
p("B07","Async group copies transfer exactly the requested elements and wait completes",
 "async_work_group_copy and the strided variants copy exactly the requested number of elements between the strided locations once per work-group, and after wait_group_events on the returned event all of that data is visible at the destination.",
 ["inputs","schedules"],"every element count, stride, direction and work-item interleaving",
 "Tests cover a few sizes; strides and interleavings are unbounded.",
 [C+"WorkGroup.cpp",C+"WorkItemBuiltins.cpp"],"per-group list of pending copies keyed by event, performed when all items reach the wait","destination memory after the wait")
p("N01","Every work-item of an NDRange runs exactly once with its own ids",
 "For every accepted NDRange, each work-group index in the grid is scheduled exactly once, trailing remainder groups have exactly the leftover size, and inside each group the work-items have pairwise distinct local ids covering the group with global id = group id * enqueued local size + local id + offset.",
 ["configurations","schedules"],"every global size, local size and offset in up to three dimensions (including non-divisible sizes), any number of worker threads",
 "Tests use a few small ranges; group decomposition and remainder handling must hold for all sizes.",
 [C+"KernelInvocation.cpp",C+"WorkGroup.cpp",C+"WorkItem.cpp",C+"common.cpp"],"linear group index decomposition, atomic group counter, per-group construction","set of (group, work-item) ids executed")
p("N02","No work-item passes a barrier before all work-items of the group reach it",
 "A work-item waiting at a barrier resumes only after every work-item of its work-group has reached the same barrier instance (or has finished); if some work-items finish or reach a different barrier, or the same one with different fence flags or events, barrier divergence is reported, and it is not reported otherwise. Plugins are told of each completed barrier once, with its fence flags.",
 ["schedules","programs"],"every scheduling of work-items and every divergence pattern",
 "Tests contain a few divergence patterns only.",
 [C+"WorkGroup.cpp",C+"KernelInvocation.cpp"],"running set / barrier structure of a work-group","resumption order, divergence messages")
p("Q01","Commands run in order after their dependencies and complete exactly once",
 "Each enqueued command executes exactly once, only after every event in its wait list has completed and, in an in-order queue, after all earlier commands have finished; its event ends complete, or in an error state when a dependency failed, in which case the command does not execute.",
 ["histories","schedules"],"every sequence of enqueues, wait lists, user events and finishes",
 "Needs an argument over all histories of queue operations.",
 [C+"Queue.cpp","src/runtime/runtime.cpp","src/runtime/async_queue.cpp"],"Queue::execute/finish/enqueue, asyncEnqueue","order of command effects and event states")
p("Q02","Buffer transfer commands move exactly the requested region",
 "Executing a read, write, copy, fill or rectangular read/write/copy command transfers exactly the bytes of the requested region: row (y,z) of a rectangle comes from source origin + y*row pitch + z*slice pitch and lands at the corresponding destination, a fill repeats the pattern over exactly the requested range, and no other byte changes.",
 ["inputs"],"every offset, pitch, region, pattern and size",
 "Tests use a few small rectangles; pitch/region/origin space is unbounded.",
 [C+"Queue.cpp"],"nested row loops over Memory load/store/copy","device and host memory after the command")
p("R01","The runtime rejects transfer requests outside the memory object",
 "Enqueueing a read, write, copy, fill, map or sub-buffer creation succeeds only if every byte of the requested region lies inside the memory object (in exact arithmetic), the required pointers are non-null and the access flags allow it; otherwise the specified error code is returned and nothing is enqueued. An accepted request enqueues the command with exactly the requested address, size and host pointer.",
 ["inputs"],"every offset, size, origin, region, pitch and flag combination",
 "Overflowing offsets and boundary values are not sampled.",
 ["src/runtime/runtime.cpp"],"argument checks before command construction","return code and enqueued command")
p("R02","Reference-counted objects live exactly as long as they are referenced",
 "Retain adds one reference and release removes one; an object is destroyed exactly when its last reference is released, and each object holds one reference on the context, program or parent object it depends on, released when it is destroyed (an image of a buffer on the buffer, a sub-buffer on its parent, a queued command on its memory objects, kernel and events).",
 ["histories"],"every sequence of create, retain and release calls",
 "Needs an invariant over all call sequences.",
 ["src/runtime/runtime.cpp","src/runtime/async_queue.cpp"],"refCount fields and release paths","object destruction, reference counts reported by info queries")
p("R03","Info queries report the size and never write past the caller's buffer",
 "For every query parameter, the reported size is the size of the value, the value is written only if the supplied buffer is at least that large and then writes exactly that many bytes, and an undersized buffer or unknown parameter yields an invalid-value error without writing the value. For the binaries of a program the buffer holds where each binary is to be stored (NULL: not wanted).",
 ["inputs"],"every object state, parameter name and buffer size",
 "Tests query a few parameters with exact sizes.",
 ["src/runtime/runtime.cpp"],"common size/copy epilogue of each clGet*Info","return code, param_value contents, param_value_size_ret")
p("R04","Kernel launch and argument setting validate their inputs",
 "clSetKernelArg accepts an argument only if its index exists, its size is the parameter's (any size for a local pointer) and a by-value parameter is given a value; a launch is accepted only if every argument is set, the dimensionality is 1 to 3, every given local size is non-zero, the work-group is within the device's limits, divides the range where uniformity is required and matches the kernel's required work-group size where it has one. A refused call changes nothing and runs nothing; an accepted launch runs exactly the given range (a missing or zero global size succeeds and runs no work-item) with the values last set.",
 ["inputs","histories"],"every argument index, size, NDRange and kernel signature",
 "The invalid-argument space is unbounded.",
 ["src/runtime/runtime.cpp",C+"Kernel.cpp"],"argument checks","return codes and the NDRange of the executed launch")
p("P01","The memory checker reports exactly the invalid accesses",
 "With the memory checker active, every access by a kernel (from a work-item or a work-group operation) that is out of bounds (of its allocation or of a static array it indexes), writes to read-only memory, reads write-only memory, or touches a buffer region currently mapped for a conflicting host access is reported, and accesses that violate none of these rules are not reported.",
 ["inputs","histories"],"every access address/size and mapping history",
 "Boundary accesses next to mapped regions and buffer ends are not sampled.",
 ["src/plugins/MemCheck.cpp"],"checks on load/store/atomic notifications","messages logged")
p("P02","The race detector reports a race exactly when two accesses conflict",
 "Two unordered accesses to the same byte by different work-items (same group without an intervening barrier, or different groups) of which at least one is a write, not both atomic and not writes of the same value when that is allowed, are reported as a race; accesses ordered by a barrier, by the same work-item, or both reads or both atomic are not.",
 ["schedules","inputs"],"every pair of accesses, work-item placement and barrier history",
 "Interleavings and group shapes (multi-dimensional, remainder groups) are unbounded.",
 ["src/plugins/RaceDetector.cpp","src/plugins/RaceDetector.h"],"per-byte access records merged at barriers and group completion","messages logged")
p("P03","Instruction statistics count every executed instruction once",
 "The instruction counter's totals equal the number of executed instructions per opcode (and bytes moved per address space for memory instructions), independent of how work-groups are distributed over worker threads.",
 ["schedules","programs"],"every program and distribution of groups to workers",
 "Totals over arbitrary schedules are not checked by tests.",
 ["src/plugins/InstructionCounter.cpp"],"per-worker counters merged under a lock","counts printed at kernel end")
p("P04","The uninitialised-value checker reports uses of undefined data only",
 "A value is reported as uninitialised when and only when some bit that influences a branch, address or stored result derives from memory or values never written.",
 ["programs","inputs"],"every program and data flow",
 "Shadow propagation must hold for all programs.",
 ["src/plugins/Uninitialized.cpp","src/plugins/Uninitialized.h"],"shadow memory and shadow values propagated per instruction","messages logged")
p("T01","Type sizes, alignments and member offsets follow the OpenCL layout",
 "The size, alignment and struct member offsets used for memory and kernel arguments equal the OpenCL ABI: scalars have their natural size, 3-component vectors occupy four elements, members start at the next multiple of their alignment (consecutive when packed), and a struct's size is its end rounded up to its alignment.",
 ["programs"],"every nesting of scalar, vector, array and (packed) struct types",
 "Type nestings are unbounded.",
 [C+"common.cpp"],"recursive layout functions","addresses computed for members and size of copied values")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
