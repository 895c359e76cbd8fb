"""R03: the parameters of every info query and the size of their values (OpenCL specification types; codes from the repository's CL/cl.h)"""
import os, re
def codes(repo):
    d = {}
    for f in ("cl.h", "cl_ext.h"):
        with open(os.path.join(repo, "src/CL", f)) as h:
            for m in re.finditer(r"^#define\s+(CL_\w+)\s+\(?(-?0x[0-9A-Fa-f]+|-?\d+)\)?\s*(?:/\*.*)?$", h.read(), re.M): d[m.group(1)] = int(m.group(2), 0)
    return d
STR, ARR = "string", "array"
def tab(prefix, s):
    """'SIZE: NAME NAME ...' lines"""
    out = {}
    for line in s.strip().splitlines():
        k, v = line.split(":"); k = k.strip(); k = {"str": STR, "arr": ARR}.get(k, int(k) if k.isdigit() else k)
        for n in v.split(): out[n if n.startswith("CL_") else prefix + n] = k
    return out
T = {}
T["clGetPlatformInfo"] = tab("CL_PLATFORM_", """
str: PROFILE VERSION NAME VENDOR EXTENSIONS ICD_SUFFIX_KHR
4: NUMERIC_VERSION
arr: EXTENSIONS_WITH_VERSION
8: HOST_TIMER_RESOLUTION
""")
T["clGetDeviceInfo"] = tab("CL_DEVICE_", """
8: TYPE MAX_WORK_GROUP_SIZE MAX_MEM_ALLOC_SIZE IMAGE2D_MAX_WIDTH IMAGE2D_MAX_HEIGHT IMAGE3D_MAX_WIDTH IMAGE3D_MAX_HEIGHT IMAGE3D_MAX_DEPTH MAX_PARAMETER_SIZE
8: SINGLE_FP_CONFIG DOUBLE_FP_CONFIG HALF_FP_CONFIG GLOBAL_MEM_CACHE_SIZE GLOBAL_MEM_SIZE MAX_CONSTANT_BUFFER_SIZE MAX_GLOBAL_VARIABLE_SIZE GLOBAL_VARIABLE_PREFERRED_TOTAL_SIZE LOCAL_MEM_SIZE PROFILING_TIMER_RESOLUTION
8: EXECUTION_CAPABILITIES QUEUE_ON_HOST_PROPERTIES QUEUE_ON_DEVICE_PROPERTIES PLATFORM IMAGE_MAX_BUFFER_SIZE IMAGE_MAX_ARRAY_SIZE PARENT_DEVICE PARTITION_AFFINITY_DOMAIN PRINTF_BUFFER_SIZE SVM_CAPABILITIES
8: ATOMIC_MEMORY_CAPABILITIES ATOMIC_FENCE_CAPABILITIES PREFERRED_WORK_GROUP_SIZE_MULTIPLE DEVICE_ENQUEUE_CAPABILITIES PARTITION_PROPERTIES PARTITION_TYPE
24: MAX_WORK_ITEM_SIZES
4: VENDOR_ID MAX_COMPUTE_UNITS MAX_WORK_ITEM_DIMENSIONS MAX_CLOCK_FREQUENCY ADDRESS_BITS MAX_READ_IMAGE_ARGS MAX_WRITE_IMAGE_ARGS MAX_READ_WRITE_IMAGE_ARGS IMAGE_SUPPORT MAX_SAMPLERS IMAGE_PITCH_ALIGNMENT IMAGE_BASE_ADDRESS_ALIGNMENT
4: PREFERRED_VECTOR_WIDTH_CHAR PREFERRED_VECTOR_WIDTH_SHORT PREFERRED_VECTOR_WIDTH_INT PREFERRED_VECTOR_WIDTH_LONG PREFERRED_VECTOR_WIDTH_FLOAT PREFERRED_VECTOR_WIDTH_DOUBLE PREFERRED_VECTOR_WIDTH_HALF
4: NATIVE_VECTOR_WIDTH_CHAR NATIVE_VECTOR_WIDTH_SHORT NATIVE_VECTOR_WIDTH_INT NATIVE_VECTOR_WIDTH_LONG NATIVE_VECTOR_WIDTH_FLOAT NATIVE_VECTOR_WIDTH_DOUBLE NATIVE_VECTOR_WIDTH_HALF
4: MAX_PIPE_ARGS PIPE_MAX_ACTIVE_RESERVATIONS PIPE_MAX_PACKET_SIZE MEM_BASE_ADDR_ALIGN MIN_DATA_TYPE_ALIGN_SIZE GLOBAL_MEM_CACHE_TYPE GLOBAL_MEM_CACHELINE_SIZE MAX_CONSTANT_ARGS LOCAL_MEM_TYPE ERROR_CORRECTION_SUPPORT
4: ENDIAN_LITTLE AVAILABLE COMPILER_AVAILABLE QUEUE_ON_DEVICE_PREFERRED_SIZE QUEUE_ON_DEVICE_MAX_SIZE MAX_ON_DEVICE_QUEUES MAX_ON_DEVICE_EVENTS HOST_UNIFIED_MEMORY LINKER_AVAILABLE PARTITION_MAX_SUB_DEVICES REFERENCE_COUNT
4: PREFERRED_INTEROP_USER_SYNC PREFERRED_PLATFORM_ATOMIC_ALIGNMENT PREFERRED_GLOBAL_ATOMIC_ALIGNMENT PREFERRED_LOCAL_ATOMIC_ALIGNMENT MAX_NUM_SUB_GROUPS SUB_GROUP_INDEPENDENT_FORWARD_PROGRESS NUMERIC_VERSION
4: NON_UNIFORM_WORK_GROUP_SUPPORT WORK_GROUP_COLLECTIVE_FUNCTIONS_SUPPORT GENERIC_ADDRESS_SPACE_SUPPORT PIPE_SUPPORT
str: NAME VENDOR CL_DRIVER_VERSION PROFILE VERSION EXTENSIONS OPENCL_C_VERSION BUILT_IN_KERNELS SPIR_VERSIONS IL_VERSION LATEST_CONFORMANCE_VERSION_PASSED
arr: EXTENSIONS_WITH_VERSION ILS_WITH_VERSION BUILT_IN_KERNELS_WITH_VERSION OPENCL_C_ALL_VERSIONS OPENCL_C_FEATURES
""")
T["clGetContextInfo"] = tab("CL_CONTEXT_", "4: REFERENCE_COUNT NUM_DEVICES\n8: DEVICES\narr: PROPERTIES")
T["clGetCommandQueueInfo"] = tab("CL_QUEUE_", "8: CONTEXT DEVICE PROPERTIES DEVICE_DEFAULT\n4: REFERENCE_COUNT\narr: PROPERTIES_ARRAY")
T["clGetMemObjectInfo"] = tab("CL_MEM_", "4: TYPE MAP_COUNT REFERENCE_COUNT USES_SVM_POINTER\n8: FLAGS SIZE HOST_PTR CONTEXT ASSOCIATED_MEMOBJECT OFFSET\narr: PROPERTIES")
T["clGetImageInfo"] = tab("CL_IMAGE_", "8: FORMAT ELEMENT_SIZE ROW_PITCH SLICE_PITCH WIDTH HEIGHT DEPTH ARRAY_SIZE BUFFER\n4: NUM_MIP_LEVELS NUM_SAMPLES")
T["clGetSamplerInfo"] = tab("CL_SAMPLER_", "4: REFERENCE_COUNT NORMALIZED_COORDS ADDRESSING_MODE FILTER_MODE\n8: CONTEXT\narr: PROPERTIES")
T["clGetProgramInfo"] = tab("CL_PROGRAM_", "4: REFERENCE_COUNT NUM_DEVICES SCOPE_GLOBAL_CTORS_PRESENT SCOPE_GLOBAL_DTORS_PRESENT\n8: CONTEXT DEVICES BINARY_SIZES BINARIES NUM_KERNELS\nstr: SOURCE KERNEL_NAMES\narr: IL")
T["clGetProgramBuildInfo"] = tab("CL_PROGRAM_", "4: CL_PROGRAM_BUILD_STATUS BINARY_TYPE\nstr: BUILD_OPTIONS BUILD_LOG\n8: BUILD_GLOBAL_VARIABLE_TOTAL_SIZE")
T["clGetKernelInfo"] = tab("CL_KERNEL_", "str: FUNCTION_NAME ATTRIBUTES\n4: NUM_ARGS REFERENCE_COUNT\n8: CONTEXT PROGRAM")
T["clGetKernelArgInfo"] = tab("CL_KERNEL_ARG_", "4: ADDRESS_QUALIFIER ACCESS_QUALIFIER\n8: TYPE_QUALIFIER\nstr: TYPE_NAME NAME")
T["clGetKernelWorkGroupInfo"] = tab("CL_KERNEL_", "8: WORK_GROUP_SIZE LOCAL_MEM_SIZE PREFERRED_WORK_GROUP_SIZE_MULTIPLE PRIVATE_MEM_SIZE\n24: COMPILE_WORK_GROUP_SIZE")
T["clGetEventInfo"] = tab("CL_EVENT_", "8: COMMAND_QUEUE CONTEXT\n4: COMMAND_TYPE COMMAND_EXECUTION_STATUS REFERENCE_COUNT")
T["clGetEventProfilingInfo"] = tab("CL_PROFILING_", "8: COMMAND_QUEUED COMMAND_SUBMIT COMMAND_START COMMAND_END")
# parameters that are refused although they are known (with the error)
REFUSED = {("clGetCommandQueueInfo", "CL_QUEUE_SIZE"): {-36}, ("clGetKernelWorkGroupInfo", "CL_KERNEL_GLOBAL_WORK_SIZE"): {-30}}
