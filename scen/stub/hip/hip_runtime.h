// The part of the HIP runtime's interface that Boost.Fiber uses; implemented by scen/gpu.cpp.
#pragma once
typedef struct ihipStream_t* hipStream_t;
enum hipError_t { hipSuccess = 0, hipErrorInvalidHandle = 400, hipErrorNotSupported = 801, hipErrorLaunchFailure = 719, hipErrorUnknown = 999 };
typedef void (*hipStreamCallback_t)(hipStream_t, hipError_t, void*);
extern "C" hipError_t hipStreamAddCallback(hipStream_t, hipStreamCallback_t, void*, unsigned int);
