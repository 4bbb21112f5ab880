// The part of the CUDA runtime's interface that Boost.Fiber uses; implemented by scen/gpu.cpp.
#pragma once
typedef struct CUstream_st* cudaStream_t;
enum cudaError { cudaSuccess = 0, cudaErrorInvalidResourceHandle = 400, cudaErrorNotSupported = 801, cudaErrorLaunchFailure = 719, cudaErrorUnknown = 999 };
typedef enum cudaError cudaError_t;
typedef void (*cudaStreamCallback_t)(cudaStream_t, cudaError_t, void*);
extern "C" cudaError_t cudaStreamAddCallback(cudaStream_t, cudaStreamCallback_t, void*, unsigned int);
