#pragma once
// The CUDA built-ins noarr uses, for a compiler without CUDA: the coordinates of one thread, set by the probe.
#define __device__
#define __host__
#define __global__
using uint = unsigned;
struct dim3 {
	uint x = 1, y = 1, z = 1;
};
struct uint3 {
	uint x = 0, y = 0, z = 0;
};
static uint3 threadIdx, blockIdx;
static dim3 blockDim, gridDim;
