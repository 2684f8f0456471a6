#pragma once
#include "cuda_builtins.h"
// model of the two groups used by cuda_step: rank and number of the threads of a block and of the grid
namespace cooperative_groups {
struct thread_block {
	static unsigned thread_rank() { return (threadIdx.z * blockDim.y + threadIdx.y) * blockDim.x + threadIdx.x; }
	static unsigned num_threads() { return blockDim.x * blockDim.y * blockDim.z; }
};
struct grid_group {
	static unsigned long long thread_rank() { return ((unsigned long long)(blockIdx.z * gridDim.y + blockIdx.y) * gridDim.x + blockIdx.x) * thread_block::num_threads() + thread_block::thread_rank(); }
	static unsigned long long num_threads() { return (unsigned long long)gridDim.x * gridDim.y * gridDim.z * thread_block::num_threads(); }
};
}
