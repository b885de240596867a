#pragma once
#include "core.h"
#include <torch/torch.h>
namespace sim
{
void torch_seams_init();   // install simulated tensor storage allocator and the kernel-call hook
void enable_kernel_hook(); // per thread: make every dense kernel called from library code an event
// run a piece of harness code without producing events
struct Quiet
{
	bool was;
	Quiet();
	~Quiet();
};
struct KernelHook // RAII enabling of the kernel hook on this thread
{
	KernelHook();
	~KernelHook();
};
void autograd_without_threads(); // the engine would start a thread for each kind of device; graphs on the CPU don't use them
extern u64 g_kernel_hash;
// process-wide default floating point type; a workload under somebody else's control does not get its way
void default_type(at::ScalarType);
void lock_default_type(bool);
} // namespace sim
