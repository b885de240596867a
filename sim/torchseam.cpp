#include "torchseam.h"
#include <ATen/core/dispatch/Dispatcher.h>
#include <c10/core/CPUAllocator.h>
#include <c10/core/impl/LocalDispatchKeySet.h>
#include <c10/core/impl/DeviceGuardImplInterface.h>
#include <c10/util/Logging.h>
#include <torch/csrc/autograd/engine.h>
#include <torch/library.h>
#include <cstdlib>
#include <cstring>

namespace sim
{
bool fault_tick(char kind);
void fill_memory(void *, size_t, int);
extern int g_fill_tensor;
extern const char *g_abort_reason;
static std::atomic<long> g_live{0};
long live_tensors() { return in_task() ? 0 : (long)g_live; }
u64 g_kernel_hash = 0;

static void injected(const char *what)
{
	throw c10::Error(std::string("[simulated fault] ") + what, std::string(), nullptr);
}

struct SimAlloc final : public at::Allocator
{
	static void del(void *p)
	{
		if (!p) return;
		g_live.fetch_sub(1);
		char *base = (char *)p - 64;
		for (const unsigned char *c = (unsigned char *)p + *(size_t *)base, *e = c + 32; c < e; ++c)
			if (*c != 0xC5)
			{
				g_abort_reason = "memory written beyond the end of the storage of a tensor";
				abort();
			}
		if (g_fill_tensor >= 0) memset(p, 0xDD, *(size_t *)base);
		free(base);
	}
	at::DataPtr allocate(size_t n) const override
	{
		if (fault_tick('t')) injected("not enough memory for a tensor");
		char *base = nullptr;
		if (posix_memalign((void **)&base, 64, n + 96)) injected("real out of memory");
		*(size_t *)base = n;
		g_live.fetch_add(1);
		memset(base + 64 + n, 0xC5, 32);
		fill_memory(base + 64, n, g_fill_tensor);
		return {base + 64, base + 64, &del, at::Device(at::DeviceType::CPU)};
	}
	at::DeleterFnPtr raw_deleter() const override { return &del; }
};
static SimAlloc g_alloc;

static constexpr auto KEY = c10::DispatchKey::TESTING_ONLY_GenericMode;
static thread_local bool t_quiet = false;

static void hook(const c10::OperatorHandle &op, torch::jit::Stack *stack)
{
	c10::impl::ExcludeDispatchKeyGuard no(KEY);
	if (!t_quiet)
	{
		if (fault_tick('o')) injected("a dense kernel failed");
		sched_point(0x0F);
	}
	op.callBoxed(stack);
}
Quiet::Quiet() : was(t_quiet) { t_quiet = true; }
Quiet::~Quiet() { t_quiet = was; }
KernelHook::KernelHook() { c10::impl::tls_set_dispatch_key_included(KEY, true); }
KernelHook::~KernelHook() { c10::impl::tls_set_dispatch_key_included(KEY, false); }

static bool g_ddt_locked = false;
void default_type(at::ScalarType t)
{
	if (!g_ddt_locked) torch::set_default_dtype(c10::scalarTypeToTypeMeta(t));
}
void lock_default_type(bool b) { g_ddt_locked = b; }
void autograd_without_threads()
{
	static const bool done = [] {
		std::vector<const c10::impl::DeviceGuardImplInterface *> was;
		for (auto &e : c10::impl::device_guard_impl_registry) was.push_back(e.exchange(nullptr));
		torch::autograd::Engine::get_default_engine().initialize_device_threads_pool();
		size_t k = 0;
		for (auto &e : c10::impl::device_guard_impl_registry) e.store(was[k++]);
		return true;
	}();
	(void)done;
}
void torch_seams_init()
{
	c10::SetStackTraceFetcher([]() { return std::string(); });
	torch::set_num_threads(1);
	c10::SetCPUAllocator(&g_alloc, 200);
	static auto m = torch::Library(torch::Library::IMPL, "_", KEY, __FILE__, __LINE__);
	m.fallback(torch::CppFunction::makeFromBoxedFunction<&hook>());
}
} // namespace sim
