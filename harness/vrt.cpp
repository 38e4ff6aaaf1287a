#include "vrt.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace
{
using std::uint64_t;

// ---------------------------------------------------------------- raw syscalls
long raw6(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 asm("r10") = d;
	register long r8 asm("r8") = e;
	register long r9 asm("r9") = f;
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
				 : "rcx", "r11", "memory");
	return r;
}
void rawWait(std::atomic<int> *a, int v)
{
	raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
void rawWake(std::atomic<int> *a)
{
	raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- rng
struct Rng
{
	uint64_t s;
	uint64_t next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n)
	{
		return n ? next() % n : 0;
	}
};

// ---------------------------------------------------------------- arena (never reuses memory)
constexpr size_t ARENA = size_t(512) << 20;
char *g_arena = nullptr;
unsigned char *g_shadow = nullptr; // one byte per 16: 0 none, 1 live, 2 freed
size_t g_used = 0;

// ---------------------------------------------------------------- threads
enum class W
{
	RUN, // runnable
	MUTEX,
	RD,
	WR,
	COND,
	FUTEX,
	SLEEP,
	JOIN,
	PRED,
	DRAIN,
	SEM,
	ONCE,
	STALL,
	DONE
};

struct Thread
{
	int id = 0; // public id
	int idx = 0;
	std::atomic<int> baton{ 0 };
	W w = W::RUN;
	void *obj = nullptr;
	int64_t deadline = -1; // ns; -1 none
	bool timedOut = false;
	bool woken = false;
	const std::function<bool()> *pred = nullptr;
	Thread *joinTarget = nullptr;
	bool detached = false;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
	void *ret = nullptr;
	int64_t prio = 0;
	pthread_t real{};
	int untracked = 0;
	uint64_t futexBits = 0;
	uint64_t stallEnd = 0; // number of points at which a stall ends anyway
	struct Clock *vc = nullptr;
	std::string *failCreate = nullptr;
};

bool g_on = false;
bool g_draining = false;
vrt::Config g_cfg;
Rng g_rng{ 1 }, g_rd{ 1 };
std::vector<Thread *> *g_threads = nullptr;
thread_local Thread *t_self = nullptr;
int g_nextEngineId = 100;
int g_nextClientId = -1;
int64_t g_now = 0; // ns
uint64_t g_points = 0, g_switches = 0, g_hash = 1469598103934665603ull;
uint64_t g_lastSay = 0, g_circles = 0;  // when the last event was written; how often threads were found running in circles
constexpr uint64_t CIRCLES = 10000;
std::vector<uint64_t> *g_pctChange = nullptr;
int64_t g_lowPrio = -1;
uint64_t g_tickCount = 0;

char *g_buf = nullptr;
size_t g_cap = 0;
volatile uint64_t *g_len = nullptr;

struct Mtx
{
	Thread *owner = nullptr;
	int count = 0;
};
struct Rw
{
	Thread *writer = nullptr;
	std::vector<Thread *> readers;
};
struct Sem
{
	unsigned v = 0;
};
std::map<void *, Mtx> *g_mtx = nullptr;
std::map<void *, Rw> *g_rw = nullptr;
std::map<void *, Sem> *g_sem = nullptr;

void checkAccess(const volatile void *p);

// ---------------------------------------------------------------- happens before
// Conflicting accesses not ordered by synchronisation are no verdict, only a hint: where later runs of the
// same scenario stop a thread (Config::hot). Approximations are harmless.
constexpr int CLK = 64;
struct Clock
{
	uint32_t c[CLK] = {};
	void join(const Clock &o)
	{
		for (int i = 0; i < CLK; ++i)
			if (o.c[i] > c[i])
				c[i] = o.c[i];
	}
};
struct SyncClocks
{
	Clock w, r; // released by writers and readers
};
struct Cell
{
	uintptr_t addr; // of the 8 byte granule
	uint32_t wpc, wclk;
	uint8_t wtid, wlo, whi, nr;
	struct
	{
		uint32_t pc, clk;
		uint8_t tid, lo, hi;
	} rd[3];
};
constexpr size_t CELLS = size_t(1) << 18;
Cell *g_cells = nullptr;
std::map<const volatile void *, SyncClocks> *g_sync = nullptr;
std::vector<uint32_t> *g_racy = nullptr;
uintptr_t g_base = 0; // where the instrumented code is loaded

bool clocked()
{
	return g_cells && t_self && t_self->idx < CLK;
}
Clock &myClock()
{
	if (!t_self->vc)
	{
		t_self->vc = new Clock();
		t_self->vc->c[t_self->idx] = 1;
	}
	return *t_self->vc;
}
void acquire(const volatile void *o, bool readers = true)
{
	if (!clocked())
		return;
	auto it = g_sync->find(o);
	if (it == g_sync->end())
		return;
	myClock().join(it->second.w);
	if (readers)
		myClock().join(it->second.r);
}
void release(const volatile void *o, bool reader = false)
{
	if (!clocked())
		return;
	auto &s = (*g_sync)[o];
	(reader ? s.r : s.w).join(myClock());
	++myClock().c[t_self->idx];
}
void racy(uint32_t pc)
{
	for (uint32_t x : *g_racy)
		if (x == pc)
			return;
	if (g_racy->size() < 40)
		g_racy->push_back(pc);
}
void access(const volatile void *p, size_t n, bool write, uintptr_t ra)
{
	if (!clocked())
		return;
	const uint32_t pc = uint32_t(ra - g_base);
	Clock &me = myClock();
	const uint8_t tid = uint8_t(t_self->idx);
	uintptr_t a = uintptr_t(p), end = a + n;
	if (n > 64)
		end = a + 64;
	while (a < end)
	{
		const uintptr_t g = a & ~uintptr_t(7);
		const uint8_t lo = uint8_t(a - g), hi = uint8_t(end - g < 8 ? end - g : 8);
		size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
		Cell *c = nullptr;
		for (int i = 0; i < 8; ++i)
		{
			c = &g_cells[(h + i) & (CELLS - 1)];
			if (c->addr == g || c->addr == 0)
				break;
		}
		if (c->addr != g)
		{
			memset((void *)c, 0, sizeof *c);
			c->addr = g;
		}
		if (c->wclk && c->wtid != tid && c->wclk > me.c[c->wtid] && lo < c->whi && c->wlo < hi)
		{
			racy(pc);
			racy(c->wpc);
		}
		if (write)
		{
			for (int i = 0; i < c->nr; ++i)
				if (c->rd[i].tid != tid && c->rd[i].clk > me.c[c->rd[i].tid] && lo < c->rd[i].hi && c->rd[i].lo < hi)
				{
					racy(pc);
					racy(c->rd[i].pc);
				}
			c->nr = 0;
			c->wpc = pc;
			c->wclk = me.c[tid];
			c->wtid = tid;
			c->wlo = lo;
			c->whi = hi;
		}
		else
		{
			int i = 0;
			while (i < c->nr && c->rd[i].tid != tid)
				++i;
			if (i == 3)
				i = int(g % 3);
			else if (i == c->nr)
				++c->nr;
			c->rd[i].pc = pc;
			c->rd[i].clk = me.c[tid];
			c->rd[i].tid = tid;
			c->rd[i].lo = lo;
			c->rd[i].hi = hi;
		}
		a = g + 8;
	}
}

template <typename F>
F real(const char *name)
{
	return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name, type)                                  \
	static type r_##name = nullptr;                       \
	if (!r_##name)                                        \
	r_##name = real<type>(#name)

bool managed()
{
	return g_on && t_self;
}

bool enabled(Thread *t)
{
	switch (t->w)
	{
	case W::RUN: return true;
	case W::MUTEX:
		return (*g_mtx)[t->obj].owner == nullptr || (t->deadline >= 0 && g_now >= t->deadline);
	case W::RD: return (*g_rw)[t->obj].writer == nullptr || (t->deadline >= 0 && g_now >= t->deadline);
	case W::WR:
	{
		Rw &r = (*g_rw)[t->obj];
		return (r.writer == nullptr && r.readers.empty()) || (t->deadline >= 0 && g_now >= t->deadline);
	}
	case W::COND: return t->woken || (t->deadline >= 0 && g_now >= t->deadline);
	case W::FUTEX: return t->woken || (t->deadline >= 0 && g_now >= t->deadline);
	case W::SEM: return (*g_sem)[t->obj].v > 0 || (t->deadline >= 0 && g_now >= t->deadline);
	case W::SLEEP: return g_now >= t->deadline;
	case W::JOIN: return t->joinTarget->w == W::DONE;
	case W::PRED: return (*t->pred)();
	case W::ONCE: return t->woken;
	case W::DRAIN: return false;
	case W::STALL: return g_points >= t->stallEnd;
	case W::DONE: return false;
	}
	return false;
}

void say(const std::string &s)
{
	if (!g_buf)
		return;
	uint64_t l = *g_len;
	if (l + s.size() + 2 > g_cap)
	{
		*g_len = l;
		_exit(77); // trace buffer full
	}
	memcpy(g_buf + l, s.data(), s.size());
	g_buf[l + s.size()] = '\n';
	*g_len = l + s.size() + 1;
	g_lastSay = g_points;
}

void tickTo(int64_t t, bool forced)
{
	if (t > g_now)
	{
		g_now = t;
		++g_tickCount;
		char b[128];
		snprintf(b, sizeof b, "{\"e\":\"tick\",\"now\":%lld,\"forced\":%d}", (long long)(g_now / 1000000), forced ? 1 : 0);
		say(b);
		if (g_now / 1000000 > g_cfg.maxTimeMs)
			vrt::die("{\"e\":\"hang\",\"why\":\"virtual time limit\"}");
	}
}

std::string where()
{
	std::string s;
	for (Thread *t : *g_threads)
	{
		if (t->w == W::DONE)
			continue;
		static const char *names[] = { "run", "mutex", "rdlock", "wrlock", "cond", "futex", "sleep", "join", "pred", "drain", "sem", "once", "stall", "done" };
		if (!s.empty())
			s += " ";
		s += std::to_string(t->id) + ":" + names[(int)t->w];
	}
	return s;
}

// Choose the next thread to run. Never returns nullptr (exits the process on deadlock).
Thread *choose(Thread *cur, bool curYield)
{
	static std::vector<Thread *> en;
	for (;;)
	{
		en.clear();
		for (Thread *t : *g_threads)
			if (enabled(t))
				en.push_back(t);
		if (!en.empty())
			break;
		// quiescent, but for stalled threads
		for (Thread *t : *g_threads)
			if (t->w == W::STALL)
				en.push_back(t);
		if (!en.empty())
		{
			Thread *t = en[g_rng.below(en.size())];
			t->stallEnd = 0;
			en.assign(1, t);
			break;
		}
		// let time pass
		int64_t best = -1;
		for (Thread *t : *g_threads)
			if (t->w != W::DONE && t->deadline >= 0 && t->deadline > g_now && (best < 0 || t->deadline < best))
				best = t->deadline;
		// somebody drains?
		Thread *drainer = nullptr;
		for (Thread *t : *g_threads)
			if (t->w == W::DRAIN)
				drainer = t;
		if (best >= 0)
		{
			tickTo(best, false);
			continue;
		}
		if (drainer)
		{
			drainer->w = W::RUN;
			continue;
		}
		vrt::die("{\"e\":\"deadlock\",\"why\":\"" + where() + "\"}");
	}
	// Threads that only run in circles wait for something: stalled threads go on, or time passes.
	bool circles = g_points - g_lastSay > CIRCLES;
	if (circles)
	{
		g_lastSay = g_points;
		g_circles += g_circles < 60;
		for (Thread *t : *g_threads)
			if (t->w == W::STALL)
			{
				t->stallEnd = 0;
				return t;
			}
	}
	// occasionally let a sleeping/waiting thread's timeout come early relative to the running ones
	if (circles || (g_cfg.forcePct && g_rng.below(10000) < g_cfg.forcePct))
	{
		int64_t best = -1;
		for (Thread *t : *g_threads)
			if (t->w != W::DONE && t->deadline > g_now && (best < 0 || t->deadline < best))
				best = t->deadline;
		if (best >= 0)
		{
			tickTo(best, true);
			en.clear();
			for (Thread *t : *g_threads)
				if (enabled(t))
					en.push_back(t);
		}
	}
	Thread *pick = nullptr;
	if (g_cfg.policy == 1)
	{
		if (cur && curYield)
			cur->prio = --g_lowPrio;
		if (cur && g_pctChange)
			for (uint64_t c : *g_pctChange)
				if (c == g_points)
					cur->prio = --g_lowPrio;
		for (Thread *t : en)
			if (!pick || t->prio > pick->prio)
				pick = t;
		// fairness safety net
		if (g_rng.below(200) == 0)
			pick = en[g_rng.below(en.size())];
	}
	else
	{
		bool curIn = false;
		for (Thread *t : en)
			curIn |= t == cur;
		if (curIn && !curYield && g_rng.below(100) >= g_cfg.switchPct)
			pick = cur;
		else if (curIn && curYield && en.size() > 1)
		{
			do
				pick = en[g_rng.below(en.size())];
			while (pick == cur);
		}
		else
			pick = en[g_rng.below(en.size())];
	}
	if (en.size() > 1)
	{
		g_hash = (g_hash ^ uint64_t(pick->idx + 1)) * 1099511628211ull;
	}
	return pick;
}

void handTo(Thread *next)
{
	Thread *me = t_self;
	if (next == me)
		return;
	++g_switches;
	next->baton.store(1);
	rawWake(&next->baton);
	if (me->w == W::DONE)
		return;
	while (me->baton.load() == 0)
		rawWait(&me->baton, 0);
	me->baton.store(0);
}

void countPoint()
{
	if (++g_points > g_cfg.maxPoints + g_circles * CIRCLES)
		vrt::die("{\"e\":\"hang\",\"why\":\"step limit: " + where() + "\"}");
}

// the calling thread does not run until all others are blocked (or made many steps)
void stall()
{
	Thread *me = t_self;
	me->w = W::STALL;
	me->stallEnd = g_points + 20000;
	handTo(choose(nullptr, false));
	me->w = W::RUN;
}

// scheduling point of a runnable thread
void pt(bool yield = false)
{
	if (!managed() || t_self->untracked)
		return;
	countPoint();
	Thread *me = t_self;
	if (g_cfg.stallPt && g_rng.below(10000) < g_cfg.stallPt)
		stall();
	else
		handTo(choose(me, yield));
}

// block the calling thread in state w until enabled() says so
void block(W w, void *obj, int64_t deadline)
{
	Thread *me = t_self;
	countPoint();
	me->w = w;
	me->obj = obj;
	me->deadline = deadline;
	me->woken = false;
	Thread *n = choose(nullptr, false);
	handTo(n);
	// we are enabled now
	me->w = W::RUN;
	me->deadline = -1;
}

int64_t toNs(const timespec *ts)
{
	return int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec;
}
constexpr int64_t EPOCH_RT = 1700000000ll * 1000000000;
constexpr int64_t EPOCH_MONO = 5000ll * 1000000000;
int64_t g_clockSkew = 0;
int64_t absToVirt(clockid_t c, const timespec *ts)
{
	return toNs(ts) - (c == CLOCK_REALTIME ? EPOCH_RT : EPOCH_MONO) - g_clockSkew;
}

void *trampoline(void *p)
{
	Thread *me = static_cast<Thread *>(p);
	t_self = me;
	while (me->baton.load() == 0)
		rawWait(&me->baton, 0);
	me->baton.store(0);
	me->ret = me->fn(me->arg);
	countPoint();
	me->w = W::DONE;
	Thread *n = choose(nullptr, false);
	handTo(n);
	for (;;)
		pause();
	return nullptr;
}
} // namespace

// =================================================================== public
namespace vrt
{
void setBuffer(char *buf, size_t cap, volatile uint64_t *len)
{
	g_buf = buf;
	g_cap = cap;
	g_len = len;
}
void start(const Config &cfg)
{
	g_cfg = cfg;
	auto mix = [](uint64_t x, uint64_t salt)
	{
		Rng r{ x * 0xD1B54A32D192ED03ull + salt };
		uint64_t a = r.next();
		return a ^ (r.next() << 17) ^ (x << 48);
	};
	g_rng.s = mix(cfg.seed, 12345);
	g_rd.s = mix(cfg.rdSeed, 777);
	g_clockSkew = int64_t(Rng{ mix(cfg.rdSeed, 5) }.below(1000000000ull)) * 1000;
	g_threads = new std::vector<Thread *>();
	g_threads->reserve(4096);
	g_mtx = new std::map<void *, Mtx>();
	g_rw = new std::map<void *, Rw>();
	g_sem = new std::map<void *, Sem>();
	if (cfg.policy == 1)
	{
		g_pctChange = new std::vector<uint64_t>();
		for (unsigned i = 0; i < cfg.pctDepth; ++i)
			g_pctChange->push_back(1 + g_rng.below(cfg.pctLen));
	}
	Thread *t = new Thread();
	t->id = 0;
	t->prio = int64_t(g_rng.below(1000000));
	g_threads->push_back(t);
	t_self = t;
	g_arena = static_cast<char *>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	g_shadow = static_cast<unsigned char *>(mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (cfg.race || !cfg.hot.empty())
		g_base = uintptr_t(cfg.base);
	if (cfg.race)
	{
		g_sync = new std::map<const volatile void *, SyncClocks>();
		g_racy = new std::vector<uint32_t>();
		g_cells = static_cast<Cell *>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	}
	g_on = true;
}
std::string racyPlaces()
{
	std::string s;
	if (g_racy)
		for (uint32_t x : *g_racy)
			s += (s.empty() ? "" : ":") + std::to_string(x);
	return s;
}
void nextThreadIs(int id)
{
	g_nextClientId = id;
}
int self()
{
	return t_self ? t_self->id : -1;
}
int64_t nowMs()
{
	return g_now / 1000000;
}
void emit(const std::string &s)
{
	say(s);
}
void die(const std::string &s)
{
	say(s);
	_exit(0);
}
void sleepMs(int64_t ms)
{
	block(W::SLEEP, nullptr, g_now + ms * 1000000);
}
void blockUntil(const std::function<bool()> &pred)
{
	if (pred())
		return;
	t_self->pred = &pred;
	block(W::PRED, nullptr, -1);
}
void drain()
{
	if (unfinished() == 0)
		return;
	block(W::DRAIN, nullptr, -1);
}
void failThreads(const std::string &event)
{
	delete t_self->failCreate;
	t_self->failCreate = event.empty() ? nullptr : new std::string(event);
}
void point()
{
	pt();
}
void callbackPoint()
{
	if (managed() && !t_self->untracked && g_cfg.stallPct && g_rng.below(100) < g_cfg.stallPct)
	{
		countPoint();
		stall();
	}
	else
		pt();
}
int unfinished()
{
	int n = 0;
	for (Thread *t : *g_threads)
		n += t != t_self && t->w != W::DONE;
	return n;
}
void untracked(bool on)
{
	t_self->untracked += on ? 1 : -1;
}
uint64_t points()
{
	return g_points;
}
uint64_t switches()
{
	return g_switches;
}
uint64_t schedHash()
{
	return g_hash;
}
} // namespace vrt

// =================================================================== memory
namespace
{
void *arenaAlloc(size_t n, size_t align)
{
	if (align < 16)
		align = 16;
	size_t p = (g_used + 16 + align - 1) / align * align;
	size_t sz = (n + 15) / 16 * 16;
	if (sz == 0)
		sz = 16;
	if (p + sz > ARENA)
	{
		say("{\"e\":\"hang\",\"why\":\"memory limit\"}");
		_exit(0);
	}
	*reinterpret_cast<size_t *>(g_arena + p - 16) = sz;
	memset(g_shadow + p / 16, 1, sz / 16);
	g_used = p + sz;
	return g_arena + p;
}
bool inArena(const volatile void *p)
{
	return g_arena && (const char *)p >= g_arena && (const char *)p < g_arena + ARENA;
}
void arenaFree(void *p)
{
	size_t off = size_t((char *)p - g_arena);
	if (g_shadow[off / 16] == 2)
		vrt::die("{\"e\":\"uaf\",\"why\":\"double free\"}");
	size_t sz = *reinterpret_cast<size_t *>(g_arena + off - 16);
	memset(g_shadow + off / 16, 2, sz / 16);
	memset(p, 0xDD, sz);
}
void checkAccess(const volatile void *p)
{
	if (inArena(p) && g_shadow[size_t((const char *)p - g_arena) / 16] == 2)
		vrt::die("{\"e\":\"uaf\",\"why\":\"access to freed memory\"}");
}
void mem(const volatile void *p, size_t n, bool write, void *ra)
{
	if (!g_on || !t_self || n == 0)
		return;
	checkAccess(p);
	if (!t_self->untracked)
	{
		if (!g_cfg.hot.empty())
		{
			const uint32_t pc = uint32_t(uintptr_t(ra) - g_base);
			for (uint32_t h : g_cfg.hot)
				if (h == pc && g_rng.below(2) == 0)
				{
					countPoint();
					stall();
					checkAccess(p);
					break;
				}
		}
		if (g_cfg.memPct && g_rng.below(1000) < g_cfg.memPct)
		{
			pt();
			checkAccess(p);
		}
		if (g_cells)
			access(p, n, write, uintptr_t(ra));
	}
	if (n > 1)
		checkAccess((const volatile char *)p + n - 1);
}
void *doNew(size_t n, size_t a)
{
	if (g_on)
		return arenaAlloc(n, a);
	void *p = a > 16 ? aligned_alloc(a, (n + a - 1) / a * a) : malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void doDel(void *p)
{
	if (!p)
		return;
	if (inArena(p))
		arenaFree(p);
	else if (!g_on)
		free(p);
}
} // namespace
void *operator new(size_t n) { return doNew(n, 16); }
void *operator new[](size_t n) { return doNew(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return doNew(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return doNew(n, size_t(a)); }
void operator delete(void *p) noexcept { doDel(p); }
void operator delete[](void *p) noexcept { doDel(p); }
void operator delete(void *p, size_t) noexcept { doDel(p); }
void operator delete[](void *p, size_t) noexcept { doDel(p); }
void operator delete(void *p, std::align_val_t) noexcept { doDel(p); }
void operator delete[](void *p, std::align_val_t) noexcept { doDel(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { doDel(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { doDel(p); }

// =================================================================== interposed functions
extern "C"
{
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	using F = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	REAL(pthread_create, F);
	if (!managed())
		return r_pthread_create(th, attr, fn, arg);
	if (t_self->failCreate)
	{
		pt();
		vrt::emit(*t_self->failCreate);
		return EAGAIN;
	}
	Thread *t = new Thread();
	t->fn = fn;
	t->arg = arg;
	t->prio = int64_t(g_rng.below(1000000));
	if (g_nextClientId >= 0)
	{
		t->id = g_nextClientId;
		g_nextClientId = -1;
	}
	else
		t->id = g_nextEngineId++;
	t->idx = int(g_threads->size());
	if (g_threads->size() >= 4000)
		vrt::die("{\"e\":\"hang\",\"why\":\"too many threads\"}");
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 256 * 1024);
	int r = r_pthread_create(&t->real, &a, trampoline, t);
	if (r)
		return r;
	*th = t->real;
	g_threads->push_back(t);
	if (clocked() && t->idx < CLK)
	{
		t->vc = new Clock(myClock());
		t->vc->c[t->idx] = 1;
		++myClock().c[t_self->idx];
	}
	pt();
	return 0;
}

static Thread *byReal(pthread_t th)
{
	for (Thread *t : *g_threads)
		if (t != (*g_threads)[0] && pthread_equal(t->real, th))
			return t;
	return nullptr;
}

int pthread_join(pthread_t th, void **ret)
{
	using F = int (*)(pthread_t, void **);
	REAL(pthread_join, F);
	if (!managed())
		return r_pthread_join(th, ret);
	Thread *t = byReal(th);
	if (!t)
		return ESRCH;
	if (t == t_self)
		return EDEADLK;
	pt();
	if (t->w != W::DONE)
	{
		t_self->joinTarget = t;
		block(W::JOIN, nullptr, -1);
	}
	if (clocked() && t->vc)
		myClock().join(*t->vc);
	if (ret)
		*ret = t->ret;
	return 0;
}
int pthread_detach(pthread_t th)
{
	using F = int (*)(pthread_t);
	REAL(pthread_detach, F);
	if (!managed())
		return r_pthread_detach(th);
	Thread *t = byReal(th);
	if (t)
		t->detached = true;
	return 0;
}

// ---- mutex
static int lockMutex(pthread_mutex_t *m, int64_t deadline, bool tryOnly, bool doPt = true)
{
	checkAccess(m);
	if (doPt)
		pt();
	bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
	Mtx &x = (*g_mtx)[m];
	if (x.owner == t_self && rec)
	{
		++x.count;
		return 0;
	}
	if (x.owner == nullptr)
	{
		x.owner = t_self;
		x.count = 1;
		acquire(m);
		return 0;
	}
	if (tryOnly)
		return EBUSY;
	block(W::MUTEX, m, deadline);
	Mtx &y = (*g_mtx)[m];
	if (y.owner != nullptr)
		return ETIMEDOUT;
	y.owner = t_self;
	y.count = 1;
	acquire(m);
	return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
	using F = int (*)(pthread_mutex_t *);
	REAL(pthread_mutex_lock, F);
	if (!managed())
		return g_on ? 0 : r_pthread_mutex_lock(m);
	return lockMutex(m, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	using F = int (*)(pthread_mutex_t *);
	REAL(pthread_mutex_trylock, F);
	if (!managed())
		return g_on ? 0 : r_pthread_mutex_trylock(m);
	return lockMutex(m, -1, true);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts)
{
	return lockMutex(m, absToVirt(CLOCK_REALTIME, ts), false);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts)
{
	return lockMutex(m, absToVirt(c, ts), false);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	using F = int (*)(pthread_mutex_t *);
	REAL(pthread_mutex_unlock, F);
	if (!managed())
		return g_on ? 0 : r_pthread_mutex_unlock(m);
	checkAccess(m);
	Mtx &x = (*g_mtx)[m];
	if (x.owner == t_self && --x.count == 0)
	{
		release(m);
		x.owner = nullptr;
	}
	pt();
	return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	using F = int (*)(pthread_mutex_t *, const pthread_mutexattr_t *);
	REAL(pthread_mutex_init, F);
	if (g_mtx)
		g_mtx->erase(m);
	return r_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (g_mtx)
		g_mtx->erase(m);
	return 0;
}

// ---- rwlock
static int rdLock(pthread_rwlock_t *l, int64_t dl, bool tryOnly)
{
	checkAccess(l);
	pt();
	Rw &r = (*g_rw)[l];
	if (r.writer == t_self)
		return tryOnly ? EBUSY : EDEADLK;
	if (r.writer)
	{
		if (tryOnly)
			return EBUSY;
		block(W::RD, l, dl);
	}
	Rw &q = (*g_rw)[l];
	if (q.writer)
		return ETIMEDOUT;
	q.readers.push_back(t_self);
	acquire(l, false);
	return 0;
}
static int wrLock(pthread_rwlock_t *l, int64_t dl, bool tryOnly)
{
	checkAccess(l);
	pt();
	Rw &r = (*g_rw)[l];
	if (r.writer == t_self)
		return tryOnly ? EBUSY : EDEADLK;
	if (r.writer || !r.readers.empty())
	{
		if (tryOnly)
			return EBUSY;
		block(W::WR, l, dl);
	}
	Rw &q = (*g_rw)[l];
	if (q.writer || !q.readers.empty())
		return ETIMEDOUT;
	q.writer = t_self;
	acquire(l);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
	if (!managed())
		return 0;
	return rdLock(l, -1, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l)
{
	if (!managed())
		return 0;
	return rdLock(l, -1, true);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
	if (!managed())
		return 0;
	return wrLock(l, -1, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l)
{
	if (!managed())
		return 0;
	return wrLock(l, -1, true);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const timespec *ts)
{
	return rdLock(l, absToVirt(CLOCK_REALTIME, ts), false);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const timespec *ts)
{
	return wrLock(l, absToVirt(CLOCK_REALTIME, ts), false);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts)
{
	return rdLock(l, absToVirt(c, ts), false);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const timespec *ts)
{
	return wrLock(l, absToVirt(c, ts), false);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	if (!managed())
		return 0;
	checkAccess(l);
	Rw &r = (*g_rw)[l];
	release(l, r.writer != t_self);
	if (r.writer == t_self)
		r.writer = nullptr;
	else
		for (size_t i = 0; i < r.readers.size(); ++i)
			if (r.readers[i] == t_self)
			{
				r.readers.erase(r.readers.begin() + long(i));
				break;
			}
	pt();
	return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *)
{
	memset((void *)l, 0, sizeof *l);
	if (g_rw)
		g_rw->erase(l);
	return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l)
{
	if (g_rw)
		g_rw->erase(l);
	return 0;
}

// ---- condition variables
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
	checkAccess(c);
	pt();
	Mtx &x = (*g_mtx)[m];
	int cnt = x.count;
	release(m);
	x.owner = nullptr;
	x.count = 0;
	int r = 0;
	if (g_cfg.spuriousPct && g_rng.below(1000) < g_cfg.spuriousPct)
		pt(true);
	else
	{
		block(W::COND, c, deadline);
		if (!t_self->woken)
			r = ETIMEDOUT;
	}
	lockMutex(m, -1, false, false);
	(*g_mtx)[m].count = cnt;
	return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!managed())
		abort();
	return condWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts)
{
	return condWait(c, m, absToVirt(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts)
{
	return condWait(c, m, absToVirt(k, ts));
}
static int wakeCond(pthread_cond_t *c, bool all)
{
	if (!managed())
		return 0;
	checkAccess(c);
	pt();
	static std::vector<Thread *> ws;
	ws.clear();
	for (Thread *t : *g_threads)
		if (t->w == W::COND && t->obj == c && !t->woken)
			ws.push_back(t);
	if (all)
		for (Thread *t : ws)
			t->woken = true;
	else if (!ws.empty())
		ws[g_rng.below(ws.size())]->woken = true;
	pt();
	return 0;
}
int pthread_cond_signal(pthread_cond_t *c)
{
	return wakeCond(c, false);
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
	return wakeCond(c, true);
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *)
{
	memset((void *)c, 0, sizeof *c);
	return 0;
}
int pthread_cond_destroy(pthread_cond_t *)
{
	return 0;
}

// ---- once
int pthread_once(pthread_once_t *o, void (*f)())
{
	std::atomic<int> *a = reinterpret_cast<std::atomic<int> *>(o);
	if (!managed())
	{
		if (a->load() == 0)
		{
			a->store(2);
			f();
		}
		return 0;
	}
	pt();
	while (a->load() == 1)
		pt(true);
	if (a->load() == 0)
	{
		a->store(1);
		try
		{
			f();
		}
		catch (...)
		{
			a->store(0);
			throw;
		}
		release(o);
		a->store(2);
	}
	acquire(o);
	return 0;
}

// ---- semaphores
int sem_init(sem_t *s, int, unsigned v)
{
	memset((void *)s, 0, sizeof *s);
	if (g_sem)
		(*g_sem)[s].v = v;
	return 0;
}
int sem_destroy(sem_t *)
{
	return 0;
}
int sem_post(sem_t *s)
{
	checkAccess(s);
	pt();
	release(s);
	++(*g_sem)[s].v;
	pt();
	return 0;
}
static int semWait(sem_t *s, int64_t dl, bool tryOnly)
{
	checkAccess(s);
	pt();
	if ((*g_sem)[s].v == 0)
	{
		if (tryOnly)
		{
			errno = EAGAIN;
			return -1;
		}
		block(W::SEM, s, dl);
	}
	if ((*g_sem)[s].v == 0)
	{
		errno = ETIMEDOUT;
		return -1;
	}
	--(*g_sem)[s].v;
	acquire(s);
	return 0;
}
int sem_wait(sem_t *s)
{
	return semWait(s, -1, false);
}
int sem_trywait(sem_t *s)
{
	return semWait(s, -1, true);
}
int sem_timedwait(sem_t *s, const timespec *ts)
{
	return semWait(s, absToVirt(CLOCK_REALTIME, ts), false);
}
int sem_clockwait(sem_t *s, clockid_t c, const timespec *ts)
{
	return semWait(s, absToVirt(c, ts), false);
}

// ---- time
int nanosleep(const timespec *ts, timespec *)
{
	if (!managed())
		return 0;
	pt();
	block(W::SLEEP, nullptr, g_now + toNs(ts));
	return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *)
{
	if (!managed())
		return 0;
	pt();
	block(W::SLEEP, nullptr, (flags & TIMER_ABSTIME) ? absToVirt(c, ts) : g_now + toNs(ts));
	return 0;
}
int usleep(useconds_t us)
{
	if (!managed())
		return 0;
	pt();
	block(W::SLEEP, nullptr, g_now + int64_t(us) * 1000);
	return 0;
}
unsigned sleep(unsigned s)
{
	if (!managed())
		return 0;
	pt();
	block(W::SLEEP, nullptr, g_now + int64_t(s) * 1000000000);
	return 0;
}
int clock_gettime(clockid_t c, timespec *ts)
{
	using F = int (*)(clockid_t, timespec *);
	REAL(clock_gettime, F);
	if (!g_on)
		return r_clock_gettime(c, ts);
	int64_t t = g_now + g_clockSkew + (c == CLOCK_REALTIME ? EPOCH_RT : EPOCH_MONO);
	ts->tv_sec = t / 1000000000;
	ts->tv_nsec = t % 1000000000;
	return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
	timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *p)
{
	timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (p)
		*p = ts.tv_sec;
	return ts.tv_sec;
}
int sched_yield()
{
	pt(true);
	return 0;
}

// ---- futex through syscall()
long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
		 e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (n == SYS_futex && managed())
	{
		int op = int(b) & FUTEX_CMD_MASK;
		checkAccess((void *)a);
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
		{
			pt();
			if (*reinterpret_cast<volatile int *>(a) != int(c))
			{
				errno = EAGAIN;
				return -1;
			}
			int64_t dl = -1;
			if (d)
			{
				const timespec *ts = reinterpret_cast<const timespec *>(d);
				if (op == FUTEX_WAIT)
					dl = g_now + toNs(ts);
				else
					dl = absToVirt((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
			}
			block(W::FUTEX, (void *)a, dl);
			acquire((void *)a);
			if (!t_self->woken)
			{
				errno = ETIMEDOUT;
				return -1;
			}
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
		{
			pt();
			release((void *)a);
			static std::vector<Thread *> ws;
			ws.clear();
			for (Thread *t : *g_threads)
				if (t->w == W::FUTEX && t->obj == (void *)a && !t->woken)
					ws.push_back(t);
			long k = 0;
			while (k < c && !ws.empty())
			{
				size_t i = g_rng.below(ws.size());
				ws[i]->woken = true;
				ws.erase(ws.begin() + long(i));
				++k;
			}
			pt();
			return k;
		}
	}
	long r = raw6(n, a, b, c, d, e, f);
	if (r < 0 && r > -4096)
	{
		errno = int(-r);
		return -1;
	}
	return r;
}

// ---- std::random_device
unsigned int _ZNSt13random_device9_M_getvalEv(void *)
{
	return unsigned(g_rd.next());
}

// =================================================================== tsan instrumentation callbacks
#define PC __builtin_return_address(0)
#define RW(sz)                                                                        \
	void __tsan_read##sz(void *p) { mem(p, sz, false, PC); }                          \
	void __tsan_write##sz(void *p) { mem(p, sz, true, PC); }                          \
	void __tsan_read##sz##_pc(void *p, void *) { mem(p, sz, false, PC); }             \
	void __tsan_write##sz##_pc(void *p, void *) { mem(p, sz, true, PC); }             \
	void __tsan_volatile_read##sz(void *p) { mem(p, sz, false, PC); }                 \
	void __tsan_volatile_write##sz(void *p) { mem(p, sz, true, PC); }                 \
	void __tsan_unaligned_volatile_read##sz(void *p) { mem(p, sz, false, PC); }       \
	void __tsan_unaligned_volatile_write##sz(void *p) { mem(p, sz, true, PC); }       \
	void __tsan_unaligned_read##sz(void *p) { mem(p, sz, false, PC); }                \
	void __tsan_unaligned_write##sz(void *p) { mem(p, sz, true, PC); }                \
	void __tsan_read_write##sz(void *p) { mem(p, sz, true, PC); }                     \
	void __tsan_unaligned_read_write##sz(void *p) { mem(p, sz, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_read(void **p) { mem(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *) { mem(p, 8, true, PC); }
void __tsan_read_range(void *p, size_t n) { mem(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { mem(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	mem(d, n, true, PC);
	mem(s, n, false, PC);
	return memcpy(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
	mem(d, n, true, PC);
	return memset(d, c, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	mem(d, n, true, PC);
	mem(s, n, false, PC);
	return memmove(d, s, n);
}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *, unsigned, int) {}
int __tsan_mutex_pre_unlock(void *, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_mutex_pre_signal(void *, unsigned) {}
void __tsan_mutex_post_signal(void *, unsigned) {}
void __tsan_mutex_pre_divert(void *, unsigned) {}
void __tsan_mutex_post_divert(void *, unsigned) {}

#define AT(bits, T)                                                                                              \
	T __tsan_atomic##bits##_load(const volatile T *a, int)                                                       \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); }                                                 \
		return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                             \
	}                                                                                                            \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int)                                                    \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); release(a); }                                                 \
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                \
		pt();                                                                                                    \
	}                                                                                                            \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int)                                                    \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                       \
		pt();                                                                                                    \
		return r;                                                                                                \
	}                                                                                                            \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int)                                                   \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                        \
		return r;                                                                                                \
	}                                                                                                            \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int)                                                   \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                        \
		return r;                                                                                                \
	}                                                                                                            \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int)                                                   \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                       \
	}                                                                                                            \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int)                                                    \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                        \
	}                                                                                                            \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int)                                                   \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                       \
	}                                                                                                            \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int)                                                  \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                      \
	}                                                                                                            \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                        \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
	}                                                                                                            \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int)                          \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
	}                                                                                                            \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int)                              \
	{                                                                                                            \
		if (managed()) { checkAccess(a); pt(); checkAccess(a); acquire(a); release(a); }                                                 \
		__atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
		return c;                                                                                                \
	}
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { pt(); }
void __tsan_atomic_signal_fence(int) {}
}
