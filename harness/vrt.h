// Virtual runtime: a deterministic cooperative scheduler with virtual time.
// All threads of the program under test (created through pthread_create) run one
// at a time; every synchronisation operation, atomic access and (sampled) memory
// access of instrumented code is a scheduling point.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vrt
{
struct Config
{
	int policy = 0; // 0 random walk, 1 PCT
	uint64_t seed = 1;
	unsigned switchPct = 30; // random walk: chance of a switch at a point, percent
	unsigned memPct = 0; // chance (per mille) that a plain memory access is a point
	unsigned forcePct = 0; // chance (per 10000) that a point lets an expired-later timeout fire early
	unsigned spuriousPct = 0; // per mille: spurious condition variable wake-ups
	unsigned stallPct = 0; // percent: a callback point stalls its thread until all others are blocked
	unsigned stallPt = 0; // per 10000: any point does
	unsigned pctDepth = 3;
	unsigned pctLen = 2000;
	uint64_t maxPoints = 400000;
	int64_t maxTimeMs = 4000000;
	bool race = false; // look for conflicting accesses not ordered by synchronisation
	std::vector<uint32_t> hot; // accesses (return addresses, relative to base) at which half the threads stall
	const void *base = nullptr; // where the instrumented code is loaded
	uint64_t rdSeed = 1; // seed of std::random_device
};

void start(const Config &cfg); // calling thread becomes thread 0
void nextThreadIs(int id); // identity of the next created thread (client threads)
int self();
int64_t nowMs();
void emit(const std::string &json); // append an event line
[[noreturn]] void die(const std::string &json); // emit and stop the process
void sleepMs(int64_t ms);
void blockUntil(const std::function<bool()> &pred); // predicate over harness state
void drain(); // block until every other thread has finished (or cannot go on)
void point(); // explicit scheduling point
void callbackPoint(); // the same, in a callback (may stall)
int unfinished(); // number of other threads not finished
void setBuffer(char *buf, size_t cap, volatile uint64_t *len);
void failThreads(const std::string &event); // creations of threads by this thread fail and are recorded (empty: no more)
void untracked(bool on); // accesses by this thread while on are not scheduling points
std::string racyPlaces(); // the accesses found with race, "a:b:c"
uint64_t points();
uint64_t switches();
uint64_t schedHash();
} // namespace vrt
