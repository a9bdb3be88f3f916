// Deterministic simulator: API for scenarios.
//
// One process per run (forked from a warm parent). Every decision is a call of
// choose()/draw(); the list of the values returned is the complete description
// of a run. Replaying the list replays the run. 0 is the simplest value.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
uint64_t choose(uint64_t n, const char* label);              // uniform in [0,n)
uint64_t draw(uint64_t n, const char* label, uint64_t proposal); // proposal used when not replaying
int range(int lo, int hi, const char* label);                // lo + choose(hi-lo+1)
bool chance(unsigned num, unsigned den, const char* label);  // true with probability num/den; 0 = false
uint64_t rng_raw();                                          // raw PRNG word for proposals only

// local generator for bulk data, seeded from one choice
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * uniform(); }
    double normal();
};
Rng data_rng(const char* label);                             // subseed is one choice

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char* why);                  // run is outside the property's domain
struct AssertError : std::logic_error { using std::logic_error::logic_error; };

// ---------------------------------------------------------------- log, probes
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // hashed; text kept when tracing
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // text only, when tracing (not hashed)
void count(const char* what, uint64_t n = 1);                // named counter (fault kinds, probes)
void state(uint64_t h);                                      // a state/interleaving reached
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0);
void nontrivial();                                           // run exercised the property under the seams
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // description of this run for evidence
void sim_time(double seconds);                               // simulated time covered
bool tracing();

// ---------------------------------------------------------------- environment of the code under test
struct Env {
    // entropy source: value of the i-th draw is a pure function of the spec
    uint64_t ent_seed = 1; int ent_mode = 0;   // 0 hash(seed,i); 1 constant seed; 2 counter; 3 all ones; 4 zero; 5 values whose generator streams start with extreme draws
    long ent_fail_at = -1; bool ent_fail_forever = false;
    // wall clock (nanoseconds since the epoch)
    int64_t clk_base = 1600000000000000000ll; int clk_mode = 0; uint64_t clk_seed = 1;
    // 0 advances by a hash-dependent step, 1 frozen, 2 jumps anywhere, 3 runs backwards, 4 fixed 1 ns steps
    // libc rand()
    uint32_t rnd_seed = 1;
    int rnd_mode = 0;                          // 0 stream, 1 always 0, 2 always RAND_MAX
};
Env choose_env();                  // an environment by choices
void set_env(const Env& e);        // install (and rewind) for this thread
struct EnvUse { uint64_t entropy, clock, rnd; };
EnvUse env_use();                  // draws since set_env, this thread
bool entropy_fault_fired();        // since set_env, this thread
uint32_t env_entropy_value(const Env& e, uint64_t i);
int64_t env_clock_value(const Env& e, uint64_t i);

// console: 0 swallow, 1 fails after n bytes (badbit), 2 throws inside the stream after n bytes
void set_console(int mode, uint64_t nbytes = 0);
uint64_t console_bytes();

// ---------------------------------------------------------------- code under test
// Allocations made inside a Sut region come from the simulated heap, may be
// made to fail and are preemption points when threads run.
struct Sut { Sut(); ~Sut(); bool prev; };
struct Harness { Harness(); ~Harness(); bool prev; };   // temporarily leave (callbacks)

// heap
void heap_fill(int mode, uint64_t seed);     // 0 zero, 1 0xFF (NaN), 2 random, 3 plausible doubles, 4 0xA5
void heap_layout(unsigned shift16, bool reuse);
uint64_t heap_allocs();                      // eligible Sut allocations so far
void heap_fail_at(uint64_t nth, bool forever);  // nth eligible allocation from now (1-based); 0 disables
bool heap_fault_fired();
uint64_t heap_live_blocks();
uint64_t heap_live_bytes();
void heap_check();                           // canaries; reports corruption as violation
void heap_dump_live(uint64_t after_seq);     // into the trace
uint64_t heap_seq();
void dirty_stack(int mode, uint64_t seed);

// budget of instrumented steps from now (0 = default): exceeding it is class "hang"
void step_budget(uint64_t steps);
uint64_t steps();

// ---------------------------------------------------------------- threads
void run_threads(const std::vector<std::function<void()>>& bodies); // returns when all finished
int thread_id();
bool in_threads();
struct SchedStats { uint64_t switches, shared_writes, directed, atomics; };   // shared_writes: plain writes to objects of another thread or to static memory
SchedStats sched_stats();

// ---------------------------------------------------------------- disk
struct IoPlan {
    int short_mode = 0;          // 0 full reads, 1 one byte, 2 random sizes, 3 fixed chunk
    uint64_t seed = 1; size_t chunk = 7;
    unsigned eintr_num = 0;      // of 8: chance of EINTR before a read
    long eio_at_byte = -1;       // reads crossing this offset fail with EIO
    long eof_at_byte = -1;       // premature end of file (file truncated underneath)
    bool open_fails = false; int open_errno = 2;
};
std::string disk_put(const std::string& content);  // returns path of a scratch file
void disk_plan(const IoPlan& p);                   // applies to scratch files opened from now on
struct IoStats { uint64_t opens, reads, shorts, eintr, eio, early_eof, open_fail; };
IoStats io_stats();

// ---------------------------------------------------------------- scenario registry
typedef void (*ScenarioFn)();
struct Scenario {
    const char* id; ScenarioFn fn; Scenario* next;
    Scenario(const char* id, ScenarioFn fn);
};
#define SIM_SCENARIO(id) \
    static void SIM_CAT(scenario_, __LINE__)(); \
    static ::sim::Scenario SIM_CAT(reg_, __LINE__)(id, SIM_CAT(scenario_, __LINE__)); \
    static void SIM_CAT(scenario_, __LINE__)()
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_CAT2(a, b) a##b

inline bool same_bits(double a, double b) { return __builtin_memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
} // namespace sim
