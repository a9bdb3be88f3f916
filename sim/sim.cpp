// Deterministic simulator runtime. Compiled without instrumentation; the
// scenario units and /repo's headers are compiled with -fsanitize=thread and
// call the __tsan_* entry points defined at the end of this file.
#include "sim.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <elf.h>
#include <execinfo.h>
#include <algorithm>
#include <fcntl.h>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <set>
#include <map>
#include <streambuf>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace sim {
// ================================================================ shared result
enum { OK = 0, DISCARD = 1, VIOL = 2 };
static const size_t MAXCH = 1 << 16, MAXCTR = 96, MAXST = 1 << 14, MAXTR = 1 << 19;
struct Shared {
    volatile int status; volatile int finished;
    char cls[96]; char msg[2048]; char sample[4096]; size_t sample_n;
    uint64_t hash, steps; int nontriv; double simtime;
    uint64_t nch; uint64_t ch[MAXCH]; uint64_t chn[MAXCH]; char lab[MAXCH][24];
    uint64_t nctr; struct { char name[56]; uint64_t v; } ctr[MAXCTR];
    uint64_t nst; uint64_t st[MAXST];
    size_t tr_n; char tr[MAXTR];
};
static Shared* S;
static bool g_tracing, g_replaying;
static std::vector<uint64_t> g_replay;
static uint64_t g_rng;
static std::string g_dir;

static __thread bool t_sut;
struct Bypass { bool p; Bypass() : p(t_sut) { t_sut = false; } ~Bypass() { t_sut = p; } };

static inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t rng_raw() { g_rng += 0x9E3779B97F4A7C15ull; return mix(g_rng); }
uint64_t Rng::next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
double Rng::normal() {
    double u = uniform(), v = uniform();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
}

static void hashin(const void* p, size_t n) {
    S->hash = hash_bytes(p, n, S->hash);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = seed ^ 0xcbf29ce484222325ull;
    while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = mix(h ^ w); c += 8; n -= 8; }
    uint64_t w = 0; memcpy(&w, c, n);
    return mix(h ^ w ^ (uint64_t(n) << 56));
}

static void trace_text(const char* s) {
    size_t n = strlen(s);
    if (S->tr_n + n + 2 > MAXTR) return;
    memcpy(S->tr + S->tr_n, s, n); S->tr_n += n;
    S->tr[S->tr_n++] = '\n'; S->tr[S->tr_n] = 0;
}

static uint64_t record(uint64_t n, const char* label, uint64_t v) {
    if (S->nch >= MAXCH) discard("too many choices");
    S->ch[S->nch] = v; S->chn[S->nch] = n;
    if (g_tracing) { strncpy(S->lab[S->nch], label, 23); S->lab[S->nch][23] = 0; }
    S->nch++;
    hashin(&v, 8);
    return v;
}
uint64_t draw(uint64_t n, const char* label, uint64_t proposal) {
    Bypass b;
    if (n == 0) n = 1;
    uint64_t v;
    if (g_replaying) v = S->nch < g_replay.size() ? g_replay[S->nch] : 0;
    else v = proposal;
    if (v >= n) v = v % n;
    return record(n, label, v);
}
uint64_t choose(uint64_t n, const char* label) { return draw(n, label, n ? rng_raw() % n : 0); }
int range(int lo, int hi, const char* label) { return lo + (int)choose(uint64_t(hi - lo + 1), label); }
bool chance(unsigned num, unsigned den, const char* label) {
    return draw(2, label, (rng_raw() % den) < num ? 1 : 0) != 0;
}
Rng data_rng(const char* label) { return Rng(choose(1u << 30, label)); }

// ---------------------------------------------------------------- verdicts
static void finish(int status) {
    S->status = status;
    S->finished = 1;
    _exit(0);
}
extern uint64_t g_steps;
static void put_sched_stats();
void violate(const char* cls, const char* fmt, ...) {
    Bypass b;
    strncpy(S->cls, cls, sizeof S->cls - 1);
    va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
    if (g_tracing) { trace_text("VIOLATION"); trace_text(S->cls); trace_text(S->msg); }
    S->steps = g_steps;
    put_sched_stats();
    finish(VIOL);
    __builtin_unreachable();
}
void discard(const char* why) {
    Bypass b;
    strncpy(S->cls, why, sizeof S->cls - 1);
    finish(DISCARD);
    __builtin_unreachable();
}
void eigen_assert_failed(const char* what, const char* file, int line) {
    Bypass b;
    const char* f = strstr(file, "Eigen/");
    char buf[600]; snprintf(buf, sizeof buf, "Eigen assertion '%.400s' at %s:%d", what, f ? f : file, line);
    if (g_tracing) trace_text(buf);
    throw AssertError(buf);
}

// ---------------------------------------------------------------- log
void event(const char* fmt, ...) {
    Bypass b;
    char buf[2048];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    hashin(buf, std::min<size_t>(n, sizeof buf - 1));
    if (g_tracing) trace_text(buf);
}
void note(const char* fmt, ...) {
    Bypass b;
    if (!g_tracing) return;
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    trace_text(buf);
}
void count(const char* what, uint64_t n) {
    for (uint64_t i = 0; i < S->nctr; i++) if (!strcmp(S->ctr[i].name, what)) { S->ctr[i].v += n; return; }
    if (S->nctr >= MAXCTR) return;
    strncpy(S->ctr[S->nctr].name, what, 55); S->ctr[S->nctr].v = n; S->nctr++;
}
void state(uint64_t h) { if (S->nst < MAXST) S->st[S->nst++] = h; }
void nontrivial() { S->nontriv = 1; }
void sample(const char* fmt, ...) {
    Bypass b;
    if (S->sample_n + 600 > sizeof S->sample) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(S->sample + S->sample_n, 500, fmt, ap); va_end(ap);
    S->sample_n += std::min(n, 499);
    if (g_tracing) trace_text(S->sample + S->sample_n - std::min(n, 499));
    S->sample[S->sample_n++] = ' '; S->sample[S->sample_n] = 0;
}
void sim_time(double s) { S->simtime += s; }
bool tracing() { return g_tracing; }

// ================================================================ environment
static __thread Env t_env;
static __thread EnvUse t_use;
static __thread bool t_ent_fired;
// seeds for which one of the first 16 outputs of mt19937 is within 3 of 0 or of 2^32 - 1 (found by searching all seeds)
static const uint32_t extreme_seed[] = {
    726175548u, 1845494695u, 2855577693u, 3616711188u, 3950538743u, 4029690477u, 20675268u, 272838000u, 467081101u, 1000686894u, 2533497802u, 3123099464u,
    553392704u, 1099459692u, 1423262134u, 2395809115u, 2936448491u, 3342769692u, 3925425046u, 183919979u, 645155362u, 1047505337u, 1456908120u,
    2567590401u, 2914113637u, 3361069502u, 4029732065u, 257678572u, 394246836u, 1900510298u, 3731580771u, 3966350894u, 4089737765u, 601447462u,
    147791615u, 1894000227u, 2799093309u, 3692473790u, 3806639537u, 363737146u, 685418620u, 765332060u, 1467272421u, 3208995303u, 1033560431u,
    1047839585u, 1602365007u, 1911136360u, 2192918171u, 3005608546u, 3996957541u, 556780000u, 973626002u, 1171052417u, 1364548856u, 1398453390u,
    2769564945u, 3804092235u, 1295061830u, 1953146494u, 3310187953u, 3317080982u, 3883222633u, 1096435406u, 1421732086u, 2622374796u, 4169977063u,
    4216142089u, 318731777u, 410905097u, 486014584u, 989208775u, 2119096589u, 2749407675u, 3800317921u, 3983978911u, 59529469u, 383681761u, 1388284044u,
    1591753354u, 2593735329u, 3571253958u};
uint32_t env_entropy_value(const Env& e, uint64_t i) {
    switch (e.ent_mode) {
        case 1: return (uint32_t)e.ent_seed;
        case 2: return (uint32_t)(e.ent_seed + i);
        case 3: return 0xFFFFFFFFu;
        case 4: return 0;
        case 5: return extreme_seed[(e.ent_seed + i) % (sizeof extreme_seed / 4)];
        default: return (uint32_t)mix(mix(e.ent_seed) + i * 0x632BE59BD9B4E019ull);
    }
}
int64_t env_clock_value(const Env& e, uint64_t i) {
    switch (e.clk_mode) {
        case 1: return e.clk_base;
        case 2: return (int64_t)mix(mix(e.clk_seed) ^ i);
        case 3: return (int64_t)((uint64_t)e.clk_base - i * 1000003ull * (1 + mix(e.clk_seed) % 1000));
        case 4: return (int64_t)((uint64_t)e.clk_base + i);
        default: return (int64_t)((uint64_t)e.clk_base + i * 1000ull + mix(mix(e.clk_seed) + i) % 1000);
    }
}
static uint32_t env_rand_value(const Env& e, uint64_t i) {
    switch (e.rnd_mode) {
        case 1: return 0;
        case 2: return RAND_MAX;
        default: return (uint32_t)(mix(mix(e.rnd_seed ^ 0xABCDEFull) + i) >> 33);
    }
}
Env choose_env() {
    Env e;
    int m = (int)choose(10, "ent.mode");
    e.ent_mode = m <= 5 ? m : 0;
    e.ent_seed = choose(1u << 31, "ent.seed");
    m = (int)choose(8, "clk.mode");
    e.clk_mode = m == 1 ? 1 : m == 2 ? 2 : m == 3 ? 3 : m == 4 ? 4 : 0;
    switch (choose(6, "clk.base")) {
        case 1: e.clk_base = 0; break;
        case 2: e.clk_base = -1; break;
        case 3: e.clk_base = INT64_MAX; break;
        case 4: e.clk_base = INT64_MIN; break;
        case 5: e.clk_base = (int64_t)choose(1ull << 62, "clk.abs"); break;
        default: e.clk_base = 1600000000000000000ll + (int64_t)choose(1000000000ull, "clk.off");
    }
    e.clk_seed = choose(1u << 30, "clk.seed");
    e.rnd_seed = (uint32_t)choose(1u << 30, "rnd.seed");
    m = (int)choose(16, "rnd.mode");
    e.rnd_mode = m == 1 ? 1 : m == 2 ? 2 : 0;
    return e;
}
void set_env(const Env& e) { t_env = e; t_use = EnvUse{0, 0, 0}; t_ent_fired = false; }
EnvUse env_use() { return t_use; }
bool entropy_fault_fired() { return t_ent_fired; }

static int64_t clock_read() {
    int64_t v = env_clock_value(t_env, t_use.clock);
    if (t_use.clock) {
        double d = (double)v - (double)env_clock_value(t_env, t_use.clock - 1);
        S->simtime += std::fabs(d) < 1e15 ? std::fabs(d) * 1e-9 : 0;
        if (d < 0) count("clock went backwards");
        else if (d == 0) count("clock stood still");
        else if (d > 1e15) count("clock jumped");
    }
    t_use.clock++;
    count("clock reads");
    if (v < 0) count("clock readings before the epoch"); else if (v == 0 || v == INT64_MAX) count("clock readings at an extreme");
    if (t_env.clk_mode == 1) count("readings of a frozen clock"); else if (t_env.clk_mode == 2) count("readings of a jumping clock"); else if (t_env.clk_mode == 3) count("readings of a backward clock");
    if (g_tracing) { Bypass b; char buf[80]; snprintf(buf, sizeof buf, "clock reading %lld", (long long)v); trace_text(buf); }
    return v;
}
static uint32_t entropy_read() {
    uint64_t i = t_use.entropy++;
    count("entropy draws");
    if (t_env.ent_fail_at >= 0 && ((long)i == t_env.ent_fail_at || (t_env.ent_fail_forever && (long)i > t_env.ent_fail_at))) {
        count("entropy failures injected");
        t_ent_fired = true;
        if (g_tracing) { Bypass b; trace_text("FAULT entropy source fails"); }
        throw std::runtime_error("random_device could not be read");
    }
    uint32_t v = env_entropy_value(t_env, i);
    if (g_tracing) { Bypass b; char buf[80]; snprintf(buf, sizeof buf, "entropy value %u", v); trace_text(buf); }
    return v;
}

// console
struct SimBuf : std::streambuf {
    int mode = 0; uint64_t limit = 0, n = 0;
    bool full() {
        if (mode && n >= limit) {
            count("console writes failed");
            if (mode == 2) throw std::ios_base::failure("console write failed");
            return true;
        }
        return false;
    }
    int_type overflow(int_type c) override {
        Bypass b;
        if (full()) return traits_type::eof();
        n++; return c == traits_type::eof() ? 0 : c;
    }
    std::streamsize xsputn(const char*, std::streamsize k) override {
        Bypass b;
        if (mode && n + k > limit) { n = limit; if (full()) return 0; }
        n += k; return k;
    }
    int sync() override { Bypass b; return full() ? -1 : 0; }
};
static SimBuf* g_cout;
void set_console(int mode, uint64_t nbytes) {
    Bypass b;
    g_cout->mode = mode; g_cout->limit = nbytes; g_cout->n = 0;
    std::cout.clear(); std::cerr.clear(); std::clog.clear();
}
uint64_t console_bytes() { return g_cout->n; }

// ================================================================ regions
Sut::Sut() : prev(t_sut) { t_sut = true; }
Sut::~Sut() { t_sut = prev; }
Harness::Harness() : prev(t_sut) { t_sut = false; }
Harness::~Harness() { t_sut = prev; }

// ================================================================ heap
struct Hdr { uint64_t magic, size, seq; int32_t tid; uint32_t st; }; // 32 bytes
static const uint64_t MAGIC = 0x51AB5EEDC0FFEE01ull;
static char* const A0 = (char*)0x100000000000ull;
static const size_t ASZ = 4ull << 30, SOFT = 192ull << 20;
static char* a_cur; static char* a_end;
static int h_fill; static uint64_t h_fillseed = 1;
static uint64_t h_seq, h_elig, h_live_n, h_live_b, h_fail_at; static bool h_forever, h_fired, h_reuse, h_reused;
static unsigned h_shift;
static bool h_last_cfree;      // last heap operation was a free() of a live block
static int32_t* a_owner;       // per 16 bytes: 1 + owning thread of the phase, 0 none
static uint64_t g_phase;
static bool a_ready;
static int cur_tid();

struct FreeNode { FreeNode* next; };
static const size_t NCLS = 4096;
static FreeNode* f_small[NCLS];                    // rounded size/16
static Hdr** q_ring; static size_t q_head, q_tail; // quarantine
static const size_t QN = 1 << 22;
static uint64_t q_bytes;

static bool in_arena(const void* p) { return (const char*)p >= A0 && (const char*)p < A0 + ASZ; }
static size_t rup(size_t n) { n = (n + 15) & ~size_t(15); if (n < 16) n = 16; if (n > 16 * (NCLS - 1)) n = (n + 65535) & ~size_t(65535); return n; }

static void arena_init() {
    void* p = mmap(A0, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != A0) { fprintf(stderr, "sim: cannot map arena\n"); _exit(3); }
    a_cur = A0; a_end = A0 + ASZ;
    a_owner = (int32_t*)mmap(nullptr, ASZ / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    q_ring = (Hdr**)mmap(nullptr, QN * sizeof(Hdr*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    a_ready = true;
}
static void fill(char* p, size_t n, uint64_t seq) {
    switch (h_fill) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xFF, n); break;
        case 4: memset(p, 0xA5, n); break;
        case 3: {
            for (size_t i = 0; i + 8 <= n; i += 8) {
                double d = (double)(int64_t)(mix(h_fillseed + seq * 977 + i) % 2001) / 100.0 - 10.0;
                memcpy(p + i, &d, 8);
            }
            break;
        }
        default: {
            uint64_t h = mix(h_fillseed + seq * 977);
            for (size_t i = 0; i < n; i += 8) { h = h * 6364136223846793005ull + 1442695040888963407ull; memcpy(p + i, &h, std::min<size_t>(8, n - i)); }
        }
    }
}
static const unsigned char CAN = 0xC7;
static void corrupt(const char* what, Hdr* h) {
    h_fail_at = 0;
    violate("heap:corruption", "%s (block #%llu of %llu bytes)", what, (unsigned long long)(h ? h->seq : 0), (unsigned long long)(h ? h->size : 0));
}
static void check_block(Hdr* h) {
    if (h->magic != MAGIC) corrupt("heap block header overwritten", nullptr);
    unsigned char* e = (unsigned char*)(h + 1) + h->size;
    for (int i = 0; i < 16; i++) if (e[i] != CAN) corrupt("write past the end of a heap block", h);
}
static void maybe_preempt_alloc();
// Eigen's SVDs destroy a member and construct it again in place: an allocation
// failing there destroys it twice. That is Eigen's defect, not the library's,
// so no allocation below these functions is failed.
static std::vector<std::pair<uintptr_t, uintptr_t>> x_ranges;
static void load_exempt() {
    FILE* f = fopen("/proc/self/exe", "rb"); if (!f) return;
    Elf64_Ehdr eh; if (fread(&eh, sizeof eh, 1, f) != 1) { fclose(f); return; }
    std::vector<Elf64_Shdr> sh(eh.e_shnum); fseek(f, eh.e_shoff, SEEK_SET);
    if (fread(sh.data(), sizeof(Elf64_Shdr), sh.size(), f) == sh.size())
        for (auto& t : sh) if (t.sh_type == SHT_SYMTAB && t.sh_link < sh.size()) {
            std::vector<Elf64_Sym> sy(t.sh_size / sizeof(Elf64_Sym)); std::vector<char> st(sh[t.sh_link].sh_size + 1);
            fseek(f, t.sh_offset, SEEK_SET); if (fread(sy.data(), sizeof(Elf64_Sym), sy.size(), f) != sy.size()) break;
            fseek(f, sh[t.sh_link].sh_offset, SEEK_SET); if (fread(st.data(), 1, st.size() - 1, f) != st.size() - 1) break;
            for (auto& y : sy) if (ELF64_ST_TYPE(y.st_info) == STT_FUNC && y.st_size && y.st_name < st.size()) {
                const char* n = &st[y.st_name];
                if (!strncmp(n, "_ZN5Eigen", 9) || !strncmp(n, "_ZNK5Eigen", 10))
                    if (strstr(n, "JacobiSVD") || strstr(n, "BDCSVD")) x_ranges.push_back({y.st_value, y.st_value + y.st_size});
            }
        }
    fclose(f);
    std::sort(x_ranges.begin(), x_ranges.end());
    void* b[4]; backtrace(b, 4);       // loads the unwinder now, not under the simulated heap
}
static bool in_exempt() {
    if (x_ranges.empty()) return false;
    Bypass by; void* b[64]; int n = backtrace(b, 64);
    for (int i = 0; i < n; i++) {
        uintptr_t a = (uintptr_t)b[i];
        auto it = std::upper_bound(x_ranges.begin(), x_ranges.end(), std::make_pair(a, ~uintptr_t(0)));
        if (it != x_ranges.begin() && a <= (--it)->second && a > it->first) return true;
    }
    return false;
}
// k: 0 malloc family, 1 operator new
static void* a_alloc(size_t n, bool zero, int kind, size_t align = 16) {
    maybe_preempt_alloc();
    bool eligible = !(kind == 0 && h_last_cfree);
    h_last_cfree = false;
    if (eligible) {
        h_elig++;
        if (h_fail_at && (h_elig == h_fail_at || (h_forever && h_elig > h_fail_at))) {
            if (in_exempt()) { if (!h_forever) h_fail_at++; }
            else {
            if (!h_fired && g_tracing) { Bypass b; char buf[120]; snprintf(buf, sizeof buf, "FAULT allocation of %zu bytes fails%s", n, h_forever ? " and all later ones" : ""); trace_text(buf); }
            h_fired = true; count("allocation failures injected");
            return nullptr;
            }
        }
    }
    if (n > (1ull << 31)) return nullptr;
    size_t r = rup(n);
    Hdr* h = nullptr;
    if (align <= 16 && (h_reuse || (size_t)(a_cur - A0) > SOFT)) {
        if (!h_reuse) while (q_head != q_tail && q_bytes > SOFT / 4) {
            Hdr* q = q_ring[q_head++ % QN]; q_bytes -= rup(q->size);
            FreeNode* f = (FreeNode*)(q + 1);
            if (rup(q->size) / 16 < NCLS) { f->next = f_small[rup(q->size) / 16]; f_small[rup(q->size) / 16] = f; }
        }
        if (r / 16 < NCLS && f_small[r / 16]) { FreeNode* f = f_small[r / 16]; f_small[r / 16] = f->next; h = (Hdr*)f - 1; }
    }
    if (!h) {
        char* p = a_cur + sizeof(Hdr);
        if (align > 16) p = (char*)(((uintptr_t)p + align - 1) & ~(align - 1));
        if (p + r + 48 > a_end) { discard("simulated heap exhausted"); }
        h = (Hdr*)p - 1;
        a_cur = p + r + 16;
    }
    h->magic = MAGIC; h->size = n; h->seq = ++h_seq; h->tid = cur_tid(); h->st = 1;
    char* p = (char*)(h + 1);
    if (zero) memset(p, 0, n); else fill(p, n, h->seq);
    memset(p + n, CAN, 16);
    if (g_phase) { int32_t o = int32_t(g_phase * 64 + cur_tid() + 1); for (size_t i = 0; i < r; i += 16) a_owner[(p + i - A0) >> 4] = o; }
    h_live_n++; h_live_b += n;
    return p;
}
static void a_free(void* p, bool cfree) {
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != MAGIC) corrupt("free of something that is no block", nullptr);
    if (h->st != 1) corrupt("block freed twice", h);
    check_block(h);
    h->st = 2; h_live_n--; h_live_b -= h->size;
    h_last_cfree = cfree;
    memset(p, 0xDB, h->size);
    size_t r = rup(h->size);
    if (h_reuse && r / 16 < NCLS) { FreeNode* f = (FreeNode*)p; f->next = f_small[r / 16]; f_small[r / 16] = f; }
    else if (q_tail - q_head < QN) { q_ring[q_tail++ % QN] = h; q_bytes += r; }
}
void heap_fill(int mode, uint64_t seed) { h_fill = mode; h_fillseed = seed; }
void heap_layout(unsigned shift16, bool reuse) { h_reuse = reuse; h_reused |= reuse; h_shift = shift16; a_cur += 16 * (size_t)shift16; }
uint64_t heap_allocs() { return h_elig; }
void heap_fail_at(uint64_t nth, bool forever) { h_fail_at = nth ? h_elig + nth : 0; h_forever = forever; h_fired = false; }
bool heap_fault_fired() { return h_fired; }
uint64_t heap_live_blocks() { return h_live_n; }
uint64_t heap_live_bytes() { return h_live_b; }
uint64_t heap_seq() { return h_seq; }
static void walk(void (*fn)(Hdr*, uint64_t), uint64_t arg) {
    // blocks are found by scanning for headers at 16-byte steps
    for (char* c = A0; c + sizeof(Hdr) < a_cur;) {
        Hdr* h = (Hdr*)c;
        if (h->magic == MAGIC && h->size < (1ull << 32)) { fn(h, arg); c += sizeof(Hdr) + rup(h->size) + 16; c = (char*)(((uintptr_t)c) & ~15ull); }
        else c += 16;
    }
}
void heap_check() { Bypass b; walk([](Hdr* h, uint64_t) { if (h->st == 1) check_block(h); else {
        unsigned char* p = (unsigned char*)(h + 1);
        for (size_t i = h_reused ? 8 : 0; i < h->size; i++) if (p[i] != 0xDB && !(i < 8 && (size_t)(a_cur - A0) > SOFT)) corrupt("write to a freed heap block", h); } }, 0); }
void heap_dump_live(uint64_t after) {
    Bypass b;
    if (!g_tracing) return;
    walk([](Hdr* h, uint64_t a) { if (h->st == 1 && h->seq > a) { char buf[100]; snprintf(buf, sizeof buf, "live block #%llu of %llu bytes", (unsigned long long)h->seq, (unsigned long long)h->size); trace_text(buf); } }, after);
}
__attribute__((noinline)) void dirty_stack(int mode, uint64_t seed) {
    volatile char buf[96 * 1024];
    uint64_t h = mix(seed);
    for (size_t i = 0; i + 8 <= sizeof buf; i += 8) {
        uint64_t w;
        switch (mode) { case 0: w = 0; break; case 1: w = ~0ull; break;
            case 3: { double d = (double)(int64_t)(mix(h + i) % 2001) / 100.0 - 10.0; memcpy(&w, &d, 8); break; }
            case 4: w = 0xA5A5A5A5A5A5A5A5ull; break;
            default: h = h * 6364136223846793005ull + 1442695040888963407ull; w = h; }
        *(volatile uint64_t*)(buf + i) = w;
    }
}

// ================================================================ steps and threads
uint64_t g_steps; static uint64_t g_stop_at = ~0ull, g_budget_at = ~0ull, g_pre_at = ~0ull;
static const uint64_t DEFAULT_BUDGET = 400000000ull;
void step_budget(uint64_t n) { g_budget_at = g_steps + (n ? n : DEFAULT_BUDGET); g_stop_at = std::min(g_budget_at, g_pre_at); }
uint64_t steps() { return g_steps; }

static const int MAXT = 8;
static const size_t STK = 8u << 20;
static char* const STK0 = (char*)0x0f0000000000ull;
struct Th { pthread_t pt; volatile int word; int state; std::function<void()>* fn; Env env; EnvUse use; };
static Th th[MAXT + 1];   // 0 = scenario main, 1.. workers
static int n_th; static __thread int t_id; static bool g_threads;
static bool g_watch; static unsigned g_dir_num;  // directed: of 16
static int g_strategy; static uint64_t g_gap_scale; static unsigned g_pre_left, g_dir_left;
static SchedStats g_ss;
static uint64_t g_sched_hash;
static int cur_tid() { return t_id; }
int thread_id() { return t_id; }
bool in_threads() { return g_threads; }
SchedStats sched_stats() { return g_ss; }
static void put_sched_stats() {
    if (g_ss.switches) count("thread switches", g_ss.switches);
    if (g_ss.shared_writes) count("writes to shared memory seen", g_ss.shared_writes);
    if (g_ss.atomics) count("atomic updates of shared memory seen", g_ss.atomics);
    if (g_ss.directed) count("switches placed at shared writes", g_ss.directed);
}
static void fwait(volatile int* w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fwake(volatile int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static int others(int* out) { int n = 0; for (int i = 1; i <= n_th; i++) if (i != t_id && th[i].state == 1) out[n++] = i; return n; }
static void hand_over(int to) {
    g_ss.switches++;
    g_sched_hash = mix(g_sched_hash ^ (g_steps * 16 + to));
    state(g_sched_hash);
    if (g_tracing) { char buf[100]; snprintf(buf, sizeof buf, "switch T%d -> T%d at step %llu", t_id, to, (unsigned long long)g_steps); trace_text(buf); }
    int me = t_id;
    fwake(&th[to].word);
    fwait(&th[me].word);
}
static void next_gap() {
    g_pre_at = ~0ull;
    if (g_threads && g_strategy != 0 && g_pre_left) {
        g_pre_left--;
        // log-uniform gap, 0 = no further preemption by gap
        uint64_t bits = 1 + rng_raw() % g_gap_scale;
        uint64_t prop = 1 + (rng_raw() & ((1ull << bits) - 1));
        uint64_t g = draw(1ull << 32, "gap", prop);
        if (g) g_pre_at = g_steps + g;
    }
    g_stop_at = std::min(g_budget_at, g_pre_at);
}
static void preempt(bool forced) {
    Bypass b;
    int o[MAXT]; int n = others(o);
    if (!n) {
        if (forced) violate("deadlock", "no thread can run");
        return;
    }
    hand_over(o[n > 1 ? choose(n, "next") : 0]);
}
static void slow_stop() {
    Bypass b;
    if (g_steps >= g_budget_at) { g_budget_at = ~0ull; violate("hang", "no end after %llu steps", (unsigned long long)g_steps); }
    if (g_threads && g_steps >= g_pre_at) { next_gap(); preempt(false); }
    g_stop_at = std::min(g_budget_at, g_pre_at);
}
static void maybe_preempt_alloc() { if (t_sut && ++g_steps >= g_stop_at) slow_stop(); }
extern "C" char __data_start[], _end[];
static bool is_shared(const void* a) {
    const char* p = (const char*)a;
    if (in_arena(p)) return a_owner[(p - A0) >> 4] != int32_t(g_phase * 64 + t_id + 1);
    return p >= __data_start && p < _end;                   // not: stacks, thread-local storage and the harness's own memory
}
static void shared_write(const void* a) {
    if (!is_shared(a)) return;
    g_ss.shared_writes++;
    if (!g_dir_left) return;
    g_dir_left--;
    Bypass b;
    if (draw(2, "switch@write", (rng_raw() % 16) < g_dir_num)) { g_ss.directed++; preempt(false); }
}
static void shared_atomic(const void* a) {                   // reference counts mostly
    if (is_shared(a) && g_ss.atomics++ % 8 == 7) { g_ss.shared_writes--; shared_write(a); }
}
static void* th_main(void* arg) {
    int id = (int)(intptr_t)arg;
    t_id = id;
    t_env = th[id].env; t_use = EnvUse{0, 0, 0};
    fwait(&th[id].word);
    try { (*th[id].fn)(); }
    catch (const std::exception& e) { violate("escape", "exception left a thread body: %s", e.what()); }
    t_sut = false;
    th[id].state = 2;
    int o[MAXT]; int n = others(o);
    int to = n ? o[n > 1 ? choose(n, "next") : 0] : 0;
    g_ss.switches++;
    g_sched_hash = mix(g_sched_hash ^ (g_steps * 16 + to)); state(g_sched_hash);
    if (g_tracing) { char buf[100]; snprintf(buf, sizeof buf, "T%d ends at step %llu, next T%d", id, (unsigned long long)g_steps, to); trace_text(buf); }
    fwake(&th[to].word);
    return nullptr;
}
static void make_thread(int id, void* (*fn)(void*)) {
    char* s = STK0 + (size_t)id * (STK + 65536);
    void* m = mmap(s, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != s && errno != EEXIST) { fprintf(stderr, "sim: stack map failed\n"); _exit(3); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, s, STK);
    if (pthread_create(&th[id].pt, &at, fn, (void*)(intptr_t)id)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(3); }
    pthread_attr_destroy(&at);
}
void run_threads(const std::vector<std::function<void()>>& bodies) {
    Bypass b;
    n_th = (int)bodies.size();
    if (n_th > MAXT) abort();
    g_phase++;
    g_strategy = (int)choose(5, "strategy");  // 0 serial, 1 gaps, 2 few points, 3 shared writes, 4 gaps + shared writes
    g_gap_scale = 4; g_pre_left = 0; g_watch = true; g_dir_left = 0; g_dir_num = 0;
    if (g_strategy == 1 || g_strategy == 4) { g_gap_scale = 3 + choose(14, "gapscale"); g_pre_left = 400; }
    if (g_strategy == 2) { g_gap_scale = 8 + choose(11, "gapscale"); g_pre_left = 1 + (unsigned)choose(4, "points"); }
    if (g_strategy == 3) { g_gap_scale = 6 + choose(11, "gapscale"); g_pre_left = 2; }
    if (g_strategy >= 3) { g_dir_left = 600; g_dir_num = 2 + (unsigned)choose(13, "dirrate"); }
    std::vector<std::function<void()>> fns(bodies);
    for (int i = 1; i <= n_th; i++) { th[i].word = 0; th[i].state = 1; th[i].fn = &fns[i - 1]; th[i].env = t_env; make_thread(i, th_main); }
    th[0].word = 0;
    g_threads = true;
    next_gap();
    int first = 1 + (int)choose(n_th, "first");
    fwake(&th[first].word);
    fwait(&th[0].word);
    for (int i = 1; i <= n_th; i++) pthread_join(th[i].pt, nullptr);
    g_threads = false; g_watch = false; g_pre_at = ~0ull; g_stop_at = g_budget_at;
    for (int i = 1; i <= n_th; i++) munmap(STK0 + (size_t)i * (STK + 65536), STK);
}

// ================================================================ disk
static IoPlan g_io; static IoStats g_ios; static int g_files;
struct Fd { bool on; IoPlan p; uint64_t reads; };
static Fd g_fd[1024];
std::string disk_put(const std::string& content) {
    Bypass b;
    std::string path = g_dir + "/f" + std::to_string(g_files++) + ".txt";
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0) { fprintf(stderr, "sim: cannot write %s\n", path.c_str()); _exit(3); }
    size_t o = 0; while (o < content.size()) { ssize_t k = write(fd, content.data() + o, content.size() - o); if (k <= 0) _exit(3); o += k; }
    close(fd);
    return path;
}
void disk_plan(const IoPlan& p) { g_io = p; }
IoStats io_stats() { return g_ios; }
static bool ours(const char* path) { return path && !g_dir.empty() && !strncmp(path, g_dir.c_str(), g_dir.size()); }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static ssize_t (*r_read)(int, void*, size_t);
static FILE* (*r_fopen)(const char*, const char*);
static int (*r_mlock)(pthread_mutex_t*); static int (*r_mtry)(pthread_mutex_t*);
static int (*r_rdlock)(pthread_rwlock_t*); static int (*r_wrlock)(pthread_rwlock_t*);
static int (*r_cgt)(clockid_t, struct timespec*);
static ssize_t (*r_getrandom)(void*, size_t, unsigned);
static bool g_in_run;
static void resolve() {
    r_read = real<decltype(r_read)>("read"); r_fopen = real<decltype(r_fopen)>("fopen64");
    r_mlock = real<decltype(r_mlock)>("pthread_mutex_lock"); r_mtry = real<decltype(r_mtry)>("pthread_mutex_trylock");
    r_rdlock = real<decltype(r_rdlock)>("pthread_rwlock_rdlock"); r_wrlock = real<decltype(r_wrlock)>("pthread_rwlock_wrlock");
    r_cgt = real<decltype(r_cgt)>("clock_gettime"); r_getrandom = real<decltype(r_getrandom)>("getrandom");
}
static FILE* do_fopen(const char* path, const char* mode) {
    if (!r_fopen) resolve();
    if (!ours(path)) return r_fopen(path, mode);
    g_ios.opens++;
    if (g_io.open_fails) { g_ios.open_fail++; count("open failures injected"); errno = g_io.open_errno; return nullptr; }
    FILE* f = r_fopen(path, mode);
    if (f) { int fd = fileno(f); if (fd < 1024) { g_fd[fd].on = true; g_fd[fd].p = g_io; g_fd[fd].reads = 0; } }
    return f;
}
static ssize_t do_read(int fd, void* buf, size_t n) {
    if (!r_read) resolve();
    if (fd < 0 || fd >= 1024 || !g_fd[fd].on) return r_read(fd, buf, n);
    Fd& f = g_fd[fd];
    g_ios.reads++; count("disk reads");
    uint64_t r = mix(mix(f.p.seed) + f.reads++);
    if (f.p.eintr_num && (r >> 40) % 8 < f.p.eintr_num) { g_ios.eintr++; count("EINTR injected"); errno = EINTR; return -1; }
    off_t pos = lseek(fd, 0, SEEK_CUR);
    size_t m = n;
    if (f.p.short_mode == 1) m = 1; else if (f.p.short_mode == 2) m = 1 + r % 40; else if (f.p.short_mode == 3) m = f.p.chunk;
    if (m > n) m = n;
    if (m < 1 && n) m = 1;
    if (m < n) { g_ios.shorts++; count("short reads injected"); }
    if (f.p.eio_at_byte >= 0) {
        if (pos >= f.p.eio_at_byte) { g_ios.eio++; count("EIO injected"); errno = EIO; if (g_tracing) { Bypass b; trace_text("FAULT read fails with EIO"); } return -1; }
        if ((off_t)m > f.p.eio_at_byte - pos) m = f.p.eio_at_byte - pos;
    }
    if (f.p.eof_at_byte >= 0) {
        if (pos >= f.p.eof_at_byte) { g_ios.early_eof++; count("file truncated underneath"); return 0; }
        if ((off_t)m > f.p.eof_at_byte - pos) m = f.p.eof_at_byte - pos;
    }
    return r_read(fd, buf, m);
}

// ================================================================ one run
static ScenarioFn g_fn;
static Scenario* g_scen;
Scenario::Scenario(const char* i, ScenarioFn f) : id(i), fn(f), next(g_scen) { g_scen = this; }
static void on_signal(int sig) {
    t_sut = false;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGXCPU ? "SIGXCPU" : "signal";
    snprintf(S->cls, sizeof S->cls, "crash:%s", n);
    snprintf(S->msg, sizeof S->msg, "the process died of %s", n);
    if (g_tracing) { trace_text("CRASH"); trace_text(n); }
    S->status = VIOL; S->finished = 1; _exit(0);
}
static void* run_main(void*) {
    t_id = 0;
    stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    step_budget(0);
    try { g_fn(); }
    catch (const std::exception& e) { t_sut = false; violate("escape", "unexpected exception: %s", e.what()); }
    t_sut = false;
    S->steps = g_steps;
    put_sched_stats();
    finish(OK);
    return nullptr;
}
static int g_cpu_limit = 60;
// result is in *S afterwards
static void run_once(uint64_t seed, const std::vector<uint64_t>* replay, bool trace) {
    memset((void*)S, 0, offsetof(Shared, nch)); S->nch = 0; S->nctr = 0; S->nst = 0; S->tr_n = 0; S->tr[0] = 0;
    memset((void*)S->ctr, 0, sizeof S->ctr);
    S->hash = 0x9ae16a3b2f90404full;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        g_tracing = trace; g_replaying = replay != nullptr; if (replay) g_replay = *replay;
        g_rng = mix(seed);
        struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
        rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        g_cout = new SimBuf; std::cout.rdbuf(g_cout); std::cerr.rdbuf(g_cout); std::clog.rdbuf(g_cout);
        g_in_run = true;
        make_thread(0, run_main);
        pthread_join(th[0].pt, nullptr);
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!S->finished) {
        S->status = VIOL;
        if (WIFSIGNALED(st)) snprintf(S->cls, sizeof S->cls, "crash:signal%d", WTERMSIG(st));
        else snprintf(S->cls, sizeof S->cls, "exit:%d", WEXITSTATUS(st));
        snprintf(S->msg, sizeof S->msg, "the process ended by %s", S->cls);
    }
}
} // namespace sim

// ================================================================ interposed libc / libstdc++
using namespace sim;
extern "C" {
void* malloc(size_t n) { if (t_sut && a_ready) { void* p = a_alloc(n, false, 0); if (!p) errno = ENOMEM; return p; } return __libc_malloc(n); }
void free(void* p) { if (!p) return; if (in_arena(p)) { a_free(p, true); return; } __libc_free(p); }
void* calloc(size_t a, size_t b) {
    if (t_sut && a_ready) { if (b && a > SIZE_MAX / b) return nullptr; void* p = a_alloc(a * b, true, 0); if (!p) errno = ENOMEM; return p; }
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
    if (p && in_arena(p)) {
        Hdr* h = (Hdr*)p - 1;
        bool s = t_sut; t_sut = true; void* q = a_alloc(n, false, 0); t_sut = s;
        if (!q) { errno = ENOMEM; return nullptr; }
        memcpy(q, p, std::min<size_t>(h->size, n)); a_free(p, false); return q;
    }
    if (!p) return malloc(n);
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { if (t_sut && a_ready) return a_alloc(n, false, 0, al); return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) {
    if (!p) return 0;
    if (in_arena(p)) return ((Hdr*)p - 1)->size;
    static size_t (*f)(void*); if (!f) f = real<decltype(f)>("malloc_usable_size"); return f(p);
}
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m); }
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m); }
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n); }
int fclose(FILE* f) {
    static int (*r)(FILE*); if (!r) r = real<decltype(r)>("fclose");
    int fd = fileno(f); if (fd >= 0 && fd < 1024) g_fd[fd].on = false;
    return r(f);
}
int rand() {
    if (!g_in_run) return 4;
    count("rand() draws");
    return (int)env_rand_value(t_env, t_use.rnd++);
}
long random() { return rand(); }
void srand(unsigned s) { if (g_in_run) { t_env.rnd_seed = s * 2654435761u + 77u; t_use.rnd = 0; count("srand calls"); } }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!r_cgt) resolve();
    if (g_in_run && t_sut) { int64_t v = clock_read(); ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll; return 0; }
    return r_cgt(c, ts);
}
int gettimeofday(struct timeval* tv, void*) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
ssize_t getrandom(void* b, size_t n, unsigned fl) {
    if (!r_getrandom) resolve();
    if (g_in_run && t_sut) { for (size_t i = 0; i < n; i += 4) { uint32_t v = entropy_read(); memcpy((char*)b + i, &v, std::min<size_t>(4, n - i)); } return n; }
    return r_getrandom(b, n, fl);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!r_mlock) resolve();
    if (g_threads && t_id) { while (r_mtry(m)) preempt(true); return 0; }
    return r_mlock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!r_mlock) resolve();
    if (g_threads && t_id) { while (pthread_rwlock_tryrdlock(m)) preempt(true); return 0; }
    return r_rdlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!r_mlock) resolve();
    if (g_threads && t_id) { while (pthread_rwlock_trywrlock(m)) preempt(true); return 0; }
    return r_wrlock(m);
}
int pthread_once(pthread_once_t* c, void (*f)()) {
    volatile int* v = (volatile int*)c;
    while (*v == 1) { if (g_threads && t_id) preempt(true); else sched_yield(); }
    if (*v == 0) { *v = 1; try { f(); } catch (...) { *v = 0; throw; } *v = 2; }
    return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
    volatile char* c = (volatile char*)g;
    if (c[0]) return 0;
    while (c[1]) { if (g_threads && t_id) preempt(true); else sched_yield(); if (c[0]) return 0; }
    c[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { volatile char* c = (volatile char*)g; c[0] = 1; c[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { volatile char* c = (volatile char*)g; c[1] = 0; }
} // extern "C"

static void* op_new(size_t n, size_t al = 16) {
    if (t_sut && a_ready) return a_alloc(n, false, 1, al);
    return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
}
static void op_del(void* p) { if (!p) return; if (in_arena(p)) a_free(p, false); else __libc_free(p); }
void* operator new(size_t n) { void* p = op_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = op_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = op_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { op_del(p); }
void operator delete[](void* p) noexcept { op_del(p); }
void operator delete(void* p, size_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t) noexcept { op_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p); }

namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return entropy_read(); }
random_device::result_type random_device::_M_getval_pretr1() { return entropy_read(); }
double random_device::_M_getentropy() const noexcept { return 32; }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    if (!g_in_run) { struct timespec ts; r_cgt ? r_cgt(CLOCK_REALTIME, &ts) : (resolve(), r_cgt(CLOCK_REALTIME, &ts)); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
    return time_point(duration(clock_read()));
}
steady_clock::time_point steady_clock::now() noexcept {
    if (!g_in_run) { struct timespec ts; r_cgt ? r_cgt(CLOCK_MONOTONIC, &ts) : (resolve(), r_cgt(CLOCK_MONOTONIC, &ts)); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
    return time_point(duration(clock_read()));
}
}}
}

// ================================================================ instrumentation entry points
static inline void acc(const void*, unsigned) { if (t_sut && ++g_steps >= g_stop_at) slow_stop(); }
static inline void accw(const void* a, unsigned) {
    if (!t_sut) return;
    if (++g_steps >= g_stop_at) slow_stop();
    if (g_watch) shared_write(a);
}
static inline void accat(const void* a) {
    if (!t_sut) return;
    if (++g_steps >= g_stop_at) slow_stop();
    if (g_watch) shared_atomic(a);
}
extern "C" {
// block copies the compiler does not instrument; a copy into shared memory can be seen half done
static bool half(void* d, size_t n) { return t_sut && g_watch && n > 8 && is_shared(d); }
void* sim_memcpy(void* d, const void* s, size_t n) {
    if (t_sut && ++g_steps >= g_stop_at) slow_stop();
    if (half(d, n)) { size_t h = n / 16 * 8; memcpy(d, s, h); shared_write(d); memcpy((char*)d + h, (const char*)s + h, n - h); return d; }
    return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
    if (t_sut && ++g_steps >= g_stop_at) slow_stop();
    if (half(d, n) && ((char*)d + n <= (const char*)s || (const char*)s + n <= (char*)d)) return sim_memcpy(d, s, n);
    return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
    if (t_sut && ++g_steps >= g_stop_at) slow_stop();
    if (half(d, n)) { size_t h = n / 16 * 8; memset(d, c, h); shared_write(d); memset((char*)d + h, c, n - h); return d; }
    return memset(d, c, n);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { acc(a, n); } \
    void __tsan_write##n(void* a) { accw(a, n); } \
    void __tsan_unaligned_read##n(void* a) { acc(a, n); } \
    void __tsan_unaligned_write##n(void* a) { accw(a, n); } \
    void __tsan_volatile_read##n(void* a) { acc(a, n); } \
    void __tsan_volatile_write##n(void* a) { accw(a, n); } \
    void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n); } \
    void __tsan_unaligned_volatile_write##n(void* a) { accw(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc(a, (unsigned)n); }
void __tsan_write_range(void* a, size_t n) { accw(a, (unsigned)n); }
void __tsan_vptr_update(void** a, void*) { accw(a, 8); }
void __tsan_vptr_read(void** a) { acc(a, 8); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { acc((const void*)a, 1); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { accat((const void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { accat((const void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { accat((const void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { accat((const void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { accat((const void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { accat((const void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { accat((const void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { accat((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { accat((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}

// ================================================================ command line
static std::string jstr(const char* s) {
    std::string o = "\"";
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string jchoices() {
    std::string o = "[";
    for (uint64_t i = 0; i < S->nch; i++) { if (i) o += ","; o += std::to_string(S->ch[i]); }
    return o + "]";
}
static std::string jresult(bool full) {
    static const char* nm[] = {"ok", "discard", "violation"};
    std::string o = "{\"status\":\""; o += nm[S->status]; o += "\",\"class\":" + jstr(S->cls) + ",\"msg\":" + jstr(S->msg);
    o += ",\"hash\":\"" + std::to_string(S->hash) + "\",\"steps\":" + std::to_string(S->steps) + ",\"nch\":" + std::to_string(S->nch);
    if (full) {
        o += ",\"choices\":" + jchoices() + ",\"limits\":[";
        for (uint64_t i = 0; i < S->nch; i++) { if (i) o += ","; o += std::to_string(S->chn[i]); }
        o += "],\"labels\":[";
        for (uint64_t i = 0; i < S->nch; i++) { if (i) o += ","; o += jstr(S->lab[i]); }
        o += "],\"sample\":" + jstr(S->sample) + ",\"trace\":" + jstr(S->tr);
    }
    return o + "}";
}
static uint64_t shash(const char* s) { return hash_bytes(s, strlen(s), 0); }

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::string cmd = argc > 1 ? argv[1] : "", scen, dir = "/tmp", out, sets;
    uint64_t seed = 1, start = 0, stride = 1, maxruns = ~0ull, maxviol = 20; double tlimit = 1e18; bool hashes = false;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--scenario") scen = v; else if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--start") start = strtoull(v.c_str(), 0, 10); else if (k == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if (k == "--runs") maxruns = strtoull(v.c_str(), 0, 10); else if (k == "--time") tlimit = atof(v.c_str());
        else if (k == "--dir") dir = v; else if (k == "--sets") sets = v; else if (k == "--maxviol") maxviol = strtoull(v.c_str(), 0, 10);
        else if (k == "--hashes") hashes = v == "1"; else if (k == "--cpu") g_cpu_limit = atoi(v.c_str());
    }
    for (Scenario* s = g_scen; s; s = s->next) if (scen == s->id) g_fn = s->fn;
    if (!g_fn) { fprintf(stderr, "sim: unknown scenario '%s'\n", scen.c_str()); return 3; }
    resolve();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { fprintf(stderr, "sim: no shared memory\n"); return 3; }
    arena_init();
    load_exempt();
    std::string d = dir + "/simXXXXXX"; if (!mkdtemp(&d[0])) { fprintf(stderr, "sim: mkdtemp %s failed\n", d.c_str()); return 3; }
    g_dir = d;
    try { throw std::runtime_error("warm"); } catch (const std::exception&) {}
    auto cleanup = [&] { for (int i = 0; i < 64; i++) unlink((g_dir + "/f" + std::to_string(i) + ".txt").c_str()); rmdir(g_dir.c_str()); };
    struct timespec t0; r_cgt(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { struct timespec t; r_cgt(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
    if (cmd == "run") {
        uint64_t runs = 0, disc = 0, nontriv = 0, viol = 0, steps = 0; double st = 0;
        std::map<std::string, uint64_t> ctr, discards; std::unordered_set<uint64_t> states, hs; std::vector<std::string> samples;
        for (uint64_t i = start; runs < maxruns && elapsed() < tlimit && viol < maxviol; i += stride) {
            uint64_t rs = mix(mix(seed) ^ shash(scen.c_str()) ^ mix(i + 17));
            run_once(rs, nullptr, false);
            runs++;
            if (hashes) printf("H %llu %s %llu %llu\n", (unsigned long long)i, S->status == VIOL ? S->cls : S->status == DISCARD ? "discard" : "ok", (unsigned long long)S->hash, (unsigned long long)S->steps);
            if (S->status == DISCARD) { disc++; discards[S->cls]++; continue; }
            for (uint64_t k = 0; k < S->nctr; k++) ctr[S->ctr[k].name] += S->ctr[k].v;
            for (uint64_t k = 0; k < S->nst; k++) if (states.size() < 2000000) states.insert(S->st[k]);
            steps += S->steps; st += S->simtime;
            if (S->nontriv) { nontriv++; if (hs.size() < 2000000) hs.insert(S->hash);
                if (samples.size() < 3 && S->sample_n) samples.push_back("run " + std::to_string(i) + ": " + S->sample); }
            if (S->status == VIOL) { viol++; printf("V {\"run\":%llu,\"seed\":\"%llu\",\"choices\":%s,\"res\":%s}\n", (unsigned long long)i, (unsigned long long)rs, jchoices().c_str(), jresult(false).c_str()); fflush(stdout); }
        }
        std::string o = "S {\"runs\":" + std::to_string(runs) + ",\"discarded\":" + std::to_string(disc) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"violations\":" + std::to_string(viol) + ",\"steps\":" + std::to_string(steps) + ",\"simtime\":" + std::to_string(st) + ",\"wall\":" + std::to_string(elapsed()) + ",\"counters\":{";
        bool f = true; for (auto& c : ctr) { if (!f) o += ","; f = false; o += jstr(c.first.c_str()) + ":" + std::to_string(c.second); }
        o += "},\"discards\":{"; f = true; for (auto& c : discards) { if (!f) o += ","; f = false; o += jstr(c.first.c_str()) + ":" + std::to_string(c.second); }
        o += "},\"samples\":["; f = true; for (auto& s : samples) { if (!f) o += ","; f = false; o += jstr(s.c_str()); }
        o += "]}";
        printf("%s\n", o.c_str());
        if (!sets.empty()) {
            FILE* fo = r_fopen(sets.c_str(), "wb");
            if (fo) { for (auto h : states) { uint64_t w[2] = {1, h}; fwrite(w, 8, 2, fo); } for (auto h : hs) { uint64_t w[2] = {2, h}; fwrite(w, 8, 2, fo); } fclose(fo); }
        }
    } else if (cmd == "batch" || cmd == "trace") {
        // one line of choices in, one JSON result out
        std::string line; int c;
        while (true) {
            line.clear();
            while ((c = getchar()) != EOF && c != '\n') line += (char)c;
            if (c == EOF && line.empty()) break;
            std::vector<uint64_t> ch; const char* p = line.c_str(); char* e;
            while (true) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; while (*p == ',' || *p == ' ') p++; }
            run_once(0, &ch, cmd == "trace");
            std::string r = jresult(cmd == "trace");
            if (cmd == "batch") r = jresult(false).substr(0, jresult(false).size() - 1) + ",\"choices\":" + jchoices() + "}";
            printf("%s\n", r.c_str()); fflush(stdout);
        }
    } else { fprintf(stderr, "usage: sim run|batch|trace --scenario ID ...\n"); cleanup(); return 3; }
    cleanup();
    return 0;
}
