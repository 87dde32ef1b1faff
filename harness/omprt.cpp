/* A stand-in for the OpenMP runtime (preloaded) under which parallel regions are explored.
   The threads of a team are real, but only one runs at a time; where the next one is chosen
   (at the start of a region, before a chunk of iterations is handed out, around critical
   sections, at barriers and ends) the choice comes from outside.

   OMPRT_TEAM=n      threads of a team (1)
   OMPRT_CHUNK=n     iterations handed out at once, instead of what the program asks for (0: as asked for)
   OMPRT_POLICY      first: go on with the thread;  next: hand over to the next one at every point;
                     last: the one with the highest number
   OMPRT_REGION=r    the choices below are for the r-th parallel region (from 1; 0: all, one after another)
   OMPRT_CHOICES=s   digits: which of the threads that can go on does so (0: the current one, if it can)
   OMPRT_LOG=file    "region options runs function" for every choice in that region; or "regions n"
   OMPRT_RACE=file   conflicts of memory accesses which no barrier, fork or common lock keeps apart
                     (needs code compiled with -fsanitize=thread, whose callbacks are here)          */
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

static void die(const char* what)
{
    dprintf(2, "omprt: %s\n", what);
    _exit(99);
}

/* ---------------------------------------------------------------- settings */
static int cfg_team = 1, cfg_region, cfg_policy;
static long cfg_chunk;
static std::string *cfg_choices;
static int logfd = -1, racefd = -1;
static bool inited;

static void init()
{
    if (inited) return;
    inited = true;
    auto num = [](const char* n, long d) { const char* v = getenv(n); return v && *v ? atol(v) : d; };
    cfg_team = num("OMPRT_TEAM", 1);
    cfg_chunk = num("OMPRT_CHUNK", 0);
    cfg_region = num("OMPRT_REGION", -1);
    const char* p = getenv("OMPRT_POLICY");
    cfg_policy = !p ? 0 : !strcmp(p, "next") ? 1 : !strcmp(p, "last") ? 2 : 0;
    const char* c = getenv("OMPRT_CHOICES");
    cfg_choices = new std::string(c ? c : "");
    const char* l = getenv("OMPRT_LOG");
    if (l) logfd = open(l, O_WRONLY | O_CREAT | O_APPEND, 0600);
    const char* r = getenv("OMPRT_RACE");
    if (r) racefd = open(r, O_WRONLY | O_CREAT | O_APPEND, 0600);
}

/* ---------------------------------------------------------------- threads */
struct Team;
struct Loop { bool set = false; bool up = true; uint64_t next, end, incr, chunk; long snext, send, sincr, schunk; };
enum State { READY, BARRIER, LOCK, DONE };

struct Thread {
    int id = 0;
    State state = READY;
    const void* wants = nullptr;
    size_t loops = 0, singles = 0;
    std::set<const void*> locks;
    uint64_t lockbits = 0;
};

struct Team {
    int n;
    void (*fn)(void*);
    void* data;
    Team* parent;
    int region = 0;
    std::vector<Thread> t;
    std::deque<Loop> loops;
    size_t singles = 0;
    std::map<const void*, int> owner;
    int cur = 0;
    uint32_t epoch = 0;
    explicit Team(int n): n(n), fn(), data(), parent(), t(n) { for (int i = 0; i < n; i++) t[i].id = i; }
};

static thread_local Team* team;
static thread_local int me;
/* the team of the outermost region: the inner ones have a single thread */
static thread_local Team* outer;
static thread_local int ome;
static Team* serial() { static Team* s = new Team(1); return s; }
static Team* T() { return team ? team : serial(); }
static Thread& self() { return T()->t[me]; }

/* pool: worker i of the outermost team */
struct Worker { pthread_t th; int go = 0; Team* job = nullptr; int id; char *lo, *hi; };
static std::vector<Worker*>* pool;
static int main_go;
static void fwait(int* p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
static void fwake(int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static int regions;
static size_t used;

/* who goes on; the options: the current one first if it can, then the others by number */
static int choose(Team* tm)
{
    std::vector<int> opt;
    bool runs = tm->t[tm->cur].state == READY;
    if (runs) opt.push_back(tm->cur);
    for (int i = 1; i <= tm->n; i++) {
        int k = (tm->cur + i) % tm->n;
        if (k != tm->cur && tm->t[k].state == READY) opt.push_back(k);
    }
    if (opt.empty()) {
        bool done = true;
        for (Thread& t: tm->t) done &= t.state == DONE;
        if (done) return -1;
        die("deadlock");
    }
    if (cfg_region == 0 || cfg_region == tm->region) {
        size_t c = 0;
        if (opt.size() > 1) {
            if (used < cfg_choices->size()) c = (*cfg_choices)[used] - '0';
            used++;
            if (logfd >= 0) { Dl_info i = {}; dladdr((void*)tm->fn, &i); dprintf(logfd, "%d %zu %d %lx\n", tm->region, opt.size(), int(runs), (unsigned long)((char*)tm->fn - (char*)i.dli_fbase)); }
            if (c >= opt.size()) die("no such choice");
        }
        return opt[c];
    }
    if (cfg_policy == 1) return opt[opt.size() > 1 && runs ? 1 : 0];
    if (cfg_policy == 2) { int m = opt[0]; for (int o: opt) m = o > m ? o : m; return m; }
    return opt[0];
}

static void* work(void* p);
static void hand_over(Team* tm, bool leave)
{
    int k = choose(tm);
    if (k == me && !leave) return;
    int mine = me;
    if (k < 0) { fwake(&main_go); return; }
    tm->cur = k;
    fwake(&(*pool)[k]->go);
    if (!leave) { fwait(&(*pool)[mine]->go); }
}

static void point()
{
    Team* tm = T();
    if (tm->n == 1) return;
    hand_over(tm, false);
}

static void race_epoch();
static void barrier()
{
    Team* tm = T();
    if (tm->n == 1) return;
    Thread& t = self();
    t.state = BARRIER;
    bool all = true;
    for (Thread& o: tm->t) all &= o.state == BARRIER;
    // those which have ended do not take part: a program that does so is wrong, which shows as a deadlock
    if (all) {
        for (Thread& o: tm->t) o.state = READY;
        tm->epoch++;
        race_epoch();
    }
    hand_over(tm, false);
}

static void* work(void* p)
{
    Worker* w = (Worker*)p;
    pthread_attr_t a;
    void* base; size_t size;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &base, &size);
    pthread_attr_destroy(&a);
    w->lo = (char*)base; w->hi = (char*)base + size;
    while (true) {
        fwait(&w->go);
        Team* tm = w->job;
        team = outer = tm; me = ome = w->id;
        tm->fn(tm->data);
        tm->t[me].state = DONE;
        hand_over(tm, true);
    }
    return nullptr;
}

static bool in_region;
static void race_begin();
static void race_end();

static void parallel(void (*fn)(void*), void* data, unsigned num)
{
    init();
    int n = num ? num : cfg_team;
    if (team || n <= 1) { /* nested, or nothing to choose */
        Team s(1);
        Team* old = team; int oldme = me;
        if (!old) s.region = ++regions;
        team = &s; me = 0;
        fn(data);
        team = old; me = oldme;
        return;
    }
    Team tm(n);
    tm.fn = fn; tm.data = data; tm.region = ++regions;
    if (!pool) pool = new std::vector<Worker*>;
    while ((int)pool->size() < n) {
        Worker* w = new Worker;
        w->id = pool->size();
        w->lo = w->hi = nullptr;
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 1 << 20);
        if (pthread_create(&w->th, &a, work, w)) die("no thread");
        pool->push_back(w);
    }
    for (int i = 0; i < n; i++) (*pool)[i]->job = &tm;
    race_begin();
    in_region = true;
    tm.cur = 0;
    int k = choose(&tm);
    tm.cur = k;
    fwake(&(*pool)[k]->go);
    fwait(&main_go);
    in_region = false;
    race_end();
}

__attribute__((destructor)) static void fini()
{
    if (logfd >= 0) dprintf(logfd, "regions %d\n", regions);
}

/* ---------------------------------------------------------------- locks */
static char default_lock;
static void lock(const void* l)
{
    Team* tm = outer ? outer : T();
    Thread& t = tm->t[outer ? ome : me];
    point();
    while (tm->owner.count(l)) {
        if (tm->n == 1) die("deadlock");
        t.state = LOCK; t.wants = l;
        hand_over(tm, false);
    }
    tm->owner[l] = t.id;
    t.locks.insert(l);
    t.lockbits |= 1ull << (((uintptr_t)l * 0x9E3779B97F4A7C15ull) >> 59);
}
static void unlock(const void* l)
{
    Team* tm = outer ? outer : T();
    Thread& t = tm->t[outer ? ome : me];
    tm->owner.erase(l);
    t.locks.erase(l);
    t.lockbits = 0;
    for (const void* o: t.locks) t.lockbits |= 1ull << (((uintptr_t)o * 0x9E3779B97F4A7C15ull) >> 59);
    for (Thread& o: tm->t) if (o.state == LOCK && o.wants == l) o.state = READY;
    point();
}

/* ---------------------------------------------------------------- loops */
static Loop& next_loop()
{
    Team* tm = T();
    size_t k = self().loops++;
    while (tm->loops.size() <= k) tm->loops.emplace_back();
    return tm->loops[k];
}
static Loop& this_loop() { return T()->loops[self().loops - 1]; }

static bool next(long* s, long* e)
{
    init();
    point();
    Loop& l = this_loop();
    if (l.sincr > 0 ? l.snext >= l.send : l.snext <= l.send) return false;
    long c = (cfg_chunk ? cfg_chunk : l.schunk) * l.sincr;
    *s = l.snext;
    *e = l.snext + c;
    if (l.sincr > 0 ? (*e > l.send || *e < *s) : (*e < l.send || *e > *s)) *e = l.send;
    l.snext = *e;
    return true;
}
static bool start(long a, long b, long incr, long chunk, long* s, long* e)
{
    Loop& l = next_loop();
    if (!l.set) { l.set = true; l.snext = a; l.send = b; l.sincr = incr; l.schunk = chunk > 0 ? chunk : 1; }
    return next(s, e);
}
typedef unsigned long long ull;
static bool unext(ull* s, ull* e)
{
    init();
    point();
    Loop& l = this_loop();
    if (l.up ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next;
    ull c = cfg_chunk ? cfg_chunk : l.chunk;
    if (l.up) {
        ull left = (l.end - l.next + l.incr - 1) / l.incr;
        *e = left <= c ? l.end : l.next + c * l.incr;
    } else {
        ull step = -l.incr, left = (l.next - l.end + step - 1) / step;
        *e = left <= c ? l.end : l.next - c * step;
    }
    l.next = *e;
    return true;
}
static bool ustart(bool up, ull a, ull b, ull incr, ull chunk, ull* s, ull* e)
{
    Loop& l = next_loop();
    if (!l.set) { l.set = true; l.up = up; l.next = a; l.end = b; l.incr = incr; l.chunk = chunk > 0 ? chunk : 1; }
    return unext(s, e);
}
struct WithLoop { void (*fn)(void*); void* data; long a, b, incr, chunk; };

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_critical_start() { lock(&default_lock); }
void GOMP_critical_end() { unlock(&default_lock); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
static char atomic_lock;
void GOMP_atomic_start() { lock(&atomic_lock); }
void GOMP_atomic_end() { unlock(&atomic_lock); }
#define DYN(kind) \
bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long* s, long* e) { return start(a, b, i, c, s, e); } \
bool GOMP_loop_##kind##_next(long* s, long* e) { return next(s, e); } \
bool GOMP_loop_ull_##kind##_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { return ustart(up, a, b, i, c, s, e); } \
bool GOMP_loop_ull_##kind##_next(ull* s, ull* e) { return unext(s, e); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided) DYN(static)
#define RUN(kind) \
bool GOMP_loop_##kind##_start(long a, long b, long i, long* s, long* e) { return start(a, b, i, 1, s, e); } \
bool GOMP_loop_##kind##_next(long* s, long* e) { return next(s, e); } \
bool GOMP_loop_ull_##kind##_start(bool up, ull a, ull b, ull i, ull* s, ull* e) { return ustart(up, a, b, i, 1, s, e); } \
bool GOMP_loop_ull_##kind##_next(ull* s, ull* e) { return unext(s, e); }
RUN(runtime) RUN(nonmonotonic_runtime) RUN(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
static void with_loop(void* p)
{
    WithLoop* w = (WithLoop*)p;
    Team* tm = T();
    if (tm->loops.empty()) tm->loops.emplace_back();
    Loop& l = tm->loops[0];
    if (!l.set) { l.set = true; l.snext = w->a; l.send = w->b; l.sincr = w->incr; l.schunk = w->chunk > 0 ? w->chunk : 1; }
    self().loops = 1;
    w->fn(w->data);
}
static void parallel_loop(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c)
{
    WithLoop w = {fn, data, a, b, i, c};
    parallel(with_loop, &w, n);
}
#define PAR(kind) void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { parallel_loop(fn, d, n, a, b, i, c); }
PAR(dynamic) PAR(guided) PAR(nonmonotonic_dynamic) PAR(nonmonotonic_guided) PAR(static)
#define PARR(kind) void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { parallel_loop(fn, d, n, a, b, i, 1); }
PARR(runtime) PARR(nonmonotonic_runtime) PARR(maybe_nonmonotonic_runtime)
bool GOMP_single_start()
{
    point();
    Team* tm = T();
    size_t k = self().singles++;
    if (tm->singles > k) return false;
    tm->singles = k + 1;
    return true;
}
unsigned GOMP_sections_start(unsigned n) { long s, e; return start(1, n + 1, 1, 1, &s, &e) ? s : 0; }
unsigned GOMP_sections_next() { long s, e; return next(&s, &e) ? s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
int omp_get_num_threads() { return T()->n; }
int omp_get_thread_num() { return me; }
int omp_get_max_threads() { init(); return cfg_team; }
int omp_get_num_procs() { init(); return cfg_team; }
void omp_set_num_threads(int n) { init(); cfg_team = n > 0 ? n : 1; }
int omp_in_parallel() { return T()->n > 1; }
int omp_get_dynamic() { return 0; }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** p) { lock(p); }
void omp_unset_lock(void** p) { unlock(p); }
int omp_test_lock(void** p) { if (T()->owner.count(p)) return 0; lock(p); return 1; }
}

/* ---------------------------------------------------------------- conflicts */
struct Byte { int32_t w = -1, r = -1; uint64_t wl = 0, rl = 0; const void *wpc = nullptr, *rpc = nullptr; };
struct Word { uint32_t stamp = 0; Byte b[8]; };
static std::unordered_map<uintptr_t, Word>* shadow;
static uint32_t stamp;
static thread_local bool busy;
static thread_local int constructing;
static std::set<std::string>* told;
static std::vector<void*>* later;
static const uint64_t ATOMIC = 1ull << 63;

static void race_begin() { if (racefd < 0) return; if (!shadow) { shadow = new std::unordered_map<uintptr_t, Word>; told = new std::set<std::string>; } shadow->clear(); stamp++; }
static void race_epoch() { if (racefd >= 0) { busy = true; shadow->clear(); busy = false; stamp++; } }

static std::string place(const void* pc)
{
    Dl_info i;
    if (dladdr(pc, &i) && i.dli_fname) {
        char b[600];
        const char* f = strrchr(i.dli_fname, '/');
        snprintf(b, sizeof b, "%s+%lx(%s)", f ? f + 1 : i.dli_fname, (unsigned long)((char*)pc - (char*)i.dli_fbase), i.dli_sname ? i.dli_sname : "?");
        return b;
    }
    return "?";
}

static void tell(bool w1, const void* p1, bool w2, const void* p2, uintptr_t a)
{
    std::string s = std::string(w1 ? "W " : "R ") + place(p1) + (w2 ? " W " : " R ") + place(p2);
    if (!told->insert(s).second) return;
    dprintf(racefd, "%d %s\n", outer->region, s.c_str());
}

static inline void access(const void* p, size_t n, bool write, const void* pc, uint64_t extra = 0)
{
    if (!in_region || racefd < 0 || !outer || busy || constructing) return;
    const int me = ome;
    Worker* w = (*pool)[me];
    if ((char*)p >= w->lo && (char*)p < w->hi) return; // its own
    busy = true;
    uint64_t locks = outer->t[me].lockbits | extra;
    for (size_t k = 0; k < n; k++) {
        uintptr_t a = (uintptr_t)p + k;
        Word& wd = (*shadow)[a >> 3];
        Byte& b = wd.b[a & 7];
        if (b.w != -1 && b.w != me && !(b.wl & locks)) tell(true, b.wpc, write, pc, a);
        if (write && b.r != -1 && b.r != me && !(b.rl & locks)) tell(false, b.rpc, true, pc, a);
        if (write) {
            b.wl = b.w == -1 ? locks : b.wl & locks;
            b.w = b.w == -1 || b.w == me ? me : -2;
            b.wpc = pc;
        } else {
            b.rl = b.r == -1 ? locks : b.rl & locks;
            b.r = b.r == -1 || b.r == me ? me : -2;
            b.rpc = pc;
        }
    }
    busy = false;
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { access(p, 1, false, PC); }
void __tsan_read2(void* p) { access(p, 2, false, PC); }
void __tsan_read4(void* p) { access(p, 4, false, PC); }
void __tsan_read8(void* p) { access(p, 8, false, PC); }
void __tsan_read16(void* p) { access(p, 16, false, PC); }
void __tsan_write1(void* p) { access(p, 1, true, PC); }
void __tsan_write2(void* p) { access(p, 2, true, PC); }
void __tsan_write4(void* p) { access(p, 4, true, PC); }
void __tsan_write8(void* p) { access(p, 8, true, PC); }
void __tsan_write16(void* p) { access(p, 16, true, PC); }
void __tsan_unaligned_read2(void* p) { access(p, 2, false, PC); }
void __tsan_unaligned_read4(void* p) { access(p, 4, false, PC); }
void __tsan_unaligned_read8(void* p) { access(p, 8, false, PC); }
void __tsan_unaligned_read16(void* p) { access(p, 16, false, PC); }
void __tsan_unaligned_write2(void* p) { access(p, 2, true, PC); }
void __tsan_unaligned_write4(void* p) { access(p, 4, true, PC); }
void __tsan_unaligned_write8(void* p) { access(p, 8, true, PC); }
void __tsan_unaligned_write16(void* p) { access(p, 16, true, PC); }
void __tsan_volatile_read1(void* p) { access(p, 1, false, PC); }
void __tsan_volatile_read2(void* p) { access(p, 2, false, PC); }
void __tsan_volatile_read4(void* p) { access(p, 4, false, PC); }
void __tsan_volatile_read8(void* p) { access(p, 8, false, PC); }
void __tsan_volatile_write1(void* p) { access(p, 1, true, PC); }
void __tsan_volatile_write2(void* p) { access(p, 2, true, PC); }
void __tsan_volatile_write4(void* p) { access(p, 4, true, PC); }
void __tsan_volatile_write8(void* p) { access(p, 8, true, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, type) \
type __tsan_atomic##bits##_load(const volatile type* p, int) { access((void*)p, bits / 8, false, PC, ATOMIC); return *p; } \
void __tsan_atomic##bits##_store(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); *p = v; } \
type __tsan_atomic##bits##_exchange(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; *p = v; return o; } \
type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; *p = o + v; return o; } \
type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; *p = o - v; return o; } \
type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; *p = o & v; return o; } \
type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; *p = o | v; return o; } \
type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* c, type v, int, int) { access((void*)p, bits / 8, true, PC, ATOMIC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* c, type v, int, int) { access((void*)p, bits / 8, true, PC, ATOMIC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type c, type v, int, int) { access((void*)p, bits / 8, true, PC, ATOMIC); type o = *p; if (o == c) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

/* memory that goes free in a region does not come back in it */
static void (*real_free)(void*);
void free(void* p)
{
    if (!real_free) {
        static bool looking;
        if (looking) return; // dlsym's own
        looking = true;
        real_free = (void (*)(void*))dlsym(RTLD_NEXT, "free");
        looking = false;
    }
    if (racefd >= 0 && in_region && team && !busy && p) {
        busy = true;
        if (!later) later = new std::vector<void*>;
        later->push_back(p);
        busy = false;
        return;
    }
    real_free(p);
}
/* the first call makes what the others only look at */
static int (*real_acq)(void*);
static void (*real_rel)(void*);
static void (*real_abort)(void*);
int __cxa_guard_acquire(long long* g)
{
    if (!real_acq) real_acq = (int (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = real_acq(g);
    if (r) constructing++;
    return r;
}
void __cxa_guard_release(long long* g)
{
    if (!real_rel) real_rel = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_release");
    constructing--;
    real_rel(g);
}
void __cxa_guard_abort(long long* g)
{
    if (!real_abort) real_abort = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_abort");
    constructing--;
    real_abort(g);
}
/* what the compiler leaves to the library */
void* memcpy(void* d, const void* s, size_t n)
{
    if (in_region) { access(s, n, false, PC); access(d, n, true, PC); }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n)
{
    if (in_region) { access(s, n, false, PC); access(d, n, true, PC); }
    void* r = d;
    if ((char*)d > (const char*)s && (char*)d < (const char*)s + n) {
        char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1;
        __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) :: "memory");
    } else
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
    return r;
}
void* memset(void* d, int c, size_t n)
{
    if (in_region) access(d, n, true, PC);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
}
static void race_end()
{
    if (racefd < 0) return;
    shadow->clear();
    stamp++;
    if (later) { for (void* p: *later) real_free(p); later->clear(); }
}
