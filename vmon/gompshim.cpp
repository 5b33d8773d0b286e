// Minimal replacement of the libgomp entry points that gcc emits for the pragmas used by the engine, on plain
// pthreads so that ThreadSanitizer sees every synchronisation (team start/join, barriers, critical, single).
// It also gives control over the schedule: VMON_OMP_MODE selects how team members are run.
//   par  : real threads (default)
//   seq  : members are run one at a time between barriers, in an order permuted per region from VMON_OMP_SEED
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <map>
#include <string>
#include <atomic>
#include <thread>
#include <algorithm>
#include <sched.h>
#include <exception>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {
struct Loop { long next=0, end=0, incr=1, chunk=1; };
struct Team {
    int n = 1;
    std::mutex m;
    std::condition_variable cv;
    long gen = 0;
    int arrived = 0;
    bool seq = false;
    bool preloop = false;
    uint64_t rng = 1;
    std::vector<int> order;      // seq mode: order of members in the current phase
    int turn = 0;                // seq mode: index into order of the member allowed to run
    std::vector<char> done;
    long single_next = 0;        // number of single constructs claimed
    std::mutex loops_m;
    std::map<long, Loop> loops;  // dynamically scheduled loops, by per-member ordinal
};
struct Ctx { Team* t = nullptr; int id = 0; long singles = 0; long loop_ord = 0; };
thread_local Ctx ctx;
Team solo;
std::atomic<long> n_regions{0}, n_multi{0}, n_barriers{0}, n_single{0};
std::mutex name_m;
std::mutex crit_default;
int forced_max = 0;
std::atomic<uint64_t> region_counter{0};

uint64_t mix(uint64_t z){ z += 0x9E3779B97F4A7C15ull; z = (z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }

void shuffle_order(Team* t){
    t->order.resize(t->n);
    for (int i=0;i<t->n;i++) t->order[i]=i;
    for (int i=t->n-1;i>0;i--){ t->rng = mix(t->rng); std::swap(t->order[i], t->order[t->rng % (i+1)]); }
}
const char* mode(){ const char* e = getenv("VMON_OMP_MODE"); return e ? e : "par"; }
uint64_t seedv(){ const char* e = getenv("VMON_OMP_SEED"); return e ? strtoull(e,nullptr,10) : 0; }

void wait_turn(Team* t, std::unique_lock<std::mutex>& l, int id){
    t->cv.wait(l, [&]{ return t->turn < t->n && t->order[t->turn]==id; });
}
void jitter(){
    static thread_local uint64_t r = mix(seedv() ^ (uint64_t)(uintptr_t)&r);
    r = mix(r);
    if ((r & 3) == 0) for (unsigned i=0;i<((r>>8)&7);i++) sched_yield();
}
void team_barrier(){
    Team* t = ctx.t;
    if (!t || t->n<=1) return;
    n_barriers++;
    std::unique_lock<std::mutex> l(t->m);
    long g = t->gen;
    if (!t->seq){
        if (++t->arrived == t->n){ t->arrived=0; t->gen++; t->cv.notify_all(); }
        else t->cv.wait(l, [&]{ return t->gen != g; });
        l.unlock(); jitter();
        return;
    }
    // seq: hand the turn over; when all have reached the barrier, draw a new order
    t->arrived++;
    if (t->arrived == t->n){ t->arrived = 0; t->gen++; shuffle_order(t); t->turn = 0; }
    else t->turn++;
    t->cv.notify_all();
    int me = ctx.id;
    t->cv.wait(l, [&]{ return t->gen != g && t->turn < t->n && t->order[t->turn]==me; });
}
struct Start { void (*fn)(void*); void* data; Team* t; int id; };
void run_member(Start s){
    Ctx saved = ctx;
    ctx = Ctx{s.t, s.id, 0, s.t->preloop ? 1 : 0};
    if (s.t->seq){ std::unique_lock<std::mutex> l(s.t->m); wait_turn(s.t, l, s.id); }
    else jitter();
    s.fn(s.data);
    if (s.t->seq){ std::unique_lock<std::mutex> l(s.t->m); s.t->turn++; s.t->cv.notify_all(); }
    ctx = saved;
}
void* thread_main(void* p){ Start s = *(Start*)p; run_member(s); return nullptr; }
}

EXPORT void vmon_omp_set_max(int n){ forced_max = n; }
EXPORT long vmon_omp_regions(){ return n_regions; }
EXPORT long vmon_omp_multi_regions(){ return n_multi; }
EXPORT long vmon_omp_barriers(){ return n_barriers; }
EXPORT long vmon_omp_singles(){ return n_single; }

EXPORT int omp_get_max_threads(){ if (forced_max) return forced_max; const char* e=getenv("OMP_NUM_THREADS"); int n = e?atoi(e):4; return n>0?n:4; }
EXPORT int omp_get_num_threads(){ return ctx.t ? ctx.t->n : 1; }
EXPORT int omp_get_thread_num(){ return ctx.t ? ctx.id : 0; }
EXPORT int omp_in_parallel(){ return ctx.t && ctx.t->n>1; }
EXPORT int omp_get_num_procs(){ return 8; }
EXPORT void omp_set_num_threads(int n){ forced_max = n; }
EXPORT void omp_set_dynamic(int){}

static thread_local Loop* pre_loop = nullptr;
EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned nthreads, unsigned /*flags*/){
    n_regions++;
    int n = nthreads ? (int)nthreads : omp_get_max_threads();
    if (ctx.t) n = 1;                         // nested regions are serialised
    if (n > 64) n = 64;
    Team t; t.n = n;
    t.seq = strcmp(mode(), "seq")==0 && n>1;
    t.rng = mix(seedv()*1000003ull + ++region_counter);
    if (t.seq) shuffle_order(&t);
    if (pre_loop){ t.loops[1] = *pre_loop; t.preloop = true; pre_loop = nullptr; }
    if (n>1) n_multi++;
    std::vector<pthread_t> th(n>1?n-1:0);
    std::vector<Start> st(n);
    for (int i=0;i<n;i++) st[i] = Start{fn, data, &t, i};
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1<<20);
    for (int i=1;i<n;i++) if (pthread_create(&th[i-1], &at, thread_main, &st[i])) abort();
    pthread_attr_destroy(&at);
    run_member(st[0]);
    for (int i=1;i<n;i++) pthread_join(th[i-1], nullptr);
}
EXPORT void GOMP_barrier(){ team_barrier(); }
EXPORT bool GOMP_single_start(){
    Team* t = ctx.t;
    n_single++;
    if (!t || t->n<=1) return true;
    std::unique_lock<std::mutex> l(t->m);
    ctx.singles++;
    if (t->single_next < ctx.singles){ t->single_next = ctx.singles; return true; }
    return false;
}
static std::mutex* named(void** p){
    std::lock_guard<std::mutex> g(name_m);
    if (!*p) *p = new std::mutex();
    return (std::mutex*)*p;
}
EXPORT void GOMP_critical_name_start(void** p){ named(p)->lock(); }
EXPORT void GOMP_critical_name_end(void** p){ named(p)->unlock(); }
EXPORT void GOMP_critical_start(){ crit_default.lock(); }
EXPORT void GOMP_critical_end(){ crit_default.unlock(); }
EXPORT void GOMP_atomic_start(){ crit_default.lock(); }
EXPORT void GOMP_atomic_end(){ crit_default.unlock(); }

// dynamic / guided / runtime loop schedules, so that a change of the schedule clause still links
static bool loop_next(long* s, long* e){
    Team* t = ctx.t; if (!t) t = &solo;
    std::lock_guard<std::mutex> g(t->loops_m);
    Loop& L = t->loops[ctx.loop_ord];
    if ((L.incr>0 && L.next>=L.end) || (L.incr<0 && L.next<=L.end)) return false;
    *s = L.next; long n = L.next + L.chunk*L.incr;
    if ((L.incr>0 && n>L.end) || (L.incr<0 && n<L.end)) n = L.end;
    *e = n; L.next = n; return true;
}
static bool loop_start(long start, long end, long incr, long chunk, long* s, long* e){
    Team* t = ctx.t; if (!t) t = &solo;
    ctx.loop_ord++;
    { std::lock_guard<std::mutex> g(t->loops_m);
      if (!t->loops.count(ctx.loop_ord)){ Loop L; L.next=start; L.end=end; L.incr=incr; L.chunk=chunk>0?chunk:1; t->loops[ctx.loop_ord]=L; } }
    return loop_next(s, e);
}
static void loop_cleanup(){}
#define LOOPS(kind) \
EXPORT bool GOMP_loop_##kind##_start(long a,long b,long c,long d,long*s,long*e){ return loop_start(a,b,c,d,s,e); } \
EXPORT bool GOMP_loop_##kind##_next(long*s,long*e){ return loop_next(s,e); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
// combined "parallel for" with a non-static schedule: the loop exists before the team starts
static void par_loop(void (*fn)(void*), void* data, unsigned nthreads, long start, long end, long incr, long chunk);
#define PLOOP(kind) EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long a,long b,long c,long ch,unsigned){ par_loop(fn,d,n,a,b,c,ch); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
EXPORT void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long a,long b,long c,unsigned){ par_loop(fn,d,n,a,b,c,1); }
EXPORT void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long a,long b,long c,unsigned){ par_loop(fn,d,n,a,b,c,1); }
EXPORT void GOMP_loop_end(){ loop_cleanup(); team_barrier(); }
EXPORT void GOMP_loop_end_nowait(){ loop_cleanup(); }
EXPORT bool GOMP_loop_runtime_start(long a,long b,long c,long*s,long*e){ return loop_start(a,b,c,1,s,e); }
EXPORT bool GOMP_loop_runtime_next(long*s,long*e){ return loop_next(s,e); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a,long b,long c,long*s,long*e){ return loop_start(a,b,c,1,s,e); }
EXPORT bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*s,long*e){ return loop_next(s,e); }
EXPORT void omp_init_lock(void** p){ *p = new std::mutex(); }
EXPORT void omp_destroy_lock(void** p){ delete (std::mutex*)*p; *p=nullptr; }
EXPORT void omp_set_lock(void** p){ ((std::mutex*)*p)->lock(); }
EXPORT void omp_unset_lock(void** p){ ((std::mutex*)*p)->unlock(); }
EXPORT double omp_get_wtime(){ struct timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec+1e-9*ts.tv_nsec; }
EXPORT int omp_get_level(){ return ctx.t?1:0; }
EXPORT int omp_get_dynamic(){ return 0; }
EXPORT int omp_get_nested(){ return 0; }
EXPORT void omp_set_nested(int){}
EXPORT int omp_get_thread_limit(){ return 64; }
EXPORT int omp_get_max_active_levels(){ return 1; }
EXPORT void omp_set_max_active_levels(int){}
EXPORT int omp_get_ancestor_thread_num(int){ return ctx.t?ctx.id:0; }
EXPORT int omp_get_team_size(int){ return ctx.t?ctx.t->n:1; }
EXPORT int omp_get_active_level(){ return ctx.t&&ctx.t->n>1; }
static void par_loop(void (*fn)(void*), void* data, unsigned nthreads, long start, long end, long incr, long chunk){
    Loop L; L.next=start; L.end=end; L.incr=incr; L.chunk=chunk>0?chunk:1;
    pre_loop = &L;
    GOMP_parallel(fn, data, nthreads, 0);
}

// positive and negative control for the race detector: an unordered write and an ordered one
static volatile long selftest_racy = 0, selftest_ok = 0;
static void selftest_body(void*){ selftest_racy = selftest_racy + 1; GOMP_critical_start(); selftest_ok = selftest_ok + 1; GOMP_critical_end(); }
EXPORT long vmon_race_selftest(){ GOMP_parallel(selftest_body, nullptr, 4, 0); return selftest_ok; }
