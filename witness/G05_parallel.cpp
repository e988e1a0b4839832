// parallel_execute under an adversarial scheduler.  Threads and mutexes are stand-ins: wherever a thread holds no mutex (when it
// releases one, and while it executes a job) another thread that has not started may run, as the free choices decide.
#include "ring.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <utility>
static const void* holding;
static bool viol[20];
#define REQ(i, c) (viol[i] = viol[i] || !(c))
#define RULES vf_true("a thread ends without a mutex held", !viol[0]); vf_true("no mutex is taken while another one is held", !viol[1]); vf_true("a mutex is free when no thread holds one", !viol[2]); vf_true("a mutex is released by its holder", !viol[3]); vf_true("a mutex outlives its holders", !viol[4]); vf_true("a lock is released once", !viol[5]); vf_true("no running thread is overwritten", !viol[6]); vf_true("only a started thread is joined, once", !viol[7]); vf_true("a joined thread has ended", !viol[8]); vf_true("no thread is left running", !viol[9]); vf_true("every thread is joined before its object is gone", !viol[10]); vf_true("LOCK holds the mutex", !viol[11]); vf_true("the job provider is called under one and the same lock (or by the only thread)", !viol[13]); vf_true("next_job is called only when there is one", !viol[14]); vf_true("the result collector is called under one and the same lock (or by the only thread)", !viol[15]); vf_true("no mutex is held while a job is executed", !viol[16]); vf_true("a worker belongs to the thread that asked for it", !viol[17]); vf_true("a worker executes one job at a time", !viol[18]); vf_true("the worker provider is called under one and the same lock (or by the only thread)", !viol[19]);
static int held, cur, steps[4], nthreads, started[4], ended[4], joined[4]; static void (*entry[4])(void*); static void* arg[4];
static void run(int k) { if (started[k]) return; started[k] = 1; int c = cur; cur = k; entry[k](arg[k]); REQ(0, held == 0); held = 0; cur = c; ended[k] = 1; }
static void preempt() { if (held || steps[cur] >= VF_STEPS) return; int s = steps[cur]++; for (int k = 1; k <= nthreads; k++) if (!started[k] && bool_sym(100 * cur + 8 * s + k)) run(k); }
namespace vfstd {
using namespace std;
struct mutex {
    int owner = 0; mutex() {} mutex(const mutex&) = delete;
    void lock() { REQ(1, held == 0); REQ(2, owner == 0); owner = cur + 1; held++; holding = this; }
    void unlock() { REQ(3, owner == cur + 1); owner = 0; held--; preempt(); }
    bool try_lock() { if (owner) return false; lock(); return true; }
    bool mine() const { return owner == cur + 1; }
    ~mutex() { REQ(4, owner == 0); }
};
struct defer_lock_t {}; static defer_lock_t defer_lock; struct adopt_lock_t {}; static adopt_lock_t adopt_lock;
template<class M> struct unique_lock { M* m; bool o; explicit unique_lock(M& x) : m(&x), o(true) { x.lock(); } unique_lock(M& x, defer_lock_t) : m(&x), o(false) {} unique_lock(M& x, adopt_lock_t) : m(&x), o(true) {} unique_lock(const unique_lock&) = delete; unique_lock(unique_lock&& r) : m(r.m), o(r.o) { r.o = false; } void lock() { m->lock(); o = true; } void unlock() { REQ(5, o); o = false; m->unlock(); } bool owns_lock() const { return o; } ~unique_lock() { if (o) m->unlock(); } };
template<class... M> struct lock_guard; template<class M> struct lock_guard<M> { M& m; explicit lock_guard(M& x) : m(x) { x.lock(); } lock_guard(M& x, adopt_lock_t) : m(x) {} lock_guard(const lock_guard&) = delete; ~lock_guard() { m.unlock(); } };
template<class M> struct scoped_lock : lock_guard<M> { explicit scoped_lock(M& x) : lock_guard<M>(x) {} };
template<class M> using shared_lock = unique_lock<M>;
typedef mutex shared_mutex; typedef mutex recursive_mutex; typedef mutex timed_mutex;
struct thread {
    int id = 0; thread() {} thread(const thread&) = delete; thread(thread&& r) : id(r.id) { r.id = 0; } thread& operator=(thread&& r) { REQ(6, id == 0); id = r.id; r.id = 0; return *this; }
    template<class F> static void call(void* p) { (*(F*)p)(); }
    template<class F> struct cat { typedef typename std::decay<F>::type type; };
    template<class F, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, thread>::value>::type> explicit thread(F&& f) { typedef typename cat<F>::type G; id = ++nthreads; entry[id] = &call<G>; arg[id] = new G(std::forward<F>(f)); steps[id] = started[id] = ended[id] = joined[id] = 0; preempt(); }
    void join() { REQ(7, id != 0 && !joined[id]); run(id); REQ(8, ended[id]); joined[id] = 1; id = 0; }
    bool joinable() const { return id != 0; }
    void detach() { REQ(9, false); }
    static unsigned hardware_concurrency() { return 2; }
    ~thread() { REQ(10, id == 0); }
};
}
#define std vfstd
#include "altruct/concurrency/concurrency.h"
INL void lock_body(std::mutex& m, int how, int& n, int& after) { for (int once = 0; once < 1; once++) { LOCK(m) { n++; REQ(11, held == 1 && m.mine()); if (how == 1) break; if (how == 2) continue; if (how == 3) return; n += 10; } after++; } }
#undef std
using namespace altruct::concurrency;
INL int pick(int i, int n) { int v = 0; for (int b = 0; (1 << b) < n; b++) v += bool_sym(5000 + 4 * i + b) ? 1 << b : 0; vf_assume(v < n); return v; }
static void fresh() { for (int i = 0; i < 20; i++) viol[i] = false; held = cur = nthreads = 0; for (int i = 0; i < 4; i++) steps[i] = started[i] = 0; }
struct Job { int no; };
struct Guard { const void* g = nullptr; bool same() { if (!nthreads) return true; if (held != 1) return false; if (!g) g = holding; return g == holding; } };
struct Provider { Guard guard; int n; explicit Provider(int n) : n(n) {} int next = 0; int given[4] = { 0, 0, 0, 0 }; bool has_next_job() { REQ(13, guard.same()); return next < n; } Job next_job() { REQ(13, guard.same()); REQ(14, next < n); given[next]++; return Job{ next++ }; } };
struct Collector { Guard guard; int got[4] = { 0, 0, 0, 0 }; bool right = true; void collect_result(int r, const Job& j) { REQ(15, guard.same()); for (int i = 0; i < 4; i++) if (j.no == i) got[i]++; right = right && r == 10 + j.no; } };
struct Workers { Guard guard; int made = 0, live = 0; int ran[4] = { 0, 0, 0, 0 };
    struct Worker { Workers* w; int owner; bool busy = false; int execute_job(const Job& j) { REQ(16, held == 0); REQ(17, owner == cur); REQ(18, !busy); busy = true; int n = j.no; for (int i = 0; i < 4; i++) if (n == i) w->ran[i]++; preempt(); busy = false; return 10 + n; } };
    Worker create_worker() { REQ(19, guard.same()); made++; return Worker{ this, cur }; } };
#define RUN(T, N) W(threads##T##_jobs##N) { fresh(); Provider p{ N }; Collector c; Workers w; parallel_execute(c, p, w, T); RULES vf_true("no mutex is held afterwards", held == 0); for (int k = 1; k <= nthreads; k++) vf_true("every thread has ended and was joined", ended[k] && joined[k]); \
    vf_true("as many threads as asked for", nthreads == (T > 1 ? T : 0)); vf_true("one worker per thread", w.made == (T > 1 ? T : 1)); vf_true("all jobs were taken", p.next == N); for (int i = 0; i < 4; i++) { vf_true("every job is executed exactly once", w.ran[i] == (i < N)); vf_true("every result is collected exactly once", c.got[i] == (i < N)); } vf_true("every result is collected with its own job", c.right); }
RUN(0, 2) RUN(1, 0) RUN(1, 3) RUN(2, 0) RUN(2, 1) RUN(2, 2) RUN(2, 3) RUN(3, 1) RUN(3, 2)
struct AddWorkers { struct Worker { int execute_job(const std::pair<int, int>& j) { preempt(); int s = 0; for (int i = j.first; i < j.second; i++) s += i * i; return s; } }; Worker create_worker() { return Worker(); } };
W(range_provider) { for (int b = -2; b <= 3; b++) for (int e = -2; e <= 6; e++) for (int l = 1; l <= 4; l++) { range_job_provider<int> r(b, e, l); int at = b; for (int k = 0; k < 10 && r.has_next_job(); k++) { auto j = r.next_job(); vf_true("no range is empty", j.first < j.second); vf_true("ranges follow each other", j.first == at); vf_true("ranges are of the given length, the last one may be shorter", j.second == (at + l < e ? at + l : e)); at = j.second; } vf_true("ranges end at the end", b < e ? at == e : at == b); vf_true("no more ranges", !r.has_next_job()); } }
W(range_sum) { fresh(); range_job_provider<int> r(-1, 5, 2); add_result_collector<int> c; AddWorkers w; parallel_execute(c, r, w, 2); RULES vf_true("sum over all ranges", c.result == 31); }
W(lock_macro) { for (int how = 0; how < 4; how++) { fresh(); vfstd::mutex m; int n = 0, after = 0; lock_body(m, how, n, after); RULES vf_true("LOCK runs its body once, however it is left", n == (how ? 1 : 11)); vf_true("LOCK releases the mutex however its body is left", held == 0 && m.owner == 0); vf_true("execution goes on after the body", after == (how == 3 ? 0 : 1)); } }
