// Stand-in for the OpenMP run-time library, for builds of the distributed module with HYPRE_USING_OPENMP: the compiler
// turns the module's parallel regions into these calls. Teams are plain threads synchronised by mutexes, so that
// ThreadSanitizer sees every ordering there is and no other; each member delays at random at the region's start
// and at its barriers.
#ifdef _OPENMP
#include "standin.h"
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include <thread>
#include <vector>

namespace
{
struct Team
{
    int n, arrived;
    long gen;
    std::mutex mu;
    std::condition_variable cv;
    void barrier()
    {
        std::unique_lock<std::mutex> lk(mu);
        const long g = gen;
        if (++arrived == n) { arrived = 0; ++gen; cv.notify_all(); return; }
        cv.wait(lk, [&] { return gen != g; });
    }
};
thread_local Team* team = nullptr;
thread_local int tid = 0;
thread_local uint64_t state = 0;
thread_local int wanted = 1;        // of this rank
std::mutex critical;

void delay()
{
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 27;
    if (z % 8 == 0) std::this_thread::yield();
    else if (z % 64 == 1) std::this_thread::sleep_for(std::chrono::microseconds((z >> 8) % 100));
}
} // namespace

namespace standin
{
void set_team(int n, uint64_t seed) { wanted = n; state = seed; }
}

extern "C"
{
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned)
{
    const int n = team ? 1 : num_threads ? (int)num_threads : wanted;
    Team t;
    t.n = n; t.arrived = 0; t.gen = 0;
    Team* outer = team;
    const int outer_tid = tid;
    standin::team_seen(n);
    std::vector<std::thread> th;
    const int r = standin::rank();
    const uint64_t s = state;
    for (int k = 1; k < n; ++k)
        th.push_back(std::thread([&t, fn, data, k, r, s]
        {
            standin::adopt(r);
            team = &t; tid = k; state = s * 31 + k;
            delay();
            fn(data);
        }));
    team = &t; tid = 0;
    delay();
    fn(data);
    for (auto& x : th) x.join();
    team = outer; tid = outer_tid;
}
void GOMP_barrier()
{
    if (!team) return;
    delay();
    team->barrier();
    delay();
}
void GOMP_critical_start() { critical.lock(); }
void GOMP_critical_end() { critical.unlock(); }
void GOMP_atomic_start() { critical.lock(); }
void GOMP_atomic_end() { critical.unlock(); }
bool GOMP_single_start() { return tid == 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_max_threads() { return team ? 1 : wanted; }
}
#else
#include <cstdint>
namespace standin
{
void set_team(int, uint64_t) {}
}
#endif
