// A cooperative scheduler: managed threads run one at a time, a choice sequence decides who goes on at
// every scheduling point.  Locks (GOMP critical sections, omp locks, pthread mutexes used by the code under
// test) are modelled: a thread that wants a held lock is disabled until its release.
#pragma once
#include <condition_variable>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <vector>
#include <chrono>
#include <dlfcn.h>

namespace sched {
struct Point { std::vector<int> enabled; bool running_enabled; int chosen; };

struct Sched {
    std::mutex m; std::condition_variable cv;
    int current = -1, n = 0; bool active = false;
    std::vector<int> state;          // 0 runnable, 1 blocked, 2 done
    std::vector<const void *> wants;
    std::map<const void *, std::pair<int, int>> owner; // lock -> (thread, depth)
    std::vector<int> prefix; size_t pos = 0;
    std::vector<Point> points;
    bool deadlock = false, diverged = false, stuck = false;
    uint64_t steps = 0;
};
inline Sched &G() { static Sched *g = new Sched; return *g; }
inline int &me() { static thread_local int id = -1; return id; }
inline bool managed() { return me() >= 0 && G().active; }

// caller holds the mutex; choose who runs next. self = running thread or -1
inline void choose(int self) {
    Sched &g = G();
    std::vector<int> en;
    bool se = self >= 0 && g.state[self] == 0;
    if (se) en.push_back(self);
    for (int i = 0; i < g.n; i++) if (i != self && g.state[i] == 0) en.push_back(i);
    if (en.empty()) {
        bool all = true;
        for (int i = 0; i < g.n; i++) if (g.state[i] != 2) all = false;
        if (!all) g.deadlock = true;
        g.current = -2;
        g.cv.notify_all();
        return;
    }
    int c = 0;
    if (en.size() > 1) {
        if (g.pos < g.prefix.size()) {
            c = g.prefix[g.pos];
            if (c >= (int)en.size()) { g.diverged = true; c = 0; }
        }
        g.pos++;
        g.points.push_back({en, se, c});
    }
    g.current = en[c];
    g.cv.notify_all();
}
inline void wait_turn(std::unique_lock<std::mutex> &l, int self) {
    Sched &g = G();
    while (g.current != self) {
        if (g.deadlock) { l.unlock(); for (;;) std::this_thread::sleep_for(std::chrono::seconds(1000)); }
        g.cv.wait(l);
    }
}
inline void point() {
    if (!managed()) return;
    Sched &g = G();
    std::unique_lock<std::mutex> l(g.m);
    g.steps++;
    choose(me());
    wait_turn(l, me());
}
inline void acquire(const void *lk) {
    Sched &g = G();
    int self = me();
    point();
    std::unique_lock<std::mutex> l(g.m);
    for (;;) {
        auto it = g.owner.find(lk);
        if (it == g.owner.end()) { g.owner[lk] = {self, 1}; return; }
        g.state[self] = 1; g.wants[self] = lk;
        choose(self);
        wait_turn(l, self);
    }
}
inline void release(const void *lk) {
    Sched &g = G();
    {
        std::unique_lock<std::mutex> l(g.m);
        g.owner.erase(lk);
        for (int i = 0; i < g.n; i++) if (g.state[i] == 1 && g.wants[i] == lk) g.state[i] = 0;
    }
    point();
}
// run bodies under one choice prefix; false: a thread was stuck outside the scheduler's knowledge
inline bool run(const std::vector<std::function<void()>> &bodies, const std::vector<int> &prefix) {
    Sched &g = G();
    g.n = bodies.size(); g.state.assign(g.n, 0); g.wants.assign(g.n, nullptr); g.owner.clear();
    g.prefix = prefix; g.pos = 0; g.points.clear(); g.deadlock = g.diverged = g.stuck = false; g.current = -1; g.active = true;
    int done = 0;
    std::vector<std::thread> th;
    for (int i = 0; i < g.n; i++) th.emplace_back([&, i] {
        me() = i;
        { std::unique_lock<std::mutex> l(g.m); wait_turn(l, i); }
        bodies[i]();
        std::unique_lock<std::mutex> l(g.m);
        g.state[i] = 2; done++;
        choose(-1);
        me() = -1;
    });
    { std::unique_lock<std::mutex> l(g.m); choose(-1);
      uint64_t last = ~0ull; int idle = 0;
      while (done < g.n && !g.deadlock) {
          g.cv.wait_for(l, std::chrono::milliseconds(500));
          if (g.steps == last) { if (++idle > 20) { g.stuck = true; break; } } else { idle = 0; last = g.steps; }
      }
    }
    if (g.deadlock || g.stuck) { for (auto &t : th) t.detach(); g.active = false; return false; }
    for (auto &t : th) t.join();
    g.active = false;
    return true;
}
} // namespace sched
