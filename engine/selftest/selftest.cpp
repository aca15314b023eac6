// Each scenario has an expected verdict; run.py compares.  ok_* must be clean, bad_* must be reported.
#include "../vmc.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <atomic>
#include <memory>
#include <map>
#include <list>
#include <string>
#include <semaphore.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <string.h>
#include <errno.h>
using namespace vmc;
static int gcount;
static std::map<std::string,int> gmap;
static Scenario S(const char* n, std::function<void()> b, int d = 2, unsigned f = 0) {
    Scenario s; s.name = n; s.body = b; s.quick_dev = s.thorough_dev = d; s.quick_s = 10; s.thorough_s = 10; s.flags = f; return s;
}
int main(int argc, char** argv) {
    add(S("ok_mutex", [] {
        int x = 0; std::mutex m;
        auto f = [&] { std::lock_guard<std::mutex> g(m); x++; };
        std::thread a(f), b(f); a.join(); b.join();
        VMC_CHECK(x == 2, "count", "x=%d", x);
    }));
    add(S("bad_race", [] {
        int x = 0;
        auto f = [&] { x++; };
        std::thread a(f), b(f); a.join(); b.join();
    }));
    add(S("bad_atomicity", [] {
        std::atomic<int> x(0);
        auto f = [&] { int v = x.load(); x.store(v + 1); };
        std::thread a(f), b(f); a.join(); b.join();
        VMC_CHECK(x == 2, "count", "x=%d", x.load());
    }));
    add(S("bad_deadlock", [] {
        std::mutex m, n;
        std::thread a([&] { std::lock_guard<std::mutex> g(m); std::lock_guard<std::mutex> h(n); });
        std::thread b([&] { std::lock_guard<std::mutex> g(n); std::lock_guard<std::mutex> h(m); });
        a.join(); b.join();
    }));
    add(S("ok_condvar", [] {
        std::mutex m; std::condition_variable cv; std::list<int> q; int sum = 0;
        std::thread c([&] { for (int i = 0; i < 2; i++) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return !q.empty(); }); sum += q.front(); q.pop_front(); } });
        for (int i = 1; i <= 2; i++) { std::lock_guard<std::mutex> l(m); q.push_back(i); cv.notify_one(); }
        c.join();
        VMC_CHECK(sum == 3, "sum", "%d", sum);
    }, 2, SPURIOUS));
    add(S("bad_spurious", [] {
        std::mutex m; std::condition_variable cv; bool set = false;
        std::thread c([&] { std::unique_lock<std::mutex> l(m); if (!set) cv.wait(l); VMC_CHECK(set, "woke", "early"); });
        { std::lock_guard<std::mutex> l(m); set = true; } cv.notify_one();
        c.join();
    }, 2, SPURIOUS));
    add(S("bad_lostwake", [] {
        std::mutex m; std::condition_variable cv; std::atomic<bool> set(false);
        std::thread c([&] { if (!set) { std::unique_lock<std::mutex> l(m); cv.wait(l); } });
        set = true; cv.notify_one();
        c.join();
    }));
    add(S("ok_future", [] {
        auto p = std::make_shared<std::promise<int>>(); auto f = p->get_future();
        std::thread t([p] { p->set_value(3); });
        VMC_CHECK(f.wait_for(std::chrono::milliseconds(1000)) == std::future_status::ready, "to", "timeout");
        VMC_CHECK(f.get() == 3, "v", "wrong"); t.join();
    }));
    add(S("ok_future_timeout", [] {
        std::promise<int> p; auto f = p.get_future();
        int64_t t0 = now_us();
        VMC_CHECK(f.wait_for(std::chrono::milliseconds(1000)) == std::future_status::timeout, "to", "ready");
        int64_t d = now_us() - t0;
        VMC_CHECK(d >= 1000000 && d < 1001000, "time", "%ld", (long)d);
    }));
    add(S("bad_uaf", [] {
        auto p = std::make_shared<int>(1); int* raw = p.get(); p.reset(); volatile int y = *raw; (void)y;
    }));
    add(S("bad_overflow", [] { char* volatile p = (char*)malloc(10); memset(p, 0, 11); free(p); }));
    add(S("bad_doublefree", [] { char* volatile p = (char*)malloc(10); free(p); free(p); }));
    add(S("bad_throw", [] { std::thread t([] { throw 1; }); t.join(); }));
    add(S("ok_throw", [] { try { throw std::string("x"); } catch (const std::string& s) { VMC_CHECK(s == "x", "s", "s"); } }));
    add(S("bad_terminate_joinable", [] { std::thread t([] {}); }));
    add(S("ok_exc_threads", [] {
        auto f = [] { for (int i = 0; i < 2; i++) try { std::this_thread::yield(); throw 1; } catch (int) { sleep_ms(1); } };
        std::thread a(f), b(f); a.join(); b.join(); }));
    add(S("ok_proc_globals", [] {
        gcount = 5;
        int a = start_process([] { VMC_CHECK(gcount == 0, "g", "%d", gcount); gcount = 7; gmap["a"] = 1; sleep_ms(10); VMC_CHECK(gcount == 7 && gmap.size() == 1, "g2", "%d", gcount); });
        int b = start_process([] { VMC_CHECK(gcount == 0, "g", "%d", gcount); gcount = 8; sleep_ms(10); VMC_CHECK(gcount == 8 && gmap.empty(), "g2", "%d", gcount); });
        join_process(a); join_process(b);
        VMC_CHECK(gcount == 5, "g3", "%d", gcount);
    }));
    auto shmproc = [](bool lock) { return [lock] {
        auto body = [lock] {
            int fd = shm_open("/x", O_RDWR | O_CREAT, 0666); ftruncate(fd, 64);
            int* p = (int*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            sem_t* s = sem_open("/xs", O_CREAT, 0666, 1);
            if (lock) sem_wait(s);
            p[1]++;
            if (lock) sem_post(s);
            sem_close(s); munmap(p, 64); close(fd);
        };
        int a = start_process(body), b = start_process(body);
        join_process(a); join_process(b);
        size_t n; uint8_t* d = shm_bytes("/x", &n);
        VMC_CHECK(d && n == 64 && d[4] == 2, "cnt", "%d", d ? d[4] : -1);
        shm_unlink("/x"); sem_unlink("/xs");
        VMC_CHECK(shm_names() == 0 && sem_names() == 0 && open_fds() == 0 && live_views() == 0 && open_sems() == 0, "left", "names left");
    }; };
    add(S("ok_shm", shmproc(true)));
    add(S("bad_shm_race", shmproc(false)));
    add(S("ok_semtimed", [] {
        sem_t* s = sem_open("/t", O_CREAT, 0666, 0);
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1;
        int64_t t0 = now_us();
        int r = sem_timedwait(s, &ts);
        VMC_CHECK(r == -1 && errno == ETIMEDOUT && now_us() - t0 >= 1000000, "t", "r=%d", r);
        sem_close(s);
    }));
    add(S("bad_eintr", [] {
        sem_t* s = sem_open("/t", O_CREAT, 0666, 0);
        std::thread t([&] { sem_post(s); });
        int r = sem_wait(s); VMC_CHECK(r == 0, "eintr", "x"); t.join(); sem_close(s);
    }, 1, EINTR_SEM));
    add(S("bad_hang", [] { sem_t* s = sem_open("/t", O_CREAT, 0666, 0); sem_wait(s); }));
    add(S("bad_livelock", [] { std::atomic<int> x(0); while (!x.load()) std::this_thread::sleep_for(std::chrono::milliseconds(30)); }));
    add(S("bad_crash_lock", [] {
        sem_t* s = sem_open("/t", O_CREAT, 0666, 1);
        int p = start_process([] { sem_t* s = sem_open("/t", O_CREAT, 0666, 1); sem_wait(s); sem_post(s); });
        crashable(p, true);
        join_process(p);
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1;
        VMC_CHECK(sem_timedwait(s, &ts) == 0, "dead_holder", "lock held by the dead");
    }, 1, CRASH));
    add(S("bad_osfault", [] { int fd = shm_open("/x", O_RDWR | O_CREAT, 0666); VMC_CHECK(fd >= 0, "refused", "x"); close(fd); shm_unlink("/x"); }, 1, OS_FAULTS));
    add(S("ok_nested_threads", [] {
        std::atomic<int> n(0);
        std::thread a([&] { std::thread b([&] { n++; }); n++; b.join(); }); a.join();
        VMC_CHECK(n == 2, "n", "n"); }));
    add(S("ok_static_local", [] { struct A { A() : v(3) {} int v; }; auto f = [] { static A a; VMC_CHECK(a.v == 3, "v", "v"); }; std::thread x(f), y(f); x.join(); y.join(); }));
    add(S("bad_detached_uaf", [] { auto* p = new int(0); std::thread t([p] { *p = 1; }); delete p; t.join(); }));
    add(S("bad_third_order", [] {  // needs two deviations
        std::atomic<int> a(0), b(0);
        std::thread t([&] { a = 1; if (b == 1) a = 2; });
        std::thread u([&] { if (a == 1) { b = 1; while (0); if (a == 2) fail("deep", "reached"); } });
        t.join(); u.join();
    }, 3));
    // Random small programs: with and without the state cache the same outcomes must be found.
    for (int seed = 0; seed < 24; seed++)
        for (int nc = 0; nc < 2; nc++) {
            static char nm[48][40];
            char* n = nm[seed * 2 + nc];
            snprintf(n, 40, "diff_%d_%s", seed, nc ? "plain" : "cache");
            add(S(n, [seed] {
                struct Sh { std::mutex m[2]; std::condition_variable cv; std::atomic<int> a[3]; int v[2]; sem_t* s; };
                Sh sh; for (auto& x : sh.a) x = 0; sh.v[0] = sh.v[1] = 0; sh.s = sem_open("/d", O_CREAT, 0666, 1);
                auto prog = [&sh, seed](int t) {
                    unsigned r = seed * 977 + t * 131 + 7; int reg = 0;
                    for (int i = 0; i < 3; i++) {
                        r = r * 1103515245 + 12345; unsigned op = (r >> 16) % 9, k = (r >> 24) % 2;
                        switch (op) {
                            case 0: reg += sh.a[k].load(); break;
                            case 1: sh.a[k].store(t * 4 + i + 1); break;
                            case 2: reg = reg * 3 + sh.a[k].fetch_add(1); break;
                            case 3: { std::lock_guard<std::mutex> g(sh.m[k]); reg = reg * 5 + sh.v[k]; sh.v[k] += t + 1; break; }
                            case 4: { std::lock_guard<std::mutex> g(sh.m[k]); sh.a[2] += reg; break; }
                            case 5: { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; reg = reg * 7 + sem_timedwait(sh.s, &ts); break; }
                            case 6: sem_post(sh.s); break;
                            case 7: { std::unique_lock<std::mutex> g(sh.m[k]); if (sh.cv.wait_for(g, std::chrono::milliseconds(100)) == std::cv_status::timeout) reg += 100; break; }
                            case 8: { std::lock_guard<std::mutex> g(sh.m[0]); sh.cv.notify_one(); break; }
                        }
                    }
                    return reg;
                };
                std::atomic<int> res[3];
                std::thread a([&] { res[0] = prog(0); }), b([&] { res[1] = prog(1); }), c([&] { res[2] = prog(2); });
                a.join(); b.join(); c.join();
                char o[200]; snprintf(o, 200, "%d %d %d|%d %d %d|%d %d", res[0].load(), res[1].load(), res[2].load(), sh.a[0].load(), sh.a[1].load(), sh.a[2].load(), sh.v[0], sh.v[1]);
                outcome(o); sem_close(sh.s);
            }, 2, SPURIOUS | EARLY_TIMER | EINTR_SEM | (nc ? NO_CACHE : 0)));
        }
    return main_run(argc, argv, "selftest");
}
