#include "vmc.h"
#include "prim.h"
#include <thread>
using namespace vmc;

std::string prim_prefix = "t_";
int64_t prim_slack_us = 0;
[[noreturn]] void prim_fail(const char* sig, const std::string& text) { vmc::fail(sig, "%s", text.c_str()); }
int64_t prim_now_us() { return now_us(); }

template <class Make>
static void go(const char* what, Make make, int depth, size_t max_states, int shard, int n) {
    auto run = [&](auto f) {
        run_inline([&] {
            f();
            VMC_CHECK(open_fds() == 0 && live_views() == 0 && open_sems() == 0, "leak", "%s: after closing everything %d descriptors, %d mappings and %d semaphores are open", what, open_fds(), live_views(), open_sems());
            std::string s = names();
            VMC_CHECK(shm_names() == 0 && sem_names() == 0, "leak", "%s: after closing everything these names exist: %s", what, s.c_str());
        });
    };
    SeqSearch<Make, decltype(run)> s{make, run};
    Seq q;
    s.all(q, depth, shard, n);
    if (shard == 0 && max_states) s.bfs(max_states, 0, 1);
    count_states(s.states);
    count_transitions(s.sequences);
    if (shard == 0) {
        sample(std::string(what) + ": " + std::to_string(s.sequences) + " sequences in the first shard, " + std::to_string(s.states) + " model states");
        note_param(what, "all sequences of " + std::to_string(depth) + " operations, and every operation in " + std::to_string(s.states) + " states");
    }
}

int main(int argc, char** argv) {
    Search a;
    a.name = "C24.semaphore_sequences";
    a.fn = [](int shard, int n, bool thorough) {
        go("semaphores", [] { return std::unique_ptr<SemModel>(new SemModel(2, 3)); }, thorough ? 5 : 4, 0, shard, n);
        go("semaphores, 3 handles", [] { return std::unique_ptr<SemModel>(new SemModel(3, 2)); }, thorough ? 4 : 3, shard == 0 ? (thorough ? 6000 : 800) : 0, shard, n);
    };
    add_search(a);
    Search b;
    b.name = "C24.shared_memory_sequences";
    b.fn = [](int shard, int n, bool thorough) {
        go("shared memory", [] { return std::unique_ptr<ShmModel>(new ShmModel({{0, 64}, {0, 8192}, {1, 64}})); }, thorough ? 5 : 4, shard == 0 ? (thorough ? 6000 : 1200) : 0, shard, n);
        go("shared memory, names", [] { return std::unique_ptr<ShmModel>(new ShmModel({{0, 64}, {0, 64}}, true)); }, thorough ? 8 : 6, 0, shard, n);
        go("shared memory, same size", [] { return std::unique_ptr<ShmModel>(new ShmModel({{0, 64}, {0, 64}})); }, thorough ? 7 : 5, 0, shard, n);
    };
    add_search(b);
    Search c;
    c.name = "C24.queue_sequences";
    c.fn = [](int shard, int n, bool thorough) {
        go("queues, names", [] { return std::unique_ptr<QueueModel>(new QueueModel(true)); }, thorough ? 8 : 6, 0, shard, n);
        go("queues", [] { return std::unique_ptr<QueueModel>(new QueueModel()); }, thorough ? 6 : 5, shard == 0 ? (thorough ? 6000 : 1200) : 0, shard, n);
    };
    add_search(c);

    // every successful wait takes exactly one unit, none is lost
    Scenario s;
    s.name = "C24.concurrent_semaphore";
    s.quick_dev = 4;
    s.thorough_dev = 8;
    s.flags = EINTR_SEM | EARLY_TIMER;
    s.body = [] {
        window(false);
        int initial = choose(2, "initial"), nrel = 1 + choose(2, "releases");
        veigar::Semaphore a, b;
        VMC_CHECK(a.open("s", initial) && b.open("s", 7), "open-failed", "semaphore");
        Counter got;
        auto taker = [&](veigar::Semaphore& h, int64_t ms) {
            bool ok = true;
            if (ms == -2) h.wait();
            else ok = h.wait(ms);
            if (ok) {
                got++;
                VMC_CHECK(got.get() <= initial + nrel, "count", "%d waits succeeded with %d units", got.get(), initial + nrel);
            } else
                VMC_CHECK(ms >= 0, "count", "an unlimited wait failed");
        };
        window(true);
        int pid = start_process([&] {
            veigar::Semaphore c;
            VMC_CHECK(c.open("s", 3), "open-failed", "semaphore");
            taker(c, choose(2, "which wait") ? -1 : -2);
            taker(c, 2);
            c.close();
        });
        std::thread t([&] { taker(b, 5); });
        for (int i = 0; i < nrel; i++) {
            a.release();
        }
        taker(a, 0);
        t.join();
        window(false);
        while (!process_done(pid)) {  // whoever waits without limit gets a unit in the end
            sleep_ms(10);
            if (!process_done(pid)) {
                VMC_CHECK(got.get() == initial + nrel, "lost-unit", "a waiter waits although %d of %d units were taken", got.get(), initial + nrel);
                nrel++;
                a.release();
            }
        }
        window(false);
        int left = 0;
        while (a.wait(0)) left++;
        VMC_CHECK(left + got.get() == initial + nrel, "count", "%d units were taken and %d are left of %d", got.get(), left, initial + nrel);
        outcome(std::to_string(got.get()) + "/" + std::to_string(left));
        b.close();
        a.close();
    };
    add(s);
    return main_run(argc, argv, "model checking of the implementation against a reference model");
}
