// vmc - a stateless model checker for C++ code that uses pthreads / POSIX semaphores / POSIX shared memory.
//
// The code under test and the harness are compiled with clang -fsanitize=thread (instrumentation only) and
// linked with engine.cpp, which replaces the TSan runtime, libc's thread, semaphore, shared memory, clock and
// allocation functions.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace vmc {

enum Flags : unsigned {
    EARLY_TIMER = 1,   // deviation: a timed wait may expire although other threads could run
    SPURIOUS = 2,      // deviation: a condition wait may wake up without a signal
    EINTR_SEM = 4,     // deviation: a semaphore wait may be interrupted by a signal
    OS_FAULTS = 8,     // deviation: an operating system request may be refused
    CRASH = 16,        // deviation: a process marked crashable dies at a scheduling point
    CRASH_STORES = 32, // ... and at every store to shared memory
    MALLOC_FAULTS = 64,
    NO_CACHE = 128,    // do not prune with the happens-before cache
    NO_RACES = 256,    // do not report data races
    REUSE_HEAP = 1 << 20,  // released heap blocks are used again: for very long executions, misses uses of released memory
};

struct Scenario {
    std::string name;            // <property id>.<name>
    std::function<void()> body;  // runs as the root thread of every execution
    int quick_dev = 1;           // deviation bound, quick tier
    int thorough_dev = 2;
    double quick_s = 20;         // time budget in seconds for this scenario
    double thorough_s = 200;
    unsigned flags = 0;
    int64_t horizon_ms = 20000;  // virtual time after which an execution counts as hung
    std::string note;
};
void add(const Scenario& s);

// A sequential (explicit-state / bounded history) search.  fn(shard, nshards) is run in nshards processes; it
// drives executions itself with run_inline() and reports with the count_* functions.
struct Search {
    std::string name;
    std::function<void(int shard, int nshards, bool thorough)> fn;
    std::string note;
};
void add_search(const Search& s);

int main_run(int argc, char** argv, const char* technique);

// ---- to be used by searches (outside an execution)
// Runs body as the root thread of one execution with a fresh kernel and default schedule.
// Returns false if the execution was aborted because of a known finding.
bool run_inline(const std::function<void()>& body, int64_t horizon_ms = 20000, unsigned flags = 0);
// All executions of body with at most dev deviations (and all free choices), in this process.
void explore_inline(const std::function<void()>& body, int dev, unsigned flags, int64_t horizon_ms = 20000);
void count_states(uint64_t n);
void count_transitions(uint64_t n);
void count_traces(uint64_t n);
void sample(const std::string& s);
void note_param(const std::string& key, const std::string& value);  // evidence: extra keys
bool out_of_time(double seconds);                                   // since the search started
void mark_incomplete(const std::string& why);
// Context printed into the replay file with a violation found in a search.
void set_context(const std::string& s);

// ---- to be used inside an execution
int choose(int n, const char* tag);     // free choice: all n alternatives are explored, at no deviation cost
int deviate(int n, const char* tag);    // alternatives 1..n-1 cost one deviation
[[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void window(bool on);                   // scheduling deviations are only explored while on (default: on)
void outcome(const std::string& s);     // adds to the outcome recorded for this execution
bool in_execution();

int start_process(const std::function<void()>& main);  // returns process id; runs as a new "process"
void join_process(int pid);             // waits for its main thread
bool process_done(int pid);
void crashable(int pid, bool on);       // the explorer may kill this process (flag CRASH)
bool crashed(int pid);
void kill_now(int pid);
int current_process();

int64_t now_us();                       // virtual monotonic time, does not advance it
void sleep_ms(int64_t ms);
void sleep_us(int64_t us);
void set_clock_phase_ns(int64_t ns);    // sets the nanoseconds within the current second of CLOCK_REALTIME
void settle(int64_t ms);                // sleep: everything else gets to run for ms of virtual time

// kernel accounting
int live_threads();                     // threads not finished, without the caller
int live_threads_of(int pid);
int open_fds();
int live_views();                       // mappings
int open_sems();                        // open named semaphore handles
int shm_names();                        // names in the namespace
int sem_names();
std::string names();                    // printable list of the namespace
uint64_t live_heap_blocks();            // blocks allocated in this execution and not freed
uint64_t live_heap_bytes();
std::string live_heap_report(uint64_t since_seq, int max);  // symbolised later
uint64_t heap_seq();                    // allocation sequence number
uint64_t live_heap_blocks_since(uint64_t seq);
uint8_t* shm_bytes(const std::string& name, size_t* size);  // direct access to a segment ("/name")
int sem_value(const std::string& name);                     // -1: does not exist
void sem_set(const std::string& name, int value);           // creates if needed
void shm_put(const std::string& name, const std::vector<uint8_t>& bytes);
uint64_t log_lines();                   // lines printed by the code under test
int faults();                           // OS requests refused so far in this execution
int blocked_in_sem(int pid);

// A variable for bookkeeping by the harness: invisible to the race detector, visible to the state hash.
uint64_t cell_op(void* cell, uint64_t add);
bool cell_wait(void* cell, uint64_t v, int64_t ms);
class Counter {
   public:
    Counter() = default;
    void operator++(int) { cell_op(this, 1); }
    void add(uint64_t n) { cell_op(this, n); }
    bool wait(uint64_t n, int64_t ms = -1) { return cell_wait(this, n, ms); }  // until it is at least n
    int get() const { return (int)cell_op(const_cast<Counter*>(this), 0); }

   private:
    uint64_t v_ = 0;
    friend uint64_t cell_op(void*, uint64_t);
};

// Runs code whose memory accesses are not checked and whose allocations are not accounted (harness tables).
struct Unchecked {
    Unchecked();
    ~Unchecked();
};
struct Checked {  // checks again, inside the scope of an Unchecked
    Checked();
    ~Checked();

   private:
    int n_;
};
}  // namespace vmc

#define VMC_CHECK(cond, sig, ...)            \
    do {                                     \
        if (!(cond)) vmc::fail(sig, __VA_ARGS__); \
    } while (0)
