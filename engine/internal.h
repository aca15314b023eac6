// Internal declarations of the vmc engine.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include "vmc.h"

namespace vmc {

constexpr int MAXF = 200;     // fibers per execution
constexpr int MAXP = 12;      // processes per execution
constexpr int MAXDEV = 28;    // deviations + free choices per execution
#ifdef VMC_BIG                // few, huge segments
constexpr int MAXSEG = 6;
constexpr int MAXVIEW = 4;
#else
constexpr int MAXSEG = 48;    // shared memory segments per execution
constexpr int MAXVIEW = 16;   // views per segment
#endif
constexpr int MAXSEM = 256;   // kernel semaphores per execution
constexpr int MAXFD = 256;
constexpr int SSTACK = 8192;

constexpr uintptr_t MB = 1ull << 20, GB = 1ull << 30;
constexpr uintptr_t BASE = 0x200000000000ull;
constexpr uintptr_t HEAP_PER = 64 * MB;
constexpr uintptr_t HEAP0 = BASE;                       // MAXF * 64MB
constexpr uintptr_t STACK0 = BASE + 16 * GB;
constexpr uintptr_t STACK_PER = 512 * 1024;
constexpr uintptr_t GLOB0 = BASE + 17 * GB;             // shadow addresses only
constexpr uintptr_t GLOB_PER = 16 * MB;
constexpr uintptr_t SEG0 = BASE + 18 * GB;
#ifdef VMC_BIG
constexpr uintptr_t SEG_PER = 6 * GB;
constexpr uintptr_t SPAN = 56 * GB;
#else
constexpr uintptr_t SEG_PER = 64 * MB;
constexpr uintptr_t SPAN = 24 * GB;
#endif
constexpr uintptr_t VIEW0 = BASE + 64 * GB;
constexpr uintptr_t VIEW_SPAN = (uintptr_t)MAXSEG * MAXVIEW * SEG_PER;
constexpr uintptr_t SEMH0 = VIEW0 + VIEW_SPAN + GB;     // fake sem_t handles

enum Wait : uint8_t {
    W_NONE, W_MUTEX, W_COND, W_SEM, W_JOIN, W_SLEEP, W_FUTEX, W_ONCE, W_GUARD, W_RDLOCK, W_WRLOCK, W_PROC, W_YIELD, W_CELL
};
enum ObjKind : uint8_t { O_FREE, O_MUTEX, O_COND, O_ATOMIC, O_ONCE, O_GUARD, O_SEM, O_NAME, O_RW, O_PROC, O_FD, O_SEG };

struct VC {
    uint32_t n = 0;
    uint32_t c[MAXF];
};

struct SyncObj {
    uint64_t key;
    uint32_t gen;
    ObjKind kind;
    int owner;      // mutex owner fiber / rw writer
    int count;      // recursion, semaphore value, once state, readers
    uint64_t ver;
    uint32_t vcn;
    uint32_t vc[MAXF];
};

struct Fiber {
    int id, pid;
    void* sp;
    bool used, done, dead, detached, joined;
    bool parked;  // policy 3: runs only if nothing else can
    Wait wk;
    bool signalled, expired;
    SyncObj* wobj;
    uint64_t waddr;
    int64_t deadline;  // ns, -1 none
    int wtarget;
    uint64_t* wcell;
    uint64_t wval;
    uint64_t wseq;
    uint64_t h;
    uint32_t vcn;
    uint32_t vc[MAXF];
    uint32_t nchild;
    uintptr_t heap_top;
    uint32_t depth;
    uint32_t spin;
    void* (*start)(void*);
    void* arg;
    void* ret;
    const char* what;
    uint64_t sig_h;
    // thread local state
    int save_errno;
    unsigned char eh[16];
    void* once_callable;
    void (*once_call)();
    unsigned char tls[512];
    int natexit;
    int guards;      // initialisations of function-local statics in progress
    struct { void (*f)(void*); void* a; } atexit_[16];
    struct { const void* key; void* val; } tsd[16];
    uint32_t stack[SSTACK];
};

struct BlockHdr {  // 64 bytes in front of every arena block
    uint32_t magic;
    uint32_t pid;
    uint64_t size;
    uint64_t seq;
    uint32_t state;  // 1 live, 2 freed
    uint32_t kind;   // 0 malloc, 1 new, 2 new[]
    uint32_t pcs[4];
    uint32_t fpcs[3];
    uint32_t total;  // distance to the next header / 16
};
static_assert(sizeof(BlockHdr) == 64, "hdr");

struct Seg {
    bool used, linked;
    char name[264];
    int64_t size;
    int refs;       // fds + views
    int nviews;
    int incarnation;
    SyncObj* obj;
};
struct View {
    bool live;
    int seg, pid;
    int64_t len;
};
struct KSem {
    bool used, linked, unnamed;
    char name[264];
    int refs;
    SyncObj* obj;
};
struct SemHandle {  // per (pid, ksem)
    int refs;
};
struct Fd {
    bool used;
    int pid, seg;
};
struct Proc {
    bool used, dead, crashable, main_done;
    int main_fiber;
    int parent;
    uint32_t nrand;
    SyncObj* obj;
    int nthreads;
};

struct Slot {
    uint32_t genfid;  // gen<<8 | fid+1
    uint32_t epoch;
    uint32_t pc;
    uint8_t mask, flags;
    uint16_t pad;
};

struct Dev {
    uint32_t pos;
    uint16_t alt;
    uint16_t sig;
};
struct Node {
    uint16_t n;
    uint16_t cost;
    Dev d[MAXDEV];
};

struct Point {
    uint32_t pos;
    uint16_t n, sig;
    uint8_t cost;
};

constexpr uint32_t NOBJ = 1 << 16;
constexpr uint32_t NPOINT = 1 << 20;
constexpr size_t MSGCAP = 60000;

enum End : int { E_RUNNING, E_DONE, E_PRUNED, E_FAILED, E_KNOWN, E_ERROR };

struct Failure {
    char sig[256];
    char msg[MSGCAP];
    int64_t t_us;
    uint64_t steps;
};

struct Shared {  // between worker processes
    volatile int stop;
    volatile int nviol;
    volatile int lock;
    volatile int active;
    volatile int npool;
    Failure viol;
    Node viol_node;
    char viol_ctx[20000];
    char viol_scn[256];
    uint64_t execs, steps, states, transitions, pruned, points, maxpoints, traces, knowns;
    uint64_t choices;
    double deadline, search_start;
    volatile int incomplete;
    char incomplete_why[256];
    int nout;
    uint64_t outh[4096];
    char outs[16][400];
    int nsamp;
    char samp[8][600];
    int nknown;
    char known[32][256];
    int nparam;
    char pk[32][64];
    char pv[32][256];
    Node pool[1 << 14];
};

struct State {
    // execution
    bool in_exec;
    int nocheck;          // >0: accesses unchecked, allocations persistent
    bool record;
    bool warm;            // allocations are persistent
    Fiber* cur;
    Fiber* fibers;
    int nf;
    uint32_t gen;
    int64_t now;          // ns
    int64_t rt_off;
    int64_t horizon;
    uint64_t steps, accesses, clockreads;
    uint32_t pos;
    int next_dev;
    Node node;
    int budget_left;
    bool win;
    unsigned flags;
    int policy;
    int woken;
    uint64_t H;           // sum of fiber hashes
    uint64_t cells;
    uint64_t globalh;
    uint64_t wseq, aseq;
    uint64_t nlive_blocks, live_bytes;
    uint64_t loglines;
    Proc procs[MAXP];
    int np;
    int fault_count;
    Seg segs[MAXSEG];
    int nseg;
    View views[MAXSEG * MAXVIEW];
    KSem sems[MAXSEM];
    int nsem;
    SemHandle semh[MAXP][MAXSEM];
    Fd fds[MAXFD];
    SyncObj* objs;        // NOBJ
    void* reuse[4096];    // REUSE_HEAP: released blocks by total size
    uint32_t reuse_gen;
    uint32_t* obj_used;
    uint32_t nobj_used;
    // explorer
    void* main_sp;
    int main_errno;
    unsigned char main_eh[16];
    End end;
    Point* points;
    uint32_t npoints;
    Failure* fail;
    bool cache_on;
    bool verbose;
    bool searching;
    char outcome[2000];
    uint32_t outcome_n;
    char ctx[20000];
    const char* scn;
    uint64_t exec_no;
    uint64_t last_exec_seen;
    int stuck_ticks;
    int cur_img;          // pid whose globals are loaded
    unsigned char* img[MAXP];
    unsigned char* pristine;
    uint64_t new_states;
    int segs_mapped[MAXSEG];
    int seg_fd[MAXSEG];
    uint8_t seg_views[MAXSEG];
    uint64_t maxpos;
    uintptr_t as_hi[MAXF];
    uint64_t stepcap;
};

extern State* g;
extern Shared* S;

[[noreturn]] void engine_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
End run_exec(const Node& n, int budget, bool record, const std::function<void()>& body);

}  // namespace vmc
