// The sequences of c24.cpp on the real kernel: no engine, no instrumentation.
// usage: c24_real <depth> <scratch prefix>;  prints the number of sequences, or a violation, exit 1
#include "prim.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <sys/wait.h>
#include <unistd.h>

std::string prim_prefix;
static FILE* out;  // stdout and stderr get the log of the library
int64_t prim_slack_us = 200;
[[noreturn]] void prim_fail(const char* sig, const std::string& text) {
    fprintf(out, "REAL-VIOLATION %s %s (names start with %s)\n", sig, text.c_str(), prim_prefix.c_str());
    fflush(out);
    _exit(1);
}
int64_t prim_now_us() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000ll + t.tv_nsec / 1000;
}

template <class Make>
static void go(const char* what, Make make, int depth, int shard, int n) {
    auto run = [](auto f) { f(); };
    SeqSearch<Make, decltype(run)> s{make, run};
    Seq q;
    s.all(q, depth, shard, n);
    if (shard == 0) s.bfs(400, 0, 1);
    fprintf(out, "REAL %s sequences %llu\n", what, (unsigned long long)s.sequences);
    fflush(out);
}

int main(int argc, char** argv) {
    out = fdopen(dup(1), "w");
    if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) return 3;
    int depth = atoi(argv[1]);
    const int n = 8;
    int pids[n];
    for (int i = 0; i < n; i++) {
        pids[i] = fork();
        if (!pids[i]) {
            alarm(240);
            prim_prefix = std::string(argv[2]) + std::to_string(i) + "_";
            go("semaphore", [] { return std::unique_ptr<SemModel>(new SemModel(2, 3)); }, depth, i, n);
            go("shared memory", [] { return std::unique_ptr<ShmModel>(new ShmModel({{0, 64}, {0, 8192}, {1, 64}})); }, depth, i, n);
            go("queue", [] { return std::unique_ptr<QueueModel>(new QueueModel()); }, depth + 1, i, n);
            _exit(0);
        }
    }
    int rc = 0;
    for (int i = 0; i < n; i++) {
        int st = 0;
        waitpid(pids[i], &st, 0);
        if (WIFSIGNALED(st)) fprintf(out, "REAL-VIOLATION crash a sequence ended the process with signal %d\n", WTERMSIG(st));
        if (st) rc = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st) == SIGALRM ? 3 : 1;
    }
    fflush(out);
    return rc;
}
