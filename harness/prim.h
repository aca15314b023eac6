// Operation sequences on the named primitives against a reference model.  Used twice: under the engine (c24.cpp), and
// on the real kernel (c24_real.cpp), which validates the engine's kernel model with the same sequences.
#pragma once
#include "semaphore.h"
#include "shared_memory.h"
#include "message_queue.h"
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

[[noreturn]] void prim_fail(const char* sig, const std::string& text);
extern std::string prim_prefix;  // of all names
int64_t prim_now_us();
extern int64_t prim_slack_us;  // of the clocks of the real kernel

typedef std::vector<int> Seq;

struct SeqModel {
    virtual ~SeqModel() {}
    virtual int nops() = 0;
    virtual std::string name(int op) = 0;
    virtual bool allowed(int op) = 0;   // by the model, in the current state
    virtual void apply(int op) = 0;     // runs the real operation, compares, and updates the model
    virtual void finish() = 0;          // closes everything
    virtual std::string state() = 0;    // of the model
    std::string trace;
    void bad(const char* sig, const std::string& what) { prim_fail(sig, what + "\n  after: " + trace); }
    void step(int op) {
        trace += name(op) + "; ";
        apply(op);
    }
};

// ---- semaphores: H handles, two names
class SemModel : public SeqModel {
    struct Obj {
        int count;
    };
    static const int H = 3;
    struct Handle {
        std::unique_ptr<veigar::Semaphore> s;
        std::shared_ptr<Obj> o;
    };
    Handle h_[H];
    std::map<std::string, std::shared_ptr<Obj>> names_;
    struct O {
        int kind, h, name, value;
    };
    std::vector<O> ops_;
    int handles_;

    std::string nm(int n) { return prim_prefix + (n ? "semB" : "semA"); }

   public:
    enum { OPEN, CLOSE, WAIT0, WAIT1, RELEASE, EXIST, REMOVE, VALID, WAITINF };
    SemModel(int handles, int values) : handles_(handles) {
        for (int h = 0; h < handles; h++) {
            h_[h].s.reset(new veigar::Semaphore());
            for (int n = 0; n < 2; n++)
                for (int v = 0; v < values; v++)
                    if (!(n == 1 && v > 1)) ops_.push_back({OPEN, h, n, v});
            for (int k : {CLOSE, WAIT0, RELEASE, VALID, WAITINF}) ops_.push_back({k, h, 0, 0});
            if (h == 0) ops_.push_back({WAIT1, h, 0, 0});
        }
        for (int n = 0; n < 2; n++) {
            ops_.push_back({EXIST, 0, n, 0});
            ops_.push_back({REMOVE, 0, n, 0});
        }
    }
    int nops() override { return ops_.size(); }
    std::string name(int i) override {
        const O& o = ops_[i];
        static const char* const k[] = {"open", "close", "wait(0)", "wait(1)", "release", "IsExist", "Remove", "valid", "wait(-1)"};
        std::string s = k[o.kind];
        if (o.kind == OPEN) s += std::string("(") + (o.name ? "B," : "A,") + std::to_string(o.value) + ")";
        if (o.kind == EXIST || o.kind == REMOVE) return s + (o.name ? "(B)" : "(A)");
        return s + "@" + std::to_string(o.h);
    }
    bool allowed(int i) override {
        const O& o = ops_[i];
        if (o.kind == OPEN) return !h_[o.h].o;
        if (o.kind == WAITINF) return !h_[o.h].o || h_[o.h].o->count > 0;  // would block for ever
        if (o.kind == RELEASE) return !h_[o.h].o || h_[o.h].o->count < 3;
        return true;
    }
    void apply(int i) override {
        const O& o = ops_[i];
        Handle& h = h_[o.h];
        switch (o.kind) {
            case OPEN: {
                bool r = h.s->open(nm(o.name), o.value);
                if (!r || !h.s->valid()) bad("open-failed", "opening a semaphore failed");
                auto& p = names_[nm(o.name)];
                if (!p) {
                    p = std::make_shared<Obj>();
                    p->count = o.value;
                }
                h.o = p;
                break;
            }
            case CLOSE:
                h.s->close();
                h.o.reset();
                if (h.s->valid()) bad("valid", "a closed semaphore claims to be valid");
                break;
            case WAIT0:
            case WAIT1: {
                int64_t t0 = prim_now_us();
                bool r = h.s->wait(o.kind == WAIT1 ? 1 : 0);
                int64_t dt = prim_now_us() - t0;
                bool want = h.o && h.o->count > 0;
                if (r != want) bad("count", std::string("a wait ") + (r ? "succeeded" : "failed") + (h.o ? ", the count is " + std::to_string(h.o->count) : ", the handle is closed"));
                if (r) h.o->count--;
                else if (h.o && o.kind == WAIT1 && dt < 1000 - prim_slack_us) bad("too-short", "wait(1) gave up after " + std::to_string(dt) + " us");
                break;
            }
            case WAITINF: {
                if (h.o) {
                    if (o.h == 1) h.s->wait();
                    else if (!h.s->wait(-1)) bad("count", "an unlimited wait failed");
                    h.o->count--;
                } else {
                    h.s->wait();
                    if (h.s->wait(-1)) bad("closed", "a wait on a closed semaphore succeeded");
                }
                break;
            }
            case RELEASE:
                h.s->release();
                if (h.o) h.o->count++;
                break;
            case VALID:
                if (h.s->valid() != !!h.o) bad("valid", "valid() is wrong");
                break;
            case EXIST: {
                bool r = veigar::Semaphore::IsExist(nm(o.name));
                bool want = names_.count(nm(o.name));
                if (r != want) bad("exists", std::string("a semaphore is reported to ") + (r ? "exist" : "not exist"));
                break;
            }
            case REMOVE:
                veigar::Semaphore::Remove(nm(o.name));
                names_.erase(nm(o.name));
                break;
        }
    }
    void finish() override {
        // whatever is open: the count is exactly that of the model
        for (int k = 0; k < handles_; k++) {
            Handle& h = h_[k];
            if (!h.o) {
                h.s->close();
                continue;
            }
            for (int i = h.o->count; i > 0; i--)
                if (!h.s->wait(0)) bad("count", "at the end " + std::to_string(i) + " units are missing");
            if (h.s->wait(0)) bad("count", "at the end there are more units than expected");
            h.o->count = 0;
            h.s->close();
            h.o.reset();
        }
        for (int n = 0; n < 2; n++) {
            bool want = names_.count(nm(n));
            if (veigar::Semaphore::IsExist(nm(n)) != want) bad("exists", "at the end: a semaphore exists or not");
            veigar::Semaphore::Remove(nm(n));
            if (veigar::Semaphore::IsExist(nm(n))) bad("exists", "at the end: a removed semaphore exists");
        }
    }
    std::string state() override {
        std::map<Obj*, int> id;
        std::string s;
        for (auto& p : names_) {
            id[p.second.get()] = id.size();
            s += p.first.back() + std::to_string(p.second->count) + " ";
        }
        for (int k = 0; k < handles_; k++) {
            if (!h_[k].o) {
                s += "-";
                continue;
            }
            Obj* o = h_[k].o.get();
            if (!id.count(o)) {
                int n = id.size();
                id[o] = n;
            }
            s += std::to_string(id[o]) + ":" + std::to_string(o->count) + " ";
        }
        return s;
    }
};

// ---- shared memory
class ShmModel : public SeqModel {
    struct Obj {
        int64_t size;
        std::map<int64_t, uint8_t> bytes;
        bool linked = true;
    };
    struct Handle {
        int name;
        int64_t size;
        std::unique_ptr<veigar::SharedMemory> m;
        std::shared_ptr<Obj> o;
        bool creator = false;
    };
    std::vector<Handle> h_;
    std::map<int, std::shared_ptr<Obj>> names_;
    struct O {
        int kind, h, arg;
    };
    std::vector<O> ops_;
    int val_ = 0;
    std::string nm(int n) { return prim_prefix + (n ? "memB" : "memA"); }
    bool seen(const Handle& h) { return !h.creator || true; }

   public:
    enum { CREATE, OPEN, CLOSE, WRITE, READ, REMOVE, REMOVED, VALID };
    ShmModel(const std::vector<std::pair<int, int64_t>>& handles, bool names_only = false) {
        bool two = false;
        for (auto& p : handles) {
            Handle h;
            h.name = p.first;
            h.size = p.second;
            h.m.reset(new veigar::SharedMemory(nm(p.first), p.second));
            h_.push_back(std::move(h));
            if (p.first) two = true;
        }
        for (int i = 0; i < (int)h_.size(); i++)
            for (int k : {CREATE, OPEN, CLOSE, WRITE, READ, REMOVED, VALID})
                if (!names_only || (k != WRITE && k != READ && k != VALID)) ops_.push_back({k, i, 0});
        for (int n = 0; n < (two ? 2 : 1); n++) ops_.push_back({REMOVE, 0, n});
    }
    int nops() override { return ops_.size(); }
    std::string name(int i) override {
        const O& o = ops_[i];
        static const char* const k[] = {"create", "open", "close", "write", "read", "Remove", "isRemoved", "valid"};
        if (o.kind == REMOVE) return std::string("Remove(") + (o.arg ? "B)" : "A)");
        return std::string(k[o.kind]) + "@" + std::to_string(o.h) + (h_[o.h].name ? "B" : "A") + std::to_string(h_[o.h].size);
    }
    bool allowed(int i) override {
        const O& o = ops_[i];
        Handle& h = h_[o.h];
        if (o.kind == CREATE) return !h.o && !names_.count(h.name);
        if (o.kind == OPEN) return !h.o;
        if (o.kind == WRITE) return !!h.o;
        return true;
    }
    std::vector<int64_t> places(const Handle& h) {
        int64_t n = h.o->size < h.size ? h.o->size : h.size;
        return {0, n / 2, n - 1};
    }
    void apply(int i) override {
        const O& o = ops_[i];
        Handle& h = h_[o.h];
        switch (o.kind) {
            case CREATE: {
                if (!h.m->create()) bad("create-failed", "creating a shared memory failed");
                h.o = std::make_shared<Obj>();
                h.o->size = h.size;
                h.creator = true;
                names_[h.name] = h.o;
                if (!h.m->data() || !h.m->valid()) bad("no-data", "a created shared memory has no data");
                if (h.m->size() < h.size) bad("size", "the size of a created shared memory is " + std::to_string(h.m->size()));
                break;
            }
            case OPEN: {
                bool r = h.m->open();
                bool want = names_.count(h.name);
                if (r != want) bad("open", std::string("opening ") + (r ? "succeeded, it does not exist" : "failed, it exists"));
                if (r) {
                    h.o = names_[h.name];
                    h.creator = false;
                    if (!h.m->data() || !h.m->valid()) bad("no-data", "an opened shared memory has no data");
                } else if (h.m->valid() || h.m->data())
                    bad("valid", "a shared memory that was not opened claims to be valid");
                break;
            }
            case CLOSE:
                h.m->close();
                if (h.o && h.creator) {
                    auto it = names_.find(h.name);
                    if (it != names_.end()) {  // (whatever has the name now)
                        it->second->linked = false;
                        names_.erase(it);
                    }
                }
                h.o.reset();
                h.creator = false;
                if (h.m->valid() || h.m->data()) bad("valid", "a closed shared memory claims to be valid");
                break;
            case WRITE:
                val_++;
                for (int64_t p : places(h)) {
                    uint8_t v = (uint8_t)(val_ * 7 + p);
                    h.m->data()[p] = v;
                    h.o->bytes[p] = v;
                }
                break;
            case READ:
                if (!h.o) {
                    if (h.m->data() || h.m->valid()) bad("valid", "a closed shared memory has data");
                    break;
                }
                for (int64_t p : places(h)) {
                    int v = h.m->data()[p], w = h.o->bytes.count(p) ? h.o->bytes[p] : 0;
                    if (v != w) bad("content", "byte " + std::to_string(p) + " is " + std::to_string(v) + " instead of " + std::to_string(w));
                }
                break;
            case REMOVE:
                veigar::SharedMemory::Remove(nm(o.arg));
                if (names_.count(o.arg)) {
                    names_[o.arg]->linked = false;
                    names_.erase(o.arg);
                }
                break;
            case REMOVED: {
                bool r = h.m->isRemoved();
                bool want = h.o && !h.o->linked;
                if (r != want) bad("removed", std::string("isRemoved() is ") + (r ? "true" : "false"));
                break;
            }
            case VALID:
                if (h.m->valid() != !!h.o) bad("valid", "valid() is wrong");
                break;
        }
    }
    void finish() override {
        for (int i = 0; i < (int)ops_.size(); i++)
            if (ops_[i].kind == READ || ops_[i].kind == VALID || ops_[i].kind == REMOVED) apply(i);
        for (auto& h : h_) {
            h.m->close();
            if (h.o && h.creator) names_.erase(h.name);
            h.o.reset();
        }
        for (int n = 0; n < 2; n++) {
            veigar::SharedMemory p(nm(n), 16);
            bool r = p.open();
            p.close();
            if (r != !!names_.count(n)) bad("open", "at the end: a shared memory exists or not");
            veigar::SharedMemory::Remove(nm(n));
        }
    }
    std::string state() override {
        std::map<Obj*, int> id;
        std::string s;
        for (auto& p : names_) {
            int n = id.size();
            id[p.second.get()] = n;
            s += std::to_string(p.first) + "=" + std::to_string(n) + " ";
        }
        for (auto& h : h_) {
            if (!h.o) {
                s += "- ";
                continue;
            }
            if (!id.count(h.o.get())) {
                int n = id.size();
                id[h.o.get()] = n;
            }
            s += std::to_string(id[h.o.get()]) + (h.creator ? "c" : "o") + std::to_string(h.o->size) + (h.o->linked ? "l" : "u") + std::to_string(h.o->bytes.size()) + " ";
        }
        return s;
    }
};

// ---- queues: creating, opening, removal; only the relations between handles, the contents are C06 and C07
class QueueModel : public SeqModel {
    struct Obj {
        int msgs = 0;
        bool locked = false;
        int tokens = 0;
        bool gone = false;
    };
    struct Handle {
        std::unique_ptr<veigar::MessageQueue> q;
        std::shared_ptr<Obj> o;
        bool creator = false;
    };
    Handle h_[3];
    std::shared_ptr<Obj> name_;
    struct O {
        int kind, h;
    };
    std::vector<O> ops_;

   public:
    enum { CREATE, OPEN, CLOSE, PUSH, POP, LOCK, UNLOCK, NOTIFY, WAIT, REMOVED };
    QueueModel(bool names_only = false) {
        for (int i = 0; i < 3; i++) {
            h_[i].q.reset(new veigar::MessageQueue(2 + i, 16));
            for (int k = CREATE; k <= REMOVED; k++)
                if (!(i == 2 && k == CREATE) && !(names_only && k >= LOCK && k < REMOVED)) ops_.push_back({k, i});
        }
    }
    int nops() override { return ops_.size(); }
    std::string name(int i) override {
        static const char* const k[] = {"create", "open", "close", "push", "pop", "lock", "unlock", "notify", "wait", "isRemoved"};
        return std::string(k[ops_[i].kind]) + "@" + std::to_string(ops_[i].h);
    }
    bool allowed(int i) override {
        Handle& h = h_[ops_[i].h];
        switch (ops_[i].kind) {
            case CREATE: return !h.o && !name_;
            case OPEN: return !h.o;
            case CLOSE: return true;
            case UNLOCK: return h.o && h.o->locked;
            case PUSH: return h.o && h.o->msgs < 2;
            case NOTIFY: return h.o && h.o->tokens < 2;
            default: return !!h.o;
        }
    }
    void apply(int i) override {
        Handle& h = h_[ops_[i].h];
        uint8_t b[16] = {1, 2, 3};
        int64_t w = 0;
        switch (ops_[i].kind) {
            case CREATE:
                if (!h.q->create(prim_prefix + "queue")) bad("create-failed", "creating a queue failed");
                h.o = name_ = std::make_shared<Obj>();
                h.creator = true;
                break;
            case OPEN: {
                bool r = h.q->open(prim_prefix + "queue");
                if (r != !!name_) bad("open", std::string("opening a queue ") + (r ? "succeeded, it does not exist" : "failed, it exists"));
                if (r) h.o = name_;
                h.creator = false;
                break;
            }
            case CLOSE:
                h.q->close();
                if (h.creator && h.o == name_) {
                    h.o->gone = true;
                    name_.reset();
                }
                h.o.reset();
                h.creator = false;
                break;
            case PUSH:
                if (!h.q->pushBack(b, 3)) bad("push", "a push was refused");
                h.o->msgs++;
                break;
            case POP:
                if (h.q->popFront(b, 16, w) != (h.o->msgs > 0)) bad("pop", "a pop is wrong");
                if (h.o->msgs) h.o->msgs--;
                break;
            case LOCK: {
                bool r = h.q->processRWLock(0);
                if (r == h.o->locked) bad("lock", r ? "a held lock was acquired" : "a free lock was not acquired");
                h.o->locked = true;
                break;
            }
            case UNLOCK:
                h.q->processRWUnlock();
                h.o->locked = false;
                break;
            case NOTIFY:
                h.q->notifyRead();
                h.o->tokens++;
                break;
            case WAIT:
                if (h.q->waitForRead(0) != (h.o->tokens > 0)) bad("wait", "waiting for a notification is wrong");
                if (h.o->tokens) h.o->tokens--;
                break;
            case REMOVED:
                if (h.q->isRemoved() != h.o->gone) bad("removed", std::string("isRemoved() is ") + (h.o->gone ? "false" : "true"));
                break;
        }
        if (h.o && h.q->msgNumber() != h.o->msgs) bad("msg-number", std::to_string(h.q->msgNumber()) + " messages instead of " + std::to_string(h.o->msgs));
    }
    void finish() override {
        for (int pass = 0; pass < 2; pass++)
            for (auto& h : h_)
                if (h.creator == !!pass) {
                    h.q->close();
                    h.o.reset();
                }
        veigar::MessageQueue p(2, 16);
        if (p.open(prim_prefix + "queue")) bad("open", "at the end: a queue exists");
        for (const char* s : {"queue_rwlock", "queue_readsmp"})
            if (veigar::Semaphore::IsExist(prim_prefix + s)) bad("left-over", "at the end: a semaphore of a closed queue exists");
        p.close();
    }
    std::string state() override {
        std::string s = name_ ? "n" : "-";
        std::map<Obj*, int> id;
        if (name_) id[name_.get()] = 0;
        for (auto& h : h_) {
            if (!h.o) {
                s += " -";
                continue;
            }
            if (!id.count(h.o.get())) {
                int n = id.size() + 1;
                id[h.o.get()] = n;
            }
            s += " " + std::to_string(id[h.o.get()]) + (h.creator ? "c" : "o") + std::to_string(h.o->msgs) + (h.o->locked ? "L" : "") + std::to_string(h.o->tokens) + (h.o->gone ? "g" : "");
        }
        return s;
    }
};

// All sequences up to a depth (depth first, every one from scratch), and a breadth-first search that runs every
// operation in every state of the model that was found.
template <class Make, class Run>
struct SeqSearch {
    Make make;
    Run run;  // run(function): runs it in a fresh world
    uint64_t sequences = 0, states = 0;

    void play(const Seq& s, std::vector<int>* next, std::string* st) {
        char text[600];  // (what is allocated inside does not outlive the run)
        if (next) next->reserve(128);
        run([&] {
            auto m = make();
            for (int op : s) m->step(op);
            if (st) snprintf(text, sizeof text, "%s", m->state().c_str());
            if (next)
                for (int i = 0; i < m->nops(); i++)
                    if (m->allowed(i)) next->push_back(i);
            m->finish();
        });
        if (st) *st = text;
        sequences++;
    }
    void all(Seq& s, int depth, int shard, int n) {
        std::vector<int> next;
        play(s, depth > 0 ? &next : nullptr, nullptr);
        if (depth == 0) return;
        for (size_t i = 0; i < next.size(); i++) {
            if (s.empty() && (int)(i % n) != shard) continue;
            s.push_back(next[i]);
            all(s, depth - 1, shard, n);
            s.pop_back();
        }
    }
    void bfs(size_t max_states, int shard, int n) {
        std::set<std::string> seen;
        std::vector<Seq> q(1);
        std::string st;
        play(q[0], nullptr, &st);
        seen.insert(st);
        for (size_t at = 0; at < q.size(); at++) {
            std::vector<int> next;
            Seq s = q[at];
            play(s, &next, nullptr);
            for (int op : next) {
                s.push_back(op);
                std::string t;
                play(s, nullptr, &t);
                s.pop_back();
                if (seen.size() < max_states && seen.insert(t).second) {
                    Seq c = s;
                    c.push_back(op);
                    q.push_back(c);
                }
            }
        }
        states += seen.size();
        (void)shard;
        (void)n;
    }
};
