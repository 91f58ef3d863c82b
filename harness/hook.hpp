// Link-time interposition (-Wl,--wrap) of the allocator and of pthread_create:
// fills fresh memory, counts live allocations made inside API calls, injects faults.
#pragma once
namespace hk {
void poison(int byte); // -1: leave memory alone
long live();           // allocations made inside a Scope that are still alive
long allocCount(int thread); // allocations since the last Scope began (0 caller, 1 others)
void faultNone();
void faultAt(int thread, long n); // the n-th allocation of that thread kind fails
void faultThread();               // pthread_create fails
bool faultHit();
void note(const char *what); // what is being tried, for crash reports
extern char *noteBuf;       // set by the engine (shared memory), may be null
struct Scope {
    Scope();
    ~Scope();
};
}
namespace hk { bool inApi(); }
