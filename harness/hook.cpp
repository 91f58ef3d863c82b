#include "hook.hpp"
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <pthread.h>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
}
namespace {
std::atomic<int> fill{-1}, depth{0}, ftype{-1};
std::atomic<long> alive{0}, cnt0{0}, cnt1{0}, fnum{0};
std::atomic<bool> hit{false};
thread_local bool caller = false;
bool fails() {
    if (depth.load() == 0) return false;
    int t = caller ? 0 : 1;
    long c = (t ? cnt1 : cnt0).fetch_add(1) + 1;
    if (ftype.load() == t && fnum.load() == c) {
        hit = true;
        return true;
    }
    return false;
}
}
namespace hk {
void poison(int b) { fill = b; }
long live() { return alive; }
long allocCount(int t) { return t ? cnt1 : cnt0; }
void faultNone() { ftype = -1; hit = false; }
void faultAt(int t, long n) { hit = false; fnum = n; ftype = t; }
void faultThread() { hit = false; ftype = 2; }
bool faultHit() { return hit; }
char *noteBuf = nullptr;
void note(const char *w) { if (noteBuf) { strncpy(noteBuf, w, 199); noteBuf[199] = 0; } }
Scope::Scope() { caller = true; cnt0 = 0; cnt1 = 0; depth++; }
Scope::~Scope() { depth--; }
}
extern "C" {
void *__wrap_malloc(size_t n) {
    if (fails()) return nullptr;
    void *p = __real_malloc(n);
    int f = fill.load();
    if (p && f >= 0) memset(p, f, n);
    if (p && depth.load()) alive++;
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (fails()) return nullptr;
    void *p = __real_calloc(a, b);
    if (p && depth.load()) alive++;
    return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (fails()) return nullptr;
    size_t old = q ? malloc_usable_size(q) : 0;
    void *p = __real_realloc(q, n);
    int f = fill.load();
    if (p && f >= 0 && old && n > old) memset((char *) p + old, f, n - old);
    if (p && !q && depth.load()) alive++;
    return p;
}
void __wrap_free(void *p) {
    if (p && depth.load()) alive--;
    __real_free(p);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (depth.load() && ftype.load() == 2) {
        hit = true;
        return EAGAIN;
    }
    return __real_pthread_create(t, a, f, x);
}
}
namespace hk { bool inApi() { return depth.load() > 0; } }
