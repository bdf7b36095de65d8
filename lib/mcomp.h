// Controlled OpenMP: ESPRESO's parallel regions are barrier-free fork-join regions, so a region is executed here by running
// the bodies of all team members one after another in a chosen order. Enumerating the orders (all permutations of the team)
// explores which member runs first/last; results must not depend on it. Include in exactly one translation unit of a harness.
#pragma once
#include <algorithm>
#include <numeric>
#include <string>
#include <vector>

namespace mcomp {
inline int team = 1;                 // members of a parallel region
inline std::vector<int> order;       // execution order of members (empty: identity)
inline int tid = 0, size = 1, level = 0;
inline long regions = 0;
struct Loop { long next, end, incr, chunk; };
inline std::vector<Loop> loops;      // dynamically scheduled loops of the current region: shared by its members, chunks go to whoever runs first
inline size_t loop = 0, single = 0, singles = 0;
inline bool take(long *b, long *e) { Loop &l = loops[loop - 1]; if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false; *b = l.next; l.next += l.chunk * l.incr; if (l.incr > 0 ? l.next > l.end : l.next < l.end) l.next = l.end; *e = l.next; return true; }
inline bool start(long b, long e, long i, long c, long *x, long *y) { if (loop++ == loops.size()) loops.push_back({ b, e, i, c < 1 ? 1 : c }); return take(x, y); }
// k-th permutation (lexicographic) of t members; k < 0: reversed
inline void set(int t, long k) { team = t; order.resize(t); std::iota(order.begin(), order.end(), 0); if (k < 0) { std::reverse(order.begin(), order.end()); return; } while (k-- > 0 && std::next_permutation(order.begin(), order.end())) {} }
inline long orders(int t) { long f = 1; for (int i = 2; i <= t; i++) f *= i; return f; }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void *data, unsigned nt, unsigned) {
    int t = nt ? (int)nt : mcomp::team; if (mcomp::level) t = 1;
    auto oloops = std::move(mcomp::loops); mcomp::loops.clear(); size_t oloop = mcomp::loop, osingle = mcomp::single, osingles = mcomp::singles; mcomp::singles = 0; int otid = mcomp::tid, osize = mcomp::size; mcomp::level++; mcomp::size = t; if (t > 1) mcomp::regions++;
    for (int i = 0; i < t; i++) { mcomp::tid = (int)mcomp::order.size() == t ? mcomp::order[i] : i; mcomp::loop = mcomp::single = 0; fn(data); }
    mcomp::level--; mcomp::tid = otid; mcomp::size = osize; mcomp::loops = std::move(oloops); mcomp::loop = oloop; mcomp::single = osingle; mcomp::singles = osingles;
}
bool GOMP_single_start() { if (mcomp::single++ == mcomp::singles) { mcomp::singles++; return true; } return false; }
bool GOMP_loop_dynamic_start(long b, long e, long i, long c, long *x, long *y) { return mcomp::start(b, e, i, c, x, y); }
bool GOMP_loop_dynamic_next(long *x, long *y) { return mcomp::take(x, y); }
bool GOMP_loop_guided_start(long b, long e, long i, long c, long *x, long *y) { return mcomp::start(b, e, i, c, x, y); }
bool GOMP_loop_guided_next(long *x, long *y) { return mcomp::take(x, y); }
bool GOMP_loop_nonmonotonic_dynamic_start(long b, long e, long i, long c, long *x, long *y) { return mcomp::start(b, e, i, c, x, y); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *x, long *y) { return mcomp::take(x, y); }
bool GOMP_loop_nonmonotonic_guided_start(long b, long e, long i, long c, long *x, long *y) { return mcomp::start(b, e, i, c, x, y); }
bool GOMP_loop_nonmonotonic_guided_next(long *x, long *y) { return mcomp::take(x, y); }
void GOMP_loop_end() {}
void GOMP_loop_end_nowait() {}
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void *data, unsigned nt, long b, long e, long i, long c, unsigned f) { struct A { void (*fn)(void*); void *data; long b, e, i, c; } a = { fn, data, b, e, i, c }; GOMP_parallel([](void *p) { A *a = (A*)p; if (mcomp::loops.empty()) mcomp::loops.push_back({ a->b, a->e, a->i, a->c < 1 ? 1 : a->c }); mcomp::loop = 1; a->fn(a->data); }, &a, nt, f); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void *data, unsigned nt, long b, long e, long i, long c, unsigned f) { struct A { void (*fn)(void*); void *data; long b, e, i, c; } a = { fn, data, b, e, i, c }; GOMP_parallel([](void *p) { A *a = (A*)p; if (mcomp::loops.empty()) mcomp::loops.push_back({ a->b, a->e, a->i, a->c < 1 ? 1 : a->c }); mcomp::loop = 1; a->fn(a->data); }, &a, nt, f); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void *data, unsigned nt, long b, long e, long i, long c, unsigned f) { struct A { void (*fn)(void*); void *data; long b, e, i, c; } a = { fn, data, b, e, i, c }; GOMP_parallel([](void *p) { A *a = (A*)p; if (mcomp::loops.empty()) mcomp::loops.push_back({ a->b, a->e, a->i, a->c < 1 ? 1 : a->c }); mcomp::loop = 1; a->fn(a->data); }, &a, nt, f); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void *data, unsigned nt, long b, long e, long i, long c, unsigned f) { struct A { void (*fn)(void*); void *data; long b, e, i, c; } a = { fn, data, b, e, i, c }; GOMP_parallel([](void *p) { A *a = (A*)p; if (mcomp::loops.empty()) mcomp::loops.push_back({ a->b, a->e, a->i, a->c < 1 ? 1 : a->c }); mcomp::loop = 1; a->fn(a->data); }, &a, nt, f); }
int omp_get_thread_num() { return mcomp::tid; }
int omp_get_num_threads() { return mcomp::size; }
int omp_get_level() { return mcomp::level; }
int omp_in_parallel() { return mcomp::level > 0; }
void omp_set_num_threads(int) {}
int omp_get_max_threads() { return mcomp::level ? 1 : mcomp::team; }
}
