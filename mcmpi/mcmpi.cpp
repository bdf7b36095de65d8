#include "mcmpi.h"
#include <execinfo.h>
#include <mpi.h>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
std::function<void(int)> onmpi;
static inline void hook(int comm = -1) { if (onmpi) onmpi(comm); }

// ----------------------------------------------------------------- shared state
static const size_t SHMSIZE = (size_t)4 << 30;
static const int MAXCHOICE = 4096;
static const unsigned MAGIC_COMM = 0xC0331337, MAGIC_REQ = 0x4e900001;

struct Msg { int src, dst, comm, tag; size_t len; char *data; Msg *next, *prev; bool matched; struct Req *sreq; uint64_t sum; };

struct Req {
    unsigned magic; int kind; /*0 send 1 recv*/ bool done; int owner;
    int comm, peer, tag; void *ubuf; size_t cap; Msg *msg; Req *next; uint64_t sum; size_t len; bool blocking;
};

struct Coll {
    int comm; long seq; int type, root, nin, nout; void *op; void *dt; size_t bytes;
    bool in[MAXR]; char *data[MAXR]; size_t len[MAXR]; size_t *plen[MAXR]; int aux[MAXR][2];
    int *glist; int newcomm[MAXR]; bool made; Coll *next;
};

struct Comm { unsigned magic; int id, n; int world[MAXR]; int of[MAXR]; bool freed[MAXR]; long seq[MAXR]; Coll *colls; };

enum { W_NONE, W_REQ, W_PROBE, W_COLL };
struct Wait { int kind; Req *reqs[4096]; int nreq; int comm, src, tag; int chosen; Coll *coll; const char *what; };

struct Choice { int chosen, nalt; };

struct Shm {
    int n; bool rendezvous, relaxed, leftover, follow; int prio[MAXR];
    std::atomic<int> baton[MAXR];
    int status[MAXR];             // 0 ready, 1 blocked, 2 done
    Wait wait[MAXR];
    Msg *mq[MAXR]; Msg *mqtail[MAXR];   // messages addressed to rank
    Req *posted[MAXR];            // posted, unmatched receives (in order)
    Comm comms[512]; int ncomms;
    int nchoice; Choice choice[MAXCHOICE]; uint64_t cstate[MAXCHOICE]; int nprefix; int prefix[MAXCHOICE];
    uint64_t hist[MAXR];          // hash of the wildcard-match sequence of the rank
    int fail; char failmsg[8192]; std::atomic<int> alldone;
    long steps, msgs, ncolls, wild, inits[MAXR]; bool finalized[MAXR];
    size_t brk; void *freel[48];
    char *rep[MAXR]; size_t replen[MAXR], repcap[MAXR];
    // visited states
    size_t vcap, vcnt; uint64_t *visited; bool usevisited; bool pruned;
};

static Shm *S = nullptr;
static char *base = nullptr;
static int R = -1;          // world rank of this process

static void *salloc(size_t size) {
    if (size < 16) size = 16;
    int c = 64 - __builtin_clzl(size - 1);
    if (c > 40) { fprintf(stderr, "mcmpi: huge allocation\n"); _exit(99); }
    if (S->freel[c]) { void *p = S->freel[c]; S->freel[c] = *(void**)p; return p; }
    size_t sz = (size_t)1 << c;
    if (S->brk + sz > SHMSIZE) { fprintf(stderr, "mcmpi: out of shared memory\n"); _exit(99); }
    void *p = base + S->brk; S->brk += sz; return p;
}
static void sfree(void *p, size_t size) {
    if (size < 16) size = 16;
    int c = 64 - __builtin_clzl(size - 1);
    *(void**)p = S->freel[c]; S->freel[c] = p;
}

static void futex_wait(std::atomic<int> *w) {
    for (int i = 0; i < 200; i++) { if (w->load(std::memory_order_acquire)) goto got; __builtin_ia32_pause(); }
    while (!w->load(std::memory_order_acquire)) syscall(SYS_futex, (int*)w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
got:
    w->store(0, std::memory_order_release);
}
static void futex_wake(std::atomic<int> *w) { w->store(1, std::memory_order_release); syscall(SYS_futex, (int*)w, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

static void fail(int status, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
static void fail(int status, const char *fmt, ...) {
    if (!S->fail) {
        va_list ap; va_start(ap, fmt); vsnprintf(S->failmsg, sizeof S->failmsg, fmt, ap); va_end(ap);
        S->fail = status;
    }
    _exit(77);
}

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
static uint64_t hashmem(const void *p, size_t n) { uint64_t h = 1469598103934665603ull + n; const unsigned char *c = (const unsigned char*)p; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, c + i, 8); h = mix(h, v); } for (; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }

static Comm *comm(MPI_Comm c) {
    if (c == MPI_COMM_WORLD) return &S->comms[0];
    if (c == MPI_COMM_SELF) return &S->comms[1 + R];
    if (c == MPI_COMM_NULL) fail(Exec::MPIERR, "rank %d: operation on MPI_COMM_NULL", R);
    Comm *p = (Comm*)c;
    if (p < S->comms || p >= S->comms + 512 || p->magic != MAGIC_COMM) fail(Exec::MPIERR, "rank %d: invalid communicator", R);
    int r = p->of[R];
    if (r < 0) fail(Exec::MPIERR, "rank %d: not a member of the communicator", R);
    if (p->freed[r]) fail(Exec::MPIERR, "rank %d: communicator used after MPI_Comm_free", R);
    return p;
}
static int newcomm(const std::vector<int> &world) {
    if (S->ncomms >= 512) fail(Exec::MPIERR, "too many communicators");
    int id = S->ncomms++;
    Comm &c = S->comms[id]; memset(&c, 0, sizeof c);
    c.magic = MAGIC_COMM; c.id = id; c.n = world.size();
    for (int i = 0; i < MAXR; i++) c.of[i] = -1;
    for (int i = 0; i < c.n; i++) { c.world[i] = world[i]; c.of[world[i]] = i; }
    return id;
}
static MPI_Comm handle(int id) { return (MPI_Comm)&S->comms[id]; }

// ----------------------------------------------------------------- matching
static bool matches(const Msg *m, int c, int src, int tag) { return !m->matched && m->comm == c && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag); }
static Msg *findmsg(int dst, int c, int src, int tag) { for (Msg *m = S->mq[dst]; m; m = m->next) if (matches(m, c, src, tag)) return m; return nullptr; }

static void dqueue(Msg *m) {
    int d = m->dst;
    if (m->prev) m->prev->next = m->next; else S->mq[d] = m->next;
    if (m->next) m->next->prev = m->prev; else S->mqtail[d] = m->prev;
}
static void bind(Req *r, Msg *m) { m->matched = true; r->msg = m; r->done = true; dqueue(m); if (m->sreq) { m->sreq->done = true; m->sreq = nullptr; } }

static bool collready(Coll *c, int me) {
    Comm &k = S->comms[c->comm]; int r = k.of[me];
    int need = 2; // 2 all, 1 root only, 0 nothing, 3 prefix
    if (S->relaxed) {
        switch (c->type) {
        case 'B': case 'S': need = r == c->root ? 0 : 1; break;
        case 'R': case 'G': need = r == c->root ? 2 : 0; break;
        case 'N': case 'X': need = 3; break;
        }
    }
    if (need == 0) return true;
    if (need == 1) return c->in[c->root];
    if (need == 3) { for (int i = 0; i <= r; i++) if (!c->in[i]) return false; return true; }
    if (c->glist) { for (int i = 0; c->glist[i] >= 0; i++) if (!c->in[c->glist[i]]) return false; return true; }
    return c->nin == k.n;
}

// deterministic readiness (wildcard probes are handled by choice)
static bool ready(int r) {
    if (S->status[r] == 2) return false;
    if (S->status[r] == 0) return true;
    Wait &w = S->wait[r];
    switch (w.kind) {
    case W_REQ: for (int i = 0; i < w.nreq; i++) if (!w.reqs[i]->done) return false; return true;
    case W_PROBE: return w.src != MPI_ANY_SOURCE && findmsg(r, w.comm, w.src, w.tag);
    case W_COLL: return collready(w.coll, r);
    }
    return true;
}

static std::string describe(int r) {
    char b[256]; Wait &w = S->wait[r];
    if (S->status[r] == 2) return "finished";
    switch (w.kind) {
    case W_REQ: for (int i = 0; i < w.nreq; i++) if (!w.reqs[i]->done) { snprintf(b, sizeof b, "%s: %s peer %d tag %d comm %d", w.what, w.reqs[i]->kind ? "recv from" : "send to", w.reqs[i]->peer, w.reqs[i]->tag, w.reqs[i]->comm); return b; } return "req";
    case W_PROBE: snprintf(b, sizeof b, "probe source %d tag %d comm %d", w.src, w.tag, w.comm); return b;
    case W_COLL: { std::string m; for (int i = 0; i < S->comms[w.coll->comm].n; i++) if (w.coll->in[i]) m += std::to_string(i) + ","; snprintf(b, sizeof b, "collective '%s' #%ld on comm %d (arrived: %s)", w.what, w.coll->seq, w.coll->comm, m.c_str()); return b; }
    }
    return "ready";
}

static void pruneexit() { S->pruned = true; S->fail = Exec::PRUNED; _exit(77); }

// choose the next rank to run; called by the rank that gives up the baton
static int schedule() {
    for (int i = 0; i < S->n; i++) { int r = S->prio[i]; if (ready(r)) return r; }
    // quiescent: wildcard alternatives
    struct Alt { int rank, src; }; Alt alts[MAXR * MAXR]; int na = 0; bool alive = false;
    for (int r = 0; r < S->n; r++) {
        if (S->status[r] != 2) alive = true;
        if (S->status[r] == 1 && S->wait[r].kind == W_PROBE) {
            bool seen[MAXR] = {};
            for (Msg *m = S->mq[r]; m; m = m->next) if (matches(m, S->wait[r].comm, MPI_ANY_SOURCE, S->wait[r].tag) && !seen[m->src]) { seen[m->src] = true; alts[na++] = { r, m->src }; }
        }
    }
    if (!alive) return -1;
    if (na == 0) {
        std::string d; for (int r = 0; r < S->n; r++) d += " [rank " + std::to_string(r) + ": " + describe(r) + "]";
        fail(Exec::DEADLOCK, "deadlock:%s", d.c_str());
    }
    if (S->nchoice >= MAXCHOICE) fail(Exec::MPIERR, "too many choices");
    uint64_t st = 0x1234567; for (int r = 0; r < S->n; r++) st = mix(st, S->hist[r]);
    int k = S->nchoice, pick = 0;
    if (k < S->nprefix) { pick = S->prefix[k]; if (pick >= na) fail(Exec::MPIERR, "replay diverged"); }
    else if (S->usevisited) {
        if (!st) st = 1;
        size_t p = st & (S->vcap - 1);
        while (S->visited[p] && S->visited[p] != st) p = (p + 1) & (S->vcap - 1);
        if (S->visited[p] == st) pruneexit();
        if (S->vcnt * 2 < S->vcap) { S->visited[p] = st; S->vcnt++; }
    }
    S->choice[k] = { pick, na }; S->cstate[k] = st; S->nchoice++;
    int r = alts[pick].rank;
    S->wait[r].chosen = alts[pick].src; S->hist[r] = mix(S->hist[r], alts[pick].src + 1); S->wild++;
    return r;
}

static void block(const char *what) {
    Wait &w = S->wait[R]; w.what = what; w.chosen = -1; S->status[R] = 1; S->steps++;
    // run on if nothing blocks us (keeps the schedule deterministic: the baton moves only when blocked)
    if (ready(R)) { S->status[R] = 0; return; }
    int r = schedule();
    if (r != R) { futex_wake(&S->baton[r]); futex_wait(&S->baton[R]); }
    S->status[R] = 0;
}

// ----------------------------------------------------------------- types / ops
struct UType { unsigned magic; size_t size; };
static size_t tsize(MPI_Datatype t) {
    if (t == MPI_INT) return sizeof(int);
    if (t == MPI_DOUBLE) return 8;
    if (t == MPI_BYTE || t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_CXX_BOOL || t == MPI_C_BOOL) return 1;
    if (t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_INT32_T || t == MPI_UINT32_T) return 4;
    if (t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_2INT) return 8;
    if (t == MPI_SHORT) return 2;
    if (t == MPI_DOUBLE_COMPLEX || t == MPI_C_DOUBLE_COMPLEX || t == MPI_DOUBLE_INT) return 16;
    if (t == MPI_FLOAT_INT) return 8;
    UType *u = (UType*)t;
    if (u && u->magic == 0x7e7e0001) return u->size;
    fail(Exec::MPIERR, "rank %d: unsupported datatype", R);
}
struct UOp { unsigned magic; MPI_User_function *fn; };

template <typename T> static void red(T *a, const T *b, size_t n, MPI_Op op) {
    if (op == MPI_SUM) for (size_t i = 0; i < n; i++) a[i] += b[i];
    else if (op == MPI_MAX) for (size_t i = 0; i < n; i++) a[i] = std::max(a[i], b[i]);
    else if (op == MPI_MIN) for (size_t i = 0; i < n; i++) a[i] = std::min(a[i], b[i]);
    else if (op == MPI_PROD) for (size_t i = 0; i < n; i++) a[i] = a[i] * b[i];
    else if (op == MPI_LAND) for (size_t i = 0; i < n; i++) a[i] = a[i] && b[i];
    else if (op == MPI_LOR) for (size_t i = 0; i < n; i++) a[i] = a[i] || b[i];
    else fail(Exec::MPIERR, "unsupported reduction");
}
template <typename T> static bool redbits(T *a, const T *b, size_t n, MPI_Op op) {
    if (op == MPI_BOR) { for (size_t i = 0; i < n; i++) a[i] |= b[i]; return true; }
    if (op == MPI_BAND) { for (size_t i = 0; i < n; i++) a[i] &= b[i]; return true; }
    return false;
}
template <typename T> static void redloc(void *a, const void *b, size_t n, MPI_Op op) {
    struct P { T v; int i; }; P *x = (P*)a; const P *y = (const P*)b;
    for (size_t i = 0; i < n; i++) {
        if (op == MPI_MINLOC) { if (y[i].v < x[i].v || (y[i].v == x[i].v && y[i].i < x[i].i)) x[i] = y[i]; }
        else if (op == MPI_MAXLOC) { if (y[i].v > x[i].v || (y[i].v == x[i].v && y[i].i < x[i].i)) x[i] = y[i]; }
        else fail(Exec::MPIERR, "unsupported pair reduction");
    }
}
// acc = acc (op) in
static void reduceInto(void *acc, const void *in, int count, MPI_Datatype t, MPI_Op op) {
    UOp *u = (UOp*)op;
    static const std::set<MPI_Op> pre = { MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BOR, MPI_BAND, MPI_MINLOC, MPI_MAXLOC };
    if (!pre.count(op)) {
        if (!u || u->magic != 0x0b0b0001) fail(Exec::MPIERR, "unsupported op");
        int len = count; MPI_Datatype tt = t; u->fn((void*)in, acc, &len, &tt); return;
    }
    if (t == MPI_2INT) return redloc<int>(acc, in, count, op);
    if (t == MPI_DOUBLE_INT) return redloc<double>(acc, in, count, op);
    if (t == MPI_FLOAT_INT) return redloc<float>(acc, in, count, op);
    if (t == MPI_INT || t == MPI_INT32_T) { if (redbits((int*)acc, (const int*)in, count, op)) return; return red((int*)acc, (const int*)in, count, op); }
    if (t == MPI_UNSIGNED || t == MPI_UINT32_T) { if (redbits((unsigned*)acc, (const unsigned*)in, count, op)) return; return red((unsigned*)acc, (const unsigned*)in, count, op); }
    if (t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_INT64_T) { if (redbits((long*)acc, (const long*)in, count, op)) return; return red((long*)acc, (const long*)in, count, op); }
    if (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T) { if (redbits((unsigned long*)acc, (const unsigned long*)in, count, op)) return; return red((unsigned long*)acc, (const unsigned long*)in, count, op); }
    if (t == MPI_DOUBLE) return red((double*)acc, (const double*)in, count, op);
    if (t == MPI_FLOAT) return red((float*)acc, (const float*)in, count, op);
    if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_SIGNED_CHAR) { if (redbits((char*)acc, (const char*)in, count, op)) return; return red((char*)acc, (const char*)in, count, op); }
    if (t == MPI_SHORT) { if (redbits((short*)acc, (const short*)in, count, op)) return; return red((short*)acc, (const short*)in, count, op); }
    if (t == MPI_DOUBLE_COMPLEX || t == MPI_C_DOUBLE_COMPLEX) {
        if (op != MPI_SUM) fail(Exec::MPIERR, "unsupported complex reduction");
        auto a = (std::complex<double>*)acc; auto b = (const std::complex<double>*)in; for (int i = 0; i < count; i++) a[i] += b[i]; return;
    }
    fail(Exec::MPIERR, "unsupported reduction type");
}

// ----------------------------------------------------------------- point to point
static Req *isend(const void *buf, size_t len, int dst, int tag, Comm *c) {
    if (dst < 0 || dst >= c->n) fail(Exec::MPIERR, "rank %d: send to invalid rank %d (communicator size %d)", R, dst, c->n);
    if (tag < 0) fail(Exec::MPIERR, "rank %d: negative tag", R);
    Msg *m = (Msg*)salloc(sizeof(Msg)); memset(m, 0, sizeof *m);
    m->src = c->of[R]; m->dst = c->world[dst]; m->comm = c->id; m->tag = tag; m->len = len;
    m->data = (char*)salloc(len); if (len) memcpy(m->data, buf, len);
    Req *r = (Req*)salloc(sizeof(Req)); memset(r, 0, sizeof *r);
    r->magic = MAGIC_REQ; r->kind = 0; r->owner = R; r->comm = c->id; r->peer = dst; r->tag = tag; r->ubuf = (void*)buf; r->len = len; r->sum = hashmem(buf, len);
    S->msgs++;
    r->done = !S->rendezvous; if (!r->done) m->sreq = r;
    m->prev = S->mqtail[m->dst]; if (m->prev) m->prev->next = m; else S->mq[m->dst] = m; S->mqtail[m->dst] = m;
    // posted receives of the destination, in posting order
    for (Req **p = &S->posted[m->dst]; *p; p = &(*p)->next) {
        Req *q = *p;
        if (q->comm == m->comm && (q->peer == MPI_ANY_SOURCE || q->peer == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag)) { *p = q->next; bind(q, m); break; }
    }
    return r;
}
static Req *irecv(void *buf, size_t cap, int src, int tag, Comm *c) {
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= c->n)) fail(Exec::MPIERR, "rank %d: receive from invalid rank %d (communicator size %d)", R, src, c->n);
    Req *r = (Req*)salloc(sizeof(Req)); memset(r, 0, sizeof *r);
    r->magic = MAGIC_REQ; r->kind = 1; r->owner = R; r->comm = c->id; r->peer = src; r->tag = tag; r->ubuf = buf; r->cap = cap;
    if (Msg *m = findmsg(R, c->id, src, tag)) bind(r, m);
    else { Req **p = &S->posted[R]; while (*p) p = &(*p)->next; *p = r; }
    return r;
}
static void complete(Req *r, MPI_Status *st) {
    if (r->kind == 0) {
        if (hashmem(r->ubuf, r->len) != r->sum) fail(Exec::MPIERR, "rank %d: send buffer to %d tag %d was modified before the send completed", R, r->peer, r->tag);
        if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->_ucount = 0; }
    } else {
        Msg *m = r->msg;
        if (m->len > r->cap) fail(Exec::MPIERR, "rank %d: message from %d tag %d truncated (%zu bytes into a buffer of %zu)", R, m->src, m->tag, m->len, r->cap);
        if (m->len) memcpy(r->ubuf, m->data, m->len);
        if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = m->len; st->_cancelled = 0; }
        sfree(m->data, m->len); sfree(m, sizeof *m);
    }
    r->magic = 0; sfree(r, sizeof *r);
}
static Req *req(MPI_Request h) {
    Req *r = (Req*)h;
    if (!r || (char*)r < base || (char*)r >= base + SHMSIZE || r->magic != MAGIC_REQ || r->owner != R) fail(Exec::MPIERR, "rank %d: invalid request", R);
    return r;
}
static void waitreqs(Req **rs, int n, const char *what) {
    Wait &w = S->wait[R]; if (n > 4096) fail(Exec::MPIERR, "too many requests");
    w.kind = W_REQ; w.nreq = n; for (int i = 0; i < n; i++) w.reqs[i] = rs[i];
    block(what);
}

// ----------------------------------------------------------------- collectives
static const char *cname(int t) {
    switch (t) { case 'B': return "Bcast"; case 'R': return "Reduce"; case 'A': return "Allreduce"; case 'G': return "Gather(v)"; case 'L': return "Allgather(v)"; case 'S': return "Scatter(v)";
    case 'N': return "Scan"; case 'X': return "Exscan"; case 'T': return "Alltoall(v)"; case 'W': return "Barrier"; case 'D': return "Comm_dup"; case 'P': return "Comm_split"; case 'C': return "Comm_create"; case 'F': return "File_open"; case 'E': return "Comm_create_group"; }
    return "?";
}
static Coll *enter(Comm *c, int type, int root, void *op, void *dt, size_t bytes, const void *data, size_t len) {
    hook(c->id); int r = c->of[R]; long seq = c->seq[r]++;
    Coll *k = c->colls; while (k && (k->seq != seq || k->type == 'E')) k = k->next;
    if (!k) {
        k = (Coll*)salloc(sizeof(Coll)); memset(k, 0, sizeof *k);
        k->comm = c->id; k->seq = seq; k->type = type; k->root = root; k->op = op; k->dt = dt; k->bytes = bytes; k->next = c->colls; c->colls = k; S->ncolls++;
    } else {
        if (k->type != type) fail(Exec::MPIERR, "rank %d: collective mismatch on comm %d: %s vs %s", R, c->id, cname(type), cname(k->type));
        if (k->root != root) fail(Exec::MPIERR, "rank %d: collective root mismatch in %s", R, cname(type));
        bool cmpb = type == 'B' || type == 'R' || type == 'A' || type == 'N' || type == 'X';
        if (cmpb && k->bytes != bytes) fail(Exec::MPIERR, "rank %d: collective size mismatch in %s: %zu vs %zu bytes", R, cname(type), bytes, k->bytes);
        if ((type == 'R' || type == 'A' || type == 'N' || type == 'X') && k->op != op && ((UOp*)op)->magic == 0) fail(Exec::MPIERR, "rank %d: collective op mismatch", R);
    }
    k->in[r] = true; k->nin++; k->len[r] = len; k->data[r] = (char*)salloc(len ? len : 1); if (len && data) memcpy(k->data[r], data, len);
    return k;
}
static void waitcoll(Coll *k) { Wait &w = S->wait[R]; w.kind = W_COLL; w.coll = k; block(cname(k->type)); }
static void leave(Coll *k) {
    Comm &c = S->comms[k->comm];
    if (++k->nout == c.n) {
        Coll **p = &c.colls; while (*p != k) p = &(*p)->next; *p = k->next;
        for (int i = 0; i < c.n; i++) { sfree(k->data[i], k->len[i] ? k->len[i] : 1); if (k->plen[i]) sfree(k->plen[i], sizeof(size_t) * c.n); }
        sfree(k, sizeof *k);
    }
}

// ----------------------------------------------------------------- controller
static void mkshm() {
    if (S) return;
    base = (char*)mmap(nullptr, SHMSIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    S = (Shm*)base;
    S->vcap = 0;
}

static uint64_t *vis = nullptr; static size_t viscap = 0;

static void setup(const Opt &o, const std::vector<int> &prefix, bool usevisited) {
    static bool first = true; static size_t lastbrk = 0;
    if (!first) lastbrk = S->brk;
    first = false;
    if (lastbrk > ((size_t)64 << 20)) madvise(base + sizeof(Shm), lastbrk - sizeof(Shm), MADV_REMOVE);
    size_t keepcap = viscap, keepcnt = S->vcnt;
    S->n = o.n; S->rendezvous = o.rendezvous; S->relaxed = o.relaxed; S->leftover = o.leftover;
    for (int i = 0; i < o.n; i++) S->prio[i] = o.prio.size() ? o.prio[i] : i;
    for (int i = 0; i < MAXR; i++) {
        S->baton[i] = 0; S->status[i] = 0; S->wait[i].kind = 0; S->wait[i].nreq = 0; S->mq[i] = S->mqtail[i] = nullptr; S->posted[i] = nullptr; S->hist[i] = 0;
        S->rep[i] = nullptr; S->replen[i] = S->repcap[i] = 0; S->finalized[i] = false; S->inits[i] = 0;
    }
    S->ncomms = 0; S->nchoice = 0; S->nprefix = prefix.size(); for (size_t i = 0; i < prefix.size(); i++) S->prefix[i] = prefix[i];
    S->fail = 0; S->failmsg[0] = 0; S->alldone = 0; S->steps = S->msgs = S->ncolls = S->wild = 0; S->pruned = false;
    S->brk = (sizeof(Shm) + 4095) & ~(size_t)4095; memset(S->freel, 0, sizeof S->freel);
    S->visited = vis; S->vcap = keepcap; S->vcnt = keepcnt; S->usevisited = usevisited && vis;
    std::vector<int> w; for (int i = 0; i < o.n; i++) w.push_back(i);
    newcomm(w);
    for (int i = 0; i < o.n; i++) newcomm({ i });
}

static void rankdone() {
    S->status[R] = 2;
    for (Req *q = S->posted[R]; q; q = q->next) fail(Exec::MPIERR, "rank %d: finished with a pending receive (from %d tag %d)", R, q->peer, q->tag);
    int r = schedule();
    if (r >= 0) futex_wake(&S->baton[r]);
    else {
        if (S->leftover) for (int i = 0; i < S->n; i++) if (S->mq[i]) fail(Exec::MPIERR, "message from %d to %d (tag %d, %zu bytes) was never received", S->mq[i]->src, i, S->mq[i]->tag, S->mq[i]->len);
        S->alldone = 1;
    }
}

static Exec runonce(const Opt &o, const std::vector<int> &prefix, const std::function<void(int)> &rankmain, Stats &st, bool usevisited) {
    mkshm();
    setup(o, prefix, usevisited);
    if (o.out.size()) { int fd = open(o.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) close(fd); }
    fflush(stdout); fflush(stderr);
    std::vector<pid_t> pids(o.n);
    for (int r = 0; r < o.n; r++) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(3); }
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            R = r;
            struct rlimit rl = { (rlim_t)o.cpulimit, (rlim_t)o.cpulimit + 2 }; setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
            struct rlimit rd = { (rlim_t)o.memlimit << 20, (rlim_t)o.memlimit << 20 }; setrlimit(RLIMIT_DATA, &rd);
            int fd = open(o.out.size() ? o.out.c_str() : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644);
            if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
            if (getenv("MC_BT")) { auto h = [](int sig) { void *b[40]; int k = backtrace(b, 40); backtrace_symbols_fd(b, k, 2); signal(sig, SIG_DFL); raise(sig); }; signal(SIGSEGV, h); signal(SIGABRT, h); signal(SIGFPE, h); }
            futex_wait(&S->baton[r]);
            rankmain(r);
            fflush(stdout); fflush(stderr);
            rankdone();
            _exit(0);
        }
        pids[r] = p;
    }
    futex_wake(&S->baton[S->prio[0]]);
    Exec e; int left = o.n; std::vector<bool> gone(o.n, false);
    while (left) {
        int ws; pid_t p = waitpid(-1, &ws, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int r = std::find(pids.begin(), pids.end(), p) - pids.begin();
        if (r == o.n) continue;
        gone[r] = true; left--;
        bool bad = !(WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && S->status[r] == 2);
        if (bad) {
            for (int i = 0; i < o.n; i++) if (!gone[i]) kill(pids[i], SIGKILL);
            for (int i = 0; i < o.n; i++) if (!gone[i]) { int x; while (waitpid(pids[i], &x, 0) < 0 && errno == EINTR); gone[i] = true; left--; }
            char b[512];
            if (S->fail) { e.status = (Exec::Status)S->fail; e.msg = S->failmsg; }
            else if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU)) { e.status = Exec::TIMEOUT; snprintf(b, sizeof b, "rank %d does not terminate (more than %d s of CPU time)", r, o.cpulimit); e.msg = b; }
            else if (WIFSIGNALED(ws)) { e.status = Exec::CRASH; snprintf(b, sizeof b, "rank %d crashed with signal %d (%s)", r, WTERMSIG(ws), strsignal(WTERMSIG(ws))); e.msg = b; }
            else { e.status = Exec::CRASH; snprintf(b, sizeof b, "rank %d exited with code %d", r, WEXITSTATUS(ws)); e.msg = b; }
        }
    }
    for (int i = 0; i < S->nchoice; i++) e.choices.push_back(S->choice[i].chosen);
    e.report.resize(o.n);
    for (int r = 0; r < o.n; r++) if (S->rep[r]) e.report[r].assign(S->rep[r], S->replen[r]);
    st.execs++; st.msgs += S->msgs; st.colls += S->ncolls; st.wild += S->wild; st.transitions += S->steps; if (e.status != Exec::PRUNED) st.complete++;
    return e;
}

Exec run(const Opt &o, const std::vector<int> &prefix, const std::function<void(int)> &f, Stats &st) { return runonce(o, prefix, f, st, false); }

bool explore(const Opt &o, const std::function<void(int)> &f, const std::function<bool(Exec&)> &onexec, Stats &st) {
    mkshm();
    if (!vis) { viscap = 1 << 22; vis = (uint64_t*)mmap(nullptr, viscap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    else if (S->vcnt > 100000) { madvise(vis, viscap * 8, MADV_REMOVE); }
    else if (S->vcnt) memset(vis, 0, viscap * 8);
    S->vcnt = 0;
    std::vector<std::vector<int>> work; work.push_back({});
    long ex = 0;
    while (work.size()) {
        std::vector<int> pre = work.back(); work.pop_back();
        if (++ex > o.maxexec) { st.truncated = true; return false; }
        Exec e = runonce(o, pre, f, st, true);
        for (int k = S->nchoice - 1; k >= (int)pre.size(); k--) {
            for (int a = S->choice[k].nalt - 1; a >= 0; a--) if (a != S->choice[k].chosen) {
                std::vector<int> np; for (int i = 0; i < k; i++) np.push_back(S->choice[i].chosen); np.push_back(a); work.push_back(np);
            }
        }
        if (e.status == Exec::PRUNED) continue;
        if (!onexec(e)) { st.states += S->vcnt; return false; }
        if (e.bad()) { st.states += S->vcnt; return false; }
    }
    st.states += S->vcnt + 1;
    return true;
}

void report(const std::string &s) {
    size_t need = S->replen[R] + s.size();
    if (need > S->repcap[R]) {
        size_t cap = std::max<size_t>(need * 2, 256); char *p = (char*)salloc(cap);
        if (S->rep[R]) { memcpy(p, S->rep[R], S->replen[R]); sfree(S->rep[R], S->repcap[R]); }
        S->rep[R] = p; S->repcap[R] = cap;
    }
    memcpy(S->rep[R] + S->replen[R], s.data(), s.size()); S->replen[R] += s.size();
}
int myrank() { return R; }
void converge() {
    static uint64_t count = 0; uint64_t h = mix(0xabcdef, ++count);
    for (Msg *m = S->mq[R]; m; m = m->next) { h = mix(h, m->src); h = mix(h, m->comm); h = mix(h, m->tag); h = mix(h, hashmem(m->data, m->len)); }
    S->hist[R] = h;
}
void violation(const std::string &s) { fail(Exec::MPIERR, "%s", s.c_str()); }
long steps() { return S->steps; }

// ----------------------------------------------------------------- parallel driver
struct PShm { std::atomic<long> next, done, nfail; std::atomic<int> lock; size_t flen; char ftext[1 << 20]; int ncnt; struct { char name[64]; long v; } cnt[256]; Stats st; size_t slen; char stext[1 << 18]; };
static PShm *P = nullptr;
static void plock() { while (P->lock.exchange(1)) usleep(50); }
static void punlock() { P->lock = 0; }
void counter(const char *name, long delta) {
    if (!P) return;
    plock();
    int i = 0; for (; i < P->ncnt; i++) if (!strncmp(P->cnt[i].name, name, 63)) break;
    if (i == P->ncnt && i < 256) { strncpy(P->cnt[i].name, name, 63); P->ncnt++; }
    if (i < 256) P->cnt[i].v += delta;
    punlock();
}
void sample(const std::string &s) {
    if (!P) return;
    plock();
    if (P->slen + s.size() + 8 < sizeof P->stext) { memcpy(P->stext + P->slen, s.c_str(), s.size() + 1); P->slen += s.size() + 1; }
    punlock();
}
PResult parallel(long ntasks, int nworkers, const std::function<std::string(long, Stats&)> &fn, int maxfail, double budget) {
    if (!P) P = (PShm*)mmap(nullptr, sizeof(PShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    P->next = 0; P->done = 0; P->nfail = 0; P->lock = 0; P->flen = 0; P->ncnt = 0; P->slen = 0; P->st = Stats(); memset(P->cnt, 0, sizeof P->cnt);
    fflush(stdout); fflush(stderr);
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    std::vector<pid_t> ps;
    for (int w = 0; w < nworkers; w++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            S = nullptr; vis = nullptr;
            while (true) {
                struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
                if (budget > 0 && (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget) break;
                long k = P->next++; if (k >= ntasks || P->nfail >= maxfail) break;
                Stats st; std::string f = fn(k, st);
                plock();
                P->st.add(st); P->done++;
                if (f.size()) {
                    P->nfail++;
                    char hdr[32]; snprintf(hdr, sizeof hdr, "%ld", k);
                    std::string all = std::string(hdr) + '\n' + f; if (all.size() > 100000) all.resize(100000);
                    if (P->flen + all.size() + 1 < sizeof P->ftext) { memcpy(P->ftext + P->flen, all.c_str(), all.size() + 1); P->flen += all.size() + 1; }
                }
                punlock();
            }
            fflush(stdout); fflush(stderr); _exit(0);
        }
        ps.push_back(p);
    }
    bool dead = false;
    for (pid_t p : ps) { int ws; while (waitpid(p, &ws, 0) < 0 && errno == EINTR); if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) dead = true; }
    PResult r; r.stats = P->st; r.done = P->done;
    for (size_t i = 0; i < P->flen;) { std::string s = P->ftext + i; i += s.size() + 1; size_t nl = s.find('\n'); r.failures.push_back({ atol(s.c_str()), s.substr(nl + 1) }); }
    for (int i = 0; i < P->ncnt; i++) r.counters.push_back({ P->cnt[i].name, P->cnt[i].v });
    for (size_t i = 0; i < P->slen;) { std::string s = P->stext + i; i += s.size() + 1; r.samples.push_back(s); }
    if (dead && r.failures.empty()) { fprintf(stderr, "mcmpi: a worker died unexpectedly\n"); exit(3); }
    return r;
}
} // namespace mc

using namespace mc;

// ================================================================= the MPI API
extern "C" {

int MPI_Init(int *, char ***) { S->inits[R]++; return 0; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { *prov = req; S->inits[R]++; return 0; }
int MPI_Initialized(int *f) { *f = R >= 0; return 0; }
int MPI_Finalized(int *f) { *f = R >= 0 && S->finalized[R]; return 0; }
int MPI_Finalize() { if (S->finalized[R]) return 0; S->finalized[R] = true; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
double MPI_Wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
int MPI_Abort(MPI_Comm, int code) { fail(Exec::CRASH, "rank %d called MPI_Abort(%d)", R, code); }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "mc"); *l = 2; return 0; }

int MPI_Comm_rank(MPI_Comm c, int *r) { if (R < 0) { *r = 0; return 0; } Comm *k = comm(c); *r = k->of[R]; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { if (R < 0) { *n = 1; return 0; } *n = comm(c)->n; return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint i) { return i <= 0 ? MPI_COMM_WORLD : handle(i); }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return comm(c)->id; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *nc) {
    Comm *k = comm(c); Coll *o = enter(k, 'D', 0, nullptr, nullptr, 0, nullptr, 0);
    waitcoll(o);
    if (!o->made) { o->made = true; std::vector<int> w(k->world, k->world + k->n); int id = newcomm(w); for (int i = 0; i < k->n; i++) o->newcomm[i] = id; }
    *nc = handle(o->newcomm[k->of[R]]); leave(o); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *nc) {
    Comm *k = comm(c); int d[2] = { color, key }; Coll *o = enter(k, 'P', 0, nullptr, nullptr, 0, d, sizeof d);
    waitcoll(o);
    if (!o->made) {
        o->made = true; std::map<int, std::vector<std::pair<int, int>>> g;
        for (int i = 0; i < k->n; i++) { int *p = (int*)o->data[i]; g[p[0]].push_back({ p[1], i }); o->newcomm[i] = -1; }
        for (auto &x : g) { if (x.first == MPI_UNDEFINED) continue; std::stable_sort(x.second.begin(), x.second.end()); std::vector<int> w; for (auto &y : x.second) w.push_back(k->world[y.second]); int id = newcomm(w); for (auto &y : x.second) o->newcomm[y.second] = id; }
    }
    int id = o->newcomm[k->of[R]]; *nc = id < 0 ? MPI_COMM_NULL : handle(id); leave(o); return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *nc) { return MPI_Comm_split(c, 0, key, nc); }
int MPI_Comm_free(MPI_Comm *c) { if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) fail(Exec::MPIERR, "rank %d: MPI_Comm_free of a predefined communicator", R); Comm *k = comm(*c); k->freed[k->of[R]] = true; *c = MPI_COMM_NULL; return 0; }

struct GroupImpl { unsigned magic; std::vector<int> world; };
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { Comm *k = comm(c); *g = (MPI_Group)new GroupImpl{ 0x6060, std::vector<int>(k->world, k->world + k->n) }; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *ng) { auto *k = (GroupImpl*)g; std::vector<int> w; for (int i = 0; i < n; i++) w.push_back(k->world[r[i]]); *ng = (MPI_Group)new GroupImpl{ 0x6060, w }; return 0; }
int MPI_Group_free(MPI_Group *g) { delete (GroupImpl*)*g; *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *nc) {
    Comm *k = comm(c); auto *gi = (GroupImpl*)g; Coll *o = enter(k, 'C', 0, nullptr, nullptr, 0, nullptr, 0); waitcoll(o);
    if (!o->made) { for (int i = 0; i < k->n; i++) o->newcomm[i] = -1; o->made = true; }
    int me = k->of[R];
    if (std::find(gi->world.begin(), gi->world.end(), R) != gi->world.end()) { if (o->newcomm[me] < 0) { int id = newcomm(gi->world); for (int w : gi->world) o->newcomm[k->of[w]] = id; } *nc = handle(o->newcomm[me]); } else *nc = MPI_COMM_NULL;
    leave(o); return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *nc) {
    Comm *k = comm(c); auto *gi = (GroupImpl*)g;
    uint64_t h = tag + 77; for (int w : gi->world) h = mix(h, w);
    Coll *o = k->colls; while (o && !(o->type == 'E' && o->seq == (long)h && !o->in[k->of[R]])) o = o->next;
    if (!o) {
        o = (Coll*)salloc(sizeof(Coll)); memset(o, 0, sizeof *o); o->comm = k->id; o->seq = h; o->type = 'E'; o->next = k->colls; k->colls = o;
        o->glist = (int*)salloc(sizeof(int) * (gi->world.size() + 1)); size_t i = 0; for (; i < gi->world.size(); i++) o->glist[i] = k->of[gi->world[i]]; o->glist[i] = -1;
    }
    o->in[k->of[R]] = true; o->nin++;
    waitcoll(o);
    if (!o->made) { o->made = true; int id = newcomm(gi->world); for (int w : gi->world) o->newcomm[k->of[w]] = id; }
    *nc = handle(o->newcomm[k->of[R]]); return 0;
}

int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *nt) { *nt = (MPI_Datatype)new UType{ 0x7e7e0001, n * tsize(t) }; return 0; }
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { delete (UType*)*t; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t); return 0; }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *op) { *op = (MPI_Op)new UOp{ 0x0b0b0001, f }; return 0; }
int MPI_Op_free(MPI_Op *op) { delete (UOp*)*op; *op = MPI_OP_NULL; return 0; }

int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { hook(comm(c)->id); if (n < 0) fail(Exec::MPIERR, "rank %d: negative count", R); *r = (MPI_Request)isend(b, n * tsize(t), d, tag, comm(c)); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { hook(comm(c)->id); if (n < 0) fail(Exec::MPIERR, "rank %d: negative count", R); *r = (MPI_Request)irecv(b, n * tsize(t), s, tag, comm(c)); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { hook(comm(c)->id); if (n < 0) fail(Exec::MPIERR, "rank %d: negative count", R); Req *r = isend(b, n * tsize(t), d, tag, comm(c)); waitreqs(&r, 1, "Send"); complete(r, nullptr); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) {
    Comm *k = comm(c); Wait &w = S->wait[R]; w.kind = W_PROBE; w.comm = k->id; w.src = s; w.tag = tag;
    if (s != MPI_ANY_SOURCE && (s < 0 || s >= k->n)) fail(Exec::MPIERR, "rank %d: probe of invalid rank %d", R, s);
    block("Probe");
    Msg *m = findmsg(R, k->id, s == MPI_ANY_SOURCE ? w.chosen : s, tag);
    if (!m) fail(Exec::MPIERR, "internal: probe without message");
    if (st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = m->len; st->_cancelled = 0; }
    return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { hook(comm(c)->id);
    if (n < 0) fail(Exec::MPIERR, "rank %d: negative count", R);
    if (s == MPI_ANY_SOURCE) { MPI_Status q; MPI_Probe(s, tag, c, &q); s = q.MPI_SOURCE; }
    Req *r = irecv(b, n * tsize(t), s, tag, comm(c)); waitreqs(&r, 1, "Recv"); complete(r, st); return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    Req *q[2] = { isend(sb, sn * tsize(stp), d, stag, comm(c)), irecv(rb, rn * tsize(rt), s, rtag, comm(c)) };
    waitreqs(q, 2, "Sendrecv"); complete(q[0], nullptr); complete(q[1], st); return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t s = tsize(t); *n = st->_ucount % s ? MPI_UNDEFINED : (int)(st->_ucount / s); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) { if (*r == MPI_REQUEST_NULL) return 0; Req *q = req(*r); waitreqs(&q, 1, "Wait"); complete(q, st); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) {
    Req *q[4096]; int m = 0; if (n > 4096) fail(Exec::MPIERR, "too many requests");
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) q[m++] = req(r[i]);
    if (m) waitreqs(q, m, "Waitall");
    for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { complete(req(r[i]), st == MPI_STATUSES_IGNORE ? nullptr : st + i); r[i] = MPI_REQUEST_NULL; }
    return 0;
}

static void yieldbaton() {
    // let every other runnable rank run until it blocks
    for (int i = 0; i < S->n; i++) { int r = S->prio[i]; if (r != R && ready(r)) { S->status[R] = 0; S->steps++; futex_wake(&S->baton[r]); futex_wait(&S->baton[R]); return; } }
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
    if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
    Req *q = req(*r); if (!q->done) yieldbaton();
    *flag = q->done; if (q->done) { complete(q, st); *r = MPI_REQUEST_NULL; }
    return 0;
}
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
    bool any = false; for (int i = 0; i < n; i++) any |= r[i] != MPI_REQUEST_NULL;
    if (!any) { *idx = MPI_UNDEFINED; return 0; }
    while (true) {
        for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && req(r[i])->done) { *idx = i; return MPI_Wait(r + i, st); }
        Req *f = nullptr; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { f = req(r[i]); break; }
        long s0 = S->steps; yieldbaton(); if (S->steps == s0) waitreqs(&f, 1, "Waitany");
    }
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
    Comm *k = comm(c); Msg *m = findmsg(R, k->id, s, tag); if (!m) { yieldbaton(); m = findmsg(R, k->id, s, tag); }
    *flag = m != nullptr;
    if (m && st && st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->_ucount = m->len; st->_cancelled = 0; }
    return 0;
}

int MPI_Barrier(MPI_Comm c) { Coll *o = enter(comm(c), 'W', 0, nullptr, nullptr, 0, nullptr, 0); waitcoll(o); leave(o); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    Comm *k = comm(c); size_t len = n * tsize(t); bool me = k->of[R] == root;
    if (root < 0 || root >= k->n) fail(Exec::MPIERR, "rank %d: invalid root", R);
    Coll *o = enter(k, 'B', root, nullptr, nullptr, len, me ? b : nullptr, me ? len : 0); waitcoll(o);
    if (!me && len) memcpy(b, o->data[root], len);
    leave(o); return 0;
}
static void fold(Coll *o, int lo, int hi, void *out, int n, MPI_Datatype t, MPI_Op op) {
    size_t len = n * tsize(t); std::vector<char> acc(o->data[lo], o->data[lo] + len);
    for (int i = lo + 1; i < hi; i++) reduceInto(acc.data(), o->data[i], n, t, op);
    if (len) memcpy(out, acc.data(), len);
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    Comm *k = comm(c); size_t len = n * tsize(t); bool me = k->of[R] == root;
    if (root < 0 || root >= k->n) fail(Exec::MPIERR, "rank %d: invalid root", R);
    if (s == MPI_IN_PLACE) { if (!me) fail(Exec::MPIERR, "rank %d: MPI_IN_PLACE at non-root of Reduce", R); s = r; }
    Coll *o = enter(k, 'R', root, (void*)op, (void*)t, len, s, len); waitcoll(o);
    if (me) fold(o, 0, k->n, r, n, t, op);
    leave(o); return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    Comm *k = comm(c); size_t len = n * tsize(t); if (s == MPI_IN_PLACE) s = r;
    Coll *o = enter(k, 'A', 0, (void*)op, (void*)t, len, s, len); waitcoll(o); fold(o, 0, k->n, r, n, t, op); leave(o); return 0;
}
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    Comm *k = comm(c); size_t len = n * tsize(t); if (s == MPI_IN_PLACE) s = r;
    Coll *o = enter(k, 'N', 0, (void*)op, (void*)t, len, s, len); waitcoll(o); fold(o, 0, k->of[R] + 1, r, n, t, op); leave(o); return 0;
}
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    Comm *k = comm(c); size_t len = n * tsize(t); if (s == MPI_IN_PLACE) s = r;
    Coll *o = enter(k, 'X', 0, (void*)op, (void*)t, len, s, len); waitcoll(o); if (k->of[R]) fold(o, 0, k->of[R], r, n, t, op); leave(o); return 0;
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *dis, MPI_Datatype rt, MPI_Comm c) {
    Comm *k = comm(c); size_t rs = tsize(rt); int me = k->of[R]; size_t len; const void *src = s;
    if (s == MPI_IN_PLACE) { src = (char*)r + dis[me] * rs; len = rn[me] * rs; } else len = sn * tsize(st);
    Coll *o = enter(k, 'L', 0, nullptr, nullptr, 0, src, len); waitcoll(o);
    for (int i = 0; i < k->n; i++) { if (o->len[i] != rn[i] * rs) fail(Exec::MPIERR, "rank %d: Allgatherv count mismatch with rank %d (%zu vs %zu bytes)", R, i, o->len[i], rn[i] * rs); if (o->len[i] && !(s == MPI_IN_PLACE && i == me)) memcpy((char*)r + dis[i] * rs, o->data[i], o->len[i]); }
    leave(o); return 0;
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
    Comm *k = comm(c); std::vector<int> cnt(k->n, rn), dis(k->n); for (int i = 0; i < k->n; i++) dis[i] = i * rn;
    return MPI_Allgatherv(s, sn, st, r, cnt.data(), dis.data(), rt, c);
}
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *dis, MPI_Datatype rt, int root, MPI_Comm c) {
    Comm *k = comm(c); int me = k->of[R]; bool inplace = s == MPI_IN_PLACE; size_t len = inplace ? 0 : sn * tsize(st);
    Coll *o = enter(k, 'G', root, nullptr, nullptr, 0, inplace ? nullptr : s, len); waitcoll(o);
    if (me == root) { size_t rs = tsize(rt); for (int i = 0; i < k->n; i++) { if (inplace && i == me) continue; if (o->len[i] != rn[i] * rs) fail(Exec::MPIERR, "rank %d: Gatherv count mismatch with rank %d", R, i); if (o->len[i]) memcpy((char*)r + dis[i] * rs, o->data[i], o->len[i]); } }
    leave(o); return 0;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    Comm *k = comm(c); std::vector<int> cnt(k->n, rn), dis(k->n); for (int i = 0; i < k->n; i++) dis[i] = i * rn;
    return MPI_Gatherv(s, sn, st, r, cnt.data(), dis.data(), rt, root, c);
}
int MPI_Scatterv(const void *s, const int *sn, const int *dis, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    Comm *k = comm(c); int me = k->of[R]; std::vector<char> all; std::vector<size_t> pl(k->n, 0);
    if (me == root) { size_t ss = tsize(st); for (int i = 0; i < k->n; i++) { pl[i] = sn[i] * ss; all.insert(all.end(), (const char*)s + dis[i] * ss, (const char*)s + dis[i] * ss + pl[i]); } }
    Coll *o = enter(k, 'S', root, nullptr, nullptr, 0, all.data(), all.size());
    if (me == root) { o->plen[me] = (size_t*)salloc(sizeof(size_t) * k->n); memcpy(o->plen[me], pl.data(), sizeof(size_t) * k->n); }
    waitcoll(o);
    size_t off = 0; for (int i = 0; i < me; i++) off += o->plen[root][i]; size_t len = o->plen[root][me];
    if (r != MPI_IN_PLACE) { if (len > rn * tsize(rt)) fail(Exec::MPIERR, "rank %d: Scatterv truncation", R); if (len) memcpy(r, o->data[root] + off, len); }
    leave(o); return 0;
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    Comm *k = comm(c); std::vector<int> cnt(k->n, sn), dis(k->n); for (int i = 0; i < k->n; i++) dis[i] = i * sn;
    return MPI_Scatterv(s, cnt.data(), dis.data(), st, r, rn, rt, root, c);
}
int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *r, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    Comm *k = comm(c); int me = k->of[R]; std::vector<char> all; std::vector<size_t> pl(k->n); size_t ss = tsize(st), rs = tsize(rt);
    if (s == MPI_IN_PLACE) { s = r; sn = rn; sd = rd; ss = rs; }
    for (int i = 0; i < k->n; i++) { pl[i] = sn[i] * ss; all.insert(all.end(), (const char*)s + sd[i] * ss, (const char*)s + sd[i] * ss + pl[i]); }
    Coll *o = enter(k, 'T', 0, nullptr, nullptr, 0, all.data(), all.size());
    o->plen[me] = (size_t*)salloc(sizeof(size_t) * k->n); memcpy(o->plen[me], pl.data(), sizeof(size_t) * k->n);
    waitcoll(o);
    for (int i = 0; i < k->n; i++) {
        size_t off = 0; for (int j = 0; j < me; j++) off += o->plen[i][j];
        if (o->plen[i][me] != rn[i] * rs) fail(Exec::MPIERR, "rank %d: Alltoallv count mismatch with rank %d", R, i);
        if (o->plen[i][me]) memcpy((char*)r + rd[i] * rs, o->data[i] + off, o->plen[i][me]);
    }
    leave(o); return 0;
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
    Comm *k = comm(c); std::vector<int> a(k->n, sn), ad(k->n), b(k->n, rn), bd(k->n); for (int i = 0; i < k->n; i++) { ad[i] = i * sn; bd[i] = i * rn; }
    return MPI_Alltoallv(s, a.data(), ad.data(), st, r, b.data(), bd.data(), rt, c);
}

// files -----------------------------------------------------------------------
struct FileImpl { int fd; MPI_Comm c; };
int MPI_File_open(MPI_Comm c, const char *name, int mode, MPI_Info, MPI_File *f) { hook(comm(c)->id);
    int fl = (mode & MPI_MODE_RDWR) ? O_RDWR : (mode & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY;
    if (mode & MPI_MODE_CREATE) fl |= O_CREAT;
    int fd = open(name, fl, 0644);
    Coll *o = enter(comm(c), 'F', 0, nullptr, nullptr, 0, nullptr, 0); waitcoll(o); leave(o);
    if (fd < 0) { *f = MPI_FILE_NULL; return MPI_ERR_FILE; }
    *f = (MPI_File)new FileImpl{ fd, c }; return 0;
}
int MPI_File_close(MPI_File *f) { hook(); auto *p = (FileImpl*)*f; close(p->fd); delete p; *f = MPI_FILE_NULL; return 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset *s) { struct stat st; fstat(((FileImpl*)f)->fd, &st); *s = st.st_size; return 0; }
int MPI_File_set_size(MPI_File f, MPI_Offset s) { if (ftruncate(((FileImpl*)f)->fd, s)) return MPI_ERR_FILE; return 0; }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { size_t len = n * tsize(t), got = 0; while (got < len) { ssize_t k = pread(((FileImpl*)f)->fd, (char*)b + got, len - got, o + got); if (k <= 0) break; got += k; } if (st && st != MPI_STATUS_IGNORE) st->_ucount = got; return 0; }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { return MPI_File_read_at(f, o, b, n, t, st); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) { hook(); size_t len = n * tsize(t), put = 0; while (put < len) { ssize_t k = pwrite(((FileImpl*)f)->fd, (const char*)b + put, len - put, o + put); if (k <= 0) return MPI_ERR_FILE; put += k; } if (st && st != MPI_STATUS_IGNORE) st->_ucount = put; return 0; }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) { return MPI_File_write_at(f, o, b, n, t, st); }

#define UNSUPPORTED(name) int name() { fail(Exec::MPIERR, "unsupported MPI call " #name); }
}
