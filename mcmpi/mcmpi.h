// mcmpi: an in-process model-checking MPI runtime.
// Ranks are forked processes that share one memory segment.  Exactly one rank
// runs at any time; every scheduling and message-matching decision is taken by
// the (deterministic) scheduler here, so an execution is a pure function of the
// sequence of wildcard-match choices.  explore() enumerates all of them.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
#include <cstddef>

namespace mc {

constexpr int MAXR = 16;

struct Opt {
    int n = 1;
    bool rendezvous = false;   // sends complete only when matched (no buffering)
    bool relaxed = true;       // collectives release a rank as soon as MPI permits
    std::vector<int> prio;     // rank priority used to pick the next runnable rank
    int memlimit = 2048;       // MiB of memory per rank (a wrong size of an array must not take the memory of the computer)
    int cpulimit = 60;         // seconds of CPU time per rank before "does not terminate"
    long maxexec = 1000000;    // bound on executions (reported if it is hit)
    bool leftover = true;      // unmatched messages at the end are a violation
    std::string out;           // file that receives stdout/stderr of ranks ("" = /dev/null)
};

struct Exec {
    enum Status { OK, DEADLOCK, MPIERR, CRASH, TIMEOUT, PRUNED } status = OK;
    std::string msg;                   // description of a failure
    std::vector<std::string> report;   // what each rank reported
    std::vector<int> choices;          // wildcard choices: the replayable schedule
    bool bad() const { return status != OK && status != PRUNED; }
};

struct Stats {
    long execs = 0, states = 0, transitions = 0, msgs = 0, colls = 0, wild = 0, complete = 0;
    bool truncated = false;
    void add(const Stats &o) {
        execs += o.execs; states += o.states; transitions += o.transitions; msgs += o.msgs;
        colls += o.colls; wild += o.wild; complete += o.complete; truncated |= o.truncated;
    }
};

// one execution following the choice prefix (then first alternative)
Exec run(const Opt &opt, const std::vector<int> &prefix, const std::function<void(int)> &rankmain, Stats &st);
// all executions; onexec gets each completed one, returns false to stop. Returns true if space was exhausted.
bool explore(const Opt &opt, const std::function<void(int)> &rankmain, const std::function<bool(Exec&)> &onexec, Stats &st);

// called from a rank: append to its report
void report(const std::string &s);
int myrank();
// the rank declares that its remaining behaviour does not depend on the wildcard choices taken so far
// (its results were checked against the unique expected value); pending messages stay part of the state
void converge();
// a rank found a property violation
void violation(const std::string &s);
long steps();
// called before every collective, message and file operation (scheduling points of threads of a rank)
extern std::function<void(int)> onmpi;

// run fn(task) for task in [0,ntasks) on nworkers forked workers. fn returns "" or a failure text
// (first line = one-line description). stops early after maxfail failures.
struct PResult { Stats stats; std::vector<std::pair<long, std::string>> failures; long done = 0; std::vector<std::pair<std::string,long>> counters; std::vector<std::string> samples; };
void counter(const char *name, long delta);        // worker side statistics
void sample(const std::string &s);
PResult parallel(long ntasks, int nworkers, const std::function<std::string(long, Stats&)> &fn, int maxfail = 3, double budget_s = 0);
}
