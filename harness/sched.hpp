// Schedules: the threads of a case are fibers, and the case decides after which of their accesses to
// shared memory another one goes on.
//
// The harness is compiled like for ThreadSanitizer, so that every access calls a function; sched.cpp
// provides these functions, along with the mutexes and the heap of the threads.
#ifndef SCHED_HPP
#define SCHED_HPP

#include "pbt.hpp"

namespace sched
{
using Body = std::function<void()>;

// runs the threads to completion under a schedule that is drawn from the context
//
// With freeze, some of them are suspended at drawn moments. The others have to come to an end nevertheless, each
// on its own if need be; then the suspended ones go on.
void run(pbt::Ctx& ctx, const std::vector<Body>& threads, bool freeze = false);

// a moment in the history: grows with every call
uint64_t moment();

// how often the last run switched away from a thread that could have gone on
std::size_t preemptions();

// how many were suspended when the others were done
std::size_t frozen();

// no switches in its scope
struct Quiet
{
    Quiet();
    ~Quiet();
};

// what the calling thread is (its number), or -1
int self();

void case_begins();
void case_ends();

struct Hook
{
    Hook()
    {
        pbt::before_case().push_back(case_begins);
        pbt::after_case().push_back(case_ends);
    }
};
inline Hook& hook()
{
    static Hook h;
    return h;
}
static Hook& hooked_ = hook();

// -- histories

template<typename State>
struct Op
{
    std::string what;
    uint64_t from, to;
    // does it to the state, false if it couldn't have turned out as it did
    std::function<bool(State&)> apply;
};

template<typename State>
struct History
{
    std::vector<std::vector<Op<State>>> threads;
    explicit History(std::size_t n) : threads(n) { }

    // fn does the operation and returns how it acts on the state
    template<typename Fn>
    void record(std::size_t thread, const char* what, Fn&& fn)
    {
        auto from = moment();
        auto apply = fn();
        Quiet q;
        threads[thread].push_back({what, from, moment(), std::move(apply)});
    }
    std::string show() const
    {
        std::ostringstream o;
        for (std::size_t t = 0; t < threads.size(); t++)
            for (auto& op : threads[t])
                o << " T" << t << ":" << op.what << "[" << op.from << "," << op.to << "]";
        return o.str();
    }

    // whether some order of the operations, each between its beginning and its end, explains the history
    bool linearizable(const State& initial, const std::function<bool(const State&)>& last) const
    {
        std::vector<std::size_t> at(threads.size(), 0);
        std::set<std::pair<std::vector<std::size_t>, State>> seen;
        return search(at, initial, last, seen);
    }

private:
    bool search(std::vector<std::size_t>& at, const State& s, const std::function<bool(const State&)>& last, std::set<std::pair<std::vector<std::size_t>, State>>& seen) const
    {
        bool done = true;
        uint64_t first_end = ~0ull;
        for (std::size_t t = 0; t < threads.size(); t++)
            if (at[t] < threads[t].size())
            {
                done = false;
                first_end = std::min(first_end, threads[t][at[t]].to);
            }
        if (done)
            return last(s);
        if (!seen.emplace(at, s).second)
            return false;
        for (std::size_t t = 0; t < threads.size(); t++)
        {
            if (at[t] == threads[t].size() || threads[t][at[t]].from > first_end)
                continue;
            State next = s;
            if (!threads[t][at[t]].apply(next))
                continue;
            ++at[t];
            bool r = search(at, next, last, seen);
            --at[t];
            if (r)
                return true;
        }
        return false;
    }
};

}

#endif
