// tracked.h - element types that register their lifetimes and can throw on demand.
#ifndef TRACKED_H_
#define TRACKED_H_

#include "pbt.h"

namespace trk {

struct Fault {}; ///< the injected exception

enum Op : unsigned
{
    op_default = 1, op_value = 2, op_copy = 4, op_move = 8, op_copy_assign = 16,
    op_move_assign = 32, op_alloc = 64, op_all = 127
};

struct Registry
{
    std::set<const void*> alive;
    std::string error;      ///< first violation of the object protocol
    long countdown = -1;    ///< throw when this many operations (of the mask) have passed
    unsigned mask = op_all;
    unsigned long long ops = 0;
    bool fired = false;

    void arm(long n, unsigned m = op_all) { countdown = n; mask = m; fired = false; }
    void disarm() { countdown = -1; }
    void complain(const std::string& s) { if (error.empty()) error = s; }
    bool due(unsigned op)
    {
        ++ops;
        if (countdown < 0 || !(mask & op)) return false;
        if (countdown-- == 0) { fired = true; return true; }
        return false;
    }
    void point(unsigned op) { if (due(op)) throw Fault{}; }
    void reset() { alive.clear(); error.clear(); countdown = -1; mask = op_all; fired = false; ops = 0; }
};
inline Registry& reg() { static Registry r; return r; }

/// True while allocations are attributed to the library; the registry's own are not.
inline bool& counting() { static bool b = false; return b; }
struct Quiet
{
    bool saved = counting();
    Quiet() { counting() = false; }
    ~Quiet() { counting() = saved; }
};

constexpr int moved_from = -777777;

/// An int that registers its lifetime. Copyable/NothrowMove select what it offers.
template <bool Copyable, bool NothrowMove, int Tag = 0>
struct Tracked
{
    int v;
    int* canary; // a heap cell, so that a bitwise copy or a skipped destructor is visible

    void born()
    {
        Quiet q;
        if (!reg().alive.insert(this).second)
            reg().complain("an object was constructed on top of a live one");
        canary = reinterpret_cast<int*>(this);
    }
    void must_live(const char* what) const
    {
        Quiet q;
        if (!reg().alive.count(this) || canary != reinterpret_cast<const int*>(this))
            reg().complain(std::string(what) + " used an object that is not alive");
    }

    Tracked() : v(0) { reg().point(op_default); born(); }
    explicit Tracked(int x) : v(x) { reg().point(op_value); born(); }
    Tracked(const std::conditional_t<Copyable, Tracked, struct Disabled_>& o) : v(0)
    {
        o.must_live("copy construction");
        reg().point(op_copy);
        v = o.v;
        born();
    }
    Tracked(Tracked&& o) noexcept(NothrowMove) : v(0)
    {
        o.must_live("move construction");
        if (!NothrowMove) reg().point(op_move);
        v = o.v;
        o.v = moved_from;
        born();
    }
    Tracked& operator=(const std::conditional_t<Copyable, Tracked, struct Disabled_>& o)
    {
        must_live("assignment to");
        o.must_live("copy assignment");
        reg().point(op_copy_assign);
        v = o.v;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept(NothrowMove)
    {
        must_live("assignment to");
        o.must_live("move assignment");
        if (!NothrowMove) reg().point(op_move_assign);
        const int t = o.v;
        o.v = moved_from; // like std::string, self-move loses the value
        v = t;
        if (this == &o) v = moved_from;
        return *this;
    }
    ~Tracked()
    {
        Quiet q;
        if (!reg().alive.erase(this) || canary != reinterpret_cast<int*>(this))
            reg().complain("an object was destroyed that is not alive");
        canary = nullptr;
        v = -999999;
    }
    int get() const { must_live("reading"); return v; }
    friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
    friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
    friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
    friend bool operator>(const Tracked& a, const Tracked& b) { return a.get() > b.get(); }
    friend bool operator<=(const Tracked& a, const Tracked& b) { return a.get() <= b.get(); }
    friend bool operator>=(const Tracked& a, const Tracked& b) { return a.get() >= b.get(); }
};

} // namespace trk

#endif
