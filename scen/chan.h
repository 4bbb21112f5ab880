// What the two channel scenarios share.
#pragma once
#include "common.h"
#include "lin.h"

namespace {
typedef bf::channel_op_status St;
static const int64_t FAR_NS = 1000000000000ll;
enum K { PUSH_C, PUSH_M, TRYPUSH_C, TRYPUSH_M, PUSHFOR_C, PUSHFOR_M, PUSHUNTIL, POP, VPOP, TRYPOP, POPFOR, POPUNTIL, CLOSE, ISCLOSED, NEXT };
static const char* const kn[] = { "push(const&)", "push(&&)", "try_push(const&)", "try_push(&&)", "push_wait_for(const&)", "push_wait_for(&&)", "push_wait_until", "pop", "value_pop", "try_pop", "pop_wait_for", "pop_wait_until", "close", "is_closed", "iterator" };
static const char* const sn[] = { "success", "empty", "full", "closed", "timeout" };
enum R { OK, EMPTY, FULL, CLOSED, TIMEOUT };
static int rs(St s) { return s == St::success ? OK : s == St::empty ? EMPTY : s == St::full ? FULL : s == St::closed ? CLOSED : TIMEOUT; }

struct Step { int kind; int64_t dur; int pre; };

template<class T> T make(long v) { return T(v); }
template<class T> long value_of(T const& t) { return t.get(); }
template<> long make<long>(long v) { return v; }
template<> long value_of<long>(long const& t) { return t; }
struct MoveOnly {                                 // element type without copy
    std::unique_ptr<long> p; MoveOnly() {} explicit MoveOnly(long v) { Quiet q; p.reset(new long(v)); }
    MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&& o) { Quiet q; p = std::move(o.p); return *this; } ~MoveOnly() { Quiet q; p.reset(); }
    long get() const { if (!p) { Quiet q; fail("altered-value", "a moved-from element was delivered"); } return *p; }
};

static int draw_kind(bool push, bool timed_only) {
    unsigned k = choose(8);
    if (push) { static const int t[] = { PUSH_C, PUSH_M, TRYPUSH_C, TRYPUSH_M, PUSHFOR_C, PUSHFOR_M, PUSHUNTIL, PUSHFOR_C }; return timed_only ? t[4 + (k & 3)] : t[k]; }
    static const int t[] = { POP, VPOP, TRYPOP, POPFOR, POPUNTIL, POPFOR, POP, TRYPOP }; return timed_only ? t[3 + (k & 1)] : t[k];
}
static int64_t draw_dur() { static const int64_t d[] = { 3000, 0, 12000, 45000, 200000, -2000 }; int64_t x = d[choose(6)]; return x > 0 ? x + 419 * choose(3) : x; }

template<class F> void types(F f) {
    tok_reset();
    switch (choose(3)) { case 0: f((long*)0); break; case 1: f((Tok*)0); break; case 2: f((MoveOnly*)0); break; }
    tok_done();
}
}
