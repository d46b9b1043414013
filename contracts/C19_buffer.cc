// Contracts for the bounded inter-process buffer (interprocess/circularBuffer.h), for every capacity, position and content.
// VF:ASSUME compare-and-swap and the memory barriers behave as one atomic step (the lock itself is not a concurrency proof: property C28)
// VF:ASSUME processorPause() only waits; each waiting iteration starts over from whatever state the other side leaves
#include "sst_config.h"
#include "verif.h"
#include "interprocess/sstmutex.h"
#include "interprocess/circularBuffer.h"
using namespace SST::Core::Interprocess;
// the message type: several words copied one by one (so a slot has the size of the buffer's header)
struct Msg {
    int32_t tag; uint64_t a, b, c;
    Msg() : tag(0), a(0), b(0), c(0) {}
    Msg(int32_t t, uint64_t x, uint64_t y, uint64_t z) : tag(t), a(x), b(y), c(z) {}
    Msg(const Msg& o) : tag(o.tag), a(o.a), b(o.b), c(o.c) {}
    Msg& operator=(const Msg& o) { tag = o.tag; a = o.a; b = o.b; c = o.c; return *this; }
};
static bool same(const Msg& x, const Msg& y) { return x.tag == y.tag && x.a == y.a && x.b == y.b && x.c == y.c; }
static Msg any_msg(const char* n) { return Msg(vf::any<int32_t>(n), vf::any<uint64_t>(n), vf::any<uint64_t>(n), vf::any<uint64_t>(n)); }
typedef CircularBuffer<Msg> Buf;
static const unsigned HDR = 1;                 // slots' worth of header before the first slot
static_assert(sizeof(Buf) == sizeof(Msg) * HDR, "header");
static uint64_t cap, r0, w0;
static Msg* mem; static const Msg* old;
static unsigned n_pause, n_unheld;
static Buf* b;
static void pause_contract(SSTMutex*, int)
{
    n_pause++;
    CHECK("waits-unlocked", b->bufferMutex.lockVal == 0);
    throw vf::Ended();
}
// an arbitrary valid buffer of arbitrary capacity
static Buf* any_buf()
{
    cap = vf::any_in<uint64_t>("cap", 1, 1ull << 40);
    VF_ONLY_NATIVE(cap = 1 + cap % 37;)
    mem = (Msg*)vf_any_array("buf", sizeof(Msg), HDR + cap);
    b = (Buf*)mem;
    r0 = vf::any_in<uint64_t>("r", 0, cap - 1); w0 = vf::any_in<uint64_t>("w", 0, cap - 1);
    b->buffSize = cap; b->readIndex = r0; b->writeIndex = w0; b->bufferMutex.lockVal = 0;
    n_pause = 0;
    vf_use_contract(vf::mfn(&SSTMutex::processorPause), (void*)&pause_contract);
    old = (const Msg*)vf_snapshot(mem, sizeof(Msg) * (HDR + cap));
    return b;
}
static uint64_t next(uint64_t i) { return i + 1 == cap ? 0 : i + 1; }
static bool slots_same_but(uint64_t k)
{ return vf::forall(HDR, HDR + cap, [&](uint64_t i) { return i == HDR + k || same(mem[i], old[i]); }); }
static bool slots_same() { return vf::forall(HDR, HDR + cap, [&](uint64_t i) { return same(mem[i], old[i]); }); }
HARNESS(write)
{
    any_buf();
    Msg v = any_msg("v");
    bool full = next(w0) == r0, ended = false;
    try { b->write(v); } catch (vf::Ended&) { ended = true; }
    CHECK("waits-exactly-when-full", ended == full && n_pause == full);
    CHECK("reader-position-kept", b->readIndex == r0 && b->buffSize == cap);
    CHECK("unlocked", b->bufferMutex.lockVal == 0);
    if (full) { CHECK("nothing-changed-when-full", b->writeIndex == w0 && slots_same()); vf_cover("full"); return; }
    CHECK("stored-at-the-end", same(mem[HDR + w0], v));
    CHECK("unread-messages-kept", slots_same_but(w0));
    CHECK("end-advanced", b->writeIndex == next(w0));
    CHECK("not-empty", b->writeIndex != b->readIndex);
    vf_cover("written");
}
HARNESS(read)
{
    any_buf();
    bool empty = w0 == r0, ended = false; Msg v;
    Msg front = mem[HDR + r0];
    try { v = b->read(); } catch (vf::Ended&) { ended = true; }
    CHECK("waits-exactly-when-empty", ended == empty && n_pause == empty);
    CHECK("writer-position-kept", b->writeIndex == w0 && b->buffSize == cap);
    CHECK("unlocked", b->bufferMutex.lockVal == 0);
    CHECK("messages-kept", slots_same());
    if (empty) { CHECK("nothing-changed-when-empty", b->readIndex == r0); vf_cover("empty"); return; }
    CHECK("oldest-message", same(v, front));
    CHECK("front-advanced", b->readIndex == next(r0));
    CHECK("not-full", next(w0) != b->readIndex);
    vf_cover("read");
}
HARNESS(read_nb)
{
    any_buf();
    bool held = vf::any<bool>("held");
    b->bufferMutex.lockVal = held;
    bool empty = w0 == r0; Msg mark = any_msg("mark"), v = mark;
    Msg front = mem[HDR + r0];
    bool got = b->readNB(&v);
    CHECK("fails-exactly-when-empty-or-locked", got == (!empty && !held));
    CHECK("never-waits", n_pause == 0);
    CHECK("lock-restored", b->bufferMutex.lockVal == held);
    CHECK("writer-position-kept", b->writeIndex == w0 && b->buffSize == cap && slots_same());
    CHECK("nothing-changed-on-failure", got || (same(v, mark) && b->readIndex == r0));
    CHECK("oldest-message", !got || (same(v, front) && b->readIndex == next(r0)));
}
HARNESS(clear)
{
    any_buf();
    b->clearBuffer();
    CHECK("empty", b->readIndex == b->writeIndex && b->readIndex < cap && b->buffSize == cap);
    CHECK("unlocked", b->bufferMutex.lockVal == 0);
    Msg v(7, 7, 7, 7);
    CHECK("nothing-to-read", !b->readNB(&v) && same(v, Msg(7, 7, 7, 7)));
}
HARNESS(create)
{
    any_buf();
    uint64_t n = vf::any_in<uint64_t>("n", 0, cap);
    Buf* q = ::new ((void*)mem) Buf(n);
    CHECK("starts-empty", q->readIndex == 0 && q->writeIndex == 0 && q->buffSize == n && q->bufferMutex.lockVal == 0);
    uint64_t m = vf::any_in<uint64_t>("m", 1, cap);
    bool ok = q->setBufferSize(m);
    CHECK("capacity-set-once", ok == (n == 0) && q->buffSize == (n ? n : m));
    CHECK("still-empty", q->readIndex == 0 && q->writeIndex == 0);
}
// two messages and back: FIFO through the real operations, from any state with room for both
HARNESS(fifo)
{
    any_buf();
    Msg a = any_msg("a"), c = any_msg("c");
    vf_assume(w0 == r0);
    vf_assume(cap >= 3);
    b->write(a); b->write(c);
    Msg x = b->read(), y; bool ok = b->readNB(&y);
    CHECK("in-order-once", same(x, a) && ok && same(y, c));
    CHECK("empty-again", !b->readNB(&y));
}
// the capacity is capacity-1 messages: filling from empty reaches full exactly then (per-step count)
HARNESS(fill_count)
{
    any_buf();
    auto cnt = [&](uint64_t r, uint64_t w) { return w >= r ? w - r : cap - r + w; };
    uint64_t n = cnt(r0, w0);
    bool ended = false;
    CHECK("never-over-capacity", n <= cap - 1);
    try { b->write(Msg()); } catch (vf::Ended&) { ended = true; }
    if (ended) { CHECK("full-at-capacity", n == cap - 1 && b->writeIndex == w0 && b->readIndex == r0); return; }
    CHECK("end", b->writeIndex == next(w0) && b->readIndex == r0);
    CHECK("one-more", cnt(r0, next(w0)) == n + 1);
}
