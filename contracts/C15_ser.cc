// Contracts for value serialisation: ser_sizer, ser_packer, ser_unpacker, ser_buffer_accessor and the per-type serialize_impl.
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "verif_list.h"
#include "verif_hash.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/serialization/serializer.cc"
#include "sst/core/serialization/impl/unpacker.cc"
#include "sst/core/serialization/impl/serialize_array.cc"
#include "sst/core/serialization/impl/ser_shared_ptr_tracker.cc"
#include "sst/core/serialization/serializable.cc"
#include "sst/core/serialization/serializable_base.cc"
#include "sst/core/output.h"
#include <deque>
#include <forward_list>
using namespace SST;
using namespace SST::Core::Serialization;
namespace SST { Output Output::m_defaultObject; }
// --- ser_buffer_accessor: for every buffer size and every history summarised by its used bytes
HARNESS(buffer_accessor)
{
    vf_merge(false);
    uint64_t max = vf::any_in<uint64_t>("max", 0, 64), a = vf::any_in<uint64_t>("used", 0, 64), b = vf::any<uint64_t>("next");
    vf_assume(a <= max);
    char* buf = new char[64];
    pvt::ser_buffer_accessor acc(buf, max);
    char* p = (char*)acc.buf_next(a);
    CHECK("starts-at-the-buffer", p == buf && acc.size() == a);
    bool thrown = false; char* q = nullptr;
    try { q = (char*)acc.buf_next(b); } catch ( const std::out_of_range& ) { thrown = true; }
    CHECK("overrun-exactly-when-too-small", thrown == (b > max - a));
    if ( !thrown ) CHECK("next-bytes-follow", q == buf + a && acc.size() == a + b);
}
// size, pack into a buffer of exactly that many bytes, unpack into another object; nothing outside is touched
template <class T>
static size_t size_of(T& v, bool track) { serializer ser; ser.enable_pointer_tracking(track); ser.start_sizing(); SST_SER(v); return ser.size(); }
static const uint64_t MARK = 0x5aa5c33c96690ff0ull;
template <class T, class EQ>
static void trip(T& v, T& w, bool track, EQ eq)
{
    size_t n = size_of(v, track);
    CHECK("some-bytes", n > 0 && n < 100000);
    char* buf = new char[n + 16];
    uint64_t guard = vf::any<uint64_t>("guard"), m = MARK, m2 = 0, g2;
    memcpy(buf + n + 8, &guard, 8);
    {
        serializer ser; ser.enable_pointer_tracking(track); ser.start_packing(buf, n + 8);
        SST_SER(v);
        CHECK("packs-what-it-sized", ser.size() == n);
        ser.primitive(m);
        CHECK("fits-exactly", ser.size() == n + 8);
    }
    memcpy(&g2, buf + n + 8, 8); CHECK("nothing-beyond-the-buffer", g2 == guard);
    {
        serializer ser; ser.enable_pointer_tracking(track); ser.start_unpacking(buf, n + 8);
        SST_SER(w);
        CHECK("consumes-what-was-packed", ser.size() == n);
        ser.primitive(m2);
        CHECK("next-item-aligned", m2 == MARK && ser.size() == n + 8);
    }
    CHECK("equal-after-unpacking", eq(v, w));
    // one byte short: an error, and nothing outside the shorter buffer changes
    char* small = new char[n + 8]; memcpy(small + n - 1, &guard, 8);
    bool thrown = false;
    try { serializer ser; ser.enable_pointer_tracking(track); ser.start_packing(small, n - 1); SST_SER(v); } catch ( const std::out_of_range& ) { thrown = true; }
    memcpy(&g2, small + n - 1, 8);
    CHECK("short-pack-is-an-error", thrown); CHECK("short-pack-stays-inside", g2 == guard);
    thrown = false;
    try { serializer ser; ser.enable_pointer_tracking(track); ser.start_unpacking(buf, n - 1); SST_SER(w); } catch ( const std::out_of_range& ) { thrown = true; }
    CHECK("short-unpack-is-an-error", thrown);
}
struct Same { template <class T> bool operator()(const T& a, const T& b) const { return a == b; } };
struct SameBits { template <class T> bool operator()(const T& a, const T& b) const { return memcmp(&a, &b, sizeof(T)) == 0; } };
template <class T> static void scalar() { vf_merge(false); T v = vf::any<T>("value"), w = vf::any<T>("old"); bool t; if ( vf::any<bool>("tracking") ) t = true; else t = false; trip(v, w, t, Same()); }
HARNESS(int8) { scalar<int8_t>(); }
HARNESS(uint16) { scalar<uint16_t>(); }
HARNESS(int32) { scalar<int32_t>(); }
HARNESS(uint64) { scalar<uint64_t>(); }
enum class E : uint8_t { A, B };
HARNESS(boolean) { scalar<bool>(); }
HARNESS(enumeration) { scalar<E>(); }
HARNESS(floating) { vf_merge(false); double v = vf::any<double>("value"), w = 0; bool t; if ( vf::any<bool>("tracking") ) t = true; else t = false; trip(v, w, t, SameBits()); }
struct Pod { uint8_t a; uint32_t b; int16_t c; };
HARNESS(trivial_struct) { vf_merge(false); Pod v{vf::any<uint8_t>("a"), vf::any<uint32_t>("b"), vf::any<int16_t>("c")}, w{}; trip(v, w, false, [](Pod& x, Pod& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }); }
// generators: value of a type, containers with 0..3 elements
static unsigned count(const char* nm, unsigned max = 3)
{
    unsigned n = vf::any_in<uint32_t>(nm, 0, max);
    for ( unsigned i = 0; i < max; i++ ) if ( n == i ) return i;
    return max;
}
static bool track() { if ( vf::any<bool>("tracking") ) return true; return false; }
// VF:BOUNDED strings of at most 3 characters, containers of at most 3 elements
static void gen(uint32_t& v) { v = vf::any<uint32_t>("elem"); }
static void gen(int64_t& v) { v = vf::any<int64_t>("elem"); }
static void gen(uint8_t& v) { v = vf::any<uint8_t>("elem"); }
static void gen(bool& v) { v = vf::any<bool>("elem"); }
static void gen(std::string& s) { unsigned n = count("len"); s.clear(); for ( unsigned i = 0; i < n; i++ ) s.push_back((char)vf::any<uint8_t>("char")); }
template <class C> static void fill(C& c) { unsigned n = count("count"); for ( unsigned i = 0; i < n; i++ ) { typename C::value_type e{}; gen(e); c.push_back(e); } }
template <class C> static void seq() { vf_merge(false); C v, w; fill(v); fill(w); bool t = track(); trip(v, w, t, Same()); }
HARNESS(string) { vf_merge(false); std::string v, w; gen(v); gen(w); bool t = track(); trip(v, w, t, Same()); }
HARNESS(vector) { seq<std::vector<uint32_t>>(); }
HARNESS(vector_bool) { vf_merge(false); std::vector<bool> v, w; unsigned n = count("count"); for ( unsigned i = 0; i < n; i++ ) v.push_back(vf::any<bool>("elem")); if ( vf::any<bool>("old") ) w.push_back(vf::any<bool>("elem")); trip(v, w, false, Same()); }
HARNESS(deque) { seq<std::deque<int64_t>>(); }
HARNESS(list) { seq<std::list<uint8_t>>(); }
HARNESS(vector_string) { vf_merge(false); std::vector<std::string> v, w; std::string a, b; gen(a); gen(b); v.push_back(a); v.push_back(b); if ( vf::any<bool>("old") ) w.push_back(b); trip(v, w, false, Same()); }
HARNESS(vector_vector) { vf_merge(false); std::vector<std::vector<uint8_t>> v(2), w; fill(v[0]); fill(v[1]); trip(v, w, track(), Same()); }

template <class M> static void fill_set(M& m, unsigned max = 2) { unsigned n = count("count", max); for ( unsigned i = 0; i < n; i++ ) { typename M::key_type k{}; gen(k); m.insert(k); } }
template <class M> static void fill_map(M& m, unsigned max = 2) { unsigned n = count("count", max); for ( unsigned i = 0; i < n; i++ ) { typename M::key_type k{}; typename M::mapped_type e{}; gen(k); gen(e); m.emplace(k, e); } }
HARNESS(set) { vf_merge(false); std::set<uint32_t> v, w; fill_set(v); fill_set(w, 1); trip(v, w, track(), Same()); }
HARNESS(multiset) { vf_merge(false); std::multiset<uint32_t> v, w; fill_set(v); fill_set(w, 1); trip(v, w, track(), Same()); }
HARNESS(map) { vf_merge(false); std::map<uint32_t, int64_t> v, w; fill_map(v); fill_map(w, 1); trip(v, w, track(), Same()); }
HARNESS(map_string) { vf_merge(false); std::map<uint32_t, std::string> v, w; fill_map(v, 1); trip(v, w, track(), Same()); }
HARNESS(multimap) { vf_merge(false); std::multimap<uint32_t, int64_t> v, w; fill_map(v); fill_map(w, 1); trip(v, w, track(), Same()); }
HARNESS(forward_list) { vf_merge(false); std::forward_list<int64_t> v, w; unsigned n = count("count"); for ( unsigned i = 0; i < n; i++ ) v.push_front(vf::any<int64_t>("elem")); if ( vf::any<bool>("old") ) w.push_front(1); trip(v, w, track(), Same()); }
HARNESS(pair_string) { vf_merge(false); std::pair<std::string, uint32_t> v, w; gen(v.first); gen(v.second); trip(v, w, track(), Same()); }
HARNESS(tuple) { vf_merge(false); std::tuple<uint8_t, std::string, int64_t> v, w; gen(std::get<0>(v)); gen(std::get<1>(v)); gen(std::get<2>(v)); trip(v, w, track(), Same()); }
HARNESS(optional) { vf_merge(false); std::optional<std::string> v, w; if ( vf::any<bool>("has") ) { v.emplace(); gen(*v); } if ( vf::any<bool>("old") ) { w.emplace(); gen(*w); } trip(v, w, track(), Same()); }
HARNESS(variant) { vf_merge(false); std::variant<uint32_t, std::string, int64_t> v, w; unsigned a = count("alternative", 2); if ( a == 0 ) v = vf::any<uint32_t>("u"); else if ( a == 1 ) { std::string s; gen(s); v = s; } else v = vf::any<int64_t>("i"); if ( vf::any<bool>("old") ) w = std::string("x"); trip(v, w, track(), Same()); }
HARNESS(array) { vf_merge(false); std::array<uint32_t, 3> v, w{}; for ( auto& e : v ) gen(e); trip(v, w, track(), Same()); }
HARNESS(array_string) { vf_merge(false); std::array<std::string, 2> v, w; for ( auto& e : v ) gen(e); trip(v, w, track(), Same()); }
HARNESS(c_array) { vf_merge(false); int64_t v[3], w[3] = {}; for ( auto& e : v ) gen(e); trip(v, w, track(), SameBits()); }
HARNESS(c_array_string) { vf_merge(false); std::string v[2], w[2]; for ( auto& e : v ) gen(e); trip(v, w, track(), [](std::string(&a)[2], std::string(&b)[2]) { return a[0] == b[0] && a[1] == b[1]; }); }
HARNESS(atomic) { vf_merge(false); std::atomic<uint32_t> v(vf::any<uint32_t>("value")), w(0); trip(v, w, track(), [](std::atomic<uint32_t>& a, std::atomic<uint32_t>& b) { return a.load() == b.load(); }); }
HARNESS(bitset) { vf_merge(false); std::bitset<70> v, w; uint64_t lo = vf::any<uint64_t>("lo"), hi = vf::any_in<uint64_t>("hi", 0, 63); memcpy((void*)&v, &lo, 8); memcpy((char*)&v + 8, &hi, 8); trip(v, w, track(), SameBits()); }
HARNESS(valarray) { vf_merge(false); unsigned n = count("count"), k = count("old", 2); std::valarray<uint32_t> v(n), w(k); for ( unsigned i = 0; i < n; i++ ) gen(v[i]); trip(v, w, track(), [](std::valarray<uint32_t>& a, std::valarray<uint32_t>& b) { if ( a.size() != b.size() ) return false; for ( size_t i = 0; i < a.size(); i++ ) if ( a[i] != b[i] ) return false; return true; }); }
struct Agg { uint32_t a; std::string b; std::vector<uint8_t> c; };
HARNESS(aggregate) { vf_merge(false); Agg v{}, w{}; gen(v.a); gen(v.b); fill(v.c); trip(v, w, track(), [](Agg& x, Agg& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }); }
class Ord { public: uint32_t a = 0; std::string b; int64_t c = 0; void serialize_order(serializer& ser) { SST_SER(a); SST_SER(b); SST_SER(c); } bool operator==(const Ord& o) const { return a == o.a && b == o.b && c == o.c; } };
static void gen(Ord& o) { gen(o.a); gen(o.b); gen(o.c); }
HARNESS(class_order) { vf_merge(false); Ord v, w; gen(v); trip(v, w, track(), Same()); }
// dynamic arrays and raw pointer values
struct Dyn { uint32_t* p = nullptr; uint16_t n = 0; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::array(p, n)); } };
HARNESS(dynamic_array) { vf_merge(false); Dyn v, w; v.n = count("count"); if ( v.n ) v.p = new uint32_t[v.n]; for ( unsigned i = 0; i < v.n; i++ ) gen(v.p[i]);
    trip(v, w, track(), [](Dyn& a, Dyn& b) { if ( a.n != b.n || (a.n == 0) != (b.p == nullptr) || (a.n && a.p == b.p) ) return false; for ( unsigned i = 0; i < a.n; i++ ) if ( a.p[i] != b.p[i] ) return false; return true; }); }
struct DynS { std::string* p = nullptr; int n = 0; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::array(p, n)); } };
HARNESS(dynamic_array_string) { vf_merge(false); DynS v, w; v.n = count("count", 2); v.p = new std::string[v.n]; for ( int i = 0; i < v.n; i++ ) gen(v.p[i]);
    trip(v, w, track(), [](DynS& a, DynS& b) { if ( a.n != b.n || a.p == b.p ) return false; for ( int i = 0; i < a.n; i++ ) if ( a.p[i] != b.p[i] ) return false; return true; }); }
struct Buf { void* p = nullptr; size_t n = 0; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::buffer(p, n)); } };
HARNESS(buffer) { vf_merge(false); Buf v, w; v.n = count("count"); if ( v.n ) v.p = new char[v.n]; for ( unsigned i = 0; i < v.n; i++ ) ((char*)v.p)[i] = (char)vf::any<uint8_t>("byte");
    trip(v, w, track(), [](Buf& a, Buf& b) { if ( a.n != b.n ) return false; for ( unsigned i = 0; i < a.n; i++ ) if ( ((char*)a.p)[i] != ((char*)b.p)[i] ) return false; return true; }); }
struct Raw { uint32_t* p = nullptr; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::raw_ptr(p)); } };
HARNESS(raw_pointer) { vf_merge(false); uint32_t x; Raw v, w; if ( vf::any<bool>("null") ) v.p = nullptr; else v.p = &x; trip(v, w, track(), [](Raw& a, Raw& b) { return a.p == b.p; }); }

// --- hash containers (at most two elements)
HARNESS(unordered_set) { vf_merge(false); std::unordered_set<uint32_t> v, w; fill_set(v); fill_set(w, 1); trip(v, w, track(), Same()); }
HARNESS(unordered_map) { vf_merge(false); std::unordered_map<uint32_t, int64_t> v, w; fill_map(v); fill_map(w, 1); trip(v, w, track(), Same()); }
HARNESS(unordered_multimap) { vf_merge(false); std::unordered_multimap<uint32_t, uint8_t> v, w; fill_map(v); fill_map(w, 1); trip(v, w, track(), Same()); }
HARNESS(unordered_multiset) { vf_merge(false); std::unordered_multiset<uint32_t> v, w; fill_set(v); fill_set(w, 1); trip(v, w, track(), Same()); }
// --- pointers
template <class T> static bool deep(T* a, T* b) { return a ? b && a != b && *a == *b : !b; }
HARNESS(pointer) { vf_merge(false); uint32_t* v = nullptr; uint32_t* w = nullptr; if ( vf::any<bool>("nonnull") ) { v = new uint32_t; gen(*v); } if ( vf::any<bool>("old") ) w = new uint32_t(1); trip(v, w, track(), [](uint32_t* a, uint32_t* b) { return deep(a, b); }); }
HARNESS(pointer_class) { vf_merge(false); Ord* v = nullptr; Ord* w = nullptr; if ( vf::any<bool>("nonnull") ) { v = new Ord; gen(*v); } trip(v, w, track(), [](Ord* a, Ord* b) { return deep(a, b); }); }
HARNESS(pointer_string) { vf_merge(false); std::string* v = nullptr; std::string* w = nullptr; if ( vf::any<bool>("nonnull") ) { v = new std::string; gen(*v); } trip(v, w, track(), [](std::string* a, std::string* b) { return deep(a, b); }); }
HARNESS(pointer_vector) { vf_merge(false); std::vector<uint32_t>* v = nullptr; std::vector<uint32_t>* w = nullptr; if ( vf::any<bool>("nonnull") ) { v = new std::vector<uint32_t>; fill(*v); } trip(v, w, track(), [](std::vector<uint32_t>* a, std::vector<uint32_t>* b) { return deep(a, b); }); }
HARNESS(unique_ptr) { vf_merge(false); std::unique_ptr<Ord> v, w; if ( vf::any<bool>("nonnull") ) { v.reset(new Ord); gen(*v); } if ( vf::any<bool>("old") ) w.reset(new Ord); trip(v, w, track(), [](std::unique_ptr<Ord>& a, std::unique_ptr<Ord>& b) { return deep(a.get(), b.get()); }); }
struct UArr { std::unique_ptr<uint32_t[]> p; int n = 0; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::unique_ptr(p, n)); } };
HARNESS(unique_ptr_array) { vf_merge(false); UArr v, w; v.n = count("count"); if ( v.n ) v.p.reset(new uint32_t[v.n]); for ( int i = 0; i < v.n; i++ ) gen(v.p[i]);
    trip(v, w, track(), [](UArr& a, UArr& b) { if ( a.n != b.n || !a.p != !b.p ) return false; for ( int i = 0; i < a.n; i++ ) if ( a.p[i] != b.p[i] ) return false; return true; }); }
// the same object reached twice stays one object (tracking on), becomes two equal ones (tracking off)
struct Two { uint32_t* a = nullptr; Ord* b = nullptr; uint32_t* c = nullptr; Ord* d = nullptr; void serialize_order(serializer& ser) { SST_SER(a); SST_SER(b); SST_SER(c); SST_SER(d); } };
HARNESS(sharing)
{
    vf_merge(false);
    Two v, w; bool t = track(), s1 = vf::any<bool>("share-scalar"), s2 = vf::any<bool>("share-class");
    v.a = new uint32_t; gen(*v.a); v.b = new Ord; v.b->a = vf::any<uint32_t>("a");
    if ( s1 ) v.c = v.a; else { v.c = new uint32_t; gen(*v.c); }
    if ( s2 ) v.d = v.b; else { v.d = new Ord; v.d->c = vf::any<int64_t>("c"); }
    trip(v, w, t, [&](Two& x, Two& y) { return deep(x.a, y.a) && deep(x.b, y.b) && deep(x.c, y.c) && deep(x.d, y.d) && (y.a == y.c) == (t && s1) && (y.b == y.d) == (t && s2); });
}
// an object serialised by value (as_ptr) and a pointer to it
struct Inner { Ord o; Ord* p = nullptr; std::vector<uint32_t> vec; uint32_t* q = nullptr; void serialize_order(serializer& ser) { SST_SER(o, SerOption::as_ptr); SST_SER(p); SST_SER(vec, SerOption::as_ptr_elem); SST_SER(q); } };
HARNESS(as_ptr)
{
    vf_merge(false);
    Inner v, w; gen(v.o.a); if ( vf::any<bool>("inside") ) v.p = &v.o;
    unsigned n = count("count"); for ( unsigned i = 0; i < n; i++ ) v.vec.push_back(vf::any<uint32_t>("elem"));
    if ( n ) v.q = &v.vec[n - 1];
    trip(v, w, true, [&](Inner& x, Inner& y) { return x.o == y.o && x.vec == y.vec && y.p == (x.p ? &y.o : nullptr) && y.q == (n ? &y.vec[n - 1] : nullptr); });
}
// a chain that may close on itself (tracking on)
struct Node { uint32_t val = 0; Node* next = nullptr; void serialize_order(serializer& ser) { SST_SER(val); SST_SER(next); } };
HARNESS(cycle)
{
    vf_merge(false);
    Node *a = new Node, *b = new Node, *w = nullptr; gen(a->val); gen(b->val); a->next = b;
    unsigned k = count("back", 2); if ( k == 0 ) b->next = nullptr; else if ( k == 1 ) b->next = a; else b->next = b;
    trip(a, w, true, [&](Node* x, Node* y) { return y && y != x && y->val == x->val && y->next && y->next != y && y->next->val == x->next->val && y->next->next == (k == 0 ? nullptr : k == 1 ? y : y->next); });
}
// shared ownership
struct SP { std::shared_ptr<Ord> a, b; std::weak_ptr<Ord> c; void serialize_order(serializer& ser) { SST_SER(a); SST_SER(b); SST_SER(c); } };
HARNESS(shared_ptr)
{
    vf_merge(false);
    SP v, w; bool share = vf::any<bool>("share"); unsigned k = count("weak", 2);
    v.a = std::make_shared<Ord>(); v.a->a = vf::any<uint32_t>("a");
    if ( vf::any<bool>("second") ) { if ( share ) v.b = v.a; else { v.b = std::make_shared<Ord>(); v.b->c = vf::any<int64_t>("c"); } }
    if ( k == 1 ) v.c = v.a; else if ( k == 2 ) v.c = v.b;
    trip(v, w, track(), [&](SP& x, SP& y) { auto l = y.c.lock(); return deep(x.a.get(), y.a.get()) && deep(x.b.get(), y.b.get()) && (x.a == x.b) == (y.a == y.b) && l == (k == 1 ? y.a : k == 2 ? y.b : nullptr); });
}
struct SA { std::shared_ptr<uint32_t[]> a, b; int n = 0, m = 0; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::shared_ptr(a, n)); SST_SER(SST::Core::Serialization::shared_ptr(b, m)); } };
HARNESS(shared_array)
{
    vf_merge(false);
    SA v, w; bool share = vf::any<bool>("share"); v.n = count("count"); v.a.reset(new uint32_t[v.n]); for ( int i = 0; i < v.n; i++ ) gen(v.a[i]);
    if ( share ) { v.b = v.a; v.m = v.n; }
    trip(v, w, track(), [&](SA& x, SA& y) { if ( x.n != y.n || x.m != y.m || (x.a == x.b) != (y.a == y.b) ) return false; for ( int i = 0; i < x.n; i++ ) if ( x.a[i] != y.a[i] ) return false; return true; });
}
// polymorphic pointers through the factory
static uint32_t id_a, id_b;
struct Base : public serializable { uint32_t x = 0; };
struct DerA : public Base { std::string s; void serialize_order(serializer& ser) override { SST_SER(x); SST_SER(s); } const char* cls_name() const override { return "DerA"; } uint32_t cls_id() const override { return id_a; } std::string serialization_name() const override { return "DerA"; } };
struct DerB : public Base { int64_t y = 0; Base* other = nullptr; void serialize_order(serializer& ser) override { SST_SER(x); SST_SER(y); SST_SER(other); } const char* cls_name() const override { return "DerB"; } uint32_t cls_id() const override { return id_b; } std::string serialization_name() const override { return "DerB"; } };
template <class T> struct Build : public serializable_builder { serializable_base* build() const override { return new T; } const char* name() const override { return "T"; } uint32_t cls_id() const override { return 0; } bool sanity(serializable_base*) override { return true; } };
HARNESS(polymorphic)
{
    vf_merge(false);
    VF_ONLY_PROOF(id_a = serializable_factory::add_builder(new Build<DerA>, "vf-DerA"); id_b = serializable_factory::add_builder(new Build<DerB>, "vf-DerB");)
    VF_ONLY_NATIVE(static uint32_t ia = serializable_factory::add_builder(new Build<DerA>, "vf-DerA"), ib = serializable_factory::add_builder(new Build<DerB>, "vf-DerB"); id_a = ia; id_b = ib;)
    CHECK("type-ids-differ", id_a != id_b);
    CHECK("compile-time-hash-agrees", id_a == COMPILE_TIME_HASH("vf-DerA") && id_b == pvt::type_hash("vf-DerB"));
    bool t = track(); unsigned k = count("kind", 2); Base* v = nullptr; Base* w = nullptr;
    DerA* a = new DerA; gen(a->x); gen(a->s); DerB* b = new DerB; gen(b->x); gen(b->y);
    if ( k == 0 ) v = nullptr; else if ( k == 1 ) v = a; else { v = b; if ( vf::any<bool>("nested") ) b->other = a; else if ( t ) b->other = b; }
    trip(v, w, t, [&](Base* x, Base* y) {
        if ( k == 0 ) return y == nullptr;
        if ( !y || y == x || y->cls_id() != x->cls_id() || y->x != x->x ) return false;
        if ( k == 1 ) return ((DerA*)y)->s == a->s;
        Base* o = ((DerB*)y)->other;
        if ( ((DerB*)y)->y != b->y ) return false;
        if ( !b->other ) return o == nullptr;
        if ( b->other == b ) return o == y;
        return o && o != a && o->cls_id() == id_a && o->x == a->x && ((DerA*)o)->s == a->s;
    });
}
// every container with as_ptr_elem: the elements' addresses are recorded in the stream and found again
template <class T> struct AsElem { T t; void serialize_order(serializer& ser) { SST_SER(t, SerOption::as_ptr_elem); } };
template <class T, class EQ> static void elems(AsElem<T>& v, EQ eq) { AsElem<T> w{}; trip(v, w, track(), eq); }
#define ELEMS(nm, T, FILL) HARNESS(elems_##nm) { vf_merge(false); AsElem<T> v{}; auto& c = v.t; FILL; elems(v, [](AsElem<T>& a, AsElem<T>& b) { return a.t == b.t; }); }
typedef std::map<uint32_t, int64_t> Map1; typedef std::multimap<uint32_t, int64_t> MMap1; typedef std::array<Ord, 2> Arr1; typedef std::pair<Ord, uint32_t> Pair1; typedef std::tuple<uint8_t, Ord> Tup1; typedef std::unordered_map<uint32_t, Ord> UMap1;
ELEMS(vector, std::vector<uint32_t>, fill(c))
ELEMS(deque, std::deque<Ord>, unsigned n = count("count", 2); for ( unsigned i = 0; i < n; i++ ) { c.emplace_back(); gen(c.back().c); })
ELEMS(list, std::list<uint8_t>, fill(c))
ELEMS(set, std::set<uint32_t>, fill_set(c))
ELEMS(multiset, std::multiset<uint32_t>, fill_set(c))
ELEMS(unordered_set, std::unordered_set<uint32_t>, fill_set(c))
ELEMS(map, Map1, fill_map(c))
ELEMS(multimap, MMap1, fill_map(c))
ELEMS(unordered_map, UMap1, if ( vf::any<bool>("has") ) gen(c[vf::any<uint32_t>("key")].a))
ELEMS(array, Arr1, gen(c[0].a); gen(c[1].c))
ELEMS(pair, Pair1, gen(c.first.a); gen(c.second))
ELEMS(tuple, Tup1, gen(std::get<0>(c)); gen(std::get<1>(c).a))
ELEMS(optional, std::optional<uint32_t>, if ( vf::any<bool>("has") ) c = vf::any<uint32_t>("value"))
HARNESS(elems_forward_list) { vf_merge(false); AsElem<std::forward_list<int64_t>> v; unsigned n = count("count"); for ( unsigned i = 0; i < n; i++ ) v.t.push_front(vf::any<int64_t>("elem")); elems(v, [](auto& a, auto& b) { return a.t == b.t; }); }
HARNESS(elems_shared_ptr) { vf_merge(false); AsElem<std::shared_ptr<Ord>> v; if ( vf::any<bool>("nonnull") ) { v.t = std::make_shared<Ord>(); gen(v.t->a); } elems(v, [](auto& a, auto& b) { return deep(a.t.get(), b.t.get()); }); }
HARNESS(elems_unique_ptr) { vf_merge(false); AsElem<std::unique_ptr<Ord>> v; if ( vf::any<bool>("nonnull") ) { v.t.reset(new Ord); gen(v.t->a); } elems(v, [](auto& a, auto& b) { return deep(a.t.get(), b.t.get()); }); }
// --- any length: strings, trivially serialisable dynamic arrays, valarrays and raw blocks (no loops, so no bound)
static uint64_t any_len() { return vf::any_in<uint64_t>("len", 31, 0xffffff); }
HARNESS(raw_any)
{
    vf_merge(false);
    uint64_t n = any_len(), k = vf::any<uint64_t>("k"); VF_ONLY_NATIVE(n = 31 + n % 300;) vf_assume(k < n);
    char* v = new char[n]; char* w = new char[n]; uint8_t b = vf::any<uint8_t>("byte"); v[k] = (char)b;
    char* buf = new char[n + 8]; uint64_t g = vf::any<uint64_t>("guard"), g2; memcpy(buf + n, &g, 8);
    { serializer ser; ser.start_sizing(); ser.raw(v, n); CHECK("size", ser.size() == n); }
    { serializer ser; ser.start_packing(buf, n); ser.raw(v, n); CHECK("packed", ser.size() == n); }
    memcpy(&g2, buf + n, 8); CHECK("nothing-beyond", g2 == g);
    { serializer ser; ser.start_unpacking(buf, n); ser.raw(w, n); CHECK("unpacked", ser.size() == n); }
    CHECK("same-bytes", (uint8_t)w[k] == b);
}
// the object's k-th byte is any byte b; put(o, n, k, b) builds it, at(o, n, k, b) recognises it
template <class T, class PUT, class AT> static void any_size(uint64_t head, uint64_t esize, PUT put, AT at)
{
    vf_merge(false);
    uint64_t n = any_len(), k = vf::any<uint64_t>("k"); VF_ONLY_NATIVE(n = 31 + n % 300;) vf_assume(k < n);
    bool t = track(); uint8_t b = vf::any<uint8_t>("byte");
    T v, w; put(v, n, k, b);
    size_t len = head + n * esize;
    { serializer ser; ser.enable_pointer_tracking(t); ser.start_sizing(); SST_SER(v); CHECK("size", ser.size() == len); }
    char* buf = new char[len + 8]; uint64_t g = vf::any<uint64_t>("guard"), g2; memcpy(buf + len, &g, 8);
    { serializer ser; ser.enable_pointer_tracking(t); ser.start_packing(buf, len); SST_SER(v); CHECK("packs-what-it-sized", ser.size() == len); }
    memcpy(&g2, buf + len, 8); CHECK("nothing-beyond-the-buffer", g2 == g);
    { serializer ser; ser.enable_pointer_tracking(t); ser.start_unpacking(buf, len); SST_SER(w); CHECK("consumes-what-was-packed", ser.size() == len); }
    CHECK("equal-after-unpacking", at(w, n, k, b));
    uint64_t shorter = vf::any<uint64_t>("shorter"); vf_assume(shorter < len); bool thrown = false;
    VF_ONLY_NATIVE(if ( shorter < head ) shorter = 0;)
    try { serializer ser; ser.enable_pointer_tracking(t); ser.start_packing(buf, shorter); SST_SER(v); } catch ( const std::out_of_range& ) { thrown = true; }
    CHECK("short-pack-is-an-error", thrown);
}
HARNESS(string_any) { any_size<std::string>(8, 1, [](std::string& s, uint64_t n, uint64_t k, uint8_t b) { s.resize(n); s[k] = (char)b; }, [](std::string& s, uint64_t n, uint64_t k, uint8_t b) { return s.size() == n && (uint8_t)s[k] == b; }); }
struct DynA { uint32_t* p = nullptr; uint32_t n = 0; void serialize_order(serializer& ser) { SST_SER(SST::Core::Serialization::array(p, n)); } };
HARNESS(dynamic_array_any) { any_size<DynA>(4, 4, [](DynA& s, uint64_t n, uint64_t k, uint8_t b) { s.n = n; s.p = new uint32_t[n]; s.p[k] = b * 0x01010101u; }, [](DynA& s, uint64_t n, uint64_t k, uint8_t b) { return s.n == n && s.p[k] == b * 0x01010101u; }); }
HARNESS(buffer_any) { any_size<Buf>(8, 1, [](Buf& s, uint64_t n, uint64_t k, uint8_t b) { s.n = n; s.p = new char[n]; ((uint8_t*)s.p)[k] = b; }, [](Buf& s, uint64_t n, uint64_t k, uint8_t b) { return s.n == n && ((uint8_t*)s.p)[k] == b; }); }
HARNESS(valarray_any) { any_size<std::valarray<uint16_t>>(8, 2, [](std::valarray<uint16_t>& s, uint64_t n, uint64_t k, uint8_t b) { s.resize(n); s[k] = b; }, [](std::valarray<uint16_t>& s, uint64_t n, uint64_t k, uint8_t b) { return s.size() == n && s[k] == b; }); }
HARNESS(unique_array_any) { any_size<UArr>(16, 4, [](UArr& s, uint64_t n, uint64_t k, uint8_t b) { s.n = n; s.p.reset(new uint32_t[n]); s.p[k] = b; }, [](UArr& s, uint64_t n, uint64_t k, uint8_t b) { return s.n == (int)n && s.p[k] == b; }); }

// VF:BOUNDED
HARNESS(string_lengths) { vf_merge(false); std::string v, w; unsigned n = count("len", 30); for ( unsigned i = 0; i < n; i++ ) v.push_back((char)vf::any<uint8_t>("char")); trip(v, w, false, Same()); }

// --- vectors of any length, by the invariants in serialize_insertable.h: i elements written (read) so far, each in its place
static char* gbuf; static uint64_t glen, gk; static bool gcut;
namespace vf {
template <> inline constexpr bool cut_elements<std::vector<uint16_t>> = true;
template <class C, class E, class S> bool elements_packed(const C& c, const E& e, S& ser)
{
    const uint64_t z = sizeof(E), i = &e - c.data();
    if ( !(i < c.size() && ser.size() == 8 + z * i) ) return false;
    if ( ser.mode() != serializer::PACK ) return true;
    E x; memcpy(&x, gbuf + 8 + z * gk, z); uint64_t n; memcpy(&n, gbuf, 8);
    return ser.packer().bufptr_ == gbuf + 8 + z * i && n == c.size() && (gk >= i || x == c[gk]);
}
template <class C, class S> bool elements_unpacked(const C& c, uint64_t i, S& ser)
{
    typedef typename C::value_type E; const uint64_t z = sizeof(E);
    if ( !(i == c.size() && ser.size() == 8 + z * i && ser.unpacker().bufptr_ == gbuf + 8 + z * i) ) return false;
    E x; memcpy(&x, gbuf + 8 + z * gk, z);
    return gk >= i || c[gk] == x;
}
}
static_assert(vf::cut_elements<std::vector<uint16_t>>);
HARNESS(vector_any)
{
    vf_merge(false);
    std::vector<uint16_t> v, w;
    vf::any_vector(v, "v");
    vf::any_vector(w, "w");
    uint64_t n = v.size(); bool t = track(); gk = vf::any<uint64_t>("k"); VF_ONLY_NATIVE(if ( n ) gk %= n;) vf_assume(gk < n);
    uint64_t len = 8 + 2 * n;
    { serializer ser; ser.enable_pointer_tracking(t); ser.start_sizing(); SST_SER(v); CHECK("size", ser.size() == len); }
    gbuf = new char[len + 8];
    { serializer ser; ser.enable_pointer_tracking(t); ser.start_packing(gbuf, len); SST_SER(v); CHECK("packs-what-it-sized", ser.size() == len); }
    { serializer ser; ser.enable_pointer_tracking(t); ser.start_unpacking(gbuf, len); SST_SER(w); CHECK("consumes-what-was-packed", ser.size() == len); }
    CHECK("same-length", w.size() == n);
    CHECK("same-element", w[gk] == v[gk]);
}
