// Contract language of the deductive verifier (engine/core.py) and its native twin (engine/native.cc).
// The same contract text is (a) compiled to IR together with the real sources and proved for all inputs,
// (b) compiled to a native program that replays counterexamples / runs randomly chosen inputs on the real code.
#ifndef SST_VERIF_CONTRACTS_H
#define SST_VERIF_CONTRACTS_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" {
uint64_t vf_nondet(const char* name, unsigned bits);   // arbitrary value of that many bits
void*    vf_any_ptr(const char* name);                 // arbitrary pointer to a distinct-or-aliased object
void*    vf_any_object(void* like, uint64_t size, const char* name);
bool     vf_valid_ptr(const void* p);
void     vf_assume(bool c);
void     vf_check(const char* label, bool c);
void     vf_lemma(const char* label, bool c);          // check, then use
void     vf_cover(const char* label);
bool     vf_symbolic();
void     vf_merge(bool on);
void     vf_fp_exact(bool on);
void     vf_unroll(unsigned n);
void     vf_no_safety();
void     vf_use_contract(void* fn, void* stub);
void     vf_end_contract(void* fn);
void     vf_model_virtual(uint64_t vptr_off, uint64_t slot_byte_off, void* stub);
bool     vf_forall(uint64_t lo, uint64_t hi, bool (*fn)(void*, uint64_t), void* ctx);
bool     vf_exists(uint64_t lo, uint64_t hi, bool (*fn)(void*, uint64_t), void* ctx);
void     vf_any_vector(void* vec, const char* name, uint64_t esz);
void*    vf_any_array(const char* name, uint64_t esz, uint64_t n);
const void* vf_snapshot(const void* region, uint64_t bytes);
void     vf_ghost_new(const char* name, uint64_t init);
void     vf_ghost_any(const char* name);
uint64_t vf_ghost_get(const char* name, uint64_t key);
void     vf_ghost_set(const char* name, uint64_t key, uint64_t val);
void     vf_ghost_copy(const char* dst, const char* src);
void     vf_havoc(void* p, uint64_t size);
void     vf_havoc_field(uint64_t off, uint64_t size);
void     vf_stop();
void     vf_debug(const char* s, uint64_t v);
void     vf_debugp(const char* s, const void* v);
void     vf_cut_begin(const char* name);
void     vf_cut(const char* name, bool inv);
// native only
void     vfn_init_obj(void* p, uint64_t addr, const uint32_t* offs, const uint32_t* szs, unsigned n);
uint64_t vfn_ptr_addr(const char* name, bool* known);
void*    vfn_obj_lookup(uint64_t addr);
void     vfn_obj_store(uint64_t addr, void* p);
uint64_t vfn_len(const char* name, uint64_t maxrandom, unsigned* occ);
bool     vfn_elem(const char* name, unsigned occ, uint64_t idx, uint64_t off, uint64_t sz, uint64_t* out);
uint64_t vfn_random(unsigned bits);
uint64_t vfn_random_fp();
void     vfn_register(const char* name, void (*fn)());
uint64_t vfn_object_bytes(const char* name, void* p, uint64_t size);
}

// loop invariant: placed at the top of the loop body; `expr` must hold each time the body is entered
#ifdef VF_NATIVE   // evaluated at the first iterations and then ever more rarely: an invariant may quantify over the iterations
#define SST_VERIF_INVARIANT(name, expr) do { static unsigned vf_n; if (++vf_n < 200 || (vf_n & (vf_n - 1)) == 0) { vf_cut_begin(name); vf_cut(name, (expr)); } } while (0)
#else
#define SST_VERIF_INVARIANT(name, expr) do { vf_cut_begin(name); vf_cut(name, (expr)); } while (0)
#endif

namespace vf {
struct Fatal { int code; };     // thrown instead of Output::fatal
struct Ended {};
template <class C> inline constexpr bool cut_elements = false;   // containers whose serialisation loops are proved by invariant
template <class C, class E, class S> bool elements_packed(const C&, const E&, S&);
template <class C, class S> bool elements_unpacked(const C&, uint64_t, S&);
inline bool ghost_flag; inline uint64_t ghost_time;     // ghost state the loop invariants in the sources may mention

template <class T>
inline T any(const char* name)
{
    if constexpr (std::is_same<T, bool>::value) return (bool)(vf_nondet(name, 1) & 1);
    else if constexpr (std::is_enum<T>::value) return (T)vf_nondet(name, 8 * sizeof(T));
    else if constexpr (std::is_floating_point<T>::value) {
        T r;
        if constexpr (sizeof(T) == 8) { uint64_t b = vf_nondet(name, 64); memcpy(&r, &b, 8); }
        else { uint32_t b = (uint32_t)vf_nondet(name, 32); memcpy(&r, &b, 4); }
        return r;
    }
    else return (T)vf_nondet(name, 8 * sizeof(T));
}
#ifdef VF_NATIVE
template <class T>
inline T any_in(const char* name, T lo, T hi);   // lo <= x <= hi
}
extern "C" uint64_t vfn_nondet_range(const char* name, unsigned bits, uint64_t lo, uint64_t hi, bool sgn);
extern "C" double vfn_nondet_fp(const char* name);
extern "C" double vfn_nondet_unit(const char* name);
namespace vf {
template <class T>
inline T any_in(const char* name, T lo, T hi)
{ return (T)vfn_nondet_range(name, 8 * sizeof(T), (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi, std::is_signed<T>::value); }
inline double any_double(const char* name) { return vfn_nondet_fp(name); }
inline double any_unit(const char* name) { double d = vfn_nondet_unit(name); vf_assume(d >= 0.0 && d < 1.0); return d; }
#else
template <class T>
inline T any_in(const char* name, T lo, T hi)
{ T x = any<T>(name); vf_assume(x >= lo); vf_assume(x <= hi); return x; }
inline double any_double(const char* name) { return any<double>(name); }
inline double any_unit(const char* name) { double d = any<double>(name); vf_assume(d >= 0.0 && d < 1.0); return d; }   // [0,1)
#endif

template <class F>
inline bool forall(uint64_t lo, uint64_t hi, F f)
{
    return vf_forall(lo, hi, [](void* c, uint64_t k) -> bool { return (*(F*)c)(k); }, (void*)&f);
}
template <class F>
inline bool exists(uint64_t lo, uint64_t hi, F f)
{
    return vf_exists(lo, hi, [](void* c, uint64_t k) -> bool { return (*(F*)c)(k); }, (void*)&f);
}
inline bool implies(bool a, bool b) { return !a || b; }

// ---- symbolic objects.  Native: Make<T>::make() builds a real object, Make<T>::fields lists (offset,size) of the
// members the contract leaves arbitrary; they receive the counterexample's (or random) values.
struct Field { uint32_t off, sz; };
template <class T> struct Make;   // specialise: static T* make(); static std::vector<Field> fields();

#ifdef VF_NATIVE
template <class T>
inline T* native_obj(uint64_t addr)
{
    if (addr)
        if (void* q = vfn_obj_lookup(addr)) return (T*)q;
    T* p = Make<T>::make();
    std::vector<uint32_t> o, s;
    for (auto& f : Make<T>::fields()) { o.push_back(f.off); s.push_back(f.sz); }
    vfn_init_obj((void*)p, addr, o.data(), s.data(), (unsigned)o.size());
    if (addr) vfn_obj_store(addr, (void*)p);
    return p;
}
template <class T>
inline T* any_ptr(const char* name)
{
    bool known; uint64_t a = vfn_ptr_addr(name, &known);
    return native_obj<T>(known ? a : 0);
}
#else
template <class T>
inline T* any_ptr(const char* name) { return (T*)vf_any_ptr(name); }
#endif
template <class T, class M>
inline Field field(M T::*m)
{
    union { char c[sizeof(T)]; } u;
    T* t = (T*)u.c;
    return Field { (uint32_t)((char*)&(t->*m) - (char*)t), (uint32_t)sizeof(M) };
}

// ---- arbitrary std::vector of symbolic length
template <class T, class G>
inline void any_vector(std::vector<T>& v, const char* name, G gen, uint64_t maxn = 6)
{
#ifdef VF_NATIVE
    unsigned occ; uint64_t n = vfn_len(name, maxn, &occ);
    if (n > 100000) vf_assume(false);
    new (&v) std::vector<T>();
    for (uint64_t i = 0; i < n; i++) v.push_back(gen(name, occ, i));
#else
    vf_any_vector((void*)&v, name, sizeof(T));
#endif
}
#ifdef VF_NATIVE
template <class T>
inline T elem_scalar(const char* name, unsigned occ, uint64_t i)
{
    uint64_t x;
    if (!vfn_elem(name, occ, i, 0, sizeof(T), &x)) x = vfn_random(8 * sizeof(T));
    T r; memcpy(&r, &x, sizeof(T)); return r;
}
template <class T>
inline T* elem_ptr(const char* name, unsigned occ, uint64_t i)
{
    uint64_t x;
    if (!vfn_elem(name, occ, i, 0, 8, &x)) x = 0;
    return native_obj<T>(x);
}
#endif
template <class T>
inline void any_vector(std::vector<T>& v, const char* name, uint64_t maxn = 6)
{
    any_vector(v, name, [](const char* nm, unsigned occ, uint64_t i) -> T {
#ifdef VF_NATIVE
        if constexpr (std::is_pointer<T>::value) return elem_ptr<typename std::remove_pointer<T>::type>(nm, occ, i);
        else return elem_scalar<T>(nm, occ, i);
#else
        return T();
#endif
    }, maxn);
}
template <class T>
inline const T* snapshot(const std::vector<T>& v)
{
    return (const T*)vf_snapshot((const void*)v.data(), v.size() * sizeof(T));
}
template <class R, class... A> inline void* fnp(R (*f)(A...)) { return (void*)f; }
template <class C, class R, class... A>
inline void* mfn(R (C::*f)(A...)) { void* p; memcpy(&p, (void*)&f, 8); return p; }
template <class C, class R, class... A>
inline void* mfn(R (C::*f)(A...) const) { void* p; memcpy(&p, (void*)&f, 8); return p; }

// raw, unconstructed storage for a real object whose constructor drags in the environment; every byte is arbitrary
// (symbolic) until the contract sets it.
template <class T>
inline T* raw_object(const char* name)
{
#ifdef VF_NATIVE
    void* p = ::operator new(sizeof(T) + 64);
    memset(p, 0, sizeof(T));
    vfn_object_bytes(name, p, sizeof(T));
    return (T*)p;
#else
    return (T*)vf_any_object(nullptr, sizeof(T), name);
#endif
}
} // namespace vf

#ifdef VF_NATIVE
#define HARNESS(name)                                                              \
    extern "C" void vfh_##name();                                                  \
    static struct vfreg_##name { vfreg_##name() { vfn_register(#name, vfh_##name); } } vfreg_inst_##name; \
    extern "C" void vfh_##name()
#define VF_ONLY_NATIVE(...) __VA_ARGS__
#define VF_ONLY_PROOF(...)
#else
#define HARNESS(name) extern "C" void vfh_##name()
#define VF_ONLY_NATIVE(...)
#define VF_ONLY_PROOF(...) __VA_ARGS__
#endif
#define CHECK(label, c) vf_check(label, (c))
#endif
