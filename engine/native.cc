// Native twin of the verifier's primitives: replays a counterexample or runs randomly chosen inputs on the real code.
#include <cstdio>
#include <ctime>
#include <time.h>
#include <tuple>
extern "C" unsigned long vfn_random_fp();
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <map>
#include <random>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <grp.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#include <cstring>
#include <cstdint>
#include <typeinfo>
#include <cxxabi.h>
#include <exception>

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
static std::mt19937_64 rng;
static bool replay = false;
static std::map<std::pair<std::string, unsigned>, uint64_t> c_nd, c_ptr, c_len;
static std::map<std::pair<std::string, uint64_t>, uint64_t> c_objb;   // raw object bytes: (name, off<<8|sz)
struct El { std::string v; unsigned occ; uint64_t i, off, sz; bool operator<(const El& o) const { return std::tie(v, occ, i, off, sz) < std::tie(o.v, o.occ, o.i, o.off, o.sz); } };
static std::map<El, uint64_t> c_el;
struct Ob { uint64_t a, off, sz; bool operator<(const Ob& o) const { return std::tie(a, off, sz) < std::tie(o.a, o.off, o.sz); } };
static std::map<Ob, uint64_t> c_ob;
static std::map<std::string, unsigned> occ_nd, occ_ptr, occ_len;
static std::map<uint64_t, void*> objs;
static std::map<std::string, std::map<uint64_t, uint64_t>> ghost;
static std::map<std::string, uint64_t> ghost_init;
static int res_fd = -1;
static std::string trace;   // inputs drawn, for the report

enum { OK = 0, FAIL = 10, VACUOUS = 11, LIMIT = 12 };
static void say(const char* k, const char* msg)
{
    if (res_fd >= 0) { dprintf(res_fd, "%s %s\n", k, msg); }
}
static void quit(int code) { _exit(code); }
static void dump_inputs() { if (res_fd >= 0) { ssize_t r = write(res_fd, trace.data(), trace.size()); (void)r; } }

extern "C" {
void vfn_register(const char* n, void (*f)()) { reg()[n] = f; }
static int started = 0;
uint64_t vfn_unresolved() { if (!started) return 0; say("LIMIT", "unresolved external function called"); quit(LIMIT); return 0; }
uint64_t vfn_random(unsigned bits)
{
    uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    switch (rng() % 10) {
    case 0: case 1: case 2: case 3: return (rng() % 5) & m;
    case 4: return (rng() % 40) & m;
    case 5: return (m - rng() % 3) & m;
    case 6: { unsigned k = rng() % bits; return ((1ULL << k) + rng() % 3 - 1) & m; }
    case 7: return (rng() % 2000) & m;
    default: return rng() & m;
    }
}
static void tr(const char* kind, const std::string& n, unsigned i, uint64_t v)
{
    char b[400]; snprintf(b, sizeof b, "INPUT %s %s %u %llu\n", kind, n.c_str(), i, (unsigned long long)v);
    if (trace.size() < 20000) trace += b;
}
uint64_t vf_nondet(const char* name, unsigned bits)
{
    unsigned i = occ_nd[name]++;
    uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1), v;
    auto it = c_nd.find({name, i});
    if (it != c_nd.end()) v = it->second & m;
    else v = replay ? 0 : vfn_random(bits);
    tr("nd", name, i, v);
    return v;
}
uint64_t vfn_nondet_range(const char* name, unsigned bits, uint64_t lo, uint64_t hi, bool sgn)
{
    unsigned i = occ_nd[name]++;
    uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1), v;
    auto it = c_nd.find({name, i});
    if (it != c_nd.end()) v = it->second & m;
    else {
        uint64_t span = hi - lo;
        uint64_t off = replay ? 0 : vfn_random(64);
        if (span != ~0ULL && off > span) {
            switch (rng() % 4) { case 0: off = span; break; case 1: off = span ? span - 1 : 0; break; default: off = rng() % (span + 1); }
        }
        v = (lo + off) & m;
    }
    tr("nd", name, i, v);
    if (sgn && bits < 64 && (v >> (bits - 1))) v |= ~m;
    return v;
}
double vfn_nondet_fp(const char* name)
{
    unsigned i = occ_nd[name]++;
    uint64_t v; double d;
    auto it = c_nd.find({name, i});
    if (it != c_nd.end()) v = it->second;
    else { v = replay ? 0 : vfn_random_fp(); }
    tr("nd", name, i, v);
    memcpy(&d, &v, 8);
    return d;
}
double vfn_nondet_unit(const char* name)
{
    unsigned i = occ_nd[name]++;
    uint64_t v; double d;
    auto it = c_nd.find({name, i});
    if (it != c_nd.end()) v = it->second;
    else {
        static const double sp[] = { 0.0, 0.5, 0.25, 0.999999999, 1e-9, 0.75 };
        d = replay ? 0.0 : rng() % 4 == 0 ? sp[rng() % 6] : (double)(rng() % 1000000007) / 1000000007.0;
        memcpy(&v, &d, 8);
    }
    tr("nd", name, i, v);
    memcpy(&d, &v, 8);
    return d;
}
uint64_t vfn_random_fp()
{
    double d;
    switch (rng() % 8) {
    case 0: d = (double)(int)(rng() % 20) - 10; break;
    case 1: d = ((double)(rng() % 2001) - 1000) / 8; break;
    case 2: d = ((double)(int64_t)rng()); break;
    case 3: d = ((double)(rng() % 1000000007)) * 1e-9; break;
    case 4: d = -((double)(rng() % 1000000007)) * 1e9; break;
    case 5: d = 0; break;
    case 6: d = (rng() & 1) ? 1e300 : -1e-300; break;
    default: d = (double)(rng() % 100);
    }
    uint64_t v; memcpy(&v, &d, 8); return v;
}
uint64_t vfn_ptr_addr(const char* name, bool* known)
{
    unsigned i = occ_ptr[name]++;
    auto it = c_ptr.find({name, i});
    *known = it != c_ptr.end();
    return *known ? it->second : 0;
}
void* vfn_obj_lookup(uint64_t a) { auto it = objs.find(a); return it == objs.end() ? nullptr : it->second; }
void vfn_obj_store(uint64_t a, void* p) { objs[a] = p; }
void vfn_init_obj(void* p, uint64_t addr, const uint32_t* o, const uint32_t* s, unsigned n)
{
    for (unsigned i = 0; i < n; i++) {
        uint64_t v; auto it = c_ob.find({addr, o[i], s[i]});
        if (addr && it != c_ob.end()) v = it->second;
        else v = replay ? 0 : vfn_random(8 * s[i]);
        tr("obj+", std::to_string(o[i]), s[i], v);
        memcpy((char*)p + o[i], &v, s[i]);
    }
}
uint64_t vfn_object_bytes(const char* name, void* p, uint64_t size)
{
    for (auto& kv : c_objb)
        if (kv.first.first == name) {
            uint64_t off = kv.first.second >> 8, sz = kv.first.second & 255;
            if (off + sz <= size) memcpy((char*)p + off, &kv.second, sz);
        }
    return 0;
}
uint64_t vfn_len(const char* name, uint64_t maxr, unsigned* occ)
{
    unsigned i = occ_len[name]++; *occ = i;
    auto it = c_len.find({name, i});
    uint64_t v = it != c_len.end() ? it->second : replay ? 0 : rng() % (maxr + 1);
    tr("len", name, i, v);
    return v;
}
bool vfn_elem(const char* name, unsigned occ, uint64_t idx, uint64_t off, uint64_t sz, uint64_t* out)
{
    auto it = c_el.find({name, occ, idx, off, sz});
    if (it == c_el.end()) { if (replay && c_len.count({name, occ})) { *out = 0; return true; } return false; }
    *out = it->second; return true;
}
bool vf_valid_ptr(const void* p) { return p != nullptr; }
void* vf_any_ptr(const char* name) { abort(); }
void* vf_any_object(void*, uint64_t size, const char* name) { void* p = calloc(1, size); vfn_object_bytes(name, p, size); return p; }
void vf_assume(bool c) { if (!c) quit(VACUOUS); }
void vf_check(const char* l, bool c) { if (!c) { say("FAIL", l); dump_inputs(); quit(FAIL); } }
void vf_lemma(const char* l, bool c) { vf_check(l, c); }
void vf_cover(const char* l) { say("COVER", l); }
bool vf_symbolic() { return false; }
void vf_merge(bool) {}
void vf_fp_exact(bool) {}
void vf_unroll(unsigned) {}
void vf_no_safety() {}
// natively a contract is installed by overwriting the function's entry with a jump (this process only)
static std::map<void*, std::string> patched;
static void poke(void* fn, const void* code)
{
    uintptr_t pg = (uintptr_t)fn & ~(uintptr_t)4095;
    if (mprotect((void*)pg, ((uintptr_t)fn & 4095) + 13 > 4096 ? 8192 : 4096, PROT_READ | PROT_WRITE | PROT_EXEC)) { say("LIMIT", "cannot install a contract natively"); quit(LIMIT); }
    memcpy(fn, code, 13);
}
void vf_use_contract(void* fn, void* stub)
{
    if (!fn) return;
    if (!patched.count(fn)) patched[fn] = std::string((char*)fn, 13);
    unsigned char c[13] = { 0x49, 0xBB, 0, 0, 0, 0, 0, 0, 0, 0, 0x41, 0xFF, 0xE3 };
    memcpy(c + 2, &stub, 8);
    poke(fn, c);
}
void vf_end_contract(void* fn) { auto it = patched.find(fn); if (it != patched.end()) { poke(fn, it->second.data()); patched.erase(it); } }
void vf_model_virtual(uint64_t, uint64_t, void*) {}
bool vf_forall(uint64_t lo, uint64_t hi, bool (*f)(void*, uint64_t), void* c) { for (uint64_t k = lo; k < hi; k++) if (!f(c, k)) return false; return true; }
bool vf_exists(uint64_t lo, uint64_t hi, bool (*f)(void*, uint64_t), void* c) { for (uint64_t k = lo; k < hi; k++) if (f(c, k)) return true; return false; }
void vf_any_vector(void*, const char*, uint64_t) { abort(); }
void* vf_any_array(const char* name, uint64_t esz, uint64_t n)
{
    if (n > 1000000) quit(VACUOUS);
    char* p = (char*)malloc(esz * n + 1);
    unsigned occ = occ_len[name]++;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t x;
        if (esz > 8) { memset(p + i * esz, 0, esz); continue; }
        if (!vfn_elem(name, occ, i, 0, esz, &x)) x = replay ? 0 : vfn_random(8 * esz);
        memcpy(p + i * esz, &x, esz);
        if (i < 64) tr("el", name, (unsigned)i, x);
    }
    return p;
}
const void* vf_snapshot(const void* r, uint64_t n) { void* p = malloc(n + 1); if (n) memcpy(p, r, n); return p; }
void vf_ghost_new(const char* n, uint64_t init) { ghost[n].clear(); ghost_init[n] = init; }
void vf_ghost_any(const char* n) { ghost[n].clear(); ghost_init[n] = 0; }
uint64_t vf_ghost_get(const char* n, uint64_t k) { auto& g = ghost[n]; auto it = g.find(k); return it == g.end() ? ghost_init[n] : it->second; }
void vf_ghost_set(const char* n, uint64_t k, uint64_t v) { ghost[n][k] = v; }
void vf_ghost_copy(const char* d, const char* s) { ghost[d] = ghost[s]; ghost_init[d] = ghost_init[s]; }
void vf_havoc(void*, uint64_t) {}
void vf_havoc_field(uint64_t, uint64_t) {}
void vf_stop() { quit(OK); }
void vf_debug(const char*, uint64_t) {}
void vf_debugp(const char*, const void*) {}
void vf_cut_begin(const char*) {}
void vf_cut(const char* l, bool inv) { if (!inv) { std::string m = std::string("loop-inv:") + l; vf_check(m.c_str(), false); } }
void __asan_on_error() __attribute__((weak));
void __asan_on_error() {}
}

static void on_segv(int sig, siginfo_t* si, void* u)
{
    ucontext_t* uc = (ucontext_t*)u;
    if ((uint64_t)uc->uc_mcontext.gregs[REG_RIP] < 4096) { say("LIMIT", "call of an unresolved function"); _exit(LIMIT); }
    char b[100]; snprintf(b, sizeof b, "safety:crash signal %d address %p", sig, si->si_addr);
    say("FAIL", b); dump_inputs(); _exit(FAIL);
}
static void on_alarm(int) { say("HANG", "no answer within the time limit"); _exit(13); }
static void on_abrt(int) { say("FAIL", "safety:abort/terminate"); dump_inputs(); _exit(FAIL); }

#define W __attribute__((weak))
namespace vf { struct Fatal { int code; }; struct Ended {}; }
extern "C" {
W void* _ZN3SST4Core11MemPoolItemnwEm(size_t n) { return malloc(n); }
W void _ZN3SST4Core11MemPoolItemdlEPv(void* p) { free(p); }
W void _ZN3SST6OutputC1Ev(void*) {}
W void _ZN3SST6OutputC2Ev(void*) {}
W void _ZN3SST6OutputD1Ev(void*) {}
W void _ZN3SST6OutputD2Ev(void*) {}
W void _ZN3SST6OutputC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEjjNS0_17output_location_tES8_(void*) {}
W void _ZN3SST6OutputC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEjjNS0_17output_location_tES8_(void*) {}
W void _ZNK3SST6Output5fatalEjPKcS2_iS2_z(const void*, unsigned, const char*, const char*, int code, ...) { throw vf::Fatal { code }; }
W void _ZNK3SST6Output12outputprintfEPKcP13__va_list_tag(void*) {}
W void _ZNK3SST6Output12outputprintfEjRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES8_PKcP13__va_list_tag(void*) {}
}
namespace vf_unused { struct Fatal { int code; }; struct Ended {}; }
static void run(void (*f)())
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    signal(SIGALRM, on_alarm); signal(SIGABRT, on_abrt);
    alarm(5);
    if (geteuid() == 0) { if (setgroups(0, nullptr)) {} if (setgid(65534)) {} if (setuid(65534)) {} }   // the code under test runs unprivileged
    try { f(); }
    catch (vf::Fatal&) { say("FAIL", "uncaught exception (fatal)"); dump_inputs(); _exit(FAIL); }
    catch (vf::Ended&) { _exit(OK); }
    catch (std::exception& e) { std::string m = std::string("uncaught exception ") + e.what(); say("FAIL", m.c_str()); dump_inputs(); _exit(FAIL); }
    catch (...) { say("FAIL", "uncaught exception"); dump_inputs(); _exit(FAIL); }
    _exit(OK);
}

static bool load(const char* path)
{
    FILE* f = fopen(path, "r"); if (!f) return false;
    char k[32], n[256]; unsigned long long a, b, c, d, e;
    char line[1024];
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "nd %255s %llu %llu", n, &a, &b) == 3) c_nd[{n, (unsigned)a}] = b;
        else if (sscanf(line, "ptr %255s %llu %llu", n, &a, &b) == 3) c_ptr[{n, (unsigned)a}] = b;
        else if (sscanf(line, "len %255s %llu %llu", n, &a, &b) == 3) c_len[{n, (unsigned)a}] = b;
        else if (sscanf(line, "el %255s %llu %llu %llu %llu %llu", n, &a, &b, &c, &d, &e) == 6) c_el[{n, (unsigned)a, b, c, d}] = e;
        else if (sscanf(line, "obj %llu %llu %llu %llu", &a, &b, &c, &d) == 4) c_ob[{a, b, c}] = d;
        else if (sscanf(line, "raw %255s %llu %llu %llu", n, &a, &b, &c) == 4) c_objb[{n, (a << 8) | b}] = c;
    }
    fclose(f); (void)k; return true;
}

#include <csetjmp>
extern "C" { typedef void (*vf_initfn)(int, char**, char**); extern vf_initfn __start_vf_init[] __attribute__((weak)); extern vf_initfn __stop_vf_init[] __attribute__((weak)); }
static sigjmp_buf init_jb;
static void on_init(int) { siglongjmp(init_jb, 1); }
static void static_init(int argc, char** argv)
{
    struct sigaction sa, o1, o2; memset(&sa, 0, sizeof sa); sa.sa_handler = on_init; sa.sa_flags = SA_NODEFER;
    sigaction(SIGSEGV, &sa, &o1); sigaction(SIGABRT, &sa, &o2);
    for (vf_initfn* f = __start_vf_init; f < __stop_vf_init; f++) {
        if (!*f) continue;
        if (sigsetjmp(init_jb, 1) == 0) { try { (*f)(argc, argv, nullptr); } catch (...) {} }
    }
    sigaction(SIGSEGV, &o1, nullptr); sigaction(SIGABRT, &o2, nullptr);
}

// usage: prog HARNESS replay FILE      |  prog HARNESS random SEED COUNT SECONDS [FILE(partial)]   | prog list
static int main2(int argc, char** argv)
{
    static_init(argc, argv);
    started = 1;
    if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& kv : reg()) printf("%s\n", kv.first.c_str()); return 0; }
    if (argc < 4) return 2;
    auto it = reg().find(argv[1]);
    if (it == reg().end()) { printf("NOHARNESS\n"); return 2; }
    bool rep = !strcmp(argv[2], "replay");
    uint64_t seed = rep ? 0 : strtoull(argv[3], nullptr, 10);
    long count = rep ? 1 : atol(argv[4]);
    double secs = rep ? 20 : atof(argv[5]);
    if (rep && !load(argv[3])) return 2;
    if (!rep && argc > 6) load(argv[6]);
    long ok = 0, vac = 0, lim = 0, hang = 0; std::set<std::string> covers; std::string limmsg;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    long i = 0;
    std::set<size_t> distinct;
    for (; i < count; i++) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
        int p[2]; if (pipe(p)) return 2;
        fflush(stdout);
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            close(p[0]); res_fd = p[1];
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
            replay = rep; rng.seed(seed * 1000003 + i);
            run(it->second);
        }
        close(p[1]);
        std::string out; char b[4096]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n);
        close(p[0]);
        int w = 0; waitpid(pid, &w, 0);
        int code = WIFEXITED(w) ? WEXITSTATUS(w) : -WTERMSIG(w);
        size_t pos = 0;
        std::string fail, lines;
        while (pos < out.size()) {
            size_t e = out.find('\n', pos); if (e == std::string::npos) e = out.size();
            std::string l = out.substr(pos, e - pos); pos = e + 1;
            if (!l.compare(0, 6, "COVER ")) covers.insert(l.substr(6));
            else if (!l.compare(0, 5, "FAIL ")) fail = l.substr(5);
            else if (!l.compare(0, 6, "LIMIT ")) limmsg = l.substr(6);
            else if (!l.compare(0, 6, "INPUT ")) lines += l + "\n";
        }
        if (code == 0) ok++;
        else if (code == VACUOUS) vac++;
        else if (code == LIMIT) lim++;
        else if (code == 13) hang++;
        else {
            if (fail.empty()) fail = code < 0 ? "safety:killed by signal " + std::to_string(-code) : "safety:sanitizer/exit code " + std::to_string(code);
            printf("FAILED %s\nRUN %ld seed %llu\n%s", fail.c_str(), i, (unsigned long long)seed, lines.c_str());
            printf("SUMMARY ok %ld vacuous %ld limit %ld hang %ld\n", ok, vac, lim, hang);
            return 1;
        }
    }
    for (auto& c : covers) printf("COVER %s\n", c.c_str());
    if (lim) printf("LIMIT %s\n", limmsg.c_str());
    printf("SUMMARY ok %ld vacuous %ld limit %ld hang %ld\n", ok, vac, lim, hang);
    return 0;
}
// exit handlers of the sources (destructors of static objects) do not run: some need parts of the simulator that are not linked
int main(int argc, char** argv) { int rc = main2(argc, argv); fflush(stdout); _exit(rc); }
