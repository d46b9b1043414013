// libstdc++'s out-of-line hash table helpers, for the proof only: any bucket count is correct, so the table keeps one bucket and
// never rehashes; std::hash of bytes is some fixed function of them. The native program uses libstdc++'s own.
#ifndef VERIF_HASH_H
#define VERIF_HASH_H
#include <unordered_map>
#include <unordered_set>
#ifndef VF_NATIVE
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n ? n : 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return { false, 0 }; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for ( size_t i = 0; i < n; i++ ) h = h * 31 + ((const unsigned char*)p)[i]; return h; }
}
#endif
#endif
