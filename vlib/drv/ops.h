// Driver: one extern "C" function per public operation of the container under analysis.
// Only public API is used; every function is what a caller could write.
#include "vf.h"
#if defined(VF_G15)
#include "jstd/hashmap/group15_flat_map.hpp"
template <class H=Hs,class E=Eq> using MapT = jstd::group15_flat_map<K,T,H,E,Al<std::pair<const K,T>>>;
#elif defined(VF_G16)
#include "jstd/hashmap/group16_flat_map.hpp"
template <class H=Hs,class E=Eq> using MapT = jstd::group16_flat_map<K,T,H,E,Al<std::pair<const K,T>>>;
#elif defined(VF_RD) || defined(VF_RI)
#include "jstd/hashmap/robin_hash_map.h"
struct LP { static constexpr bool autoDetectIsIndirectKey=false, autoDetectIsIndirectValue=false;
#ifdef VF_RI
  static constexpr bool isIndirectKey=true, isIndirectValue=true;
#else
  static constexpr bool isIndirectKey=false, isIndirectValue=false;
#endif
  static constexpr bool autoDetectStoreHash=true, needStoreHash=true; 
};
template <class H=Hs,class E=Eq> using MapT = jstd::robin_hash_map<K,T,H,E,LP,Al<std::pair<const K,T>>>;
#endif
using M = MapT<>;
using It = typename M::iterator; using CIt = typename M::const_iterator;
using V = std::pair<const K,T>; using P = std::pair<K,T>;
struct Out { const void* elem; std::size_t end; std::size_t ins; std::size_t n; };
#define RS __restrict
#define OP extern "C"
template <class I> inline void put(M& m, I it, Out* o) { o->end = (it == m.end()); o->elem = std::addressof(it->first); }
template <class I> inline void putc(const M& m, I it, Out* o) { o->end = (it == m.end()); o->elem = std::addressof(it->first); }
template <class R> inline void putp(M& m, R r, Out* o) { o->ins = r.second; put(m, r.first, o); }
