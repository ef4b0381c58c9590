#include "ops.h"
// ---- lookups
OP void find_(M& RS m, const K& RS k, Out* RS o) { put(m, m.find(k), o); }
OP void cfind_(const M& RS m, const K& RS k, Out* RS o) { putc(m, m.find(k), o); }
OP void count_(const M& RS m, const K& RS k, Out* RS o) { o->n = m.count(k); }
OP void contains_(const M& RS m, const K& RS k, Out* RS o) { o->n = m.contains(k); }
#ifndef NO_AT
OP void at_(M& RS m, const K& RS k, Out* RS o) { o->elem = &m.at(k); }
OP void cat_(const M& RS m, const K& RS k, Out* RS o) { o->elem = &m.at(k); }
#endif
OP void size_(const M& RS m, Out* RS o) { o->n = m.size(); }
OP void empty_(const M& RS m, Out* RS o) { o->n = m.empty(); }
OP void capacity_(const M& RS m, Out* RS o) { o->n = m.capacity(); }
OP void bucket_count_(const M& RS m, Out* RS o) { o->n = m.bucket_count(); }
OP void load_factor_(const M& RS m, float* RS o) { *o = m.load_factor(); }
OP void get_mlf_(const M& RS m, float* RS o) { *o = m.max_load_factor(); }
OP void begin_(M& RS m, Out* RS o) { put(m, m.begin(), o); }
OP void cbegin_(const M& RS m, Out* RS o) { putc(m, m.begin(), o); }
OP void for_each_(const M& RS m) { for (auto& kv : m) vf_use(&kv.first); }
OP void for_each_m_(M& RS m) { for (auto& kv : m) vf_use(&kv.first); }
OP void deref_(M& RS m, It& RS it, Out* RS o) { o->elem = std::addressof(it->first); }
OP void cderef_(M& RS m, CIt& RS it, Out* RS o) { o->elem = std::addressof(it->first); }
OP void find_it_(M& RS m, const K& RS k, It* RS o) { new (o) It(m.find(k)); }
OP void find_cit_(const M& RS m, const K& RS k, CIt* RS o) { new (o) CIt(m.find(k)); }
OP void begin_it_(M& RS m, It* RS o) { new (o) It(m.begin()); }
OP void begin_cit_(const M& RS m, CIt* RS o) { new (o) CIt(m.begin()); }
OP void end_it_(M& RS m, It* RS o) { new (o) It(m.end()); }
OP void cend_it_(const M& RS m, CIt* RS o) { new (o) CIt(m.end()); }
OP void cnext_(const M& RS m, CIt* RS it) { ++*it; }
OP void postnext_(M& RS m, It* RS it, It* RS o) { new (o) It((*it)++); }
OP void iteq_(const M& RS m, const It& RS a, const It& RS b, Out* RS o) { o->n = (a == b); o->ins = (a != b); }
OP void erase_itr_(M& RS m, It& RS it, It* RS o) { new (o) It(m.erase(it)); }
OP void next_(M& RS m, It* RS it) { ++*it; }
// ---- insertion
OP void insert_c_(M& RS m, const V& RS v, Out* RS o) { putp(m, m.insert(v), o); }
OP void insert_m_(M& RS m, V& RS v, Out* RS o) { putp(m, m.insert(std::move(v)), o); }
OP void insert_ic_(M& RS m, const P& RS v, Out* RS o) { putp(m, m.insert(v), o); }
OP void insert_im_(M& RS m, P& RS v, Out* RS o) { putp(m, m.insert(std::move(v)), o); }
OP void insert_il_(M& RS m, P& RS v, Out* RS o) { putp(m, m.insert(v), o); }
OP void insert_hc_(M& RS m, const V& RS v, Out* RS o) { put(m, m.insert(m.cbegin(), v), o); }
OP void insert_him_(M& RS m, P& RS v, Out* RS o) { put(m, m.insert(m.cbegin(), std::move(v)), o); }
OP void emplace_cc_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { putp(m, m.emplace(k, t), o); }
OP void emplace_ll_(M& RS m, K& RS k, T& RS t, Out* RS o) { putp(m, m.emplace(k, t), o); }
OP void emplace_mm_(M& RS m, K& RS k, T& RS t, Out* RS o) { putp(m, m.emplace(std::move(k), std::move(t)), o); }
OP void emplace_kc_(M& RS m, const K& RS k, const TC& RS t, Out* RS o) { putp(m, m.emplace(k, t), o); }
OP void emplace_pl_(M& RS m, P& RS v, Out* RS o) { putp(m, m.emplace(v), o); }
OP void emplace_pm_(M& RS m, P& RS v, Out* RS o) { putp(m, m.emplace(std::move(v)), o); }
OP void emplace_pc_(M& RS m, const V& RS v, Out* RS o) { putp(m, m.emplace(v), o); }
OP void emplace_pw_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { putp(m, m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(t)), o); }
OP void emplace_pw2_(M& RS m, const K& RS k, const TC& RS t, const TC2& RS t2, Out* RS o) { putp(m, m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(t, t2)), o); }
OP void emplace_h_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { put(m, m.emplace_hint(m.cbegin(), k, t), o); }
OP void try_c_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { putp(m, m.try_emplace(k, t), o); }
OP void try_c2_(M& RS m, const K& RS k, const TC& RS t, const TC2& RS t2, Out* RS o) { putp(m, m.try_emplace(k, t, t2), o); }
OP void try_m_(M& RS m, K& RS k, T& RS t, Out* RS o) { putp(m, m.try_emplace(std::move(k), std::move(t)), o); }
OP void try_l_(M& RS m, K& RS k, T& RS t, Out* RS o) { putp(m, m.try_emplace(k, t), o); }
OP void try_0_(M& RS m, const K& RS k, Out* RS o) { putp(m, m.try_emplace(k), o); }
OP void try_h_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { put(m, m.try_emplace(m.cbegin(), k, t), o); }
OP void index_c_(M& RS m, const K& RS k, Out* RS o) { o->elem = &m[k]; }
OP void index_m_(M& RS m, K& RS k, Out* RS o) { o->elem = &m[std::move(k)]; }
// ---- insert_or_assign
OP void ioa_cc_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { putp(m, m.insert_or_assign(k, t), o); }
OP void ioa_cm_(M& RS m, const K& RS k, T& RS t, Out* RS o) { putp(m, m.insert_or_assign(k, std::move(t)), o); }
OP void ioa_ll_(M& RS m, K& RS k, T& RS t, Out* RS o) { putp(m, m.insert_or_assign(k, t), o); }
OP void ioa_mm_(M& RS m, K& RS k, T& RS t, Out* RS o) { putp(m, m.insert_or_assign(std::move(k), std::move(t)), o); }
OP void ioa_h_(M& RS m, const K& RS k, const T& RS t, Out* RS o) { put(m, m.insert_or_assign(m.cbegin(), k, t), o); }
// ---- erasure
OP void erase_k_(M& RS m, const K& RS k, Out* RS o) { o->n = m.erase(k); }
OP void erase_it_(M& RS m, It& RS it) { m.erase(it); }
OP void erase_cit_(M& RS m, CIt& RS it) { m.erase(it); }
OP void clear_(M& RS m) { m.clear(); }
OP void clear_d_(M& RS m) { m.clear(true); }
// ---- capacity
OP void reserve_(M& RS m, std::size_t n) { m.reserve(n); }
OP void rehash_(M& RS m, std::size_t n) { m.rehash(n); }
OP void shrink_(M& RS m) { m.shrink_to_fit(); }
OP void set_mlf_(M& RS m, float f) { m.max_load_factor(f); }
// ---- whole-container
OP void ctor_(M* RS m) { new (m) M(); }
OP void ctor_n_(M* RS m, std::size_t n) { new (m) M(n); }
OP void dtor_(M* RS m) { m->~M(); }
OP void move_ctor_(M* RS m, M& RS b) { new (m) M(std::move(b)); }
OP void move_asn_(M& RS m, M& RS b) { m = std::move(b); }
OP void swap_(M& RS m, M& RS b) { m.swap(b); }
OP void fswap_(M& RS m, M& RS b) { using std::swap; swap(m, b); }
