#include "ops.h"
// Operations on whole containers, with hash, equality and allocator objects that have a state of their own.
OP void ctor_(M* RS m) { new (m) M(); }
OP void ctor_p_(M* RS m, std::size_t n, const Hs& RS h, const Eq& RS e, const Al<V>& RS a) { new (m) M(n, h, e, a); }
OP void move_ctor_(M* RS m, M& RS b) { new (m) M(std::move(b)); }
OP void move_asn_(M& RS m, M& RS b) { m = std::move(b); }
OP void swap_(M& RS m, M& RS b) { m.swap(b); }
OP void fswap_(M& RS m, M& RS b) { using std::swap; swap(m, b); }
OP void copy_ctor_(M* RS m, const M& RS b) { new (m) M(b); }
OP void copy_asn_(M& RS m, const M& RS b) { m = b; }
OP std::size_t get_hash_(const M& RS m) { return m.hash_function().st; }
OP std::size_t get_eq_(const M& RS m) { return m.key_eq().st; }
OP std::size_t get_alloc_(const M& RS m) { return m.get_allocator().st; }
OP std::size_t get_size_(const M& RS m) { return m.size(); }
OP float get_mlf_(const M& RS m) { return m.max_load_factor(); }
OP std::size_t sizeof_(const M& RS m) { return sizeof(M); }
OP std::size_t get_cap_(const M& RS m) { return m.bucket_count(); }
OP std::size_t get_esz_(const M& RS m) { return sizeof(typename M::value_type); }
