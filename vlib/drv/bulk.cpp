#include "ops.h"
// Operations that are defined by repeating another operation.
OP void copy_ctor_(M* RS m, const M& RS b) { new (m) M(b); }
OP void copy_asn_(M& RS m, const M& RS b) { m = b; }
OP void insert_r_(M& RS m, const V* RS f, const V* RS l) { m.insert(f, l); }
OP void insert_rp_(M& RS m, const P* RS f, const P* RS l) { m.insert(f, l); }
OP void ctor_r_(M* RS m, const V* RS f, const V* RS l) { new (m) M(f, l); }
OP void erase_r_(M& RS m, CIt& RS f, CIt& RS l) { m.erase(f, l); }
