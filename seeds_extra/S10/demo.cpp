#include <cstdio>
#include <memory>
#include "jstd/hashmap/robin_hash_map.h"
struct H { static unsigned long long h; std::size_t operator()(int) const { return h; } };
unsigned long long H::h = 0;
static int live = 0;
struct V { int x; V(int x = 0) : x(x) { live++; } V(const V& o) : x(o.x) { live++; } V(V&& o) noexcept : x(o.x) { live++; } V& operator=(const V&) = default; V& operator=(V&&) = default; ~V() { live--; } };
int main() {
    for (int n = 0; n < 400; n++) {
        H::h = (unsigned long long)n * 0x9E3779B97F4A7C15ull + n;
        { jstd::robin_hash_map<int, V, H> m; for (int i = 0; i < 4; i++) m.emplace(i, V(i)); }
        if (live != 0) { std::printf("%d elements leaked\n", live); return 1; }
    }
    return 0;
}
