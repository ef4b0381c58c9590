#include <cstdio>
#include <vector>
#include "jstd/hashmap/robin_hash_map.h"
struct H { static unsigned long long h; std::size_t operator()(int k) const { return (std::size_t)k < 1000 ? h + 0 * k : 0x1234567ull * k; } };
unsigned long long H::h = 0;
int main() {
    // try hash values until some home is near the end of the table, whatever the index function is
    for (int n = 0; n < 400; n++) {
        H::h = (unsigned long long)n * 0x9E3779B97F4A7C15ull + n;
        jstd::robin_hash_map<int, int, H> m;
        for (int i = 0; i < 4; i++) m.emplace(i, i);
        for (int e = 0; e < 3; e++) {
            m.erase(e);
            for (int i = e + 1; i < 4; i++) if (!m.contains(i)) { std::printf("key %d lost after erasing %d (hash %d)\n", i, e, n); return 1; }
        }
    }
    return 0;
}
