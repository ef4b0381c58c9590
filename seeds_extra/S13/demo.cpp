#include <cstdio>
#include "jstd/hashmap/group15_flat_map.hpp"
int main() {
    for (int n = 1; n < 600; n += 3) {
        jstd::group15_flat_map<int, int> a;
        for (int i = 0; i < n; i++) a.emplace(i, i * 3 + 1);
        jstd::group15_flat_map<int, int> b(a);
        for (int i = 0; i < n; i++) { auto it = b.find(i); if (it == b.end() || it->second != i * 3 + 1) { std::printf("key %d of %d lost in the copy\n", i, n); return 1; } }
    }
    return 0;
}
