#include <cstdio>
#include "jstd/hashmap/robin_hash_map.h"
int main() {
    jstd::robin_hash_map<int, int> m;
    for (int i = 0; i < 10; i++) m.emplace(i, i);
    m.clear();
    if (!m.empty() || m.size() != 0) { std::printf("size %zu after clear\n", m.size()); return 1; }
    return 0;
}
