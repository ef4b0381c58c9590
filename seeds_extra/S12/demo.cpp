#include <cstdio>
#include <string>
#include <functional>
#include "jstd/hashmap/group15_flat_map.hpp"
static int copies = 0;
struct K { int v; explicit K(int v) : v(v) {} K(const K & o) : v(o.v) { copies++; } K(K && o) noexcept : v(o.v) {} K & operator=(const K & o) = default; K & operator=(K && o) = default; bool operator==(const K & o) const { return v == o.v; } };
struct H { std::size_t operator()(const K & k) const { return std::hash<int>()(k.v); } };
int main() {
    jstd::group15_flat_map<K, std::string, H> m;
    for (int i = 0; i < 5; i++) { K k(i); m.emplace(std::move(k), (std::size_t)3, 'x'); }
    if (copies || m.size() != 5) { std::printf("%d copies\n", copies); return 1; }
    return 0;
}
