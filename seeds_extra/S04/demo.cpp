#include <cstdio>
#include <cmath>
#include "jstd/hashmap/group16_flat_map.hpp"
int main() {
    jstd::group16_flat_map<int, int> a, b;
    for (int i = 0; i < 300; i++) a.emplace(i, i);
    for (int i = 0; i < 20; i++) b.emplace(i, -i);
    a.max_load_factor(0.5f);
    float fa = a.max_load_factor(), fb = b.max_load_factor();
    a.swap(b);
    if (std::fabs(a.max_load_factor() - fb) > 0.01 || std::fabs(b.max_load_factor() - fa) > 0.01 || a.size() != 20 || b.size() != 300) {
        std::printf("after swap: %f %f, expected %f %f\n", a.max_load_factor(), b.max_load_factor(), fb, fa); return 1; }
    return 0;
}
