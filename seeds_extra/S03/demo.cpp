#include <cstdio>
#include <cstdlib>
#include <memory>
#include "jstd/hashmap/group16_flat_map.hpp"
static long live = 0;
template <class T> struct A { using value_type = T; A() noexcept {} template <class U> A(const A<U>&) noexcept {}
  T* allocate(std::size_t n) { live++; return (T*)std::malloc(n * sizeof(T) + 64); } void deallocate(T* p, std::size_t) noexcept { live--; std::free(p); }
  template <class U> bool operator==(const A<U>&) const { return true; } template <class U> bool operator!=(const A<U>&) const { return false; } };
int main() {
    {
        jstd::group16_flat_map<int, int, std::hash<int>, std::equal_to<int>, A<std::pair<const int, int>>> m;
        for (int i = 0; i < 10; i++) m.emplace(i, i);
        for (int i = 0; i < 10; i++) m.erase(i);
        m.reserve(1000);
    }
    if (live != 0) { std::printf("%ld blocks leaked\n", live); return 1; }
    return 0;
}
