#include <string>
#include <cstdio>
#include "jstd/hashmap/group15_flat_map.hpp"
int main() {
    jstd::group15_flat_map<int, std::string> m;
    m.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple("first"));
    auto r = m.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple("second"));
    if (r.second || r.first->second != "first" || m.at(1) != "first") { std::printf("existing value became %s\n", m.at(1).c_str()); return 1; }
    return 0;
}
