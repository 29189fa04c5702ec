/* lengths at which an implementation changes its behaviour: around every power of two and ten */
#pragma once
#include <algorithm>
#include <cstddef>
#include <vector>
namespace mc {
inline const std::vector<size_t> &sizes(bool thorough) {
  static std::vector<size_t> v[2];
  auto &r = v[thorough];
  if (r.empty()) {
    for (int k = 6; k <= (thorough ? 20 : 17); k++) for (int d = -2; d <= 2; d++) r.push_back(((size_t)1 << k) + d);
    for (size_t k = 100; k <= (thorough ? 1000000u : 100000u); k *= 10) for (int d = -1; d <= 1; d++) r.push_back(k + d);
    for (size_t k : {72, 76, 144, 152, 320, 500, 512 * 3, 3000, 4080, 5000, 12000, 24576, 30000, 49152, 98304}) r.push_back(k);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  }
  return r;
}
}
