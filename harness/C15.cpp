#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C15";
  m.bounds = "dt in {1,2,3,1000,2^31,2^33,2^40}, times in {-1000,-3,-1,0,1,2,1000}; times around the limits of 8, 16, 24 and 32 bits with dt 1, 3 and 2^31; every stream of depth 4 (increments 1,2,1000), time origins from 0 to 2^63 and around the clamping point; two instances with equal and different parameters fed alternately";
  m.assumptions = {"time + shift fits in 64 bits and |dt*times| < 2^63"};
  m.parse(argc, argv);
  for (uint64_t dt : {1ull, 2ull, 3ull, 1000ull, 1ull << 31, 1ull << 33, 1ull << 40}) for (int times : {-1000, -3, -1, 0, 1, 2, 1000}) {
    auto d = zoo::dShift(dt, times); auto B = bases();
    uint64_t mag = dt * (uint64_t)std::abs(times);
    if (times < 0) { B.push_back(mag > 3 ? mag - 3 : 0); B.push_back(mag); B.push_back(mag + 1); }
    std::set<uint64_t> S(B.begin(), B.end());
    for (auto b : S) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2, 1000}, {-1, 2.5}, 4));
    m.add(d.name + " deep", stream(d, 0, {1, dt, mag + 1}, {-1, 2.5}, 6), true);
  }
  for (uint64_t dt : {1ull, 3ull, 1ull << 31}) for (int times : {-128, 127, 128, -255, 255, 256, -32769, 32768, -65536, 65536, -65537, 100000, -1000003, 1 << 24, -(1 << 24) - 1, INT32_MAX, -INT32_MAX, INT32_MIN}) {
    auto d = zoo::dShift(dt, times); uint64_t mag = dt * (uint64_t)std::llabs((long long)times); for (uint64_t b : {(uint64_t)5, times < 0 ? mag - 2 : mag, (uint64_t)1 << 62}) m.add(d.name + " many steps " + baseName(b), stream(d, b, {1, 2, 1000}, {-1, 2.5}, 4));
  }
  // two instances at once
  sideBySide(m, {zoo::dShift(3, 1), zoo::dShift(3, -1), zoo::dShift(1, 4)}, {1, 2}, 6, 8);
  return m.run();
}
