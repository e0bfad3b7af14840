#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C10";
  m.bounds = "n in {1,...,7}; every stream of depth 8-9 over values {0,1,2} (ties included) and depth 6 over 5 values; n in {16,101} over periodic streams; n from 8 to 257 over EVERY flat stream with one or two (n > 33: one) deviating messages and every stream with one turning point; time origins up to 2^63; two instances with equal and different parameters fed alternately";
  m.parse(argc, argv);
  for (int n = 1; n <= 7; n++) {
    auto d = zoo::dPeak(n);
    m.add(d.name + " ties", stream(d, 0, {1}, {0, 1, 2}, n < 6 ? 9 : 10));
    m.add(d.name + " signs", stream(d, 2, {1}, {-3, -1, 0, 0.5, 2}, n < 5 ? 6 : 7));
    m.add(d.name + " times", stream(d, 1, {1, 1000}, {-1, 1}, 7));
    m.add(d.name + " two", stream(d, 1, {1}, {-1, 1}, 15));
    for (auto b : bases()) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2}, {-1, 0, 1}, n < 5 ? 5 : 7), n >= 5);
    m.add(d.name + " deep", stream(d, 0, {1}, {0, 1, 2}, 13), true);
  }
  for (int n : {16, 101}) for (int p : {1, 2, 3, 4, 5}) m.add("PeakDetector" + to_string(n) + " period " + to_string(p), periodic(zoo::dPeak(n), 0, {1}, {0, 1, -5}, p, 260));
  for (int n : {8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65, 101, 128, 257}) { auto d = zoo::dPeak(n); m.add(d.name + " long window", bumps(d, 0, {-1, 1, 2}, n + 4, n > 33 ? 1 : 2)); m.add(d.name + " rising", [d, n](Ctx& c) { Lock l(d); int at = c.choose(n + 4); double up = c.pick(vector<double>{1, -1}); for (int k = 0; k < n + 4; k++) l.send(c, false, 1, M{1ull + k, (k <= at ? k : 2 * at - k) * up}); }); }
  // two instances at once
  sideBySide(m, {zoo::dPeak(1), zoo::dPeak(2), zoo::dPeak(3)}, {0, 1}, 7, 9);
  return m.run();
}
