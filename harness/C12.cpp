#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C12";
  m.bounds = "n in {1,2,3,4,6,14}, and 8 to 100 over EVERY flat stream with one or two (n > 33: one) deviating messages; every stream of depth 7-9 over values {1,2,4} / {-1,0,1,5} (all-gain, all-loss and flat streams included; also scaled by 1e-13 and 1e12); periodic streams of 400 messages; two instances with equal and different parameters fed alternately";
  m.parse(argc, argv);
  for (int n : {1, 2, 3, 4, 6}) {
    auto d = zoo::dRSI(n);
    m.add(d.name + " depth", stream(d, 0, {1}, {1, 2, 4}, n < 4 ? 9 : 10));
    m.add(d.name + " signs", stream(d, 3, {1}, {-1, 0, 1, 5}, n < 6 ? 7 : 8));
    m.add(d.name + " times", stream(d, 3, {1, 60}, {1, 3}, n < 6 ? 7 : 8));
    for (auto b : bases()) m.add(d.name + " " + baseName(b), stream(d, b, {1, 2}, {1, 2, 0.5}, n < 4 ? 5 : 7), n > 3);
    for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), stream(d, 0, {1}, times(s, {1, 2, 4}), n < 4 ? 8 : 9));
    m.add(d.name + " deep", stream(d, 0, {1}, {1, 2, 4}, 13), true);
  }
  for (int n : {2, 5, 14}) for (int p : {1, 2, 3, 4}) m.add("RSI" + to_string(n) + " period " + to_string(p), periodic(zoo::dRSI(n), 0, {1}, {10, 11.5, 9, 10.25}, p, 400));
  m.add("RSI14 deep", stream(zoo::dRSI(14), 0, {1}, {1, 2}, 19), true);
  for (int n : {8, 9, 15, 16, 17, 20, 21, 31, 32, 33, 50, 100}) { m.add("RSI" + to_string(n) + " long window", bumps(zoo::dRSI(n), 4, {2, 7}, n + 6, n > 33 ? 1 : 2)); for (int p : {2, 3}) m.add("RSI" + to_string(n) + " long window, period " + to_string(p), periodic(zoo::dRSI(n), 0, {1}, {10, 11.5, 9}, p, 3 * n + 10)); }
  // two instances at once
  sideBySide(m, {zoo::dRSI(1), zoo::dRSI(2), zoo::dRSI(3)}, {1, 4}, 8, 9);
  return m.run();
}
