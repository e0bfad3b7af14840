#include "common.h"
using namespace hx;
int main(int argc, char** argv) {
  mc::Main m; m.property = "C03";
  m.bounds = "EVERY Linear of 2..6 coefficients over {0,1,-0.5,3} and of 7..11 over {1,2}; 8 two-stream operators: every history of depth 5 over increments {1,2} and values {-2,0,0.5,1} (and {0.4999,0.5,0.5001}, NaN, huge values); Linear with 2,3,4,10,12 coefficients; division by zero at any subset of timestamps; long periodic runs; values scaled by 1e-13 and 1e12 (rounding judged relative to the scale); two instances with equal and different parameters fed alternately";
  m.assumptions = {"each input port receives strictly increasing times"};
  m.parse(argc, argv);
  vector<Def> bin; for (auto& t : zoo::binaryTypes()) bin.push_back(zoo::dPlain(t));
  for (auto& d : bin) {
    m.add(d.name + " values", anyOrder(d, 1, {1, 2}, {-2, 0, 0.5, 1}, 4));
    m.add(d.name + " values at 2^63", anyOrder(d, (1ull << 63) - 2, {1, 2}, {-1, 0, 3}, 4));
    m.add(d.name + " order", anyOrder(d, 0, {1, 2}, {0.5}, 7));
    m.add(d.name + " deep values", anyOrder(d, 1, {1, 2}, {-2, 0, 1}, 6), true);
    m.add(d.name + " deep order", anyOrder(d, 0, {1, 2, 3}, {0.5}, 8), true);
    m.add(d.name + " special", [d](Ctx& c) {
      static const vector<double> sp0 = {0, -0.0, 1, -1, 0.4999999, 0.5, 0.5000001, 1e300, -1e300, 1e-300, INFINITY, 3, 2};
      auto sp = sp0; if (d.type != "And" && d.type != "Or") sp.push_back(NAN);
      Lock l(d); double a = c.pick(sp), b = c.pick(sp); int first = c.choose(2);
      l.send(c, false, 1 + first, M{5, first ? b : a}); l.send(c, false, 2 - first, M{5, first ? a : b});
      l.send(c, false, 2, M{6, 4}); l.send(c, false, 1, M{6, 8}); l.send(c, false, 1, M{7, 2}); l.send(c, false, 2, M{7, 9});
    });
    for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), scaled(0, anyOrder(d, 1, {1, 2}, times(s, {-2, 0.5, 3}), 4)));
    // every subset of eight timestamps carries a value without a result; the others must be unaffected
    m.add(d.name + " gaps", [d](Ctx& c) {
      Lock l(d); int mask = c.choose(256), ord = c.choose(3);
      for (int k = 0; k < 8; k++) {
        double a = (mask >> k & 1) ? 1 : 5, b = (mask >> k & 1) ? 0 : 4; if (d.type == "GreaterThanStream" && (mask >> k & 1)) b = 1; 
        if (ord == 0 || (ord == 2 && k % 2)) { l.send(c, false, 1, M{10ull + k, a}); l.send(c, false, 2, M{10ull + k, b}); }
        else { l.send(c, false, 2, M{10ull + k, b}); l.send(c, false, 1, M{10ull + k, a}); }
      }
    });
    m.add(d.name + " lag", [d](Ctx& c) {  // one stream runs far ahead of the other
      Lock l(d); int lead = 1 + c.choose(2), n = c.pick(vector<int>{1, 10, 300}), step = 1 + c.choose(3);
      for (int k = 0; k < n; k++) l.send(c, false, lead, M{100ull + k, (double)(k % 3)});
      for (int k = 0; k < n; k += step) l.send(c, false, 3 - lead, M{100ull + k, (double)(k % 2)});
    });
  }
  for (auto d : {zoo::dLinear({2, -1}), zoo::dLinear({1, 2, 4}), zoo::dLinear({0.5, 0, -3, 8})}) {
    m.add(d.name + " values", anyOrder(d, 1, {1, 2}, {-2, 0.5}, d.nin == 2 ? 6 : 5));
    m.add(d.name + " order", anyOrder(d, 0, {1, 2}, {0.5}, d.nin == 2 ? 8 : d.nin == 3 ? 7 : 6));
    for (double s : {1e-13, 1e12}) m.add(d.name + " values times " + ref::str(s), scaled(s, anyOrder(d, 1, {1}, times(s, {-2, 0.5}), d.nin == 2 ? 6 : 5)));
    m.add(d.name + " deep", anyOrder(d, 0, {1, 2}, {0.5}, d.nin == 2 ? 9 : d.nin == 3 ? 8 : 7), true);
  }
  for (int n : {9, 10, 11, 12, 25, 101}) {
    vector<double> co; for (int i = 0; i < n; i++) co.push_back(i == 0 ? 3 : i % 2 ? i * 10 + 0.5 : -i);
    auto d = zoo::dLinear(co);
    m.add("Linear" + to_string(n), [d, n](Ctx& c) {
      Lock l(d); int rot = c.choose(n), rev = c.choose(2), mode = c.choose(3), hot = c.choose(n);
      for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) {
        int p = ((rev ? n - 1 - i : i) + rot) % n + 1;
        l.send(c, false, p, M{7ull + r, mode == 0 ? (p - 1 == hot ? 1.0 : 0.0) : mode == 1 ? p : (p * 7 % 13 - 6.0)});
      }
    }, n > 30);
  }
  m.add("every Linear", filters([](vector<double> v) { return zoo::dLinear(v); }, {0, 1, -0.5, 3}, 2, 6)); m.add("every longer Linear", filters([](vector<double> v) { return zoo::dLinear(v); }, {1, 2}, 7, 11));
  // two instances at once
  sideBySide(m, bin, {-2, 3}, 5, 6); sideBySide(m, {zoo::dLinear({2, -1}), zoo::dLinear({1, 2, 4})}, {-2, 3}, 5);
  return m.run();
}
