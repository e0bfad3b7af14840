#include "resamp.h"
int main(int argc, char** argv) {
  mc::Main m; m.property = "C18";
  m.bounds = "CosineResampler and HermiteResampler, step in {1,2,3,5,10,1000,2^33}; every stream of depth 6-7 with gaps from {1,d/2,d-1,d,d+1,2d,2d+1,5d+1}; depth 5 with gaps of 130, 257, 1000 and 70000 steps; depth 13 with gaps {d/5,d/3}; periodic streams (period<=3) of 300 messages; time origins 0..2^63; two resamplers fed alternately";
  m.assumptions = {"messages arrive in strictly increasing time order"};
  m.parse(argc, argv); hx::resampConfigs(m, hx::TIMES); return m.run();
}
