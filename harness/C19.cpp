#include "resamp.h"
int main(int argc, char** argv) {
  mc::Main m; m.property = "C19";
  m.bounds = "as C18, with values from {-1,0,4} and message-identifying values; every emitted value compared with the interpolation formula recomputed in relative time; tolerance 1e-7 relative; two resamplers fed alternately";
  m.assumptions = {"messages arrive in strictly increasing time order"};
  m.parse(argc, argv); hx::resampConfigs(m, hx::VALUES); return m.run();
}
