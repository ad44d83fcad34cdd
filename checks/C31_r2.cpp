// C31: solver runs in rank 2
#include "C31.hpp"
namespace sr {
Result_ Run2(const Setup& s, const Data& init, const RunConfig& k) { return RunRank<2>(s, init, k); }
} // namespace sr
