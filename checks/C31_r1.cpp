// C31: solver runs in rank 1
#include "C31.hpp"
namespace sr {
Result_ Run1(const Setup& s, const Data& init, const RunConfig& k) { return RunRank<1>(s, init, k); }
} // namespace sr
