// C31: solver runs in rank 3
#include "C31.hpp"
namespace sr {
Result_ Run3(const Setup& s, const Data& init, const RunConfig& k) { return RunRank<3>(s, init, k); }
} // namespace sr
