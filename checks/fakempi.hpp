// MPI entry points of the code under test, replaced by a stand-in inside this
// process. Outside of Run it is a single rank that pretends to talk to other
// ranks, whose contributions to reductions are scripted. Run executes a
// function once per rank, each in its own thread, with real collectives.
#pragma once
#include <functional>
#include <mpi.h>
#include <vector>
namespace fakempi {
struct World {
  std::vector<double> others; // what every other rank contributes to reductions
  long reductions{0};
};
World& world();
/// Runs fn(rank) for ranks 0..n-1. Rethrows the first exception of any rank.
/// Throws if the ranks disagree about their collectives.
void Run(int n, const std::function<void(int)>& fn);
} // namespace fakempi
