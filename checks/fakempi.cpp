#include "fakempi.hpp"
#include <algorithm>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
namespace {
std::size_t SizeOf(MPI_Datatype t) {
  if (t == MPI_DOUBLE || t == MPI_LONG_LONG || t == MPI_LONG || t == MPI_LONG_LONG_INT || t == MPI_UINT64_T || t == MPI_INT64_T ||
      t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG)
    return 8;
  if (t == MPI_INT || t == MPI_FLOAT || t == MPI_UNSIGNED || t == MPI_INT32_T || t == MPI_UINT32_T)
    return 4;
  return 1;
}
// what a rank brings to a collective
struct Part {
  std::string what;
  const void* in{nullptr};
  void* out{nullptr};
  std::size_t n{0};
  MPI_Datatype type{};
  MPI_Op op{};
  const int* counts{nullptr};
  const int* displ{nullptr};
};
struct Team {
  std::mutex m;
  std::condition_variable cv;
  int size{1};
  int arrived{0};
  long round{0};
  bool broken{false};
  std::vector<Part> parts;
};
Team* team = nullptr;
thread_local int my_rank = -1; // negative outside of Run

bool InTeam() { return team != nullptr && my_rank >= 0; }

// the last rank to arrive executes the collective for all
void Collective(const Part& p, const std::function<void(std::vector<Part>&)>& act) {
  std::unique_lock<std::mutex> lock(team->m);
  if (team->broken)
    throw std::runtime_error("another rank has left a collective operation");
  team->parts[static_cast<std::size_t>(my_rank)] = p;
  const long round = team->round;
  if (++team->arrived == team->size) {
    for (const Part& q : team->parts)
      if (q.what != p.what) {
        team->broken = true;
        team->cv.notify_all();
        throw std::runtime_error("ranks call different collectives: " + p.what + " and " + q.what);
      }
    act(team->parts);
    team->arrived = 0;
    ++team->round;
    team->cv.notify_all();
    return;
  }
  team->cv.wait(lock, [&] { return team->round != round || team->broken; });
  if (team->round == round)
    throw std::runtime_error("another rank has left a collective operation");
}
template <typename T> void ReduceInto(T* x, const T* y, std::size_t n, MPI_Op op) {
  for (std::size_t i = 0; i < n; ++i) {
    if (op == MPI_MIN)
      x[i] = std::min(x[i], y[i]);
    else if (op == MPI_MAX)
      x[i] = std::max(x[i], y[i]);
    else if (op == MPI_SUM)
      x[i] += y[i];
    else
      std::abort();
  }
}
void Reduce(std::vector<char>& acc, const void* y, std::size_t n, MPI_Datatype t, MPI_Op op) {
  if (t == MPI_DOUBLE)
    ReduceInto(reinterpret_cast<double*>(acc.data()), static_cast<const double*>(y), n, op);
  else if (t == MPI_INT)
    ReduceInto(reinterpret_cast<int*>(acc.data()), static_cast<const int*>(y), n, op);
  else if (SizeOf(t) == 8)
    ReduceInto(reinterpret_cast<long*>(acc.data()), static_cast<const long*>(y), n, op);
  else
    std::abort();
}
} // namespace
namespace fakempi {
World& world() {
  static World w;
  return w;
}
void Run(int n, const std::function<void(int)>& fn) {
  Team t;
  t.size = n;
  t.parts.resize(static_cast<std::size_t>(n));
  team = &t;
  std::vector<std::exception_ptr> errors(static_cast<std::size_t>(n));
  std::exception_ptr first{};
  std::vector<std::thread> threads;
  for (int r = 0; r < n; ++r)
    threads.emplace_back([&, r] {
      my_rank = r;
      try {
        fn(r);
      } catch (...) {
        std::lock_guard<std::mutex> lock(t.m);
        if (!first)
          first = std::current_exception();
      }
      std::lock_guard<std::mutex> lock(t.m);
      t.broken = true; // nobody may wait for this rank any more
      t.cv.notify_all();
    });
  for (auto& x : threads)
    x.join();
  team = nullptr;
  if (first)
    std::rethrow_exception(first);
}
} // namespace fakempi
extern "C" {
int MPI_Comm_size(MPI_Comm, int* n) {
  *n = InTeam() ? team->size : 1;
  return 0;
}
int MPI_Comm_rank(MPI_Comm, int* r) {
  *r = InTeam() ? my_rank : 0;
  return 0;
}
int MPI_Barrier(MPI_Comm) {
  if (InTeam())
    Collective(Part{"Barrier"}, [](auto&) {});
  return 0;
}
int MPI_Bcast(void* data, int n, MPI_Datatype t, int root, MPI_Comm) {
  if (InTeam()) {
    const std::size_t bytes = SizeOf(t) * static_cast<std::size_t>(n);
    Part p{"Bcast from " + std::to_string(root) + " of " + std::to_string(bytes) + " bytes"};
    p.out = data;
    Collective(p, [&](std::vector<Part>& parts) {
      for (std::size_t r = 0; r < parts.size(); ++r)
        if (static_cast<int>(r) != root && bytes > 0)
          std::memcpy(parts[r].out, parts[static_cast<std::size_t>(root)].out, bytes);
    });
  }
  return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  if (InTeam()) {
    const std::size_t bytes = SizeOf(t) * static_cast<std::size_t>(n);
    Part p{"Allreduce of " + std::to_string(bytes) + " bytes"};
    p.in = in == MPI_IN_PLACE ? out : in;
    p.out = out;
    Collective(p, [&](std::vector<Part>& parts) {
      std::vector<char> acc(bytes);
      std::memcpy(acc.data(), parts[0].in, bytes);
      for (std::size_t r = 1; r < parts.size(); ++r)
        Reduce(acc, parts[r].in, static_cast<std::size_t>(n), t, op);
      for (auto& q : parts)
        std::memcpy(q.out, acc.data(), bytes);
    });
    return 0;
  }
  ++fakempi::world().reductions;
  if (in != MPI_IN_PLACE)
    std::memcpy(out, in, SizeOf(t) * static_cast<std::size_t>(n));
  if (t == MPI_DOUBLE) {
    double* x = static_cast<double*>(out);
    for (int i = 0; i < n; ++i)
      for (double o : fakempi::world().others) {
        if (op == MPI_MIN)
          x[i] = std::min(x[i], o);
        else if (op == MPI_MAX)
          x[i] = std::max(x[i], o);
        else if (op == MPI_SUM)
          x[i] += o;
        else
          std::abort();
      }
  }
  return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
  const std::size_t bytes = SizeOf(t) * static_cast<std::size_t>(n);
  if (InTeam()) {
    Part p{"Reduce to " + std::to_string(root) + " of " + std::to_string(bytes) + " bytes"};
    p.in = in == MPI_IN_PLACE ? out : in;
    p.out = out;
    Collective(p, [&](std::vector<Part>& parts) {
      std::vector<char> acc(bytes);
      std::memcpy(acc.data(), parts[0].in, bytes);
      for (std::size_t r = 1; r < parts.size(); ++r)
        Reduce(acc, parts[r].in, static_cast<std::size_t>(n), t, op);
      std::memcpy(parts[static_cast<std::size_t>(root)].out, acc.data(), bytes);
    });
    return 0;
  }
  if (in != MPI_IN_PLACE)
    std::memcpy(out, in, bytes);
  return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, int root, MPI_Comm) {
  const std::size_t bytes = SizeOf(t) * static_cast<std::size_t>(n);
  if (InTeam()) {
    Part p{"Gather to " + std::to_string(root) + " of " + std::to_string(bytes) + " bytes"};
    p.in = in;
    p.out = out;
    Collective(p, [&](std::vector<Part>& parts) {
      char* to = static_cast<char*>(parts[static_cast<std::size_t>(root)].out);
      for (std::size_t r = 0; r < parts.size(); ++r)
        if (bytes > 0 && parts[r].in != MPI_IN_PLACE)
          std::memcpy(to + r * bytes, parts[r].in, bytes);
    });
    return 0;
  }
  std::memcpy(out, in, bytes);
  return 0;
}
int MPI_Gatherv(const void* in, int n, MPI_Datatype t, void* out, const int* counts, const int* displ, MPI_Datatype, int root, MPI_Comm) {
  const std::size_t bytes = SizeOf(t) * static_cast<std::size_t>(n);
  if (InTeam()) {
    Part p{"Gatherv to " + std::to_string(root)};
    p.in = in;
    p.out = out;
    p.n = static_cast<std::size_t>(n);
    p.counts = counts;
    p.displ = displ;
    Collective(p, [&](std::vector<Part>& parts) {
      const Part& to = parts[static_cast<std::size_t>(root)];
      for (std::size_t r = 0; r < parts.size(); ++r) {
        if (to.counts[r] < static_cast<int>(parts[r].n))
          throw std::runtime_error("Gatherv: a rank sends more than the root expects");
        if (parts[r].n > 0)
          std::memcpy(static_cast<char*>(to.out) + static_cast<std::size_t>(to.displ[r]) * SizeOf(t), parts[r].in, parts[r].n * SizeOf(t));
      }
    });
    return 0;
  }
  if (bytes > 0)
    std::memcpy(static_cast<char*>(out) + static_cast<std::size_t>(displ ? displ[0] : 0) * SizeOf(t), in, bytes);
  return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm) {
  const std::size_t bytes = SizeOf(t) * static_cast<std::size_t>(n);
  if (InTeam()) {
    Part p{"Allgather of " + std::to_string(bytes) + " bytes"};
    p.in = in;
    p.out = out;
    Collective(p, [&](std::vector<Part>& parts) {
      for (auto& q : parts)
        for (std::size_t r = 0; r < parts.size(); ++r)
          if (bytes > 0)
            std::memcpy(static_cast<char*>(q.out) + r * bytes, parts[r].in, bytes);
    });
    return 0;
  }
  std::memcpy(out, in, bytes);
  return 0;
}
}
