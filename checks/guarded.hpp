// doubles that end exactly at (or start exactly behind) an inaccessible page
#pragma once
#include <cstddef>
#include <stdexcept>
#include <sys/mman.h>
namespace tst {
class Guarded {
  char* map_{nullptr};
  std::size_t total_{0};
  double* first_{nullptr};
  std::size_t n_{0};

public:
  Guarded(std::size_t n, bool at_end) : n_(n) {
    const std::size_t page = 4096, bytes = (n * sizeof(double) + page - 1) / page * page;
    total_ = bytes + 2 * page;
    map_ = static_cast<char*>(mmap(nullptr, total_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (map_ == MAP_FAILED)
      throw std::runtime_error("mmap");
    if (bytes)
      mprotect(map_ + page, bytes, PROT_READ | PROT_WRITE);
    first_ = reinterpret_cast<double*>(map_ + page + (at_end ? bytes - n * sizeof(double) : 0));
  }
  Guarded(const Guarded&) = delete;
  ~Guarded() { munmap(map_, total_); }
  double* data() { return first_; }
  const double* data() const { return first_; }
  std::size_t size() const { return n_; }
  double* begin() { return first_; }
  double* end() { return first_ + n_; }
  double& operator[](std::size_t i) { return first_[i]; }
  double operator[](std::size_t i) const { return first_[i]; }
};
} // namespace tst
