// An embedded Python interpreter for options of the code under test.
#pragma once
#include <boost/log/core.hpp>
#include <pybind11/embed.h>
namespace pyembed {
inline void Start() {
  static pybind11::scoped_interpreter* guard = new pybind11::scoped_interpreter(false);
  (void)guard;
  boost::log::core::get()->set_logging_enabled(false);
}
} // namespace pyembed
