// C27: configuration values arrive in the program as written in the input
#include "../lib/pbt.hpp"
#include "fakempi.hpp"
#include "pyembed.hpp"

#include "fub/core/type_traits.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/ext/CopyInputFile.hpp"
#include "fub/ext/Log.hpp"
#include "fub/ext/Mpi.hpp"
#include "fub/ext/ProgramOptions.hpp"

#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

namespace fub { // defined in the source file, like ParseCommandLine uses it
std::map<std::string, pybind11::object> ParsePythonScript(const boost::filesystem::path& path, MPI_Comm comm,
                                                          const std::vector<std::string>& args);
}

namespace {
using namespace fub;
namespace py = pybind11;

struct Value {
  enum Kind { None, Bool, Int, Float, Str, List, Tuple, Dict } kind{None};
  bool b{false};
  long i{0};
  double d{0};
  std::string s;
  std::vector<Value> l;
  std::vector<std::pair<std::string, Value>> m;
};
bool Same(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }

std::string DrawString(pbt::Case& c) {
  static const std::vector<std::string> parts{"a", "Zz", "_", "0", " ", "-", ".", "/", "\\", "'", "\"", "\n", "#", "{rank:04d}", "ä", "漢", "😀", "%s", "plt", "\t", "=", ":"};
  std::string s;
  for (int n = c.i(0, 6); n > 0; --n)
    s += c.among(parts);
  return s;
}
std::string DrawKey(pbt::Case& c) {
  static const std::vector<std::string> keys{"x", "final_time", "cfl", "Options", "a1", "snake_case", "CamelCase", "q", "n_cells", "outputs", "RunOptions", "_hidden", "größe"};
  std::string k = c.among(keys);
  return c.chance(1, 3) ? k + std::to_string(c.i(0, 99)) : k;
}
double DrawFloat(pbt::Case& c) {
  switch (c.i(0, 5)) {
  case 0:
    return c.pick<double>({0.0, -0.0, 1.0, 0.1, 1e-12, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, INFINITY, -INFINITY, NAN, 1e16, 0.30000000000000004});
  case 1:
    return c.real(-10, 10);
  case 2:
    return c.logreal(1e-300, 1e300);
  case 3:
    return -c.logreal(1e-9, 1e9);
  case 4:
    return static_cast<double>(c.i(-1000, 1000)); // integral floats
  default:
    return c.unit();
  }
}
long DrawInt(pbt::Case& c) {
  switch (c.i(0, 3)) {
  case 0:
    return c.i(-3, 3);
  case 1:
    return c.pick<long>({2147483647L, -2147483648L, 2147483648L, -2147483649L, 9007199254740993L, 9223372036854775807L, -9223372036854775807L - 1, 4294967296L});
  case 2:
    return c.i(-1000000, 1000000);
  default:
    return static_cast<long>(c.integer(-1000000000000L, 1000000000000L));
  }
}
Value DrawValue(pbt::Case& c, int depth) {
  Value v;
  v.kind = static_cast<Value::Kind>(c.i(0, depth > 0 ? 7 : 4));
  switch (v.kind) {
  case Value::None:
    break;
  case Value::Bool:
    v.b = c.boolean();
    break;
  case Value::Int:
    v.i = DrawInt(c);
    break;
  case Value::Float:
    v.d = DrawFloat(c);
    break;
  case Value::Str:
    v.s = DrawString(c);
    break;
  case Value::List:
  case Value::Tuple: {
    const int n = c.i(0, 5);
    if (c.chance(3, 4) && n > 0) { // mostly of one kind
      Value first = DrawValue(c, depth - 1);
      v.l.push_back(first);
      for (int k = 1; k < n; ++k) {
        Value w;
        w.kind = first.kind;
        switch (w.kind) {
        case Value::Bool:
          w.b = c.boolean();
          break;
        case Value::Int:
          w.i = DrawInt(c);
          break;
        case Value::Float:
          w.d = DrawFloat(c);
          break;
        case Value::Str:
          w.s = DrawString(c);
          break;
        default:
          w = first;
        }
        v.l.push_back(w);
      }
    } else
      for (int k = 0; k < n; ++k)
        v.l.push_back(DrawValue(c, depth - 1));
    break;
  }
  case Value::Dict:
    for (int n = c.i(0, 4); n > 0; --n) {
      std::string k = DrawKey(c);
      bool dup = false;
      for (auto& e : v.m)
        dup = dup || e.first == k;
      if (!dup)
        v.m.emplace_back(k, DrawValue(c, depth - 1));
    }
  }
  return v;
}
py::object ToPy(const Value& v) {
  switch (v.kind) {
  case Value::None:
    return py::none();
  case Value::Bool:
    return py::bool_(v.b);
  case Value::Int:
    return py::int_(v.i);
  case Value::Float:
    return py::float_(v.d);
  case Value::Str:
    return py::str(v.s);
  case Value::List: {
    py::list l;
    for (auto& e : v.l)
      l.append(ToPy(e));
    return l;
  }
  case Value::Tuple: {
    py::tuple t(v.l.size());
    for (std::size_t k = 0; k < v.l.size(); ++k)
      t[k] = ToPy(v.l[k]);
    return t;
  }
  case Value::Dict: {
    py::dict d;
    for (auto& [k, e] : v.m)
      d[py::str(k)] = ToPy(e);
    return d;
  }
  }
  return py::none();
}
std::string Quote(const std::string& s) {
  std::string r = "'";
  for (char ch : s) {
    if (ch == '\'' || ch == '\\')
      r += '\\', r += ch;
    else if (ch == '\n')
      r += "\\n";
    else if (ch == '\t')
      r += "\\t";
    else
      r += ch;
  }
  return r + "'";
}
std::string ToSource(const Value& v) {
  switch (v.kind) {
  case Value::None:
    return "None";
  case Value::Bool:
    return v.b ? "True" : "False";
  case Value::Int:
    return std::to_string(v.i);
  case Value::Float: {
    if (std::isnan(v.d))
      return "float('nan')";
    if (std::isinf(v.d))
      return v.d > 0 ? "float('inf')" : "-float('inf')";
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.17g", v.d);
    std::string s = buf;
    if (s.find_first_of(".e") == std::string::npos)
      s += ".0";
    return s;
  }
  case Value::Str:
    return Quote(v.s);
  case Value::List:
  case Value::Tuple: {
    std::string s = v.kind == Value::List ? "[" : "(";
    for (auto& e : v.l)
      s += ToSource(e) + ", ";
    if (v.kind == Value::List)
      return s + "]";
    return v.l.empty() ? "()" : s + ")";
  }
  case Value::Dict: {
    std::string s = "{";
    for (auto& [k, e] : v.m)
      s += Quote(k) + ": " + ToSource(e) + ", ";
    return s + "}";
  }
  }
  return "None";
}

// How a value converts: 1 yes, 0 must be rejected, -1 not specified
int Convert(const Value& v, double& out) {
  if (v.kind == Value::Float)
    return out = v.d, 1;
  if (v.kind == Value::Int)
    return out = static_cast<double>(v.i), 1;
  return v.kind == Value::Bool ? -1 : 0;
}
template <typename I> int ConvertInt(const Value& v, I& out) {
  if (v.kind == Value::Int) {
    if (v.i < static_cast<long>(std::numeric_limits<I>::min()) || v.i > static_cast<long>(std::numeric_limits<I>::max()))
      return 0;
    return out = static_cast<I>(v.i), 1;
  }
  return v.kind == Value::Bool ? -1 : 0;
}
int Convert(const Value& v, int& out) { return ConvertInt(v, out); }
int Convert(const Value& v, long& out) { return ConvertInt(v, out); }
int Convert(const Value& v, bool& out) {
  if (v.kind == Value::Bool)
    return out = v.b, 1;
  return v.kind == Value::Int || v.kind == Value::Float || v.kind == Value::None ? -1 : 0;
}
int Convert(const Value& v, std::string& out) {
  if (v.kind == Value::Str)
    return out = v.s, 1;
  return 0;
}
int Convert(const Value& v, Duration& out) {
  double d = 0;
  const int r = Convert(v, d);
  out = Duration(d);
  return r;
}
int Convert(const Value& v, Direction& out) {
  int i = 0;
  const int r = Convert(v, i);
  if (r == 1 && (i < 0 || i > 2))
    return -1;
  out = static_cast<Direction>(i);
  return r;
}
template <typename T> int Convert(const Value& v, std::vector<T>& out) {
  if (v.kind != Value::List && v.kind != Value::Tuple)
    return 0;
  int worst = 1;
  for (auto& e : v.l) {
    T t{};
    const int r = Convert(e, t);
    if (r == 0)
      return 0;
    if (r < 0)
      worst = -1;
    out.push_back(t);
  }
  return worst;
}
template <typename T, std::size_t N> int Convert(const Value& v, std::array<T, N>& out) {
  std::vector<T> all;
  const int r = Convert(v, all);
  if (r == 0 || all.size() != N)
    return 0;
  std::copy(all.begin(), all.end(), out.begin());
  return r;
}
bool Equal(double a, double b) { return Same(a, b); }
bool Equal(const Duration& a, const Duration& b) { return Same(a.count(), b.count()); }
template <typename T> bool Equal(const T& a, const T& b) { return a == b; }
bool EqualDoubles(const double* a, const double* b, std::size_t n) {
  for (std::size_t i = 0; i < n; ++i)
    if (!Same(a[i], b[i]))
      return false;
  return true;
}
bool Equal(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && EqualDoubles(a.data(), b.data(), a.size()); }
bool Equal(const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) {
  bool r = a.size() == b.size();
  for (std::size_t i = 0; r && i < a.size(); ++i)
    r = Equal(a[i], b[i]);
  return r;
}
template <std::size_t N> bool Equal(const std::array<double, N>& a, const std::array<double, N>& b) { return EqualDoubles(a.data(), b.data(), N); }

struct Tally {
  int values{0}, rejected{0};
};
template <typename T> void ReadAs(pbt::Case& c, const ProgramOptions& o, const std::string& key, const Value& v, const T& def, const char* type, Tally& t) {
  T want{};
  const int r = Convert(v, want);
  if (r < 0)
    return;
  bool threw = false;
  T got{};
  try {
    got = GetOptionOr(o, key, def);
  } catch (const std::exception&) {
    threw = true;
  }
  auto what = [&] { return "option " + key + " = " + ToSource(v) + " read as " + type; };
  if (r == 1) {
    c.checkf(!threw, [&] { return what() + " is rejected"; });
    c.checkf(Equal(got, want), [&] { return what() + " arrives as another value"; });
    ++t.values;
  } else {
    c.checkf(threw, [&] { return what() + " is not rejected"; });
    ++t.rejected;
  }
}
void Compare(pbt::Case& c, const ProgramOptions& o, const std::vector<std::pair<std::string, Value>>& want, bool exact_keys, Tally& t, int depth = 0) {
  if (exact_keys)
    c.equal(o.size(), want.size(), "number of options");
  for (const auto& [key, v] : want) {
    c.checkf(o.count(key) == 1, [&, k = key] { return "option " + k + " is missing"; });
    const double dd = 123.25;
    ReadAs<int>(c, o, key, v, 77, "int", t);
    ReadAs<long>(c, o, key, v, 78, "long", t);
    ReadAs<double>(c, o, key, v, dd, "double", t);
    ReadAs<bool>(c, o, key, v, v.kind == Value::Bool && !v.b, "bool", t);
    ReadAs<std::string>(c, o, key, v, "default", "string", t);
    ReadAs<Duration>(c, o, key, v, Duration(dd), "duration", t);
    ReadAs<Direction>(c, o, key, v, Direction::Y, "direction", t);
    ReadAs<std::vector<int>>(c, o, key, v, {9, 9}, "list of int", t);
    ReadAs<std::vector<double>>(c, o, key, v, {0.5}, "list of double", t);
    ReadAs<std::vector<std::string>>(c, o, key, v, {"d"}, "list of string", t);
    ReadAs<std::array<double, 2>>(c, o, key, v, {1, 2}, "2 doubles", t);
    ReadAs<std::array<int, 3>>(c, o, key, v, {1, 2, 3}, "3 ints", t);
    ReadAs<std::vector<std::vector<double>>>(c, o, key, v, {}, "list of lists", t);
    if (v.kind == Value::Dict) {
      const ProgramOptions sub = GetOptions(o, key);
      Compare(c, sub, v.m, true, t, depth + 1);
      Compare(c, ToMap(GetOptionOr(o, key, py::dict())), v.m, true, t, depth + 1);
    } else if (v.kind != Value::List && v.kind != Value::Tuple && !(v.kind == Value::Str && v.s.empty())) {
      // (sequences may be lists of pairs, which Python turns into dictionaries)
      bool threw = false;
      try {
        GetOptions(o, key);
      } catch (const std::exception&) {
        threw = true;
      }
      c.checkf(threw, [&, k = key] { return "option " + k + " = " + ToSource(v) + " is accepted as a group of options"; });
    }
  }
  // what is not there
  const std::string missing = "missing key";
  c.check(GetOptionOr(o, missing, 42) == 42 && GetOptionOr(o, missing, std::string("d")) == "d" && GetOptionOr(o, missing, 0.25) == 0.25 &&
              GetOptionOr(o, missing, Direction::Z) == Direction::Z && GetOptionOr(o, missing, Duration(3.5)) == Duration(3.5) &&
              GetOptionOr(o, missing, std::vector<int>{1, 2}) == std::vector<int>{1, 2} && GetOptionOr(o, missing, true),
          "a missing option does not yield the default");
  c.check(GetOptions(o, missing).empty(), "a missing group of options is not empty");
}
std::vector<std::pair<std::string, Value>> DrawOptions(pbt::Case& c, int most) {
  std::vector<std::pair<std::string, Value>> r;
  for (int n = c.i(0, most); n > 0; --n) {
    const std::string k = DrawKey(c);
    bool dup = false;
    for (auto& e : r)
      dup = dup || e.first == k;
    if (!dup)
      r.emplace_back(k, DrawValue(c, 3));
  }
  return r;
}

PBT_PROP("options of a map", 3000, 60000) {
  const auto want = DrawOptions(c, 6);
  py::dict d;
  for (auto& [k, v] : want) {
    d[py::str(k)] = ToPy(v);
    c.note(k, ToSource(v));
  }
  const ProgramOptions o = ToMap(d);
  Tally t;
  Compare(c, o, want, true, t);
  c.label(std::to_string(want.size()) + " options");
  c.nontrivial(t.values > 3 && t.rejected > 3);
}

struct Scratch {
  std::string dir;
  Scratch() {
    char buf[] = "/tmp/verif-c27-XXXXXX";
    dir = mkdtemp(buf);
  }
  ~Scratch() { boost::filesystem::remove_all(dir); }
};
void ClearGlobals() {
  py::dict g = py::globals();
  std::vector<py::object> names;
  for (auto kv : g)
    if (kv.first.cast<std::string>().substr(0, 2) != "__")
      names.push_back(py::reinterpret_borrow<py::object>(kv.first));
  for (auto& n : names)
    g.attr("pop")(n);
}
struct Script {
  std::string text;
  std::vector<std::pair<std::string, Value>> want;
  bool fails{false};
};
Script DrawScript(pbt::Case& c) {
  Script s;
  s.want = DrawOptions(c, 6);
  const std::string nl = "\n";
  if (c.chance(1, 4))
    s.text += "# an input file" + nl + nl;
  if (c.chance(1, 8))
    s.text += "__version = 3" + nl + "__secret__ = 'x'" + nl;
  for (std::size_t i = 0; i < s.want.size(); ++i) {
    auto& [k, v] = s.want[i];
    switch (c.i(0, 4)) {
    case 0: // through another variable that goes away
      s.text += "tmp = " + ToSource(v) + nl + k + " = tmp" + nl + "del tmp" + nl;
      break;
    case 1: // in a condition
      s.text += "if 1 < 2:" + nl + "  " + k + " = " + ToSource(v) + nl + "else:" + nl + "  " + k + " = 'wrong'" + nl;
      break;
    case 2: // assigned twice, the last one counts
      s.text += k + " = 'first'" + nl + k + " = " + ToSource(v) + nl;
      break;
    default:
      s.text += k + " = " + ToSource(v) + (c.chance(1, 3) ? "  # comment" : "") + nl;
    }
  }
  if (c.chance(1, 4)) {
    s.text += "total = 0" + nl + "for idx in range(5):" + nl + "  total += idx" + nl + "del idx" + nl;
    Value v;
    v.kind = Value::Int;
    v.i = 10;
    s.want.emplace_back("total", v);
  }
  if (c.chance(1, 8))
    for (int i = 0; i < 2000; ++i)
      s.text += "# padding padding padding padding padding padding" + nl;
  if (c.chance(1, 4)) {
    Value v;
    v.kind = Value::Float;
    v.d = 0.5;
    s.want.emplace_back("last", v);
    s.text += "last = 0.5"; // no newline at the end
  }
  if (c.chance(1, 10)) {
    s.fails = true;
    s.text += nl + c.pick<std::string>({"1 / 0", "raise RuntimeError('no')", "x = = 3", "undefined_name + 1", "import no_such_module_at_all"}) + nl;
  }
  return s;
}
void Write(const std::string& path, const std::string& text) {
  std::ofstream f(path, std::ios::binary);
  f << text;
}

PBT_PROP("options of an input file", 1500, 20000) {
  Scratch dir;
  const Script s = DrawScript(c);
  const std::string path = dir.dir + "/" + c.pick<std::string>({"input.py", "with space.py", "größe.txt"});
  Write(path, s.text);
  c.note("script", s.text.substr(0, 1500));
  std::vector<std::string> args;
  for (int n = c.chance(1, 3) ? c.i(1, 3) : 0; n > 0; --n)
    args.push_back(c.pick<std::string>({"a", "0.5", "plenum", "x=3", "ä"}));
  ClearGlobals();
  std::vector<std::pair<std::string, Value>> want = s.want;
  if (!args.empty()) {
    Value v;
    v.kind = Value::List;
    for (auto& a : args) {
      Value e;
      e.kind = Value::Str;
      e.s = a;
      v.l.push_back(e);
    }
    want.emplace_back("args", v);
  }
  const bool by_command_line = c.boolean();
  ProgramOptions o;
  bool failed = false;
  if (by_command_line) {
    std::vector<std::string> words{"program"};
    const std::string extra = c.pick<std::string>({"", "", "", "", "help", "unknown"});
    auto add_args = [&] {
      if (!args.empty()) {
        words.push_back("--args");
        words.insert(words.end(), args.begin(), args.end());
      }
    };
    const bool args_first = c.boolean();
    if (args_first)
      add_args();
    if (c.boolean()) {
      words.push_back("--config");
      words.push_back(path);
    } else
      words.push_back("--config=" + path);
    if (!args_first)
      add_args();
    if (extra == "help")
      words.push_back("--help");
    if (extra == "unknown")
      words.push_back("--no-such-option=3");
    std::vector<char*> argv;
    for (auto& w : words)
      argv.push_back(w.data());
    std::ostringstream out, err;
    auto* old_out = std::cout.rdbuf(out.rdbuf());
    auto* old_err = std::cerr.rdbuf(err.rdbuf());
    std::optional<ProgramOptions> r;
    std::exception_ptr e;
    try {
      r = ParseCommandLine(static_cast<int>(argv.size()), argv.data());
    } catch (...) {
      e = std::current_exception();
    }
    std::cout.rdbuf(old_out);
    std::cerr.rdbuf(old_err);
    if (e)
      std::rethrow_exception(e);
    if (extra == "unknown" || extra == "help" || s.fails) {
      c.check(!r.has_value(), "the command line is accepted although it asks for help or is wrong: " + extra);
      if (extra == "unknown" || s.fails)
        c.check(!err.str().empty(), "a wrong command line or input file is not reported");
      else
        c.check(out.str().find("--config") != std::string::npos, "the help does not name the options");
      c.label("command line without options");
      return;
    }
    c.check(r.has_value(), "a proper command line is rejected: " + err.str());
    o = *r;
  } else {
    try {
      o = ParsePythonScript(path, MPI_COMM_WORLD, args);
    } catch (const std::exception&) {
      failed = true;
    }
    c.check(failed == s.fails, s.fails ? "a wrong script is accepted" : "a proper script is rejected");
    if (failed)
      return;
  }
  Tally t;
  Compare(c, o, want, true, t);
  c.label(by_command_line ? "command line" : "script");
  c.nontrivial(want.size() > 1);
  ClearGlobals();
}

PBT_PROP("files that do not exist", 100, 1000) {
  Scratch dir;
  const std::string path = c.boolean() ? dir.dir : dir.dir + "/missing.py";
  bool threw = false;
  try {
    ParsePythonScript(path, MPI_COMM_WORLD, {});
  } catch (const std::exception&) {
    threw = true;
  }
  c.check(threw, "a path without a file is read as a script");
  threw = false;
  try {
    ReadAndBroadcastFile(dir.dir + "/missing.py", MPI_COMM_WORLD);
  } catch (const std::exception&) {
    threw = true;
  }
  c.check(threw, "a missing file is read");
  c.nontrivial(true);
}

PBT_PROP("every rank reads the same file", 400, 5000) {
  Scratch dir;
  std::string text;
  const int kind = c.i(0, 3);
  const int n = kind == 0 ? c.i(0, 3) : kind == 1 ? c.i(0, 300) : kind == 2 ? c.i(4000, 5000) : c.i(60000, 200000);
  pbt::Rng rng{static_cast<std::uint64_t>(c.integer(0, 1 << 30))};
  for (int i = 0; i < n; ++i)
    text += static_cast<char>(i < 50 && c.boolean() ? '\n' : rng.next() & 0xff);
  const std::string path = dir.dir + "/data";
  Write(path, text);
  const int ranks = c.i(1, 5);
  std::vector<std::string> got(static_cast<std::size_t>(ranks));
  fakempi::Run(ranks, [&](int r) { got[static_cast<std::size_t>(r)] = ReadAndBroadcastFile(path, MPI_COMM_WORLD); });
  for (int r = 0; r < ranks; ++r)
    c.checkf(got[static_cast<std::size_t>(r)] == text, [&] {
      return "rank " + std::to_string(r) + " of " + std::to_string(ranks) + " reads " + std::to_string(got[static_cast<std::size_t>(r)].size()) + " bytes instead of the " + std::to_string(n) + " of the file";
    });
  c.label(std::to_string(ranks) + " ranks");
  c.nontrivial(n > 0 && ranks > 1);
}

PBT_PROP("the smallest duration of all ranks", 1000, 20000) {
  const int ranks = c.i(1, 6);
  std::vector<double> x(static_cast<std::size_t>(ranks)), got(static_cast<std::size_t>(ranks));
  for (double& v : x)
    v = c.chance(1, 8) ? std::numeric_limits<double>::infinity() : c.chance(1, 8) ? 0.0 : c.logreal(1e-12, 1e3) * (c.chance(1, 8) ? -1 : 1);
  c.note("durations", pbt::list(x));
  fakempi::Run(ranks, [&](int r) { got[static_cast<std::size_t>(r)] = MinAll(MPI_COMM_WORLD, Duration(x[static_cast<std::size_t>(r)])).count(); });
  const double want = *std::min_element(x.begin(), x.end());
  for (double g : got)
    c.equal(g, want, "minimum of all ranks");
  c.nontrivial(ranks > 1);
}

PBT_PROP("groups of options", 3000, 50000) {
  // each field is given or not, in any combination
  ProgramOptions o;
  Tally t;
  auto maybe = [&](const char* key, auto value) {
    if (c.boolean()) {
      o[key] = py::cast(value);
      c.note(key, py::cast<std::string>(py::str(o[key])));
      ++t.values;
      return std::make_optional(value);
    }
    return std::optional<decltype(value)>{};
  };
  const auto final_time = maybe("final_time", c.logreal(1e-9, 1e6));
  const auto max_cycles = maybe("max_cycles", static_cast<long>(c.boolean() ? c.integer(-1, 100) : c.integer(0, 1L << 40)));
  const auto smallest = maybe("smallest_time_step_size", c.logreal(1e-15, 1e-3));
  const auto cfl = maybe("cfl", c.unit());
  const auto backup = maybe("do_backup", c.i(0, 1));
  const auto file = maybe("file_template", DrawString(c));
  std::vector<int> ranks;
  for (int n = c.i(0, 4); n > 0; --n)
    ranks.push_back(c.i(0, 1000));
  const auto which = maybe("which_mpi_ranks_do_log", ranks);
  std::vector<std::string> black;
  for (int n = c.i(0, 4); n > 0; --n)
    black.push_back(DrawString(c));
  const auto channels = maybe("channel_blacklist", black);
  const auto copy = maybe("copy_input_file", c.i(0, 1));
  if (c.boolean())
    o["something_else"] = py::cast(3);
  const RunOptions r(o), r0;
  c.equal(r.final_time.count(), final_time.value_or(r0.final_time.count()), "final_time");
  c.equal(static_cast<long>(r.max_cycles), max_cycles.value_or(r0.max_cycles), "max_cycles");
  c.equal(r.smallest_time_step_size.count(), smallest.value_or(r0.smallest_time_step_size.count()), "smallest_time_step_size");
  c.equal(r.cfl, cfl.value_or(r0.cfl), "cfl");
  c.equal(r.do_backup, backup.value_or(r0.do_backup), "do_backup");
  const LogOptions l(o), l0;
  c.equal(l.file_template, file.value_or(l0.file_template), "file_template of the log");
  c.check(l.which_mpi_ranks_do_log == which.value_or(l0.which_mpi_ranks_do_log), "which_mpi_ranks_do_log");
  c.check(l.channel_blacklist == channels.value_or(l0.channel_blacklist), "channel_blacklist");
  const InputFileOptions f(o), f0;
  c.equal(f.file_template, file.value_or(f0.file_template), "file_template of the input file");
  c.equal(static_cast<int>(f.copy_input_file), copy.value_or(static_cast<int>(f0.copy_input_file)), "copy_input_file");
  // wrong types in any of them
  ProgramOptions wrong = o;
  const std::string key = c.pick<std::string>({"final_time", "max_cycles", "smallest_time_step_size", "cfl", "do_backup"});
  wrong[key] = key == "max_cycles" || key == "do_backup" ? (c.boolean() ? py::object(py::str("3")) : py::object(py::float_(2.5))) : c.boolean() ? py::object(py::str("0.5")) : py::object(py::list());
  bool threw = false;
  try {
    RunOptions bad(wrong);
  } catch (const std::exception&) {
    threw = true;
  }
  c.check(threw, "a wrong type for " + key + " is accepted");
  c.nontrivial(t.values > 2);
}
pbt::Setup setup([] { pyembed::Start(); });
} // namespace
