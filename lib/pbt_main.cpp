// Driver part of the engine: worker loop, shrinking, crash capture, replay.
#include "pbt.hpp"
#include <chrono>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_UNDEFINED__)
#define PBT_SANITIZED 1
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace pbt {
namespace {
Case* g_case = nullptr;
const char* g_prop = "";
char g_crash_path[4096] = "";
volatile int g_dumped = 0;

void write_all(int fd, const char* p, std::size_t n) {
  while (n) {
    ssize_t k = ::write(fd, p, n);
    if (k <= 0)
      return;
    p += k;
    n -= static_cast<std::size_t>(k);
  }
}

void dump(const char* why) {
  if (g_dumped || !g_crash_path[0])
    return;
  g_dumped = 1;
  int fd = ::open(g_crash_path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0)
    return;
  char b[64];
  write_all(fd, g_prop, std::strlen(g_prop));
  write_all(fd, "\n", 1);
  write_all(fd, why, std::strlen(why));
  write_all(fd, "\n", 1);
  if (g_case) {
    for (uint64_t v : g_case->ch) {
      int n = std::snprintf(b, sizeof b, "%llu ", (unsigned long long)v);
      write_all(fd, b, static_cast<std::size_t>(n));
    }
    write_all(fd, "\n", 1);
    write_all(fd, g_case->desc.data(), g_case->desc.size());
  }
  ::close(fd);
}

void on_signal(int sig) {
  const char* why = "signal";
  switch (sig) {
  case SIGSEGV: why = "SIGSEGV"; break;
  case SIGBUS: why = "SIGBUS"; break;
  case SIGABRT: why = "SIGABRT (assertion or terminate)"; break;
  case SIGFPE: why = "SIGFPE"; break;
  case SIGILL: why = "SIGILL"; break;
  case SIGPROF: why = "case exceeded its cpu time limit (no termination)"; break;
  }
  dump(why);
  _exit(99);
}
void on_death() { dump("sanitizer report"); }

void install() {
  static char stack[1 << 16];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGABRT, SIGFPE, SIGPROF})
    sigaction(s, &sa, nullptr);
#ifdef PBT_SANITIZED
  __sanitizer_set_death_callback(on_death);
#else
  for (int s : {SIGSEGV, SIGBUS, SIGILL})
    sigaction(s, &sa, nullptr);
#endif
}

void arm(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

enum class Res { ok, fail, discard };

Res run_case(const Prop& p, Case& c, std::string& msg) {
  g_case = &c;
  g_prop = p.name.c_str();
  arm(120);
  Res r = Res::ok;
  try {
    p.body(c);
  } catch (Failure& f) {
    msg = f.msg;
    r = Res::fail;
  } catch (Discard&) {
    r = Res::discard;
  } catch (std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    r = Res::fail;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    r = Res::fail;
  }
  arm(0);
  g_case = nullptr;
  return r;
}

std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += static_cast<char>(ch);
  }
  return o + "\"";
}

struct Found {
  std::string prop, msg, desc;
  std::vector<uint64_t> ch;
};

uint64_t hash_choices(const std::string& name, const std::vector<uint64_t>& ch) {
  uint64_t h = 1469598103934665603ull;
  for (char x : name) {
    h ^= static_cast<unsigned char>(x);
    h *= 1099511628211ull;
  }
  for (uint64_t v : ch) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 1099511628211ull;
  }
  return h;
}

Found shrink(const Prop& p, Case& first, const std::string& msg0,
             const std::set<std::string>& known) {
  Found best{p.name, msg0, first.desc, first.ch};
  best.ch.resize(std::min(best.ch.size(), first.pos));
  auto t0 = std::chrono::steady_clock::now();
  int budget = 4000;
  auto spent = [&] {
    return budget <= 0 ||
           std::chrono::steady_clock::now() - t0 > std::chrono::seconds(25);
  };
  auto attempt = [&](std::vector<uint64_t> ch) {
    if (spent())
      return false;
    --budget;
    Case c;
    c.replay = true;
    c.known_keys = &known;
    c.ch = std::move(ch);
    std::string m;
    if (run_case(p, c, m) == Res::fail) {
      c.ch.resize(std::min(c.pos, c.ch.size()));
      bool better = c.ch.size() < best.ch.size() ||
                    (c.ch.size() == best.ch.size() && c.ch < best.ch);
      if (better) {
        best.ch = c.ch;
        best.msg = m;
        best.desc = c.desc;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && !spent()) {
    progress = false;
    for (std::size_t k : {4096, 512, 128, 32, 8, 4, 2, 1})
      for (std::size_t i = 0; i + k <= best.ch.size() && !spent();) {
        auto ch = best.ch;
        ch.erase(ch.begin() + static_cast<long>(i),
                 ch.begin() + static_cast<long>(i + k));
        if (attempt(ch))
          progress = true;
        else
          i += k;
      }
    for (std::size_t i = 0; i < best.ch.size() && !spent(); ++i) {
      if (best.ch[i] == 0)
        continue;
      auto ch = best.ch;
      ch[i] = 0;
      if (attempt(ch)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best.ch[i];
      while (hi - lo > 1 && i < best.ch.size() && !spent()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c2 = best.ch;
        c2[i] = mid;
        if (attempt(c2)) {
          progress = true;
          hi = mid;
        } else
          lo = mid;
      }
    }
  }
  return best;
}
} // namespace

int run_main(int argc, char** argv) {
  uint64_t seed = 1;
  int worker = 0, workers = 1;
  bool thorough = false;
  double scale = 1.0, max_s = 1e9;
  std::string out, only, replay_choices, hashes;
  std::set<std::string> known;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (a == "--worker") worker = std::atoi(v.c_str());
    else if (a == "--workers") workers = std::atoi(v.c_str());
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--out") out = v;
    else if (a == "--hashes") hashes = v;
    else if (a == "--scale") scale = std::atof(v.c_str());
    else if (a == "--max-s") max_s = std::atof(v.c_str());
    else if (a == "--prop") only = v;
    else if (a == "--choices") replay_choices = v;
    else if (a == "--known") known.insert(v);
    else if (a == "--crash") std::snprintf(g_crash_path, sizeof g_crash_path, "%s", v.c_str());
  }
  install();
  if (setup_hook()) setup_hook()();
  auto& props = registry();
  std::sort(props.begin(), props.end(),
            [](const Prop& a, const Prop& b) { return a.name < b.name; });

  if (!replay_choices.empty()) {
    for (const Prop& p : props) {
      if (p.name != only)
        continue;
      std::ifstream f(replay_choices);
      Case c;
      c.replay = true;
      c.known_keys = &known;
      uint64_t v;
      while (f >> v)
        c.ch.push_back(v);
      std::string m;
      Res r = run_case(p, c, m);
      std::printf("%s: %s\ncase: %s\n",
                  r == Res::fail ? "FAIL" : r == Res::ok ? "PASS" : "DISCARD",
                  m.c_str(), c.desc.c_str());
      for (auto& [k, msg] : c.known_hits)
        std::printf("KNOWN %s: %s\n", k.c_str(), msg.c_str());
      return r == Res::fail ? 3 : 0;
    }
    std::printf("no such property: %s\n", only.c_str());
    return 4;
  }

  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
        .count();
  };
  std::vector<Found> found;
  std::map<std::string, std::map<std::string, long>> labels;
  std::map<std::string, std::array<long, 4>> counts; // run, nontriv, discard, planned
  std::map<std::string, std::string> known_hits;
  std::vector<std::pair<std::string, std::string>> samples;
  std::unordered_set<uint64_t> seen;
  bool truncated = false;
  std::map<std::string, double> times;
  for (const Prop& p : props) {
    if (!only.empty() && p.name != only)
      continue;
    const double tp = elapsed();
    long total = static_cast<long>(
        std::ceil(static_cast<double>(thorough ? p.thorough : p.quick) * scale));
    long n = total / workers + (worker < total % workers ? 1 : 0);
    auto& cnt = counts[p.name];
    cnt = {0, 0, 0, n};
    int nsamples = 0;
    for (long k = 0; k < n; ++k) {
      if (elapsed() > max_s) {
        truncated = true;
        break;
      }
      Case c;
      uint64_t h = hash_choices(p.name, {seed, static_cast<uint64_t>(worker),
                                         static_cast<uint64_t>(k)});
      c.rng.s = h;
      c.known_keys = &known;
      std::string m;
      Res r = run_case(p, c, m);
      ++cnt[0];
      for (auto& l : c.labels)
        ++labels[p.name][l];
      for (auto& kh : c.known_hits)
        known_hits.insert(kh);
      if (r == Res::discard) {
        ++cnt[2];
        continue;
      }
      if (c.nontriv) {
        uint64_t hc = hash_choices(p.name, c.ch);
        if (seen.insert(hc).second)
          ++cnt[1];
        if (nsamples < 2 && worker == 0 && k >= 3) {
          ++nsamples;
          samples.emplace_back(p.name, c.desc.substr(0, 700));
        }
      }
      if (r == Res::fail) {
        found.push_back(shrink(p, c, m, known));
        break;
      }
    }
    times[p.name] = elapsed() - tp;
  }
  std::ofstream o(out.empty() ? "/dev/stdout" : out);
  o << "{\"truncated\": " << (truncated ? "true" : "false") << ", \"props\": {";
  bool first = true;
  for (auto& [name, cnt] : counts) {
    o << (first ? "" : ", ") << json(name) << ": {\"run\": " << cnt[0]
      << ", \"nontrivial\": " << cnt[1] << ", \"discarded\": " << cnt[2]
      << ", \"planned\": " << cnt[3] << ", \"s\": " << times[name]
      << ", \"labels\": {";
    bool f2 = true;
    for (auto& [l, k] : labels[name]) {
      o << (f2 ? "" : ", ") << json(l) << ": " << k;
      f2 = false;
    }
    o << "}}";
    first = false;
  }
  o << "}, \"samples\": [";
  first = true;
  for (auto& [n, d] : samples) {
    o << (first ? "" : ", ") << "{\"prop\": " << json(n)
      << ", \"case\": " << json(d) << "}";
    first = false;
  }
  o << "], \"known\": {";
  first = true;
  for (auto& [k, m] : known_hits) {
    o << (first ? "" : ", ") << json(k) << ": " << json(m);
    first = false;
  }
  o << "}, \"failures\": [";
  first = true;
  for (auto& f : found) {
    o << (first ? "" : ", ") << "{\"prop\": " << json(f.prop)
      << ", \"msg\": " << json(f.msg) << ", \"case\": " << json(f.desc)
      << ", \"choices\": [";
    for (std::size_t i = 0; i < f.ch.size(); ++i)
      o << (i ? "," : "") << f.ch[i];
    o << "]}";
    first = false;
  }
  o << "]}\n";
  o.close();
  if (!hashes.empty()) {
    std::ofstream hf(hashes, std::ios::binary);
    for (uint64_t h : seen)
      hf.write(reinterpret_cast<const char*>(&h), 8);
  }
  return 0;
}
} // namespace pbt

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
