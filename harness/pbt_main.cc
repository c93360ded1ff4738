#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

#include "pbt.hh"

namespace pbt {
namespace {

constexpr size_t LIVE_CAP = 1U << 20U;
constexpr size_t MSG_CAP = 1U << 16U;

double now() {
  timespec ts{};
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}

uint64_t hash_choices(uint64_t h, const std::vector<uint64_t> &c) {
  for (auto v : c) {
    h = mix(h ^ v) + 0x1234567;
  }
  return h;
}

std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

struct Outcome {
  enum Kind { PASS, DISCARD, FAIL, CRASH, HANG } kind = PASS;
  std::string message;
  std::vector<uint64_t> choices;
  std::string notes;
};

Outcome run_case(const PropertyFn &fn, Src &s) {
  Outcome o;
  try {
    fn.fn(s);
  } catch (const Discard &) {
    o.kind = Outcome::DISCARD;
  } catch (const Failure &f) {
    o.kind = Outcome::FAIL;
    o.message = f.message;
  } catch (const std::exception &e) {
    o.kind = Outcome::FAIL;
    o.message = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = Outcome::FAIL;
    o.message = "unexpected non-standard exception";
  }
  o.choices = s.choices();
  o.notes = s.notes();
  return o;
}

struct Shared {
  volatile int fn;
  volatile uint64_t index;
  volatile double started;
  volatile int state;  // 0 idle, 1 running
  int kind;
  uint64_t nchoices;
  char msg[MSG_CAP];
  char notes[MSG_CAP];
  uint64_t live[LIVE_CAP + 1];
};

Shared *make_shared_page() {
  void *p = mmap(
      nullptr,
      sizeof(Shared),
      PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS,
      -1,
      0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared *>(p);
}

void put(char *dst, const std::string &s) {
  const size_t n = std::min(s.size(), MSG_CAP - 1);
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

std::string slurp(const std::string &path, size_t max = 6000) {
  std::ifstream f(path);
  std::string s((std::istreambuf_iterator<char>(f)),
                std::istreambuf_iterator<char>());
  if (s.size() > max) {
    s = s.substr(0, max) + "...";
  }
  return s;
}

std::string g_err_dir;
void quiet(const std::string &err) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(e, 2);
}

// Evaluate a choice sequence in a forked child.
Outcome run_forked(
    const PropertyFn &fn,
    const std::vector<uint64_t> &choices,
    bool describe,
    double limit) {
  static Shared *sh = make_shared_page();
  sh->state = 0;
  sh->live[0] = 0;
  const std::string err = g_err_dir + "/fork.err";
  const pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    quiet(err);
    Src s{choices};
    s.set_describing(describe);
    s.set_live(sh->live, LIVE_CAP);
    Outcome o = run_case(fn, s);
    sh->kind = o.kind;
    put(sh->msg, o.message);
    put(sh->notes, o.notes);
    sh->state = 2;
    _exit(0);
  }
  const double t0 = now();
  Outcome o;
  int st = 0;
  bool killed = false;
  while (true) {
    const pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      break;
    }
    if (now() - t0 > limit) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      killed = true;
      break;
    }
    usleep(500);
  }
  o.choices.assign(sh->live + 1, sh->live + 1 + sh->live[0]);
  if (killed) {
    o.kind = Outcome::HANG;
    o.message = "case did not finish in time";
  } else if (sh->state == 2) {
    o.kind = static_cast<Outcome::Kind>(sh->kind);
    o.message = sh->msg;
    o.notes = sh->notes;
  } else {
    o.kind = Outcome::CRASH;
    std::ostringstream ss;
    ss << "process ended abnormally (wait status " << st << "): "
       << slurp(err);
    o.message = ss.str();
  }
  return o;
}

bool is_failure(const Outcome &o) {
  return o.kind == Outcome::FAIL || o.kind == Outcome::CRASH ||
         o.kind == Outcome::HANG;
}

template <typename Eval>
void shrink_loop(
    std::vector<uint64_t> &best,
    Eval &&still_fails,  // (cand) -> bool; updates best on success
    double deadline) {
  bool improved = true;
  while (improved && now() < deadline) {
    improved = false;
    // Delete blocks
    for (size_t block : {64, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0 && now() < deadline;) {
        if (i + block > best.size()) {
          continue;
        }
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + i, c.begin() + i + block);
        if (still_fails(c)) {
          improved = true;
          i = std::min(i + 1, best.size());
        }
      }
    }
    // Zero blocks
    for (size_t block : {16, 8, 4, 2}) {
      for (size_t i = 0; i + block <= best.size() && now() < deadline;
           i += block) {
        std::vector<uint64_t> c = best;
        bool changed = false;
        for (size_t j = i; j < i + block; ++j) {
          changed |= c[j] != 0;
          c[j] = 0;
        }
        if (changed && still_fails(c)) {
          improved = true;
        }
      }
    }
    // Minimise individual values
    for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
      if (best[i] == 0) {
        continue;
      }
      {
        std::vector<uint64_t> c = best;
        c[i] = 0;
        if (still_fails(c)) {
          improved = true;
          continue;
        }
      }
      uint64_t lo = 0;  // known not failing
      while (i < best.size() && best[i] - lo > 1 && now() < deadline) {
        const uint64_t mid = lo + (best[i] - lo) / 2;
        std::vector<uint64_t> c = best;
        c[i] = mid;
        const uint64_t before = best[i];
        if (still_fails(c) && i < best.size() && best[i] < before) {
          improved = true;
        } else {
          lo = mid;
        }
        if (lo + 1 >= before) {
          break;
        }
      }
    }
  }
}

bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) {
    return a.size() < b.size();
  }
  return a < b;
}

std::vector<uint64_t> shrink(
    const PropertyFn &fn,
    const Outcome &failure,
    double seconds) {
  std::vector<uint64_t> best = failure.choices;
  const double deadline = now() + seconds;
  if (failure.kind == Outcome::FAIL && !fn.racy) {
    // In-process inside one child, which publishes its best so far.
    Shared *sh = make_shared_page();
    std::copy(best.begin(), best.end(), sh->live + 1);
    sh->live[0] = best.size();
    const pid_t pid = fork();
    if (pid == 0) {
      quiet(g_err_dir + "/shrink.err");
      shrink_loop(
          best,
          [&](const std::vector<uint64_t> &c) {
            Src s{c};
            Outcome o = run_case(fn, s);
            if (o.kind == Outcome::FAIL && simpler(o.choices, best)) {
              best = o.choices;
              if (best.size() < LIVE_CAP) {
                sh->live[0] = 0;
                std::copy(best.begin(), best.end(), sh->live + 1);
                sh->live[0] = best.size();
              }
              return true;
            }
            return false;
          },
          deadline);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, WNOHANG) != pid) {
      if (now() > deadline + 20) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        break;
      }
      usleep(2000);
    }
    if (sh->live[0] > 0 || best.empty()) {
      best.assign(sh->live + 1, sh->live + 1 + sh->live[0]);
    }
    munmap(sh, sizeof(Shared));
    return best;
  }
  const double limit = failure.kind == Outcome::HANG ? 10 : 30;
  shrink_loop(
      best,
      [&](const std::vector<uint64_t> &c) {
        Outcome o = run_forked(fn, c, false, limit);
        if (o.kind == failure.kind && simpler(o.choices, best)) {
          best = o.choices;
          return true;
        }
        return false;
      },
      deadline);
  return best;
}

struct WorkerStats {
  std::vector<uint64_t> evals, discards, checks;
  std::vector<std::map<std::string, uint64_t>> labels;
};

std::vector<uint64_t> parse_choices(const std::string &text) {
  std::vector<uint64_t> out;
  const auto at = text.find("\"choices\"");
  if (at == std::string::npos) {
    return out;
  }
  size_t i = text.find('[', at) + 1;
  while (i < text.size() && text[i] != ']') {
    if (isdigit(static_cast<unsigned char>(text[i])) != 0) {
      size_t used = 0;
      out.push_back(std::stoull(text.substr(i, 24), &used));
      i += used;
    } else {
      ++i;
    }
  }
  return out;
}

std::string parse_string(const std::string &text, const std::string &key) {
  const auto at = text.find("\"" + key + "\"");
  if (at == std::string::npos) {
    return "";
  }
  const auto a = text.find('"', text.find(':', at)) + 1;
  return text.substr(a, text.find('"', a) - a);
}

}  // namespace

int run(int argc, char **argv) {
  std::map<std::string, std::string> opt;
  for (int i = 1; i + 1 < argc; i += 2) {
    opt[argv[i]] = argv[i + 1];
  }
  const Program prog = program();
  const auto get = [&](const std::string &k, const std::string &d) {
    return opt.count(k) ? opt[k] : d;
  };
  g_err_dir = get("--scratch", "/tmp");
  mkdir(g_err_dir.c_str(), 0755);

  if (opt.count("--replay")) {
    const std::string text = slurp(opt["--replay"], 1U << 26U);
    const std::string name = parse_string(text, "fn");
    for (const auto &fn : prog.fns) {
      if (fn.name != name) {
        continue;
      }
      const int tries = fn.racy ? 50 : 1;
      for (int i = 0; i < tries; ++i) {
        Outcome o = run_forked(fn, parse_choices(text), true, 2 * fn.hang_s);
        if (i == 0 || is_failure(o)) {
          std::cout << o.notes << o.message << std::endl;
        }
        if (is_failure(o)) {
          std::cout << "REPLAY-FAILS " << prog.property << " " << name
                    << std::endl;
          return 1;
        }
      }
      std::cout << "REPLAY-PASSES" << std::endl;
      return 0;
    }
    std::cerr << "no such property function: " << name << std::endl;
    return 2;
  }

  const bool thorough = get("--tier", "quick") == "thorough";
  const uint64_t seed = std::stoull(get("--seed", "1"));
  const int workers = std::stoi(get("--workers", "8"));
  const double seconds = std::stod(get("--seconds", thorough ? "3000" : "240"));
  const double scale = std::stod(get("--scale", "1"));
  const std::string only = get("--only", "");
  const std::string out_path = get("--out", "/dev/stdout");
  const double t0 = now();
  const double deadline = t0 + seconds;

  std::vector<uint64_t> target(prog.fns.size());
  for (size_t f = 0; f < prog.fns.size(); ++f) {
    target[f] = static_cast<uint64_t>(
        scale * static_cast<double>(
                    thorough ? prog.fns[f].thorough_cases
                             : prog.fns[f].quick_cases));
    if (!only.empty() && prog.fns[f].name != only) {
      target[f] = 0;
    }
  }

  constexpr uint64_t CHUNKS = 50;
  std::vector<Shared *> sh(workers);
  std::vector<pid_t> pids(workers);
  std::cout.flush();
  for (int w = 0; w < workers; ++w) {
    sh[w] = make_shared_page();
    const std::string res = g_err_dir + "/w" + std::to_string(w);
    remove((res + ".stats").c_str());
    remove((res + ".hash").c_str());
    pids[w] = fork();
    if (pids[w] != 0) {
      continue;
    }
    setpgid(0, 0);
    quiet(res + ".err");
    Shared *s = sh[w];
    std::vector<uint64_t> evals(prog.fns.size()), discards(prog.fns.size()),
        checks(prog.fns.size());
    std::vector<std::map<std::string, uint64_t>> labels(prog.fns.size());
    std::vector<std::vector<uint64_t>> samples(prog.fns.size());
    std::unordered_set<uint64_t> distinct;
    std::vector<std::pair<int, uint64_t>> distinct_list;
    for (uint64_t c = 0; c < CHUNKS && now() < deadline; ++c) {
      for (size_t f = 0; f < prog.fns.size(); ++f) {
        const auto &fn = prog.fns[f];
        const uint64_t fh = hash_str(fn.name);
        const uint64_t begin = target[f] * c / CHUNKS;
        const uint64_t end = target[f] * (c + 1) / CHUNKS;
        for (uint64_t i = begin; i < end; ++i) {
          if (i % workers != static_cast<uint64_t>(w)) {
            continue;
          }
          if (now() >= deadline) {
            break;
          }
          Src src{mix(mix(seed ^ fh) + i)};
          src.set_live(s->live, LIVE_CAP);
          s->fn = static_cast<int>(f);
          s->index = i;
          s->started = now();
          s->state = 1;
          Outcome o = run_case(fn, src);
          s->state = 0;
          ++evals[f];
          checks[f] += src.checks;
          if (o.kind == Outcome::DISCARD) {
            ++discards[f];
          }
          for (const auto &l : src.labels()) {
            ++labels[f][l];
          }
          if (o.kind == Outcome::FAIL) {
            s->kind = o.kind;
            put(s->msg, o.message);
            s->state = 3;
            _exit(3);
          }
          if (o.kind == Outcome::PASS && src.is_nontrivial()) {
            const uint64_t h = hash_choices(fh, src.choices());
            if (distinct.insert(h).second) {
              distinct_list.emplace_back(static_cast<int>(f), h);
            }
            if (samples[f].empty()) {
              samples[f] = src.choices();
            }
          }
        }
      }
    }
    {
      std::ofstream st(res + ".stats");
      for (size_t f = 0; f < prog.fns.size(); ++f) {
        st << "fn " << f << " " << evals[f] << " " << discards[f] << " "
           << checks[f] << "\n";
        for (const auto &[k, v] : labels[f]) {
          st << "label " << f << " " << v << " " << k << "\n";
        }
        if (!samples[f].empty()) {
          st << "sample " << f;
          for (auto v : samples[f]) {
            st << " " << v;
          }
          st << "\n";
        }
      }
      std::ofstream hs(res + ".hash", std::ios::binary);
      for (auto &[f, h] : distinct_list) {
        hs.write(reinterpret_cast<const char *>(&f), sizeof f);
        hs.write(reinterpret_cast<const char *>(&h), sizeof h);
      }
    }
    _exit(0);
  }

  // Monitor
  int left = workers;
  int failed_worker = -1;
  Outcome failure;
  size_t failed_fn = 0;
  std::vector<bool> done(workers, false);
  while (left > 0 && failed_worker < 0) {
    for (int w = 0; w < workers && failed_worker < 0; ++w) {
      if (done[w]) {
        continue;
      }
      int st = 0;
      const pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        done[w] = true;
        --left;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          failed_worker = w;
          failed_fn = sh[w]->fn;
          failure.choices.assign(
              sh[w]->live + 1, sh[w]->live + 1 + sh[w]->live[0]);
          if (sh[w]->state == 3) {
            failure.kind = Outcome::FAIL;
            failure.message = sh[w]->msg;
          } else {
            failure.kind = Outcome::CRASH;
            std::ostringstream ss;
            ss << "worker ended abnormally (wait status " << st << "): "
               << slurp(g_err_dir + "/w" + std::to_string(w) + ".err");
            failure.message = ss.str();
          }
        }
      } else if (
          sh[w]->state == 1 &&
          now() - sh[w]->started > prog.fns[sh[w]->fn].hang_s) {
        kill(pids[w], SIGSTOP);
        failed_worker = w;
        failed_fn = sh[w]->fn;
        failure.kind = Outcome::HANG;
        failure.message = "case did not finish in time";
        failure.choices.assign(
            sh[w]->live + 1, sh[w]->live + 1 + sh[w]->live[0]);
      }
    }
    usleep(1000);
  }
  for (int w = 0; w < workers; ++w) {
    if (!done[w]) {
      kill(-pids[w], SIGKILL);
      kill(pids[w], SIGKILL);
      waitpid(pids[w], nullptr, 0);
    }
  }

  std::ostringstream js;
  js << "{\n \"property\": " << json_str(prog.property)
     << ",\n \"rule\": " << json_str(prog.rule) << ",\n";
  js << " \"assumptions\": [";
  for (size_t i = 0; i < prog.assumptions.size(); ++i) {
    js << (i ? ", " : "") << json_str(prog.assumptions[i]);
  }
  js << "],\n";

  if (failed_worker >= 0) {
    const auto &fn = prog.fns[failed_fn];
    // Does it reproduce?
    int again = 0;
    Outcome replayed;
    const double lim = failure.kind == Outcome::HANG ? 2 * fn.hang_s : 300;
    const int tries = fn.racy ? 20 : 3;
    for (int i = 0; i < tries; ++i) {
      Outcome o = run_forked(fn, failure.choices, true, lim);
      if (is_failure(o)) {
        ++again;
        replayed = o;
        if (fn.racy || failure.kind == Outcome::HANG) {
          break;
        }
      }
    }
    std::vector<uint64_t> best = failure.choices;
    const bool report =
        again > 0 || (fn.racy && failure.kind == Outcome::FAIL);
    if (again > 0) {
      best = shrink(fn, replayed, failure.kind == Outcome::HANG ? 60 : 40);
    }
    Outcome fin = run_forked(fn, best, true, lim);
    for (int i = 0; i < (fn.racy ? 50 : 3) && !is_failure(fin); ++i) {
      fin = run_forked(fn, best, true, lim);
    }
    if (!is_failure(fin)) {
      best = failure.choices;
      fin = again > 0 ? replayed : failure;
    }
    js << " \"failure\": {\"fn\": " << json_str(fn.name)
       << ", \"reproduced\": " << again << ", \"report\": "
       << (report ? "true" : "false") << ", \"kind\": "
       << (failure.kind == Outcome::FAIL    ? "\"wrong\""
           : failure.kind == Outcome::CRASH ? "\"crash\""
                                            : "\"hang\"")
       << ",\n  \"message\": " << json_str(fin.message)
       << ",\n  \"first_message\": " << json_str(failure.message)
       << ",\n  \"notes\": " << json_str(fin.notes) << ",\n  \"choices\": [";
    for (size_t i = 0; i < best.size(); ++i) {
      js << (i ? ", " : "") << best[i];
    }
    js << "]},\n";
  }

  // Merge
  std::vector<uint64_t> evals(prog.fns.size()), discards(prog.fns.size()),
      checks(prog.fns.size()), dist(prog.fns.size());
  std::vector<std::map<std::string, uint64_t>> labels(prog.fns.size());
  std::vector<std::vector<uint64_t>> samples(prog.fns.size());
  std::unordered_set<uint64_t> all;
  for (int w = 0; w < workers; ++w) {
    const std::string res = g_err_dir + "/w" + std::to_string(w);
    std::ifstream st(res + ".stats");
    std::string line;
    while (std::getline(st, line)) {
      std::istringstream ss(line);
      std::string kind;
      size_t f = 0;
      ss >> kind >> f;
      if (kind == "fn") {
        uint64_t a = 0, b = 0, c = 0;
        ss >> a >> b >> c;
        evals[f] += a;
        discards[f] += b;
        checks[f] += c;
      } else if (kind == "label") {
        uint64_t n = 0;
        std::string l;
        ss >> n;
        std::getline(ss, l);
        labels[f][l.substr(1)] += n;
      } else if (kind == "sample" && samples[f].empty()) {
        uint64_t v = 0;
        while (ss >> v) {
          samples[f].push_back(v);
        }
      }
    }
    std::ifstream hs(res + ".hash", std::ios::binary);
    int f = 0;
    uint64_t h = 0;
    while (hs.read(reinterpret_cast<char *>(&f), sizeof f) &&
           hs.read(reinterpret_cast<char *>(&h), sizeof h)) {
      if (all.insert(h).second) {
        ++dist[f];
      }
    }
  }
  uint64_t te = 0, tn = 0;
  js << " \"fns\": [\n";
  for (size_t f = 0; f < prog.fns.size(); ++f) {
    te += evals[f];
    tn += dist[f];
    js << "  {\"name\": " << json_str(prog.fns[f].name)
       << ", \"target\": " << target[f] << ", \"evaluations\": " << evals[f]
       << ", \"discards\": " << discards[f]
       << ", \"comparisons\": " << checks[f]
       << ", \"distinct_nontrivial\": " << dist[f] << ", \"labels\": {";
    bool first = true;
    for (const auto &[k, v] : labels[f]) {
      js << (first ? "" : ", ") << json_str(k) << ": " << v;
      first = false;
    }
    js << "}, \"sample\": ";
    if (samples[f].empty()) {
      js << "null";
    } else {
      Outcome o = run_forked(prog.fns[f], samples[f], true, 120);
      std::string n = o.notes;
      if (n.size() > 1500) {
        n = n.substr(0, 1500) + "...";
      }
      js << json_str(n);
    }
    js << "}" << (f + 1 < prog.fns.size() ? ",\n" : "\n");
  }
  js << " ],\n \"evaluations\": " << te << ",\n \"distinct_nontrivial\": " << tn
     << ",\n \"time_capped\": " << (now() > deadline ? "true" : "false")
     << ",\n \"wall_s\": " << now() - t0 << "\n}\n";
  std::ofstream(out_path) << js.str();
  return failed_worker >= 0 ? 1 : 0;
}

}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::run(argc, argv); }
#endif
