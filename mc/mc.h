// A small stateless explicit-state explorer.
//
// A "config" is a closed driver: a function that builds the real objects, then repeatedly calls
// ctx.choose(n) to decide what happens next, performs the step on the real code and on the reference
// model, and calls ctx.fail() when they disagree.  The explorer enumerates EVERY sequence of choices
// (depth first, choice 0 first), re-executing the driver from scratch for each one.  Nothing is sampled.
// Work is sharded over forked worker processes by a hash of the first choices; crashes, hangs and
// escaped exceptions of the code under test are violations too.  Every violation is replayed in a fresh
// process before it is reported.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
  return h;
}
inline uint64_t mixd(uint64_t h, double d) { uint64_t u; if (d == 0) d = 0; memcpy(&u, &d, 8); return mix(h, u); }
inline uint64_t mixs(uint64_t h, const std::string& s) { for (unsigned char c : s) h = mix(h, c); return mix(h, s.size()); }

struct Fail { std::string sig, msg; };
struct Skip {};
struct Diverged { std::string msg; };

struct Shared {
  static const int MAXW = 64, MAXCH = 4096, MAXMSG = 8192, MAXCFG = 8192, MAXKNOWN = 64;
  std::atomic<int> stop;
  std::atomic<uint64_t> setUsed[2];
  struct Slot {
    std::atomic<uint64_t> progress;   // executions started
    int cfg, n; int choices[MAXCH];   // execution being run: choice prefix, then all zeros
    int failed;                       // 1 = Fail reported
    int fcfg, fn; int fchoices[MAXCH]; char sig[512]; char msg[MAXMSG];
    int diverged;
  } w[MAXW];
  std::atomic<uint64_t> execs, steps, fullruns;
  std::atomic<uint64_t> cfgExecs[MAXCFG];
  std::atomic<int> known[MAXKNOWN];
  // sample slots
  struct Sample { std::atomic<uint64_t> set; int n; int choices[MAXCH]; } sample[4];
  char trace[1 << 16];  // of the failing execution, when a history is repeated
};

struct HashSet {  // lock-free insert-only set of 64 bit fingerprints in shared memory
  std::atomic<uint64_t>* t = nullptr; uint64_t cap = 0; std::atomic<uint64_t>* used = nullptr;
  void init(uint64_t c, std::atomic<uint64_t>* u) {
    cap = c; used = u;
    t = (std::atomic<uint64_t>*)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) { perror("mmap"); _exit(2); }
  }
  void insert(uint64_t h) {
    if (h == 0) h = 1;
    if (used->load(std::memory_order_relaxed) * 10 > cap * 8) return;  // full: the count becomes a lower bound
    uint64_t i = h & (cap - 1);
    for (;;) {
      uint64_t cur = t[i].load(std::memory_order_relaxed);
      if (cur == h) return;
      if (cur == 0) {
        uint64_t z = 0;
        if (t[i].compare_exchange_strong(z, h)) { used->fetch_add(1); return; }
        if (z == h) return;
      }
      i = (i + 1) & (cap - 1);
    }
  }
};

class Ctx {
 public:
  std::vector<int> choices, arity;
  size_t prefixLen = 0;
  std::vector<int> prefixArity;
  bool verbose = false;
  std::ostringstream log_;
  uint64_t nsteps = 0;
  uint64_t cfgHash = 0;
  bool sharding = false, decided = false; int W = 1, me = 0; uint64_t prod = 1, shardHash = 0;
  HashSet *states = nullptr, *outcomes = nullptr;
  std::vector<uint64_t> localStates;
  uint64_t outHash = 0;

  int choose(int n) {
    if (n <= 0) throw Diverged{"choose(0)"};
    size_t i = arity.size();
    if (i < choices.size()) {
      if (i < prefixArity.size() && prefixArity[i] != n) throw Diverged{"arity changed while replaying a prefix"};
      if (choices[i] >= n) throw Diverged{"choice out of range while replaying"};
    } else choices.push_back(0);
    arity.push_back(n);
    if (arity.size() >= Shared::MAXCH) throw Diverged{"too many choices"};
    int c = choices[i];
    if (sharding && !decided) {
      shardHash = mix(shardHash, c + 1); prod *= (uint64_t)n;
      if (prod >= 512) decide();
    }
    return c;
  }
  template <class C> const typename C::value_type& pick(const C& c) { return c[choose((int)c.size())]; }
  bool flip() { return choose(2) == 1; }
  void decide() {
    decided = true;
    if ((int)(shardHash % (uint64_t)W) != me) throw Skip{};
  }
  std::atomic<uint64_t>* beat = nullptr;  // a sign of life during long executions
  void step(uint64_t k = 1) { nsteps += k; if (beat && !(nsteps & 0x3fff)) beat->fetch_add(1); }
  void state(uint64_t h) { if (states) states->insert(mix(h, cfgHash)); }
  void outcome(uint64_t h) { outHash = mix(outHash, h); }
  template <class F> void log(F f) { if (verbose) { log_ << f() << "\n"; } }
  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Fail{sig, msg}; }
  void check(bool ok, const std::string& sig, const std::function<std::string()>& msg) { if (!ok) throw Fail{sig, msg()}; }
};

using Driver = std::function<void(Ctx&)>;
struct Config { std::string name; Driver run; bool deep; };

struct Main {
  std::string property, bounds; std::vector<std::string> assumptions;
  std::vector<Config> configs;
  // options
  std::string tier = "quick", evidence, replayIn, replayOut, knownFile, onlyCfg;
  int workers = 8; uint64_t seed = 1; double hangLimit = 25;
  std::vector<std::pair<std::string, std::string>> known;  // sig, text
  Shared* sh = nullptr; HashSet states, outcomes;
  bool thorough() const { return tier == "thorough"; }

  void add(const std::string& name, Driver d, bool deep = false) { configs.push_back({name, d, deep}); }

  static double now() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

  void parse(int argc, char** argv) {
    if (const char* s = getenv("VERIF_TIER")) tier = s;
    if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto next = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing arg\n"); exit(2); } return argv[++i]; };
      if (a == "--tier") tier = next();
      else if (a == "--evidence") evidence = next();
      else if (a == "--replay") replayIn = next();
      else if (a == "--replay-out") replayOut = next();
      else if (a == "--known") knownFile = next();
      else if (a == "--workers") workers = atoi(next().c_str());
      else if (a == "--config") onlyCfg = next();
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
    }
    if (workers > Shared::MAXW) workers = Shared::MAXW;
    if (!knownFile.empty()) {
      std::ifstream f(knownFile); std::string line;
      while (std::getline(f, line)) {
        // finding: property=C99 key=<sig> -- <what fails>
        if (line.rfind("finding: ", 0) != 0) continue;
        auto p = line.find("property=" + property + " "); auto k = line.find("key="); auto d = line.find(" -- ");
        if (p == std::string::npos || k == std::string::npos || d == std::string::npos) continue;
        known.push_back({line.substr(k + 4, d - k - 4), line.substr(d + 4)});
      }
    }
  }

  static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c == '\n') o += "\\n";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o;
  }

  // one execution; returns true when it completed (not skipped)
  // (tcfg, target): the execution whose trace is wanted, when the history of a worker is repeated
  void worker(int me, size_t from = 0, int tcfg = -1, const std::vector<int>& target = {}) {
    auto& slot = sh->w[me];
    for (size_t ci = from; ci < configs.size(); ci++) {
      auto& cfg = configs[ci];
      std::vector<int> prefix, prefixArity;
      bool more = true; uint64_t mine = 0;
      while (more) {
        if (sh->stop.load()) return;
        Ctx c; c.choices = prefix; c.prefixLen = prefix.size(); c.prefixArity = prefixArity;
        c.sharding = true; c.W = workers; c.me = me; c.shardHash = mix(77, ci); c.cfgHash = mixs(3, cfg.name);
        c.states = &states; c.outcomes = &outcomes;
        slot.cfg = (int)ci; slot.n = (int)prefix.size();
        for (size_t i = 0; i < prefix.size() && i < Shared::MAXCH; i++) slot.choices[i] = prefix[i];
        slot.progress.fetch_add(1); c.beat = &slot.progress;
        if ((int)ci == tcfg && prefix.size() <= target.size() && std::equal(prefix.begin(), prefix.end(), target.begin()) && std::all_of(target.begin() + prefix.size(), target.end(), [](int x) { return x == 0; })) c.verbose = true;
        bool done = false;
        std::optional<Fail> fl;
        try {
          cfg.run(c);
          if (!c.decided) c.decide();
          done = true;
        } catch (Skip&) {
        } catch (Fail& f) { fl = f;
        } catch (Diverged& d) { slot.diverged = 1; snprintf(slot.msg, Shared::MAXMSG, "%s: %s", cfg.name.c_str(), d.msg.c_str()); sh->stop = 1; return;
        } catch (std::exception& e) { fl = Fail{"escaped-exception", std::string("unexpected exception: ") + e.what()};
        } catch (...) { fl = Fail{"escaped-exception", "unexpected exception"}; }
        if (fl) {
          bool kn = false;
          for (size_t k = 0; k < known.size() && k < Shared::MAXKNOWN; k++) if (known[k].first == fl->sig) { sh->known[k] = 1; kn = true; }
          if (!kn) {
            slot.fcfg = (int)ci; slot.fn = (int)c.arity.size();
            for (int i = 0; i < slot.fn; i++) slot.fchoices[i] = c.choices[i];
            snprintf(slot.sig, sizeof slot.sig, "%s", fl->sig.c_str()); snprintf(slot.msg, Shared::MAXMSG, "%s", fl->msg.c_str());
            if (c.verbose) snprintf(sh->trace, sizeof sh->trace, "%s", c.log_.str().c_str());
            slot.failed = 1; sh->stop = 1; return;
          }
          done = true;
        }
        if (done) {
          sh->execs.fetch_add(1); sh->steps.fetch_add(c.nsteps); sh->cfgExecs[ci].fetch_add(1);
          outcomes.insert(mix(c.outHash, c.cfgHash));
          // deterministic samples: first, and those at power-of-4 ranks of this worker
          if (me == 0) {
            uint64_t n = ++mine;
            int slotId = ci == 0 ? 0 : ci == configs.size() / 3 ? 1 : ci == 2 * configs.size() / 3 ? 2 : ci + 1 == configs.size() ? 3 : -1;
            if (slotId >= 0 && (n < 4 || (n & (n - 1)) == 0)) {
              auto& s = sh->sample[slotId]; s.n = (int)c.arity.size();
              for (int i = 0; i < s.n; i++) s.choices[i] = c.choices[i];
              s.set = ci + 1;
            }
          }
        }
        // next prefix
        more = false;
        size_t n = c.arity.size();
        while (n > 0) {
          if (c.choices[n - 1] + 1 < c.arity[n - 1]) {
            prefix.assign(c.choices.begin(), c.choices.begin() + n); prefix[n - 1]++;
            prefixArity.assign(c.arity.begin(), c.arity.begin() + n);
            more = true; break;
          }
          n--;
        }
      }
    }
  }

  struct ReplayResult { int status = 0; /*0 ok,1 fail,2 crash,3 hang,4 diverged*/ std::string sig, msg, trace; };

  ReplayResult replayOnce(int ci, const std::vector<int>& ch, double limit) {
    ReplayResult r;
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]); quiet();
      auto put = [&](const std::string& k, const std::string& v) {
        uint32_t n = (uint32_t)v.size(); std::string b = k; b.append((char*)&n, 4); b += v;
        size_t o = 0; while (o < b.size()) { ssize_t w = write(fd[1], b.data() + o, b.size() - o); if (w <= 0) _exit(9); o += (size_t)w; } };
      Ctx c; c.choices = ch; c.verbose = true; c.cfgHash = mixs(3, configs[ci].name);
      try { configs[ci].run(c); put("T", c.log_.str()); put("S", "ok"); }
      catch (Fail& f) { put("T", c.log_.str()); put("G", f.sig); put("M", f.msg); put("S", "fail"); }
      catch (Skip&) { put("S", "ok"); }
      catch (Diverged& d) { put("M", d.msg); put("S", "div"); }
      catch (std::exception& e) { put("T", c.log_.str()); put("G", "escaped-exception"); put("M", std::string("unexpected exception: ") + e.what()); put("S", "fail"); }
      catch (...) { put("T", c.log_.str()); put("G", "escaped-exception"); put("M", "unexpected exception"); put("S", "fail"); }
      _exit(0);
    }
    close(fd[1]);
    std::string buf; char tmp[65536]; double t0 = now(); bool hang = false;
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    for (;;) {
      ssize_t n = read(fd[0], tmp, sizeof tmp);
      if (n > 0) { buf.append(tmp, n); continue; }
      if (n == 0) break;
      if (now() - t0 > limit) { hang = true; kill(pid, SIGKILL); break; }
      usleep(2000);
    }
    close(fd[0]); int st; waitpid(pid, &st, 0);
    std::string S;
    size_t o = 0;
    while (o + 5 <= buf.size()) { char k = buf[o]; uint32_t n; memcpy(&n, buf.data() + o + 1, 4); if (o + 5 + n > buf.size()) break; std::string v = buf.substr(o + 5, n); o += 5 + n;
      if (k == 'T') r.trace = v; if (k == 'G') r.sig = v; if (k == 'M') r.msg = v; if (k == 'S') S = v; }
    if (hang) { r.status = 3; r.sig = "hang"; r.msg = "the step does not terminate (limit " + std::to_string((int)limit) + " s)"; }
    else if (WIFSIGNALED(st)) { r.status = 2; r.sig = "crash"; r.msg = std::string("the process was ended by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; }
    else if (S == "fail") r.status = 1; else if (S == "ok") r.status = 0; else if (S == "div") r.status = 4;
    else { r.status = 2; r.sig = "crash"; r.msg = "the process exited with status " + std::to_string(WEXITSTATUS(st)); }
    return r;
  }

  static void quiet() {
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) { dup2(n, 1); dup2(n, 2); close(n); }
#ifndef MC_NO_RLIMIT
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
  }

  // everything a worker ran, from the given config on, in a fresh process: for violations that need what ran before them
  bool replayHistory(int me, int from, int ci, const std::vector<int>& ch, double limit, ReplayResult& r) {
    auto& slot = sh->w[me]; uint64_t ex = sh->execs, st = sh->steps; std::vector<uint64_t> per; for (size_t i = 0; i < configs.size(); i++) per.push_back(sh->cfgExecs[i]);
    sh->stop = 0; slot.failed = 0; slot.diverged = 0; slot.cfg = -1; sh->trace[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork(); if (pid < 0) return false;
    if (pid == 0) { quiet(); worker(me, from, ci, ch); _exit(0); }
    int w = 0; double t0 = now(); bool late = false; while (waitpid(pid, &w, WNOHANG) == 0) { if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &w, 0); late = true; break; } usleep(2000); }
    sh->execs = ex; sh->steps = st; for (size_t i = 0; i < configs.size(); i++) sh->cfgExecs[i] = per[i];
    if (late || slot.diverged) return false;
    if (slot.failed && slot.fcfg == ci && std::vector<int>(slot.fchoices, slot.fchoices + slot.fn) == ch) { r = {1, slot.sig, slot.msg, sh->trace}; return true; }
    if (WIFSIGNALED(w) && WTERMSIG(w) != SIGKILL && slot.cfg == ci && std::equal(ch.begin(), ch.end(), slot.choices, slot.choices + slot.n)) { r = {2, "crash", std::string("the process was ended by signal ") + strsignal(WTERMSIG(w)), ""}; return true; }
    return false;
  }

  int report(int ci, const std::vector<int>& ch, const std::string& sig0, int who, double t0) {
    // replay twice in fresh processes
    ReplayResult r;
    bool same = false;
    for (int attempt = 0; attempt < 2; attempt++) {  // a hang may be an overloaded machine: the second try gets longer
      r = replayOnce(ci, ch, attempt ? 120 : 40);
      if (r.status == 4) { fprintf(stderr, "internal error: replay diverged: %s\n", r.msg.c_str()); return 2; }
      if (r.status == 3) continue;
      auto r2 = replayOnce(ci, ch, 120);
      same = r2.status == r.status && r2.sig == r.sig; break;
    }
    if (r.status == 3) same = true;
    int from = -1;  // >= 0: the history of the worker, from this config on, is part of the violation
    if (r.status == 0 || !same || (!sig0.empty() && r.sig != sig0)) {
      auto r1 = r; std::string why = configs[ci].name + "' did not replay (" + sig0 + " / " + std::to_string(r1.status) + " " + r1.sig + ")"; bool ok = false;
      for (int f : {ci, 0}) if (!ok) { if (replayHistory(who, f, ci, ch, 300, r)) { ok = true; from = f; } if (f == 0) break; }
      if (!ok) { fprintf(stderr, "internal error: violation of config '%s\n", why.c_str()); return 2; }
      r.msg += "\n  (only after the executions that came before in the same process: the code keeps something between them)";
    }
    std::ofstream f(replayOut);
    f << "property " << property << "\nconfig " << configs[ci].name << "\nchoices";
    for (int x : ch) f << " " << x;
    if (from >= 0) f << "\nhistory " << from << " " << who << " " << workers << " " << tier;
    f << "\nsignature " << r.sig << "\nmessage " << r.msg << "\n\n--- trace (steps executed on the real code) ---\n" << r.trace << "\n";
    f.close();
    printf("%s\n  config: %s\n  %s\n", property.c_str(), configs[ci].name.c_str(), r.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", property.c_str(), replayOut.c_str());
    fflush(stdout);
    writeEvidence(1, t0);
    return 1;
  }

  void writeEvidence(int violations, double t0) {
    if (evidence.empty()) return;
    std::ofstream f(evidence);
    f << "{\"property\":\"" << property << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"model_checking\",\"coverage\":{";
    f << "\"states\":" << sh->setUsed[0].load() << ",\"transitions\":" << sh->steps.load() << ",\"traces_validated_against_impl\":" << sh->execs.load();
    f << ",\"distinct_outcomes\":" << sh->setUsed[1].load() << ",\"configs\":" << configs.size() << ",\"exhaustive\":" << (violations ? "false" : "true");
    f << ",\"bounds\":\"" << jesc(bounds) << "\",\"executions_per_config\":{";
    for (size_t i = 0; i < configs.size(); i++) f << (i ? "," : "") << "\"" << jesc(configs[i].name) << "\":" << sh->cfgExecs[i].load();
    f << "},\"samples\":[";
    bool first = true;
    for (int s = 0; s < 4; s++) {
      uint64_t set = sh->sample[s].set.load(); if (!set) continue;
      std::vector<int> ch(sh->sample[s].choices, sh->sample[s].choices + sh->sample[s].n);
      auto r = replayOnce((int)set - 1, ch, 60);
      std::string t = r.trace; if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      f << (first ? "" : ",") << "\"" << jesc(configs[set - 1].name + ": " + t) << "\""; first = false;
    }
    f << "]},\"assumptions\":[";
    for (size_t i = 0; i < assumptions.size(); i++) f << (i ? "," : "") << "\"" << jesc(assumptions[i]) << "\"";
    char w[32]; snprintf(w, 32, "%.2f", now() - t0);
    f << "],\"wall_s\":" << w << ",\"violations\":" << violations << "}\n";
  }

  int doReplay() {
    std::ifstream f(replayIn); std::string line, cfg; std::vector<int> ch; int from = -1, who = 0;
    while (std::getline(f, line)) {
      if (line.rfind("config ", 0) == 0) cfg = line.substr(7);
      else if (line.rfind("choices", 0) == 0) { std::istringstream is(line.substr(7)); int x; while (is >> x) ch.push_back(x); }
      else if (line.rfind("history ", 0) == 0) { std::istringstream is(line.substr(8)); is >> from >> who >> workers; }
      else if (line.empty()) break;
    }
    for (size_t i = 0; i < configs.size(); i++) if (configs[i].name == cfg) {
      ReplayResult r; if (from < 0) r = replayOnce((int)i, ch, 120); else replayHistory(who, from, (int)i, ch, 600, r);
      printf("config %s\n%s\n%s: %s\n", cfg.c_str(), r.trace.c_str(), r.status == 0 ? "held" : r.sig.c_str(), r.msg.c_str());
      if (r.status == 0) return 0;
      if (r.status == 4) return 2;
      printf("VIOLATION property=%s replay=%s\n", property.c_str(), replayIn.c_str());
      return 1;
    }
    fprintf(stderr, "no config '%s'\n", cfg.c_str()); return 2;
  }

  int run() {
    double t0 = now();
    if (!replayIn.empty()) { std::ifstream f(replayIn); std::string l, x; while (std::getline(f, l) && !l.empty()) if (l.rfind("history ", 0) == 0) { std::istringstream is(l); is >> x >> x >> x >> x >> tier; } }
    if (!thorough()) configs.erase(std::remove_if(configs.begin(), configs.end(), [](const Config& c) { return c.deep; }), configs.end());
    if (!onlyCfg.empty()) configs.erase(std::remove_if(configs.begin(), configs.end(), [&](const Config& c) { return c.name.find(onlyCfg) == std::string::npos; }), configs.end());
    std::set<std::string> names; for (auto& c : configs) if (!names.insert(c.name).second) { fprintf(stderr, "duplicate config %s\n", c.name.c_str()); return 2; }
    if (configs.empty() || configs.size() > Shared::MAXCFG) { fprintf(stderr, "bad number of configs\n"); return 2; }
    if (replayOut.empty()) replayOut = "/tmp/replay-" + property + ".txt";
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    states.init(1ull << (thorough() ? 27 : 25), &sh->setUsed[0]); outcomes.init(1ull << 23, &sh->setUsed[1]);
    if (!replayIn.empty()) return doReplay();
    std::vector<pid_t> pid(workers); std::vector<uint64_t> last(workers, 0); std::vector<double> lastT(workers, now());
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < workers; i++) {
      pid[i] = fork();
      if (pid[i] < 0) { perror("fork"); return 2; }
      if (pid[i] == 0) { quiet(); worker(i); _exit(0); }
    }
    int alive = workers; int candidate = -1, candKind = 0;
    while (alive > 0) {
      bool any = false;
      for (int i = 0; i < workers; i++) {
        if (pid[i] <= 0) continue;
        int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
        if (r == pid[i]) {
          pid[i] = -1; alive--; any = true;
          if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { if (candidate < 0) { candidate = i; candKind = 2; } sh->stop = 1; }
        } else {
          uint64_t p = sh->w[i].progress.load();
          if (p != last[i]) { last[i] = p; lastT[i] = now(); }
          else if (now() - lastT[i] > hangLimit) {
            if (candidate < 0) { candidate = i; candKind = 3; }
            kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = -1; alive--; sh->stop = 1; any = true;
          }
        }
      }
      if (!any) usleep(5000);
    }
    for (int i = 0; i < workers; i++) if (sh->w[i].diverged) { fprintf(stderr, "internal error: %s\n", sh->w[i].msg); return 2; }
    // choose the simplest reported failure
    int best = -1;
    for (int i = 0; i < workers; i++) if (sh->w[i].failed) {
      auto key = [&](int k) { return std::make_pair(sh->w[k].fcfg, sh->w[k].fn); };
      if (best < 0 || key(i) < key(best)) best = i;
    }
    if (best >= 0) {
      std::vector<int> ch(sh->w[best].fchoices, sh->w[best].fchoices + sh->w[best].fn);
      return report(sh->w[best].fcfg, ch, sh->w[best].sig, best, t0);
    }
    if (candidate >= 0) {
      auto& s = sh->w[candidate]; std::vector<int> ch(s.choices, s.choices + s.n);
      auto r = replayOnce(s.cfg, ch, 60);
      if (r.status == 0 && candKind == 3) {  // slow machine, not a hang: say so instead of guessing
        fprintf(stderr, "internal error: config '%s' exceeded the progress limit but completes alone\n", configs[s.cfg].name.c_str()); return 2;
      }
      return report(s.cfg, ch, "", candidate, t0);
    }
    if (sh->execs.load() == 0) { fprintf(stderr, "internal error: nothing explored\n"); return 2; }
    writeEvidence(0, t0);
    for (size_t k = 0; k < known.size() && k < Shared::MAXKNOWN; k++)
      if (sh->known[k]) printf("KNOWN-FINDING: property=%s %s\n", property.c_str(), known[k].second.c_str());
    printf("%s held: configs=%zu executions=%llu steps=%llu states=%llu distinct_outcomes=%llu wall=%.1fs\n", property.c_str(), configs.size(),
           (unsigned long long)sh->execs.load(), (unsigned long long)sh->steps.load(), (unsigned long long)sh->setUsed[0].load(),
           (unsigned long long)sh->setUsed[1].load(), now() - t0);
    return 0;
  }
};

}  // namespace mc
