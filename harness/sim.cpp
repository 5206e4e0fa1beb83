#include "sim.h"

#include "process.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <mutex>
#include <new>
#include <random>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
#include <unistd.h>

namespace fs = std::filesystem;

// After a command this thread pauses now and then where it allocates, so that
// what the library does with the result overlaps between threads.
static thread_local int hot = 0;
void *operator new(size_t n) {
  if (hot > 0) {
    hot--;
    thread_local unsigned x = (unsigned)(size_t)&hot;
    x = x * 1664525u + 1013904223u;
    if ((x >> 16) % 3 == 0)
      usleep(20 + (x >> 20) % 60);
  }
  if (void *p = malloc(n ? n : 1))
    return p;
  throw std::bad_alloc();
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

namespace sim {

std::string W;

namespace {
std::mutex mu;
int log_fd = -1;
std::atomic<int> *shared_id = nullptr;
J g_desc;
J g_plan;
std::mt19937_64 rng;
std::atomic<int> active_cmds{0};
std::atomic<long> starts{0};

void RawWrite(int fd, const char *p, size_t n) {
  while (n > 0) {
    long r = syscall(SYS_write, fd, p, n);
    if (r <= 0)
      return;
    p += r;
    n -= (size_t)r;
  }
}

bool StartsWith(const std::string &s, const std::string &p) {
  return s.compare(0, p.size(), p) == 0;
}
bool EndsWith(const std::string &s, const std::string &p) {
  return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}
} // namespace

void Die(const char *why) {
  {
    Lock l;
    LogUnlocked({{"e", "die"}, {"why", why}});
    // keep the lock: nothing may be logged after the crash
    kill(getpid(), SIGKILL);
    for (;;)
      pause();
  }
}

std::string Rel(const std::string &p) {
  const std::string pre = W + "/";
  if (StartsWith(p, pre))
    return p.substr(pre.size());
  return p;
}

std::string Mask(const std::string &s) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    if (s.compare(i, W.size(), W) == 0) {
      out += "$W";
      i += W.size();
    } else {
      out += s[i++];
    }
  }
  return out;
}

namespace {
std::set<std::string> tmpl_outs; // absolute
}
void KnowTemplates(const J &desc) {
  for (const auto &b : desc["builders"])
    if (b["kind"] == "tmpl")
      for (const auto &m : b["tmpls"])
        tmpl_outs.insert(W + "/" + m["out"].get<std::string>());
}
void ForgetTemplates() { tmpl_outs.clear(); }

std::string Stamp(const std::string &abs) {
  std::ifstream f(abs, std::ios::binary);
  if (!f.is_open())
    return "-";
  std::ostringstream o;
  o << f.rdbuf();
  if (tmpl_outs.count(abs) == 0)
    return o.str();
  // written by the library itself: content and time
  std::string c = Mask(o.str()), r;
  for (size_t i = 0; i < c.size(); i++)
    if (!(c[i] == '/' && i + 1 < c.size() && c[i + 1] == '|'))
      r += c[i];
  struct stat st;
  if (::stat(abs.c_str(), &st) != 0)
    return "-";
  return r + "@" + std::to_string(st.st_mtim.tv_sec % 100000) + "." +
         std::to_string(st.st_mtim.tv_nsec);
}

void PutFile(const std::string &abs, const std::string &content,
             long long mtime_ns) {
  std::error_code ec;
  fs::create_directories(fs::path(abs).parent_path(), ec);
  {
    std::ofstream f(abs, std::ios::binary | std::ios::trunc);
    f << content;
  }
  if (mtime_ns >= 0) {
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = mtime_ns / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = mtime_ns % 1000000000LL;
    utimensat(AT_FDCWD, abs.c_str(), ts, 0);
  }
}

// Versions of a file get distinct, deliberately non-monotonic times: some
// differ only in nanoseconds, some only in the high digits, some go back.
long long VersionTime(const std::string &rel, int ver) {
  (void)rel;
  static const long long t[] = {
      1650000000123456789LL, 1650000000123456788LL, 1650000001123456789LL,
      1549999999987654321LL, 1650000000123456790LL, 1650003600123456789LL,
      1650000000000000000LL, 1750000000123456789LL};
  if (ver < 8)
    return t[ver];
  return 1660000000000000000LL + ver * 7LL;
}

void WriteVersion(const std::string &rel, int ver) {
  std::string c = "v" + std::to_string(ver);
  if (EndsWith(rel, "t9.in"))
    c += "|{k}{k}\n}}{{ \t{k}\n";
  else if (EndsWith(rel, ".in") && !EndsWith(rel, "t2.in")) // a template
    c += "|{project_root_dir}|{project_build_dir}|{current_root_dir}|"
         "{current_build_dir}|{k}|{{lit}}";
  PutFile(W + "/" + rel, c, VersionTime(rel, ver));
}

void LogOpen(const std::string &path) {
  log_fd = open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
}

Lock::Lock() { mu.lock(); }
Lock::~Lock() { mu.unlock(); }

void LogUnlocked(const J &ev) {
  std::string s =
      ev.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + "\n";
  RawWrite(log_fd, s.data(), s.size());
}
void Log(const J &ev) {
  Lock l;
  LogUnlocked(ev);
}

void SharedInit() {
  void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shared_id = new (p) std::atomic<int>(1);
}
int NextId() { return shared_id->fetch_add(1); }

void SetRun(const J &desc, const J &plan) {
  g_desc = desc;
  g_plan = plan.is_object() ? plan : J::object();
  rng.seed(g_plan.value("seed", 1));
}

std::vector<std::string> Tokens(const std::string &cmd) {
  std::vector<std::string> out;
  std::string cur;
  bool in = false, q = false;
  for (char c : cmd) {
    if (c == '"') {
      q = !q;
      in = true;
    } else if (!q && (c == ' ' || c == '\t' || c == '\n' || c == '\r')) {
      if (in)
        out.push_back(cur);
      cur.clear();
      in = false;
    } else {
      cur += c;
      in = true;
    }
  }
  if (in)
    out.push_back(cur);
  for (auto &t : out) // "dir" and "dir/" are the same
    while (t.size() > 1 && t.back() == '/')
      t.pop_back();
  return out;
}

namespace {

struct Step {
  std::string kind{"other"};
  std::string b;   // builder
  std::string s;   // source / id / index
  std::string out; // primary output (workspace relative)
  std::vector<std::string> outs;
  std::vector<std::string> reads; // absolute
  std::vector<std::string> toks;
  std::string blob;
  std::string in; // what a precompiled header is compiled from
  std::string wd; // working directory
  std::string cap; // which outputs are captured
  std::string Name() const {
    if (s.empty())
      return kind + ":" + b;
    return kind + ":" + b + ":" + s;
  }
};

const J *FindBuilder(const std::string &name) {
  if (!g_desc.contains("builders"))
    return nullptr;
  for (const auto &b : g_desc["builders"])
    if (b["name"].get<std::string>() == name)
      return &b;
  return nullptr;
}

// directory (with a trailing "/") in which a target is built
std::string DirOf(const J &b) {
  std::string bd = b.value("bdir", std::string(""));
  if (bd.empty())
    bd = g_desc.value("build", std::string("build"));
  std::string as = b.value("as", std::string(""));
  if (as.empty())
    as = b["name"].get<std::string>();
  const auto &tc = g_desc["tcs"][b.value("tc", 1) - 1];
  return bd + "/" + tc["name"].get<std::string>() + "/" + as + "/";
}
std::string OwnerOf(const std::string &rel_out) {
  std::string best, dir;
  for (const char *key : {"builders", "off"}) {
    if (!g_desc.contains(key))
      continue;
    for (const auto &b : g_desc[key]) {
      if (b["kind"] != "target")
        continue;
      const std::string d = DirOf(b);
      if (StartsWith(rel_out, d) && d.size() > dir.size()) {
        best = b["name"].get<std::string>();
        dir = d;
      }
    }
  }
  return best;
}

void AddPaths(Step &st, const J &b, const char *key) {
  if (!b.contains(key))
    return;
  for (const auto &p : b[key])
    st.reads.push_back(W + "/" + p.get<std::string>());
}

Step Classify(const std::string &cmd) {
  Step st;
  st.toks = Tokens(cmd);
  auto &t = st.toks;
  std::string out, in, fp;
  std::vector<std::string> also; // further outputs
  bool compile = false, yc = false;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == "-o" && i + 1 < t.size())
      out = t[i + 1];
    else if (t[i] == "rcs" && i + 1 < t.size())
      out = t[i + 1];
    else if (StartsWith(t[i], "/Yc"))
      yc = true;
    else if (StartsWith(t[i], "/Fp"))
      fp = t[i].substr(3);
    else if (StartsWith(t[i], "/Fo"))
      out = t[i].substr(3);
    else if (StartsWith(t[i], "/OUT:"))
      out = t[i].substr(5);
    else if (StartsWith(t[i], "/IMPLIB:"))
      also.push_back(t[i].substr(8));
    else if (StartsWith(t[i], "-Wl,--out-implib,"))
      also.push_back(t[i].substr(17));
    else if ((t[i] == "-c" || t[i] == "/c") && i + 1 < t.size()) {
      compile = true;
      in = t[i + 1];
    }
  }
  if (yc && !fp.empty()) {
    if (!out.empty())
      also.push_back(out);
    out = fp;
  }
  if (!t.empty() && t[0] == "gencmd" && t.size() > 2) {
    st.kind = "gcmd";
    st.b = t[1];
    st.s = t[2];
    bool o = false, i = false;
    for (size_t k = 3; k < t.size(); k++) {
      if (t[k] == "-out") {
        o = true;
        i = false;
      } else if (t[k] == "-in") {
        i = true;
        o = false;
      } else if (o) {
        st.outs.push_back(t[k]);
      } else if (i) {
        st.reads.push_back(t[k]);
      }
    }
    if (!st.outs.empty())
      st.out = Rel(st.outs[0]);
    if (const J *g = FindBuilder(st.b))
      AddPaths(st, *g, "in");
    return st;
  }
  if (out.empty()) {
    if (!t.empty() && StartsWith(t[0], W + "/")) {
      st.kind = "test";
      st.b = OwnerOf(Rel(t[0]));
      st.reads.push_back(t[0]);
    }
    return st;
  }
  st.out = Rel(out);
  st.outs.push_back(out);
  for (auto &o : also)
    st.outs.push_back(o);
  st.b = OwnerOf(st.out);
  const J *b = FindBuilder(st.b);
  if (compile) {
    if (EndsWith(out, ".gch") || EndsWith(out, ".pch") || EndsWith(out, ".pcx")) {
      st.kind = "pch";
      st.in = in;
      if (b) {
        AddPaths(st, *b, "pch");
        AddPaths(st, *b, "hdr");
      }
    } else {
      st.kind = "obj";
      st.s = Rel(in);
      st.reads.push_back(in);
      if (b) {
        AddPaths(st, *b, "hdr");
        AddPaths(st, *b, "cdep");
        if (b->contains("pch") && !(*b)["pch"].empty()) {
          const auto &tc = g_desc["tcs"][b->value("tc", 1) - 1];
          const std::string id = tc.value("id", std::string(""));
          st.reads.push_back(W + "/" + DirOf(*b) + "buildcc_pch" +
                             (id == "msvc" ? ".h.pch" : id == "own" ? ".hh.pcx" : ".h.gch"));
        }
      }
    }
  } else {
    st.kind = "link";
    for (size_t i = 1; i < t.size(); i++) {
      if (std::find(st.outs.begin(), st.outs.end(), t[i]) != st.outs.end())
        continue;
      if (StartsWith(t[i], W + "/") && t[i][0] == '/')
        st.reads.push_back(t[i]);
    }
    if (b)
      AddPaths(st, *b, "ldep");
  }
  return st;
}

J Reads(const Step &st) {
  J r = J::object();
  for (const auto &p : st.reads)
    r[Rel(p)] = Stamp(p);
  return r;
}

std::vector<std::string> PchIncludes(const std::string &abs_gch) {
  std::vector<std::string> v;
  std::string h = abs_gch.substr(0, abs_gch.size() - 4); // strip .gch
  std::ifstream f(h);
  std::string line;
  while (std::getline(f, line)) {
    auto a = line.find("#include \"");
    if (a == std::string::npos)
      continue;
    a += 10;
    auto e = line.find('"', a);
    if (e != std::string::npos)
      v.push_back(Rel(line.substr(a, e - a)));
  }
  return v;
}

void SleepUs(long us) {
  if (us > 0)
    std::this_thread::sleep_for(std::chrono::microseconds(us));
}

// Runs one simulated command; returns its exit status.
int RunStep(Step &st) {
  hot = 0;
  const int id = NextId();
  const std::string name = st.Name();
  std::string fault;
  int status = 1;
  long us = 0;
  {
    Lock l;
    starts++;
    active_cmds++;
    J ev = {{"e", "start"}, {"x", id},       {"k", st.kind}, {"b", st.b},
            {"s", st.s},    {"out", st.out}, {"reads", Reads(st)}};
    J toks = J::array();
    for (auto &t : st.toks)
      toks.push_back(Mask(t));
    ev["toks"] = toks;
    if (st.kind == "pch") {
      J inc = J::array();
      if (fs::exists(st.in))
        for (auto &i : PchIncludes(W + "/" + st.out))
          inc.push_back(i);
      ev["incl"] = inc;
    }
    if (st.kind == "link") // an archiver adds to what is already there
      ev["old"] = st.toks.size() > 1 && st.toks[1] == "rcs"
                      ? Stamp(W + "/" + st.out)
                      : std::string("-");
    J o = J::array();
    for (auto &p : st.outs)
      o.push_back(Rel(p));
    ev["outs"] = o;
    ev["blob"] = st.blob;
    ev["wd"] = Mask(st.wd);
    ev["cap"] = st.cap;
    LogUnlocked(ev);
    if (g_plan.contains("faults") && g_plan["faults"].contains(name))
      fault = g_plan["faults"][name].get<std::string>();
    if (g_plan.contains("status"))
      status = g_plan["status"].get<int>();
    const long jit = g_plan.value("jit", 0L);
    if (jit > 0)
      us = (long)(rng() % (unsigned long)jit);
    if (g_plan.contains("hold") && g_plan["hold"] == name)
      us += g_plan.value("holdus", 20000L);
    if (g_plan.contains("race") && g_plan["race"].is_object() &&
        g_plan["race"].contains(name)) {
      // an input is edited while the command is running
      for (auto it = g_plan["race"][name].begin();
           it != g_plan["race"][name].end(); ++it) {
        WriteVersion(it.key(), it.value().get<int>());
        LogUnlocked({{"e", "write"}, {"f", it.key()}, {"st", Stamp(W + "/" + it.key())}});
      }
    }
  }
  SleepUs(us);
  if (fault == "crash0")
    Die("before output");
  const bool fail = fault == "fail" || fault == "failgarbage" ||
                    fault == "throw" || fault == "throwint" || fault == "faildel";
  {
    if (fault == "crash1") { // torn output, then the process dies
      for (auto &o : st.outs)
        PutFile(o, "torn" + std::to_string(id), 1700000000000000000LL + id * 1000000007LL);
      Die("output torn");
    }
    Lock l;
    if (fault == "failgarbage") {
      for (auto &o : st.outs)
        PutFile(o, "bad" + std::to_string(id), 1700000000000000000LL + id * 1000000007LL);
    } else if (fault == "faildel") {
      for (auto &o : st.outs)
        ::unlink(o.c_str());
    } else if (!fail && st.kind != "test") {
      for (auto &o : st.outs)
        PutFile(o, "x" + std::to_string(id), 1700000000000000000LL + id * 1000000007LL);
    }
  }
  if (fault == "crash2")
    Die("after output");
  {
    Lock l;
    active_cmds--;
    LogUnlocked({{"e", "end"}, {"x", id}, {"k", st.kind}, {"b", st.b}, {"s", st.s}, {"ok", !fail}});
  }
  hot = g_plan.value("hot", 0);
  return fail ? status : 0;
}

} // namespace

bool RunGen(const std::string &b, const std::string &id,
            const std::vector<std::string> &inputs,
            const std::vector<std::string> &outputs, const std::string &blob) {
  Step st;
  st.kind = "gen";
  st.b = b;
  st.s = id;
  st.reads = inputs;
  st.outs = outputs;
  st.out = outputs.empty() ? "" : Rel(outputs[0]);
  st.blob = blob;
  int rc = RunStep(st);
  if (rc != 0 && g_plan.contains("faults")) {
    const std::string f = g_plan["faults"].value(st.Name(), std::string());
    if (f == "throw")
      throw std::runtime_error("generator callback threw");
    if (f == "throwint")
      throw 42;
  }
  return rc == 0;
}

} // namespace sim

// --- TinyProcessLib stand-in -------------------------------------------------
namespace sim {
ExecFn g_exec;
}
namespace TinyProcessLib {
Process::Process(const string_type &command, const string_type &path,
                 out_fn so, out_fn se, bool) {
  if (sim::g_exec) { // interface scenarios bring their own commands
    status_ = sim::g_exec(command, path, so, se);
    return;
  }
  auto st = sim::Classify(command);
  if (st.kind == "test") {
    st.cap = std::string(so ? "o" : "") + (se ? "e" : "");
    const std::string o = "<out of " + st.b + ">", e = "<err of " + st.b + ">";
    if (so)
      so(o.data(), o.size());
    if (se)
      se(e.data(), e.size());
  }
  if (sim::g_plan.contains("stdout") && so) {
    for (const auto &chunk : sim::g_plan["stdout"]) {
      std::string c = chunk.get<std::string>();
      so(c.data(), c.size());
    }
  }
  if (sim::g_plan.contains("stderr") && se) {
    for (const auto &chunk : sim::g_plan["stderr"]) {
      std::string c = chunk.get<std::string>();
      se(c.data(), c.size());
    }
  }
  st.wd = path;
  status_ = sim::RunStep(st);
}
int Process::get_exit_status() noexcept { return status_; }
bool Process::try_get_exit_status(int &s) noexcept {
  s = status_;
  return true;
}
} // namespace TinyProcessLib

// --- I/O fault interposition -------------------------------------------------
namespace {
bool IoTarget(const char *path, std::string &mode, long &bytes) {
  if (!sim::g_plan.is_object() || !sim::g_plan.contains("io"))
    return false;
  const auto &io = sim::g_plan["io"];
  if (sim::W + "/" + io["path"].get<std::string>() != path)
    return false;
  mode = io["mode"].get<std::string>();
  bytes = io.value("bytes", 0L);
  return true;
}
bool IoTargetFd(int fd, std::string &mode, long &bytes) {
  if (!sim::g_plan.is_object() || !sim::g_plan.contains("io"))
    return false;
  char link[64], buf[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, sizeof buf - 1);
  if (n <= 0)
    return false;
  buf[n] = 0;
  std::string p(buf);
  // a temporary file written next to the target counts as the target
  const std::string t =
      sim::W + "/" + sim::g_plan["io"]["path"].get<std::string>();
  if (p.compare(0, t.size(), t) != 0)
    return false;
  return IoTarget(t.c_str(), mode, bytes);
}
} // namespace

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
  std::string mode;
  long k = 0;
  if (IoTargetFd(fd, mode, k)) {
    if (mode == "crash_write") {
      long m = k < (long)n ? k : (long)n;
      if (m > 0)
        syscall(SYS_write, fd, b, (size_t)m);
      sim::Die("record write torn");
    }
    if (mode == "enospc") {
      sim::Log({{"e", "iofail"}, {"b", sim::g_plan["io"].value("b", std::string(""))}});
      errno = ENOSPC;
      return -1;
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t total = 0;
  for (int i = 0; i < c; i++) {
    if (v[i].iov_len == 0)
      continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0)
      return total > 0 ? total : r;
    total += r;
    if ((size_t)r < v[i].iov_len)
      break;
  }
  return total;
}
FILE *fopen(const char *p, const char *m) {
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  FILE *f = real(p, m);
  std::string mode;
  long k;
  if (m && (m[0] == 'w' || m[0] == 'a') && IoTarget(p, mode, k) && mode == "crash_open")
    sim::Die("record truncated");
  return f;
}
FILE *fopen64(const char *p, const char *m) {
  static auto real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
  FILE *f = real(p, m);
  std::string mode;
  long k;
  if (m && (m[0] == 'w' || m[0] == 'a') && IoTarget(p, mode, k) && mode == "crash_open")
    sim::Die("record truncated");
  return f;
}
}

// Number of worker threads the library believes it has (schedule control).
extern "C" int get_nprocs(void) {
  if (sim::g_plan.is_object() && sim::g_plan.contains("cpus"))
    return sim::g_plan["cpus"].get<int>();
  return 3;
}
