// Interface scenarios: sequences of calls with the observations the
// specification expects. driver api <scenarios.json> <out.json> <scratch>
// Every scenario runs in a process of its own; what it observes is written
// line by line, so that a rejected call (the library ends the process) keeps
// the observations before it.
#include "sim.h"

#include "args/args.h"
#include "args/register.h"
#include "env/storage.h"
#include "env/util.h"
#include "plugins/buildcc_find.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/target.h"
#include "target/target_info.h"
#include "target/template_generator.h"
#include "targets/target_gcc.h"
#include "toolchains/toolchain_specialized.h"

#include "spdlog/spdlog.h"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using sim::J;
using namespace buildcc;

namespace {

int g_out = -1;
std::string S(const J &j) { return j.get<std::string>(); }

void Got(const J &v) {
  std::string l = v.dump() + "\n";
  size_t k = 0;
  while (k < l.size()) {
    ssize_t n = ::write(g_out, l.data() + k, l.size() - k);
    if (n <= 0)
      _exit(96);
    k += (size_t)n;
  }
}

// "$W" in a scenario is the workspace
std::string Un(std::string s) {
  for (size_t k; (k = s.find("$W")) != std::string::npos;)
    s.replace(k, 2, sim::W);
  return s;
}
J Mask(const std::vector<std::string> &v) {
  J a = J::array();
  for (const auto &x : v)
    a.push_back(sim::Mask(x));
  return a;
}

void Make(const J &files) {
  for (const auto &f : files) {
    const fs::path p = Un(S(f["path"]));
    const std::string as = f.value("as", std::string("file"));
    fs::create_directories(p.parent_path());
    if (as == "dir")
      fs::create_directories(p);
    else if (as == "link")
      fs::create_symlink(Un(S(f["to"])), p);
    else {
      std::ofstream(p, std::ios::binary) << f.value("c", std::string("x"));
      if (as == "exe")
        ::chmod(p.c_str(), 0755);
    }
  }
}

void InitProject(const J &sc) {
  const std::string root = sc.value("root", std::string(".")), build = sc.value("build", std::string("build"));
  std::vector<const char *> av = {"drv", "--root_dir", root.c_str(), "--build_dir", build.c_str(), "--loglevel", "critical"};
  Args::Init().Parse((int)av.size(), av.data());
  Reg::Init();
}

// ---------------------------------------------------------------- registration
std::mutex g_mu;
std::vector<std::pair<char, std::string>> g_ev; // 's'tart/'e'nd, what
void Ev(char c, const std::string &w) {
  std::lock_guard<std::mutex> l(g_mu);
  g_ev.emplace_back(c, w);
}

struct RegWorld {
  std::map<std::string, internal::BuilderInterface *> b; // by name in scenario
  std::map<std::string, Target *> t;
  std::map<int, Toolchain *> tc;
};

Toolchain *Tc(RegWorld &w, int k) {
  if (!w.tc[k])
    w.tc[k] = new Toolchain(ToolchainId::Custom, "tc" + std::to_string(k),
                            ToolchainExecutables("as", "cc", "cxx", "ar", "ld"));
  return w.tc[k];
}

// t1 target, t1@2 target of that name with another toolchain, g custom
// generator, f file generator, m template generator; a trailing ' is another
// object with the same identity
void NewBuilder(RegWorld &w, const std::string &n) {
  if (w.b.count(n))
    return;
  std::string id = n;
  while (!id.empty() && id.back() == '\'')
    id.pop_back();
  const size_t at = id.find('@');
  const std::string name = id.substr(0, at);
  if (n[0] == 't') {
    auto *t = new Target(name, TargetType::Executable, *Tc(w, at == std::string::npos ? 1 : std::stoi(id.substr(at + 1))), "");
    w.t[n] = t;
    w.b[n] = t;
  } else if (n[0] == 'g')
    w.b[n] = new CustomGenerator(name, "");
  else if (n[0] == 'f')
    w.b[n] = new FileGenerator(name, "");
  else
    w.b[n] = new TemplateGenerator(name, "");
}

template <typename R> void RegBuild(R &&r, RegWorld &w, const std::string &n) {
  const std::string in = sim::W + "/in.txt";
  if (n[0] == 't')
    r.Build(
        [&](Target &t) {
          t.AddSourceAbsolute(sim::W + "/a.cpp");
          t.AddPreprocessorFlag("B=" + n);
          t.AddLinkFlag("B=" + n);
          t.Build();
        },
        *w.t.at(n));
  else if (n[0] == 'g')
    r.Build(
        [&](CustomGenerator &g) {
          g.AddIdInfo("i", {in}, {sim::W + "/out." + n}, [n](const CustomGeneratorContext &) {
            Ev('s', n);
            usleep(150);
            Ev('e', n);
            return true;
          });
          g.Build();
        },
        *dynamic_cast<CustomGenerator *>(w.b.at(n)));
  else if (n[0] == 'f')
    r.Build(
        [&](FileGenerator &g) {
          g.AddInput(in);
          g.AddOutput(sim::W + "/out." + n);
          g.AddCommand("do B=" + n);
          g.Build();
        },
        *dynamic_cast<FileGenerator *>(w.b.at(n)));
}

void KindReg(const J &sc) {
  std::ofstream(sim::W + "/a.cpp") << "a";
  std::ofstream(sim::W + "/in.txt") << "i";
  InitProject(sc);
  RegWorld &w = *new RegWorld();
  sim::g_exec = [&](const std::string &cmd, const std::string &, const sim::Out &, const sim::Out &) {
    const auto k = cmd.find("B=");
    std::string n = k == std::string::npos ? "?" : cmd.substr(k + 2, cmd.find(' ', k) - k - 2);
    if (cmd.find("--selftest") != std::string::npos)
      n = "test:" + n;
    Ev('s', n);
    usleep(150);
    Ev('e', n);
    return 0;
  };
  const ArgToolchainState on(true, true), off(false, true), notest(true, false);
  int post = 0;
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    const bool is_on = st.value("on", true);
    const bool call = st.value("by", std::string("tc")) == "call";
    if (op == "build") {
      const std::string n = S(st["b"]);
      NewBuilder(w, n);
      if (call)
        RegBuild(Reg::Call(is_on), w, n);
      else
        RegBuild(Reg::Toolchain(is_on ? on : off), w, n);
      Got(true);
    } else if (op == "dep") {
      NewBuilder(w, S(st["a"]));
      NewBuilder(w, S(st["b"]));
      Reg::Toolchain(is_on ? on : off).Dep(*w.b.at(S(st["a"])), *w.b.at(S(st["b"])));
      Got(true);
    } else if (op == "test") {
      const std::string n = S(st["b"]);
      NewBuilder(w, n);
      Reg::Toolchain(is_on ? on : st.value("part", false) ? notest : off).Test("{executable} --selftest B=" + n, *w.t.at(n));
      Got(true);
    } else if (op == "run") {
      Reg::Run([&]() { post++; Ev('s', "post"); Ev('e', "post"); });
      std::map<std::string, int> cnt;
      std::map<std::string, size_t> first, last;
      std::vector<std::string> ran;
      for (size_t k = 0; k < g_ev.size(); k++) {
        const auto &n = g_ev[k].second;
        if (g_ev[k].first == 's') {
          ran.push_back(n);
          if (!first.count(n))
            first[n] = k;
        } else
          last[n] = k;
      }
      std::sort(ran.begin(), ran.end());
      J before = J::array();
      for (auto &x : first)
        for (auto &y : last)
          if (x.first != y.first && y.second < x.second)
            before.push_back({x.first, y.first});
      Got({{"ran", ran}, {"before", before}});
    }
  }
}

// --------------------------------------------------------------------- storage
std::vector<int> &g_dead = *new std::vector<int>; // outlives the storage
int g_serial;
struct A {
  int serial, val;
  explicit A(int v) : serial(++g_serial), val(v) {}
  virtual ~A() { g_dead.push_back(serial); }
};
struct D : A { // derived: not an A for the storage
  explicit D(int v) : A(v) {}
};
struct Z { // same shape, other type
  int serial, val;
  explicit Z(int v) : serial(++g_serial), val(v) {}
  ~Z() { g_dead.push_back(serial); }
};
J Dead() {
  std::sort(g_dead.begin(), g_dead.end());
  J r = g_dead;
  g_dead.clear();
  return r;
}

struct Static {
  template <typename T> T &Add(const std::string &i, int v) { return Storage::Add<T>(i, v); }
  template <typename T> T &Ref(const std::string &i) { return Storage::Ref<T>(i); }
  template <typename T> const T &ConstRef(const std::string &i) { return Storage::ConstRef<T>(i); }
  template <typename T> bool Valid(const std::string &i) { return Storage::Valid<T>(i); }
  bool Contains(const std::string &i) { return Storage::Contains(i); }
  void Clear() { Storage::Clear(); }
};

template <typename T, typename St> void StoreOp(St &s, const std::string &op, const J &st) {
  const std::string id = S(st["id"]);
  if (op == "add")
    Got(s.template Add<T>(id, st["v"].get<int>()).serial);
  else if (op == "set") {
    T &r = s.template Ref<T>(id);
    r.val = st["v"].get<int>();
    Got(r.serial);
  } else if (op == "get") {
    const T &r = s.template ConstRef<T>(id);
    Got(J::array({r.serial, r.val}));
  } else if (op == "valid")
    Got(s.template Valid<T>(id));
}
template <typename St> void StoreRun(St &s, const J &sc) {
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    if (op == "contains")
      Got(s.Contains(S(st["id"])));
    else if (op == "clear") {
      s.Clear();
      Got(Dead());
    } else if (op == "end")
      return;
    else {
      const std::string ty = S(st["ty"]);
      if (ty == "A")
        StoreOp<A>(s, op, st);
      else if (ty == "D")
        StoreOp<D>(s, op, st);
      else
        StoreOp<Z>(s, op, st);
    }
  }
}
void KindStore(const J &sc) {
  if (S(sc["where"]) == "static") {
    Static s;
    StoreRun(s, sc);
    Storage::Clear();
  } else {
    ScopedStorage s;
    StoreRun(s, sc);
  }
  Got(Dead()); // what the end of the scope destroyed
}

// ----------------------------------------------------------------- target info
const std::vector<std::string> kFields = {"src", "hdr", "pch", "libs", "inc", "ldir", "xlibs", "pre", "com",
                                          "pchc", "pcho", "asm", "c", "cpp", "lnk", "cdep", "ldep"};
SyncOption OptionOf(const std::string &f) {
  return (SyncOption)(std::find(kFields.begin(), kFields.end(), f) - kFields.begin());
}
J Show(const TargetInfo &t) {
  auto sorted_fields = std::map<std::string, std::vector<std::string>>{
      {"src", t.GetSourceFiles()}, {"hdr", t.GetHeaderFiles()}, {"pch", t.GetPchFiles()},
      {"libs", t.GetLibDeps()}, {"inc", t.GetIncludeDirs()}, {"ldir", t.GetLibDirs()},
      {"xlibs", t.GetExternalLibDeps()}, {"pre", t.GetPreprocessorFlags()}, {"com", t.GetCommonCompileFlags()},
      {"pchc", t.GetPchCompileFlags()}, {"pcho", t.GetPchObjectFlags()}, {"asm", t.GetAsmCompileFlags()},
      {"c", t.GetCCompileFlags()}, {"cpp", t.GetCppCompileFlags()}, {"lnk", t.GetLinkFlags()},
      {"cdep", t.GetCompileDependencies()}, {"ldep", t.GetLinkDependencies()}};
  J r = J::object();
  for (auto &f : kFields)
    r[f] = Mask(sorted_fields.at(f));
  return r;
}
template <typename F> void WithOptions(const std::vector<SyncOption> &o, F f) {
  switch (o.size()) {
  case 0: f(std::initializer_list<SyncOption>{}); break;
  case 1: f({o[0]}); break;
  case 2: f({o[0], o[1]}); break;
  case 3: f({o[0], o[1], o[2]}); break;
  case 4: f({o[0], o[1], o[2], o[3]}); break;
  case 16: f({o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], o[12], o[13], o[14], o[15]}); break;
  case 17: f({o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], o[12], o[13], o[14], o[15], o[16]}); break;
  default: _exit(95);
  }
}
struct InfoWorld {
  Toolchain *tc{nullptr};
  std::map<std::string, TargetInfo *> i;
  std::map<std::string, Target *> t;
};
TargetEnv EnvFor(const J &o) {
  if (o.contains("absroot"))
    return TargetEnv(fs::path(Un(S(o["absroot"]))), fs::path(Un(S(o["absbuild"]))));
  const std::string e = o.value("env", std::string(""));
  return TargetEnv(e.c_str());
}
void AddTo(TargetInfo &t, InfoWorld &w, const J &st) {
  const std::string f = S(st["f"]);
  const bool abs = st.value("abs", false);
  const std::string v = Un(S(st["v"]));
  const std::string to = st.value("to", std::string(""));
  if (f == "src")
    abs ? t.AddSourceAbsolute(v) : st.contains("to") ? t.AddSource(v, to) : t.AddSource(v);
  else if (f == "hdr")
    abs ? t.AddHeaderAbsolute(v) : st.contains("to") ? t.AddHeader(v, to) : t.AddHeader(v);
  else if (f == "pch")
    abs ? t.AddPchAbsolute(v) : st.contains("to") ? t.AddPch(v, to) : t.AddPch(v);
  else if (f == "inc")
    abs ? t.AddIncludeDirAbsolute(v, st.value("glob", false)) : t.AddIncludeDir(v, st.value("glob", false));
  else if (f == "ldir")
    abs ? t.AddLibDirAbsolute(v) : t.AddLibDir(v);
  else if (f == "cdep")
    abs ? t.AddCompileDependencyAbsolute(v) : t.AddCompileDependency(v);
  else if (f == "ldep")
    abs ? t.AddLinkDependencyAbsolute(v) : t.AddLinkDependency(v);
  else if (f == "libs") {
    if (!w.t[v])
      w.t[v] = new Target(v, TargetType::StaticLibrary, *w.tc, "");
    t.AddLibDep(*w.t[v]);
  } else if (f == "xlibs") t.AddLibDep(v);
  else if (f == "pre") t.AddPreprocessorFlag(v);
  else if (f == "com") t.AddCommonCompileFlag(v);
  else if (f == "pchc") t.AddPchCompileFlag(v);
  else if (f == "pcho") t.AddPchObjectFlag(v);
  else if (f == "asm") t.AddAsmCompileFlag(v);
  else if (f == "c") t.AddCCompileFlag(v);
  else if (f == "cpp") t.AddCppCompileFlag(v);
  else if (f == "lnk") t.AddLinkFlag(v);
  else _exit(95);
}
void KindInfo(const J &sc) {
  if (sc.contains("make"))
    Make(sc["make"]);
  InitProject(sc);
  InfoWorld &w = *new InfoWorld();
  ToolchainConfig cfg;
  if (sc.contains("cfg")) {
    auto set = [&](const char *k, std::unordered_set<std::string> &s) {
      if (sc["cfg"].contains(k)) {
        s.clear();
        for (const auto &x : sc["cfg"][k])
          s.insert(S(x));
      }
    };
    set("c", cfg.valid_c_ext);
    set("cpp", cfg.valid_cpp_ext);
    set("asm", cfg.valid_asm_ext);
    set("hdr", cfg.valid_header_ext);
  }
  w.tc = new Toolchain(ToolchainId::Custom, "tc", ToolchainExecutables("as", "cc", "cxx", "ar", "ld"), cfg);
  if (sc.contains("tc"))
    for (auto it = sc["tc"].begin(); it != sc["tc"].end(); ++it)
      for (const auto &x : it.value()) {
        const std::string k = it.key(), v = S(x);
        if (k == "pre") w.tc->AddPreprocessorFlag(v);
        else if (k == "com") w.tc->AddCommonCompileFlag(v);
        else if (k == "pchc") w.tc->AddPchCompileFlag(v);
        else if (k == "pcho") w.tc->AddPchObjectFlag(v);
        else if (k == "asm") w.tc->AddAsmCompileFlag(v);
        else if (k == "c") w.tc->AddCCompileFlag(v);
        else if (k == "cpp") w.tc->AddCppCompileFlag(v);
        else if (k == "lnk") w.tc->AddLinkFlag(v);
      }
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    if (op == "new") {
      const std::string n = S(st["i"]);
      if (st.value("target", false)) {
        auto *t = new Target(n, TargetType::Executable, *w.tc, EnvFor(st));
        w.i[n] = t;
      } else
        w.i[n] = new TargetInfo(*w.tc, EnvFor(st));
      Got(true);
    } else if (op == "add") {
      AddTo(*w.i.at(S(st["i"])), w, st);
      Got(true);
    } else if (op == "glob") {
      TargetInfo &t = *w.i.at(S(st["i"]));
      const std::string v = Un(S(st["v"]));
      const bool abs = st.value("abs", false);
      if (S(st["f"]) == "src")
        abs ? t.GlobSourcesAbsolute(v) : t.GlobSources(v);
      else
        abs ? t.GlobHeadersAbsolute(v) : t.GlobHeaders(v);
      Got(true);
    } else if (op == "copy" || op == "insert") {
      TargetInfo &d = *w.i.at(S(st["i"])), &s = *w.i.at(S(st["from"]));
      std::vector<SyncOption> o;
      for (const auto &x : st["opts"])
        o.push_back(OptionOf(S(x)));
      const bool mv = st.value("move", false);
      WithOptions(o, [&](std::initializer_list<SyncOption> l) {
        const TargetInfo &cs = s;
        if (op == "copy")
          mv ? d.Copy(std::move(s), l) : d.Copy(cs, l);
        else
          mv ? d.Insert(std::move(s), l) : d.Insert(cs, l);
      });
      Got(true);
    } else if (op == "show") {
      J r = Show(*w.i.at(S(st["i"])));
      if (st.contains("only")) {
        J q = J::object();
        for (const auto &x : st["only"])
          q[S(x)] = r[S(x)];
        r = q;
      }
      if (st.value("sorted", false))
        for (auto it = r.begin(); it != r.end(); ++it) {
          auto v = it.value().get<std::vector<std::string>>();
          std::sort(v.begin(), v.end());
          it.value() = v;
        }
      Got(r);
    } else if (op == "dirs") {
      TargetInfo &t = *w.i.at(S(st["i"]));
      auto dir = [](const fs::path &p) {
        std::string d = sim::Mask(path_as_string(p));
        if (d.size() > 1 && d.back() == '/')
          d.pop_back();
        return d;
      };
      Got(J::array({dir(t.GetTargetRootDir()), dir(t.GetTargetBuildDir())}));
    } else if (op == "ext") {
      const char *names[] = {"asm", "c", "cpp", "hdr", "none"};
      const fs::path p = Un(S(st["v"]));
      const auto &c = w.tc->GetConfig();
      Got(J::array({names[(int)c.GetFileExt(p)], c.IsValidSource(p), c.IsValidHeader(p)}));
    }
  }
}

// -------------------------------------------------------------------- toolchain
void KindFind(const J &sc) {
  Make(sc["make"]);
  for (auto it = sc["env"].begin(); it != sc["env"].end(); ++it)
    ::setenv(it.key().c_str(), Un(S(it.value())).c_str(), 1);
  for (const auto &v : sc["unset"])
    ::unsetenv(S(v).c_str());
  std::vector<std::string> ran;
  sim::g_exec = [&](const std::string &cmd, const std::string &, const sim::Out &out, const sim::Out &) {
    std::string key;
    for (const auto &t : sim::Tokens(cmd))
      key += (key.empty() ? "" : " ") + sim::Mask(t);
    if (!sc["cmds"].contains(key))
      return 127;
    const J &c = sc["cmds"][key];
    for (const auto &x : c["out"])
      if (out)
        out(S(x).data(), S(x).size());
    return c.value("code", 0);
  };
  const auto &x = sc["x"];
  const ToolchainExecutables ex(S(x["as"]), S(x["cc"]), S(x["cxx"]), S(x["ar"]), S(x["ld"]));
  const std::string id = S(sc["id_"]);
  Toolchain *tc;
  if (id == "gcc")
    tc = new Toolchain_gcc("gcc", ex);
  else if (id == "mingw")
    tc = new Toolchain_mingw("gcc", ex);
  else if (id == "msvc")
    tc = new Toolchain_msvc("msvc", ex);
  else if (id == "clang")
    tc = &Toolchain_generic::New(ToolchainId::Clang, "clang", ex);
  else {
    tc = new Toolchain(ToolchainId::Custom, "custom", ex);
    if (id == "customcb")
      tc->SetToolchainInfoCb([](const ToolchainExecutables &e) {
        ToolchainCompilerInfo i;
        i.compiler_version = sim::Mask(e.c_compiler);
        i.target_arch = sim::Mask(e.linker);
        return env::optional<ToolchainCompilerInfo>(i);
      });
  }
  auto exes = [&]() {
    const auto &e = tc->GetToolchainExecutables();
    return Mask({e.assembler, e.c_compiler, e.cpp_compiler, e.archiver, e.linker});
  };
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    if (op == "find" || op == "verify") {
      std::vector<std::string> ev;
      std::vector<fs::path> dirs;
      for (const auto &e : st["vars"])
        ev.push_back(S(e));
      for (const auto &d : st["dirs"])
        dirs.push_back(Un(S(d)));
      const ToolchainFindConfig fc(ev, dirs);
      if (op == "find") {
        std::vector<std::string> r;
        for (const auto &p : tc->Find(fc))
          r.push_back(p.string());
        Got(Mask(r));
      } else {
        const auto i = tc->Verify(fc);
        Got({{"path", sim::Mask(i.path.string())}, {"version", i.compiler_version}, {"arch", i.target_arch}});
      }
    } else if (op == "exes")
      Got(exes());
    else if (op == "search") { // plugin
      plugin::BuildccFind f(S(st["regex"]), plugin::BuildccFind::Type::HostExecutable, {});
      for (const auto &e : st["vars"])
        f.AddHostEnvVar(S(e));
      const bool found = f.Search();
      std::vector<std::string> r;
      for (const auto &p : f.GetPathMatches())
        r.push_back(p.string());
      std::sort(r.begin(), r.end());
      Got(J::array({found, Mask(r)}));
    }
  }
}

// --------------------------------------------------------------------- commands
// @0 stands for a zero byte
std::string Raw(std::string s) {
  for (size_t k; (k = s.find("@0")) != std::string::npos;)
    s.replace(k, 2, 1, '\0');
  return s;
}
std::string Shown(std::string s) {
  for (size_t k; (k = s.find('\0')) != std::string::npos;)
    s.replace(k, 1, "@0");
  return s;
}

void KindCmd(const J &sc) {
  env::Command c;
  auto map = [](const J &j) {
    std::unordered_map<std::string, std::string> m;
    for (auto it = j.begin(); it != j.end(); ++it)
      m[it.key()] = S(it.value());
    return m;
  };
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    if (op == "def") {
      c.AddDefaultArgument(S(st["k"]), S(st["v"]));
      Got(true);
    } else if (op == "defs") {
      c.AddDefaultArguments(map(st["m"]));
      Got(true);
    } else if (op == "get")
      Got(c.GetDefaultValueByKey(S(st["k"])));
    else if (op == "all") {
      std::map<std::string, std::string> m(c.GetDefaultValues().begin(), c.GetDefaultValues().end());
      J a = J::array();
      for (auto &kv : m)
        a.push_back({kv.first, kv.second});
      Got(a);
    } else if (op == "construct") {
      auto m = map(st["m"]);
      std::unordered_map<const char *, std::string> a;
      for (auto &kv : m)
        a[kv.first.c_str()] = kv.second;
      Got(c.Construct(S(st["p"]), a));
    } else if (op == "split")
      Got(env::split(S(st["s"]), S(st["d"])[0]));
    else if (op == "trim")
      Got(J::array({env::ltrim(S(st["s"])), env::rtrim(S(st["s"])), env::trim(S(st["s"]))}));
    else if (op == "file") {
      const std::string f = sim::W + "/" + S(st["f"]);
      const bool bin = st.value("bin", false);
      if (st.contains("c"))
        Got(env::save_file(f.c_str(), Raw(S(st["c"])), bin));
      else {
        std::string b = "?";
        const bool ok = env::load_file(f.c_str(), bin, &b);
        Got(ok ? J::array({true, Shown(b)}) : J::array({false, ""}));
      }
    } else if (op == "bigfile") {
      const std::string f = sim::W + "/" + S(st["f"]);
      const bool bin = st.value("bin", false);
      std::string big, b = "?";
      for (int k = 0; k < st["n"].get<int>(); k++)
        big += Raw(S(st["c"]));
      const bool saved = env::save_file(f.c_str(), big, bin);
      const bool loaded = env::load_file(f.c_str(), bin, &b);
      Got(J::array({saved, loaded, b.size(), b == big}));
    } else if (op == "exec") {
      // the real env::Command::Execute over the stand-in process
      std::vector<std::string> so, se;
      std::string seen, wd;
      sim::g_exec = [&](const std::string &cmd, const std::string &d, const sim::Out &out, const sim::Out &err) {
        seen = cmd;
        wd = d;
        for (const auto &x : st["out"])
          if (out)
            out(Raw(S(x)).data(), Raw(S(x)).size());
        for (const auto &x : st["err"])
          if (err)
            err(Raw(S(x)).data(), Raw(S(x)).size());
        return st["code"].get<int>();
      };
      const bool want_o = st.value("o", true), want_e = st.value("e", true);
      env::optional<fs::path> dir;
      if (st.contains("wd"))
        dir = fs::path(S(st["wd"]));
      const bool ok = env::Command::Execute(S(st["cmd"]), dir, want_o ? &so : nullptr, want_e ? &se : nullptr);
      for (auto *v : {&so, &se})
        for (auto &x : *v)
          x = Shown(x);
      Got({{"ok", ok}, {"cmd", seen}, {"wd", wd}, {"out", so}, {"err", se}});
    }
  }
}

// -------------------------------------------------------------------- arguments
const char *kIds[] = {"gcc", "msvc", "clang", "mingw", "custom", "undefined"};
ToolchainId IdOf(const std::string &s) {
  for (int k = 0; k < 6; k++)
    if (s == kIds[k])
      return (ToolchainId)k;
  return ToolchainId::Undefined;
}
void KindArgs(const J &sc) {
  for (auto it = sc["files"].begin(); it != sc["files"].end(); ++it)
    std::ofstream(sim::W + "/" + it.key()) << S(it.value());
  std::map<std::string, ArgToolchain> tcs;
  std::map<std::string, ArgTarget> tgs;
  auto &a = Args::Init();
  for (const auto &t : sc["tcs"]) {
    auto &out = tcs[S(t["name"])];
    // what the receiver held before does not matter
    out = ArgToolchain(ToolchainId::Clang, "held before", ToolchainExecutables("ha", "hc", "hx", "hr", "hl"), ToolchainConfig());
    if (t.contains("init")) {
      const J &i = t["init"];
      ArgToolchain init(IdOf(S(i["id"])), S(i["name"]),
                        ToolchainExecutables(S(i["asm_compiler"]), S(i["c_compiler"]), S(i["cpp_compiler"]), S(i["archiver"]), S(i["linker"])),
                        ToolchainConfig());
      a.AddToolchain(S(t["name"]), "d", out, init);
    } else
      a.AddToolchain(S(t["name"]), "d", out);
  }
  for (const auto &t : sc["tgs"]) {
    auto &out = tgs[S(t["name"])];
    out.compile_command = "held before";
    out.link_command = "held before";
    if (t.contains("init")) {
      ArgTarget init;
      init.compile_command = S(t["init"]["compile_command"]);
      init.link_command = S(t["init"]["link_command"]);
      a.AddTarget(S(t["name"]), "d", out, init);
    } else
      a.AddTarget(S(t["name"]), "d", out);
  }
  std::string custom = "-";
  struct Data : ArgCustom {
    std::string v = "-";
    void Add(CLI::App &app) override { app.add_option("--cdata", v, "d"); }
  } data;
  a.AddCustomCallback([&](CLI::App &app) { app.add_option("--ccall", custom, "d"); });
  a.AddCustomData(data);
  std::vector<std::string> av = {"drv"};
  for (const auto &x : sc["argv"])
    av.push_back(S(x));
  std::vector<const char *> argv;
  for (auto &x : av)
    argv.push_back(x.c_str());
  a.Parse((int)argv.size(), argv.data());
  J r = J::object();
  r["root_dir"] = Args::GetProjectRootDir().string();
  r["build_dir"] = Args::GetProjectBuildDir().string();
  const std::map<env::LogLevel, std::string> lv = {{env::LogLevel::Trace, "trace"}, {env::LogLevel::Debug, "debug"},
      {env::LogLevel::Info, "info"}, {env::LogLevel::Warning, "warning"}, {env::LogLevel::Critical, "critical"}};
  r["loglevel"] = lv.at(Args::GetLogLevel());
  r["clean"] = Args::Clean();
  r["ccall"] = custom;
  r["cdata"] = data.v;
  for (auto &t : tcs) {
    J o = J::object();
    o["build"] = t.second.state.build;
    o["test"] = t.second.state.test;
    o["id"] = kIds[(int)t.second.id];
    o["name"] = t.second.name;
    o["asm_compiler"] = t.second.executables.assembler;
    o["c_compiler"] = t.second.executables.c_compiler;
    o["cpp_compiler"] = t.second.executables.cpp_compiler;
    o["archiver"] = t.second.executables.archiver;
    o["linker"] = t.second.executables.linker;
    r["toolchain." + t.first] = o;
  }
  for (auto &t : tgs) {
    const auto cfg = t.second.GetTargetConfig();
    r["target." + t.first] = J{{"compile_command", cfg.compile_command}, {"link_command", cfg.link_command}};
  }
  Got(r);
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    if (op == "construct") {
      const Toolchain &t = tcs.at(S(st["t"])).ConstructToolchain();
      Got(J::array({kIds[(int)t.GetId()], t.GetName(), t.GetAssembler(), t.GetCCompiler(), t.GetCppCompiler(), t.GetArchiver(), t.GetLinker()}));
    } else if (op == "project") {
      Reg::Init();
      const std::map<spdlog::level::level_enum, std::string> level = {{spdlog::level::trace, "trace"}, {spdlog::level::debug, "debug"},
          {spdlog::level::info, "info"}, {spdlog::level::warn, "warning"}, {spdlog::level::critical, "critical"}};
      Got(J::array({sim::Mask(Project::GetRootDir().string()), sim::Mask(Project::GetBuildDir().string()), level.at(spdlog::get_level())}));
    }
  }
}

// --------------------------------------------------------------------- objects
void KindObj(const J &sc) {
  Make(sc["make"]);
  InitProject(sc);
  std::map<std::string, std::string> outs;
  std::vector<std::string> twice;
  sim::g_exec = [&](const std::string &cmd, const std::string &, const sim::Out &, const sim::Out &) {
    std::lock_guard<std::mutex> l(g_mu);
    const auto t = sim::Tokens(cmd);
    std::string in, out;
    for (size_t k = 0; k + 1 < t.size(); k++) {
      if (t[k] == "-c")
        in = sim::Mask(t[k + 1]);
      if (t[k] == "-o")
        out = sim::Mask(t[k + 1]);
    }
    if (!in.empty()) {
      if (outs.count(in))
        twice.push_back(in);
      // a compiler cannot write into a directory that is not there
      outs[in] = fs::is_directory(fs::path(Un(out)).parent_path()) ? out : "no directory for " + out;
    }
    return 0;
  };
  const ToolchainExecutables ex("as", "gcc", "g++", "ar", "ld");
  auto *tc = new Toolchain_gcc("gcc", ex);
  auto *t = new ExecutableTarget_gcc("t", *tc, EnvFor(sc));
  Reg::Call().Build(
      [&](Target &tt) {
        for (const auto &s : sc["steps"])
          if (S(s["op"]) == "src") {
            if (s.value("abs", false))
              tt.AddSourceAbsolute(Un(S(s["v"])));
            else
              tt.AddSource(Un(S(s["v"])));
          }
        tt.Build();
      },
      *t);
  Reg::Run();
  J a = J::array();
  for (auto &kv : outs)
    a.push_back({kv.first, kv.second});
  Got(J{{"objs", a}, {"twice", twice}});
}

} // namespace
void __attribute__((weak)) KindExe(const J &) { _exit(94); } // harness/exe
void ApiGot(const J &v) { Got(v); }
namespace {

void RunOne(const J &sc) {
  const std::string kind = S(sc["kind"]);
  if (kind == "reg") KindReg(sc);
  else if (kind == "store") KindStore(sc);
  else if (kind == "info") KindInfo(sc);
  else if (kind == "find") KindFind(sc);
  else if (kind == "cmd") KindCmd(sc);
  else if (kind == "args") KindArgs(sc);
  else if (kind == "obj") KindObj(sc);
  else if (kind == "exe") KindExe(sc);
  else _exit(94);
}

} // namespace

int ApiMain(int argc, char **argv) {
  if (argc < 5 || std::string(argv[1]) != "api")
    return 2;
  J scs;
  std::ifstream(argv[2]) >> scs;
  std::ofstream out(argv[3]);
  const std::string scratch = argv[4];
  const std::string res = scratch + "/res";
  int idx = 0;
  for (const auto &sc : scs) {
    sim::W = scratch + "/w" + std::to_string(idx++);
    fs::create_directories(sim::W);
    const int fd = ::open(res.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      int nul = ::open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      if (!getenv("VERIF_KEEP_STDERR"))
        dup2(nul, 2);
      g_out = fd;
      alarm(20);
      if (chdir(sim::W.c_str()) != 0)
        _exit(98);
      RunOne(sc);
      std::exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    ::close(fd);
    std::string end;
    if (WIFEXITED(ws))
      end = WEXITSTATUS(ws) == 0 ? "ok" : WEXITSTATUS(ws) >= 94 && WEXITSTATUS(ws) <= 98 ? "harness" : "rejected";
    else
      end = WTERMSIG(ws) == SIGALRM ? "hang" : "crash";
    J got = J::array();
    std::ifstream f(res);
    std::string line;
    while (std::getline(f, line))
      if (!line.empty())
        got.push_back(J::parse(line));
    out << J{{"id", sc["id"]}, {"got", got}, {"end", end}}.dump(-1, ' ', false, J::error_handler_t::replace) << "\n";
    fs::remove_all(sim::W);
  }
  ::unlink(res.c_str());
  return 0;
}
