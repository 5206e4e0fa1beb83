// Histories of runs of the program buildexe, each in a process of its own.
#include "sim.h"

#include <algorithm>
#include <atomic>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <mutex>
#include <regex>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fs = std::filesystem;
using sim::J;

int buildexe_main(int argc, char **argv);
void ApiGot(const J &v);

namespace {
std::string S(const J &j) { return j.get<std::string>(); }
std::string Un(std::string s) {
  for (size_t k; (k = s.find("$W")) != std::string::npos;)
    s.replace(k, 2, sim::W);
  return s;
}
void Touch(const fs::path &p, const std::string &c, int version) {
  fs::create_directories(p.parent_path());
  sim::PutFile(p.string(), c, 1650000000000000000LL + version * 1000003LL);
}

std::string Quoted(const std::string &s) {
  return "\"" + s + "\"";
}
void Toml(std::ostream &o, const J &opts) {
  for (const auto &x : opts) {
    o << S(x["k"]) << " = ";
    if (x["one"].get<bool>())
      o << Quoted(Un(S(x["v"][0])));
    else {
      o << "[";
      for (size_t k = 0; k < x["v"].size(); k++)
        o << (k ? ", " : "") << Quoted(Un(S(x["v"][k])));
      o << "]";
    }
    o << "\n";
  }
}
void Cli(std::vector<std::string> &av, const J &opts) {
  for (const auto &x : opts)
    for (const auto &v : x["v"])
      av.push_back("--" + S(x["k"]) + "=" + Un(S(v)));
}

std::vector<std::string> Argv(const J &o, int nr) {
  std::vector<std::string> av = {"buildexe"};
  const std::string style = S(o["style"]);
  if (style == "cli") {
    Cli(av, o["top"]);
    if (o["clean"].get<bool>())
      av.push_back("--clean");
    for (const auto &s : o["sub"]) {
      av.push_back(S(s["k"]));
      Cli(av, s["o"]);
    }
    if (S(o["bad"]) == "libname") {
      av.push_back("libs");
      av.push_back("--nolib=x.cpp");
    }
    av.push_back("toolchain");
    av.push_back("host");
    Cli(av, o["tc"]);
    return av;
  }
  const std::string f1 = sim::W + "/compile" + std::to_string(nr) + ".toml", f2 = sim::W + "/host" + std::to_string(nr) + ".toml";
  std::ofstream a(f1), b(f2);
  Toml(a, o["top"]);
  a << "clean = " << (o["clean"].get<bool>() ? "true" : "false") << "\n";
  for (const auto &s : o["sub"]) {
    a << "[" << S(s["k"]) << "]\n";
    Toml(a, s["o"]);
  }
  std::ostream &t = style == "two" ? (std::ostream &)b : a;
  t << "[toolchain.host]\nbuild = true\ntest = true\n";
  Toml(t, o["tc"]);
  av.insert(av.end(), {"--config", f1});
  if (style == "two")
    av.insert(av.end(), {"--config", f2});
  return av;
}

struct Cmd {
  std::string id;
  std::vector<std::string> toks;
  int start, end;
};

void Child(const J &st, int fd, int nr) {
  static std::mutex mu;
  static std::vector<Cmd> ran;
  static int clock = 0;
  const std::string fail = S(st["fail"]);
  auto report = [fd]() {
    J a = J::array();
    for (const auto &c : ran)
      a.push_back({{"id", c.id}, {"toks", c.toks}, {"start", c.start}, {"end", c.end}});
    const std::string s = a.dump();
    if (::lseek(fd, 0, SEEK_SET) != 0 || ::ftruncate(fd, 0) != 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size())
      _exit(96);
  };
  sim::g_exec = [&, report](const std::string &cmd, const std::string &, const sim::Out &out, const sim::Out &) {
    const auto t = sim::Tokens(cmd);
    for (const char *q : {"-dumpversion", "-dumpmachine"})
      if (std::find(t.begin(), t.end(), q) != t.end()) {
        const std::string a = q[5] == 'v' ? "13.3.0\n" : "x86_64-linux-gnu\n";
        if (out)
          out(a.data(), a.size());
        return 0;
      }
    std::string o;
    for (size_t k = 0; k + 1 < t.size(); k++)
      if (t[k] == "-o" || t[k] == "rcs")
        o = t[k + 1];
    Cmd c;
    for (const auto &x : t)
      c.toks.push_back(sim::Mask(x));
    c.id = !o.empty() ? sim::Mask(o) : "run " + (c.toks.empty() ? std::string() : c.toks[0]);
    size_t at;
    {
      std::lock_guard<std::mutex> l(mu);
      c.start = ++clock;
      c.end = 1 << 30;
      at = ran.size();
      ran.push_back(c);
      report();
    }
    usleep(100);
    int rc = 0;
    if (c.id == fail)
      rc = 1;
    else if (o.empty()) { // running what was built
      if (t.empty() || !fs::exists(t[0]))
        rc = 127;
    } else {
      bool can = fs::is_directory(fs::path(o).parent_path());
      for (size_t k = 0; k + 1 < t.size(); k++)
        if (t[k] == "-c" && !fs::exists(t[k + 1]))
          can = false;
      if (can)
        Touch(o, "made " + std::to_string(nr), 5000 + nr);
      else
        rc = 1;
    }
    std::lock_guard<std::mutex> l(mu);
    ran[at].end = ++clock;
    report();
    return rc;
  };
  const J &o = st["opts"];
  const std::string bad = S(o["bad"]), home = sim::W + "/" + S(o["home"]);
  setenv("BUILDCC_HOME", home.c_str(), 1);
  setenv("PATH", (sim::W + "/bin").c_str(), 1);
  if (bad == "nohome")
    unsetenv("BUILDCC_HOME");
  else if (bad == "home")
    setenv("BUILDCC_HOME", (sim::W + "/nowhere").c_str(), 1);
  else if (bad == "buildcc" || bad == "libs" || bad == "extensions")
    fs::rename(home + "/" + bad, home + "/was_" + bad);
  else if (bad == "compiler")
    fs::remove(sim::W + "/bin/g++");
  report();
  auto av = Argv(o, nr);
  std::vector<char *> a;
  for (auto &x : av)
    a.push_back(x.data());
  a.push_back(nullptr);
  std::exit(buildexe_main((int)av.size(), a.data()));
}

J Db(const std::string &f) {
  std::ifstream i(f);
  J j = J::parse(i, nullptr, false);
  if (!j.is_array())
    return "unusable";
  J a = J::array();
  std::vector<std::string> fs;
  for (const auto &e : j)
    fs.push_back(e.is_object() && e.contains("file") && e["file"].is_string() ? sim::Mask(S(e["file"])) : "?");
  std::sort(fs.begin(), fs.end());
  fs.erase(std::unique(fs.begin(), fs.end()), fs.end());
  for (auto &x : fs)
    a.push_back(x);
  return a;
}

// name = "value" for every library
J Libs(const std::string &f) {
  std::ifstream i(f);
  std::stringstream b;
  b << i.rdbuf();
  const std::string t = b.str();
  const std::regex re("([A-Za-z_][A-Za-z0-9_]*)[ \t]*=[ \t]*\"([^\"]*)\"");
  J a = J::array();
  for (auto it = std::sregex_iterator(t.begin(), t.end(), re); it != std::sregex_iterator(); ++it)
    a.push_back(J::array({(*it)[1].str(), sim::Mask((*it)[2].str())}));
  return a;
}
} // namespace

void KindExe(const J &sc) {
  alarm(60);
  for (const auto &f : sc["world"])
    Touch(sim::W + "/" + S(f), "v0", 0);
  for (const char *x : {"as", "gcc", "g++", "ar", "ld"}) {
    Touch(sim::W + "/bin/" + x, "#!", 0);
    ::chmod((sim::W + "/bin/" + x).c_str(), 0755);
  }
  int nr = 0;
  for (const auto &st : sc["steps"]) {
    const std::string op = S(st["op"]);
    if (op == "write")
      Touch(sim::W + "/" + S(st["f"]), "v" + std::to_string(st["v"].get<int>()), st["v"].get<int>());
    else if (op == "rename")
      fs::rename(sim::W + "/" + S(st["f"]), sim::W + "/" + S(st["to"]));
    else if (op == "mkdir")
      fs::create_directories(sim::W + "/" + S(st["f"]));
    else if (op == "run") {
      usleep(12000); // file times advance in ticks
      nr++;
      const J &o = st["opts"];
      const std::string cf = sim::W + "/.cmds", db = sim::W + "/" + S(o["out"]) + "/compile_commands.json";
      ::unlink(db.c_str());
      const int fd = ::open(cf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
      const pid_t pid = fork();
      if (pid == 0) {
        alarm(30);
        Child(st, fd, nr);
      }
      int ws = 0;
      waitpid(pid, &ws, 0);
      ::close(fd);
      std::ifstream i(cf);
      J cmds = J::parse(i, nullptr, false);
      if (!cmds.is_array())
        _exit(95);
      const bool ok = WIFEXITED(ws) && WEXITSTATUS(ws) == 0;
      const std::string ex = ok ? "ok" : WIFEXITED(ws) ? "fail" : WTERMSIG(ws) == SIGALRM ? "hang" : "crash";
      ApiGot({{"exit", ex}, {"cmds", cmds}, {"db", Db(db)},
              {"libs", Libs(sim::W + "/" + S(o["out"]) + "/gcc/" + S(o["name"]) + "/buildexe_lib_dirs.h")}});
    }
  }
}
