// driver build <scenarios.json> <out.json> <scratch>
#include "build_run.h"
#include "sim.h"

#include <filesystem>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace fs = std::filesystem;
using sim::J;

int ApiMain(int argc, char **argv);

namespace {

J Snapshot() {
  J files = J::object();
  for (auto it = fs::recursive_directory_iterator(sim::W);
       it != fs::recursive_directory_iterator(); ++it) {
    if (!it->is_regular_file())
      continue;
    const std::string rel = sim::Rel(it->path().string());
    std::string st = sim::Stamp(it->path().string());
    if (st.size() > 200 || (!st.empty() && st[0] == '{'))
      continue; // build records are opaque
    if (rel.find("buildcc_pch.h") != std::string::npos &&
        rel.find(".gch") == std::string::npos &&
        rel.find(".pch") == std::string::npos && rel.find(".pcx") == std::string::npos)
      continue;
    if (rel.size() > 20 && rel.substr(rel.size() - 21) == "compile_commands.json")
      continue;
    files[rel] = st;
  }
  return files;
}

J CompDb(const std::string &build) {
  const J bad = J::array({J{{"dir", "unusable"}, {"cmd", J::array()}, {"file", ""}}});
  const std::string f = sim::W + "/" + build + "/compile_commands.json";
  if (!fs::exists(f))
    return J::array();
  J j = J::parse(sim::Stamp(f), nullptr, false);
  if (!j.is_array())
    return bad;
  J out = J::array();
  for (const auto &e : j) {
    if (!e.is_object() || !e.contains("directory") || !e.contains("file") ||
        !e.contains("command") || !e["directory"].is_string() ||
        !e["file"].is_string() || !e["command"].is_string())
      return bad;
    J toks = J::array();
    for (auto &t : sim::Tokens(e["command"].get<std::string>()))
      toks.push_back(sim::Mask(t));
    out.push_back({{"dir", sim::Mask(e["directory"].get<std::string>())},
                   {"cmd", toks},
                   {"file", sim::Mask(e["file"].get<std::string>())}});
  }
  return out;
}

void Corrupt(const J &st) {
  const std::string p = sim::W + "/" + st["path"].get<std::string>();
  const std::string how = st["how"].get<std::string>();
  std::string c = sim::Stamp(p);
  if (how == "delete") {
    ::unlink(p.c_str());
    return;
  }
  if (!fs::exists(p))
    return;
  if (how == "empty")
    c.clear();
  else if (how == "trunc")
    c.resize(c.size() * (size_t)st.value("num", 1) / 10);
  else if (how == "garbage")
    c = std::string("\x01\xff{]garbage", 11);
  else if (how == "retype") {
    // well-formed JSON of a wrong shape
    const std::string forms[] = {"{}",  "[]",  "null", "42",
                                 "\"x\"", "{\"name\":1}", "{\"ids\":[]}",
                                 "[{\"path\":\"p\"}]"};
    c = forms[st.value("num", 0) % 8];
  } else if (how == "dropkey" || how == "badkey") {
    J j = J::parse(c, nullptr, false);
    if (!j.is_object() || j.empty())
      return;
    size_t k = (size_t)st.value("num", 0) % j.size();
    auto it = j.begin();
    std::advance(it, k);
    std::string key = it.key();
    if (how == "dropkey")
      j.erase(key);
    else
      j[key] = J{{"bogus", 1}};
    c = j.dump(4);
  }
  std::ofstream(p, std::ios::binary | std::ios::trunc) << c;
}

J RunScenario(const J &sc, const std::string &scratch, int idx) {
  sim::W = scratch + "/w" + std::to_string(idx);
  fs::remove_all(sim::W);
  fs::create_directories(sim::W);
  const std::string log = scratch + "/log" + std::to_string(idx);
  ::unlink(log.c_str());
  sim::SharedInit();
  sim::ForgetTemplates();
  sim::LogOpen(log);
  // the files of the user may be links to files elsewhere
  const std::string store = scratch + "/s" + std::to_string(idx);
  if (sc.value("links", false)) {
    fs::remove_all(store);
    fs::create_directories(store);
    int n = 0;
    for (auto it = sc["files"].begin(); it != sc["files"].end(); ++it) {
      const fs::path l = sim::W + "/" + it.key();
      fs::create_directories(l.parent_path());
      fs::create_symlink(store + "/" + std::to_string(n++), l);
    }
  }
  if (sc.contains("files"))
    for (auto it = sc["files"].begin(); it != sc["files"].end(); ++it)
      sim::WriteVersion(it.key(), it.value().get<int>());
  if (sc.contains("raw"))
    for (auto it = sc["raw"].begin(); it != sc["raw"].end(); ++it)
      sim::PutFile(sim::W + "/" + it.key(), it.value().get<std::string>(),
                   1640000000000000000LL);
  sim::Log({{"e", "init"}, {"files", Snapshot()}});
  for (const auto &st : sc["steps"]) {
    const std::string op = st["op"].get<std::string>();
    if (op == "write") {
      sim::WriteVersion(st["f"].get<std::string>(), st["v"].get<int>());
      sim::Log({{"e", "write"}, {"f", st["f"]}, {"st", sim::Stamp(sim::W + "/" + st["f"].get<std::string>())}});
    } else if (op == "put") {
      // file with literal content; time chosen by the scenario
      sim::PutFile(sim::W + "/" + st["f"].get<std::string>(),
                   st["c"].get<std::string>(),
                   1640000000000000000LL + st["t"].get<long long>());
      sim::Log({{"e", "write"}, {"f", st["f"]}, {"st", st["c"]}});
    } else if (op == "rm") {
      ::unlink((sim::W + "/" + st["f"].get<std::string>()).c_str());
      sim::Log({{"e", "write"}, {"f", st["f"]}, {"st", "-"}});
    } else if (op == "corrupt") {
      Corrupt(st);
      sim::Log({{"e", "corrupt"}, {"b", st.value("b", std::string(""))}});
    } else if (op == "run") {
      const J plan = st.value("plan", J::object());
      sim::KnowTemplates(st["desc"]);
      for (const auto &b : st["desc"]["builders"])
        if (b["kind"] == "tmpl") { // file times advance in ticks
          usleep(12000);
          break;
        }
      sim::Log({{"e", "run"}, {"desc", st["desc"]}, {"race", plan.contains("race")}});
      std::cout.flush();
      pid_t pid = fork();
      if (pid == 0) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (!getenv("VERIF_KEEP_STDERR")) dup2(nul, 2);
        alarm(20);
        BuildRun(st["desc"], plan);
        _exit(97);
      }
      int ws = 0;
      waitpid(pid, &ws, 0);
      J ev = {{"e", "exit"}};
      if (WIFEXITED(ws)) {
        ev["how"] = "code";
        ev["code"] = WEXITSTATUS(ws);
      } else {
        int sig = WTERMSIG(ws);
        ev["how"] = sig == SIGALRM ? "hang" : sig == SIGKILL ? "killed" : "signal";
        ev["code"] = sig;
      }
      ev["files"] = Snapshot();
      ev["cdb"] = st["desc"].value("compdb", false)
                      ? CompDb(st["desc"].value("build", std::string("build")))
                      : J::array();
      sim::Log(ev);
    }
  }
  J events = J::array();
  {
    std::ifstream f(log);
    std::string line;
    while (std::getline(f, line))
      if (!line.empty())
        events.push_back(J::parse(line));
  }
  ::unlink(log.c_str());
  fs::remove_all(sim::W);
  fs::remove_all(store);
  return J{{"id", sc["id"]}, {"events", events}};
}

} // namespace

int main(int argc, char **argv) {
  if (argc >= 5 && std::string(argv[1]) == "build") {
    J scs;
    std::ifstream(argv[2]) >> scs;
    // each scenario in its own process: fresh statics, shared counter, log fd
    const int par = 1;
    (void)par;
    std::ofstream out(argv[3]);
    int idx = 0;
    for (const auto &sc : scs) {
      J r = RunScenario(sc, argv[4], idx++);
      out << r.dump() << "\n";
    }
    return 0;
  }
  return ApiMain(argc, argv);
}
