// Executes one "run" step of a build scenario against the real library, in the
// calling (freshly forked) process. Never returns normally.
#include "build_run.h"

#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>
#include "sim.h"

#include "args/args.h"
#include "args/register.h"
#include "env/storage.h"
#include "plugins/clang_compile_commands.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/target.h"
#include "target/template_generator.h"
#include "targets/target_gcc.h"
#include "targets/target_generic.h"
#include "targets/target_mingw.h"
#include "targets/target_msvc.h"
#include "toolchains/toolchain_generic.h"
#include "toolchains/toolchain_specialized.h"

#include <map>
#include <memory>
#include <unistd.h>

using sim::J;
using namespace buildcc;

namespace {

std::string S(const J &j) { return j.get<std::string>(); }

TargetType TypeOf(const std::string &t) {
  if (t == "static")
    return TargetType::StaticLibrary;
  if (t == "dynamic")
    return TargetType::DynamicLibrary;
  return TargetType::Executable;
}

struct World {
  std::map<std::string, Target *> targets;
  std::map<std::string, internal::BuilderInterface *> builders;
  std::vector<Toolchain *> tcs;
};

std::string g_root; // root of the project, relative to the workspace

fs::path P(const J &j) { return fs::path(sim::W) / S(j); }

template <typename F> void Each(const J &b, const char *k, F f) {
  if (b.contains(k))
    for (const auto &x : b[k])
      f(x);
}

// A path in the way the description wants it to be written: relative to the
// root of the builder, in two parts, or absolute with detours.
struct Way {
  std::string style;
  fs::path root;
  fs::path Rel(const J &x) const { return P(x).lexically_relative(root); }
  fs::path Abs(const J &x) const {
    const fs::path p = P(x);
    if (style != "dots")
      return p;
    return p.parent_path() / "." / ".." / p.parent_path().filename() / p.filename();
  }
  bool rel() const { return style == "rel" || style == "split"; }
  bool split() const { return style == "split"; }
};

void FillTarget(Target &t, const J &b, World &w) {
  const Way y{b.value("style", std::string("abs")),
              (fs::path(sim::W) / g_root / b.value("env", std::string(""))).lexically_normal()};
  Each(b, "src", [&](const J &x) {
    if (y.split())
      t.AddSource(y.Rel(x).filename(), y.Rel(x).parent_path());
    else if (y.rel())
      t.AddSource(y.Rel(x));
    else
      t.AddSourceAbsolute(y.Abs(x));
  });
  Each(b, "hdr", [&](const J &x) {
    if (y.split())
      t.AddHeader(y.Rel(x).filename(), y.Rel(x).parent_path());
    else if (y.rel())
      t.AddHeader(y.Rel(x));
    else
      t.AddHeaderAbsolute(y.Abs(x));
  });
  Each(b, "pch", [&](const J &x) {
    if (y.split())
      t.AddPch(y.Rel(x).filename(), y.Rel(x).parent_path());
    else if (y.rel())
      t.AddPch(y.Rel(x));
    else
      t.AddPchAbsolute(y.Abs(x));
  });
  Each(b, "inc", [&](const J &x) {
    if (y.rel())
      t.AddIncludeDir(y.Rel(x));
    else
      t.AddIncludeDirAbsolute(y.Abs(x));
  });
  Each(b, "ldir", [&](const J &x) {
    if (y.rel())
      t.AddLibDir(y.Rel(x));
    else
      t.AddLibDirAbsolute(y.Abs(x));
  });
  Each(b, "libs", [&](const J &x) { t.AddLibDep(*w.targets.at(S(x))); });
  Each(b, "xlibs", [&](const J &x) { t.AddLibDep(S(x)); });
  Each(b, "pre", [&](const J &x) { t.AddPreprocessorFlag(S(x)); });
  Each(b, "com", [&](const J &x) { t.AddCommonCompileFlag(S(x)); });
  Each(b, "pchc", [&](const J &x) { t.AddPchCompileFlag(S(x)); });
  Each(b, "pcho", [&](const J &x) { t.AddPchObjectFlag(S(x)); });
  Each(b, "asm", [&](const J &x) { t.AddAsmCompileFlag(S(x)); });
  Each(b, "c", [&](const J &x) { t.AddCCompileFlag(S(x)); });
  Each(b, "cpp", [&](const J &x) { t.AddCppCompileFlag(S(x)); });
  Each(b, "lnk", [&](const J &x) { t.AddLinkFlag(S(x)); });
  Each(b, "cdep", [&](const J &x) {
    if (y.rel())
      t.AddCompileDependency(y.Rel(x));
    else
      t.AddCompileDependencyAbsolute(y.Abs(x));
  });
  Each(b, "ldep", [&](const J &x) {
    if (y.rel())
      t.AddLinkDependency(y.Rel(x));
    else
      t.AddLinkDependencyAbsolute(y.Abs(x));
  });
}

TargetEnv EnvOf(const J &b) {
  const std::string env = b.value("env", std::string(""));
  const std::string bdir = b.value("bdir", std::string(""));
  if (bdir.empty())
    return TargetEnv(env.c_str());
  return TargetEnv((fs::path(sim::W) / g_root / env).lexically_normal(), fs::path(sim::W) / bdir);
}

template <typename E, typename St, typename D>
Target *ByType(TargetType type, const std::string &name, const Toolchain &tc, const TargetEnv &env) {
  switch (type) {
  case TargetType::StaticLibrary:
    return new St(name, tc, env);
  case TargetType::DynamicLibrary:
    return new D(name, tc, env);
  default:
    return new E(name, tc, env);
  }
}

Target *NewTarget(const J &b, World &w) {
  const Toolchain &tc = *w.tcs.at((size_t)b.value("tc", 1) - 1);
  std::string name = b.value("as", std::string(""));
  if (name.empty())
    name = S(b["name"]);
  const std::string cls = b.value("cls", std::string("base"));
  const TargetType type = TypeOf(b.value("type", std::string("exe")));
  const TargetEnv env = EnvOf(b);
  if (cls == "gcc")
    return ByType<ExecutableTarget_gcc, StaticTarget_gcc, DynamicTarget_gcc>(type, name, tc, env);
  if (cls == "mingw")
    return ByType<ExecutableTarget_mingw, StaticTarget_mingw, DynamicTarget_mingw>(type, name, tc, env);
  if (cls == "msvc")
    return ByType<ExecutableTarget_msvc, StaticTarget_msvc, DynamicTarget_msvc>(type, name, tc, env);
  if (cls == "generic")
    return ByType<ExecutableTarget_generic, StaticTarget_generic, DynamicTarget_generic>(type, name, tc, env);
  if (cls == "generic2")
    return new Target_generic(name, type, tc, env);
  TargetConfig cfg;
  cfg.target_ext = b.value("ext", std::string(""));
  if (cls == "own") {
    cfg.compile_command = "{compiler} --tools {asm_compiler} {c_compiler} {cpp_compiler} {archiver} {linker} {common_compile_flags} "
                          "{compile_flags} {pch_object_flags} {include_dirs} {preprocessor_flags} -o {output} -c {input} {{x}}";
    cfg.pch_command = "{compiler} {compile_flags} {pch_compile_flags} {common_compile_flags} {preprocessor_flags} {include_dirs} "
                      "-o {output} -c {input} -src {input_source} -obj {pch_object_output}";
    cfg.link_command = "{linker} {lib_deps} {lib_dirs} {link_flags} -o {output} {compiled_sources} --by {cpp_compiler} {archiver}";
  }
  return new Target(name, type, tc, env, cfg);
}

Toolchain *NewToolchain(const J &j) {
  const std::string id = j.value("id", std::string("custom"));
  const std::string name = S(j["name"]);
  const auto &x = j["x"];
  const ToolchainExecutables ex(S(x["as"]), S(x["cc"]), S(x["cxx"]), S(x["ar"]), S(x["ld"]));
  Toolchain *tc = nullptr;
  if (id == "gcc")
    tc = new Toolchain_gcc(name, ex);
  else if (id == "msvc")
    tc = new Toolchain_msvc(name, ex);
  else if (id == "mingw")
    tc = new Toolchain_mingw(name, ex);
  else if (id == "clang")
    tc = &Toolchain_generic::New(ToolchainId::Clang, name, ex);
  else if (id == "own") {
    ToolchainConfig cfg;
    cfg.obj_ext = ".ob";
    cfg.pch_header_ext = ".hh";
    cfg.pch_compile_ext = ".pcx";
    cfg.prefix_include_dir = "--inc=";
    cfg.prefix_lib_dir = "--lib=";
    tc = new Toolchain(ToolchainId::Custom, name, ex, cfg);
  } else
    tc = new Toolchain(ToolchainId::Custom, name, ex);
  Each(j, "pre", [&](const J &x) { tc->AddPreprocessorFlag(S(x)); });
  Each(j, "com", [&](const J &x) { tc->AddCommonCompileFlag(S(x)); });
  Each(j, "pchc", [&](const J &x) { tc->AddPchCompileFlag(S(x)); });
  Each(j, "pcho", [&](const J &x) { tc->AddPchObjectFlag(S(x)); });
  Each(j, "asm", [&](const J &x) { tc->AddAsmCompileFlag(S(x)); });
  Each(j, "c", [&](const J &x) { tc->AddCCompileFlag(S(x)); });
  Each(j, "cpp", [&](const J &x) { tc->AddCppCompileFlag(S(x)); });
  Each(j, "lnk", [&](const J &x) { tc->AddLinkFlag(S(x)); });
  return tc;
}

using StrBlob = TypedCustomBlobHandler<std::string>;

void LogPhase(const char *what) { sim::Log({{"e", what}}); }

std::map<std::string, std::string> blobs;

// A path handed to a generator: absolute, or written with the names every
// generator knows.
std::string GenPath(const J &b, const J &x) {
  std::string p = P(x).string();
  if (b.value("style", std::string("abs")) != "pat")
    return p;
  auto sub = [&](const std::string &dir, const char *name) {
    if (p.compare(0, dir.size() + 1, dir + "/") == 0)
      p = std::string(name) + p.substr(dir.size());
  };
  std::string bd = b.value("bdir", std::string(""));
  const std::string build = (fs::path(sim::W) / (bd.empty() ? S(b["_build"]) : bd) / S(b["name"])).lexically_normal().string();
  const std::string root = (fs::path(sim::W) / g_root / b.value("env", std::string(""))).lexically_normal().string();
  sub(build, "{current_build_dir}");
  sub(root.back() == '/' ? root.substr(0, root.size() - 1) : root, "{current_root_dir}");
  return p;
}
void Patterns(const J &b, CustomGenerator &g) {
  Each(b, "pat", [&](const J &kv) { g.AddPattern(S(kv[0]), S(kv[1])); });
}

void FillGen(CustomGenerator &gg, const J &b) {
  const std::string name = S(b["name"]);
  Patterns(b, gg);
  Each(b, "ids", [&](const J &i) {
    const std::string id = S(i["id"]);
    std::unordered_set<std::string> in, out;
    Each(i, "in", [&](const J &x) { in.insert(GenPath(b, x)); });
    Each(i, "out", [&](const J &x) { out.insert(GenPath(b, x)); });
    std::shared_ptr<CustomBlobHandler> h;
    if (i.contains("blob") && S(i["blob"]) != "") {
      auto &slot = blobs[name + "/" + id];
      slot = S(i["blob"]);
      h = std::make_shared<StrBlob>(slot);
    }
    const bool hasblob = static_cast<bool>(h);
    gg.AddIdInfo(
        id, in, out,
        [name, id, hasblob](const CustomGeneratorContext &ctx) {
          return sim::RunGen(name, id, ctx.inputs, ctx.outputs,
                             hasblob ? StrBlob::Deserialize(ctx.userblob) : std::string(""));
        },
        h);
  });
}
std::string Quoted(const std::string &p) {
  return p.find(' ') == std::string::npos ? p : "\"" + p + "\"";
}
void FillFileGen(FileGenerator &gg, const J &b) {
  const std::string name = S(b["name"]);
  Patterns(b, gg);
  Each(b, "in", [&](const J &x) { gg.AddInput(GenPath(b, x)); });
  Each(b, "out", [&](const J &x) { gg.AddOutput(GenPath(b, x)); });
  int k = 0;
  Each(b, "cmds", [&](const J &x) {
    k++;
    gg.AddCommand("gencmd " + name + " " + std::to_string(k) + " " + S(x["x"]) + " -in " +
                      Quoted(GenPath(b, x["in"])) + " -out {o}",
                  {{"o", Quoted(P(x["out"]).string())}});
  });
}
void FillTmpl(TemplateGenerator &gg, const J &b) {
  Patterns(b, gg);
  Each(b, "tmpls", [&](const J &x) { gg.AddTemplate(GenPath(b, x["in"]), GenPath(b, x["out"])); });
}

template <typename R>
void Register(R &&reg, const J &b, World &w, bool on) {
  const std::string name = S(b["name"]);
  const std::string kind = S(b["kind"]);
  auto called = [name, on]() {
    if (!on)
      sim::Log({{"e", "off"}, {"b", name}});
  };
  if (kind == "target") {
    Target *t = w.targets.at(name);
    reg.Build(
        [&](Target &tt) {
          called();
          FillTarget(tt, b, w);
          tt.Build();
        },
        *t);
    w.builders[name] = t;
  } else if (kind == "gen") {
    auto *g = new CustomGenerator(name, EnvOf(b));
    reg.Build(
        [&](CustomGenerator &gg) {
          called();
          FillGen(gg, b);
          gg.Build();
        },
        *g);
    w.builders[name] = g;
  } else if (kind == "filegen") {
    auto *g = new FileGenerator(name, EnvOf(b));
    reg.Build(
        [&](FileGenerator &gg) {
          called();
          FillFileGen(gg, b);
          gg.Build();
        },
        *g);
    w.builders[name] = g;
  } else if (kind == "tmpl") {
    auto *g = new TemplateGenerator(name, EnvOf(b));
    reg.Build(
        [&](TemplateGenerator &gg) {
          called();
          FillTmpl(gg, b);
          gg.Build();
        },
        *g);
    w.builders[name] = g;
  }
}

// a package: parts of the build that are set up under the state they are given
struct Package {
  std::function<void(const ArgToolchainState &)> setup;
  void Setup(const ArgToolchainState &state) { setup(state); }
};

} // namespace

void BuildRun(const J &desc0, const J &plan) {
  J desc = desc0;
  for (const char *k : {"builders", "off"})
    if (desc.contains(k))
      for (auto &b : desc[k])
        b["_build"] = desc.value("build", std::string("build"));
  sim::SetRun(desc, plan);
  const std::string cwd = desc.value("cwd", std::string(""));
  const std::string dir = cwd.empty() ? sim::W : sim::W + "/" + cwd;
  if (chdir(dir.c_str()) != 0)
    _exit(98);

  g_root = desc.value("root", std::string("."));
  const std::string root = cwd.empty() ? g_root : fs::path(sim::W + "/" + g_root).lexically_relative(dir).string();
  const std::string bd = desc.value("build", std::string("build"));
  const std::string bdir = cwd.empty() ? bd : fs::path(sim::W + "/" + bd).lexically_relative(dir).string();
  std::vector<std::string> av = {"drv", "--root_dir", root, "--build_dir", bdir,
                                 "--loglevel", "critical"};
  std::vector<const char *> argv;
  for (auto &a : av)
    argv.push_back(a.c_str());
  Args::Init().Parse((int)argv.size(), argv.data());
  Reg::Init();

  World &w = *new World();
  for (const auto &t : desc["tcs"])
    w.tcs.push_back(NewToolchain(t));

  // Construct first (dependencies may be declared in any order) ...
  for (const char *k : {"builders", "off"})
    Each(desc, k, [&](const J &b) {
      if (b["kind"] == "target")
        w.targets[S(b["name"])] = NewTarget(b, w);
    });
  // ... then register.
  ArgToolchainState on(true, true), off(false, true), notest(true, false);
  int n = 0;
  for (const auto &b : desc["builders"]) {
    Package pkg{[&](const ArgToolchainState &s) { Register(Reg::Toolchain(s), b, w, true); }};
    if (n % 3 == 0)
      Register(Reg::Call(), b, w, true);
    else if (n % 3 == 1)
      Register(Reg::Toolchain(on), b, w, true);
    else
      Reg::Toolchain(n % 2 ? on : notest).BuildPackage(pkg);
    n++;
  }
  n = 0;
  Each(desc, "off", [&](const J &b) {
    if (n++ % 2 == 0)
      Register(Reg::Toolchain(off), b, w, false);
    else
      Register(Reg::Call(false), b, w, false);
    const std::string name = S(b["name"]);
    Reg::Toolchain(off).Func([name]() { sim::Log({{"e", "off"}, {"b", name}}); });
    Reg::Call(false).Func([name]() { sim::Log({{"e", "off"}, {"b", name}}); });
    Package pkg{[name](const ArgToolchainState &) { sim::Log({{"e", "off"}, {"b", name}}); }};
    Reg::Toolchain(off).BuildPackage(pkg);
    if (b["kind"] == "target")
      Reg::Toolchain(off).Test("{executable} --selftest", *w.targets.at(name));
  });
  Each(desc, "deps", [&](const J &d) {
    Reg::Toolchain(on).Dep(*w.builders.at(S(d[0])), *w.builders.at(S(d[1])));
  });
  Each(desc, "offdeps", [&](const J &d) {
    Reg::Toolchain(off).Dep(*w.builders.at(S(d[0])), *w.builders.at(S(d[1])));
  });
  const std::string targ = desc["tcfg"].value("arg", std::string(""));
  const std::string twd = desc["tcfg"].value("wd", std::string(""));
  std::map<std::string, std::pair<std::vector<std::string>, std::vector<std::string>> *> user_out;
  size_t tk = 0;
  Each(desc, "tests", [&](const J &t) {
    std::string cmd = "{executable} --selftest";
    std::unordered_map<const char *, std::string> args;
    if (!targ.empty()) {
      cmd += " --with={with}";
      args["with"] = targ;
    }
    env::optional<fs::path> wd;
    if (!twd.empty())
      wd = fs::path(sim::W) / twd;
    const auto &outs = desc["tcfg"]["out"];
    const std::string type = outs.empty() ? "" : S(outs[tk % outs.size()]);
    tk++;
    auto &mine = *new std::pair<std::vector<std::string>, std::vector<std::string>>();
    user_out[S(t)] = &mine;
    using TO = TestOutput;
    const TO out = type == "def"     ? TO(TO::Type::DefaultBehaviour)
                   : type == "out"   ? TO(TO::Type::TestPrintOnStdout)
                   : type == "err"   ? TO(TO::Type::TestPrintOnStderr)
                   : type == "both"  ? TO(TO::Type::TestPrintOnStderrAndStdout)
                   : type == "user"  ? TO(TO::Type::UserRedirect, &mine.first, &mine.second)
                   : type == "usero" ? TO(TO::Type::UserRedirect, &mine.first)
                   : type == "usere" ? TO(TO::Type::UserRedirect, nullptr, &mine.second)
                                     : TO();
    if (tk % 2)
      Reg::Toolchain(on).Test(cmd, *w.targets.at(S(t)), TestConfig(args, wd, out));
    else {
      Package pkg{[&](const ArgToolchainState &s) { Reg::Toolchain(s).Test(cmd, *w.targets.at(S(t)), TestConfig(args, wd, out)); }};
      Reg::Toolchain(on).BuildPackage(pkg);
    }
  });
  Each(desc, "offtests", [&](const J &t) {
    Reg::Toolchain(notest).Test("{executable} --selftest", *w.targets.at(S(t)));
    Reg::Toolchain(off).Test("{executable} --selftest", *w.targets.at(S(t)));
    Package pkg{[&](const ArgToolchainState &s) { Reg::Toolchain(s).Test("{executable} --selftest", *w.targets.at(S(t))); }};
    Reg::Toolchain(notest).BuildPackage(pkg).BuildPackage(pkg);
  });

  // what the library shows
  struct Sink : spdlog::sinks::base_sink<std::mutex> {
    std::string all;
    void sink_it_(const spdlog::details::log_msg &m) override { all.append(m.payload.data(), m.payload.size()); }
    void flush_() override {}
  };
  auto sink = std::make_shared<Sink>();
  if (!desc["tests"].empty()) {
    spdlog::set_default_logger(std::make_shared<spdlog::logger>("v", sink));
    spdlog::set_level(spdlog::level::info);
  }
  LogPhase("registered");
  const bool compdb = desc.value("compdb", false);
  Reg::Run([&]() {
    LogPhase("post");
    if (compdb) {
      plugin::ClangCompileCommands cc({});
      Each(desc, "builders", [&](const J &b) {
        if (b["kind"] == "target")
          cc.AddTarget(w.targets.at(S(b["name"])));
      });
      cc.Generate();
    }
  });
  Each(desc, "tests", [&](const J &t) {
    const std::string o = "<out of " + S(t) + ">", e = "<err of " + S(t) + ">";
    auto one = [](const std::vector<std::string> &v, const std::string &x, const char *tag) {
      return v.empty() ? std::string() : v == std::vector<std::string>{x} ? std::string(tag) : std::string("?");
    };
    auto has = [&](const std::string &x) { return sink->all.find(x) != std::string::npos; };
    sim::Log({{"e", "output"},
              {"b", S(t)},
              {"got", one(user_out[S(t)]->first, o, "o") + one(user_out[S(t)]->second, e, "e")},
              {"shown", std::string(has(o) ? "o" : "") + (has(e) ? "e" : "")}});
  });
  LogPhase("done");
  std::exit(0);
}
