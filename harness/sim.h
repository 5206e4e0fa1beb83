// Simulated toolchain, event log, fault plan and schedule control.
#ifndef VERIF_SIM_H_
#define VERIF_SIM_H_
#include <functional>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

namespace sim {
using J = nlohmann::ordered_json;

// --- workspace -------------------------------------------------------------
extern std::string W;                       // absolute workspace directory
std::string Rel(const std::string &p);      // strips the workspace prefix
std::string Mask(const std::string &s);     // replaces workspace prefix by $W
std::string Stamp(const std::string &abs);  // content of a file, "-" if absent
void KnowTemplates(const nlohmann::ordered_json &desc);
void ForgetTemplates();
void PutFile(const std::string &abs, const std::string &content,
             long long mtime_ns);
void WriteVersion(const std::string &rel, int ver); // edits a user file
long long VersionTime(const std::string &rel, int ver);

// --- event log -------------------------------------------------------------
void LogOpen(const std::string &path);
void Log(const J &ev);                      // takes the log lock
struct Lock { Lock(); ~Lock(); };
void LogUnlocked(const J &ev);

// --- execution -------------------------------------------------------------
int NextId();                               // unique in the scenario
void SharedInit();
void SetRun(const J &desc, const J &plan);  // in the child, before threads
std::vector<std::string> Tokens(const std::string &cmd);
// A generator callback body; returns success.
bool RunGen(const std::string &b, const std::string &id,
            const std::vector<std::string> &inputs,
            const std::vector<std::string> &outputs, const std::string &blob);
// Set by interface scenarios: carries out commands instead of the simulator.
using Out = std::function<void(const char *, size_t)>;
using ExecFn = std::function<int(const std::string &cmd, const std::string &wd,
                                 const Out &out, const Out &err)>;
extern ExecFn g_exec;
[[noreturn]] void Die(const char *why);
} // namespace sim
#endif
