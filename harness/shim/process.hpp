// Stand-in for tiny-process-library (absent from this sandbox).
// Commands are executed by the simulated toolchain of the harness; see sim.h.
#ifndef VERIF_SHIM_PROCESS_HPP_
#define VERIF_SHIM_PROCESS_HPP_
#include <functional>
#include <string>
#include <unordered_map>
namespace TinyProcessLib {
class Process {
public:
  using string_type = std::string;
  using environment_type = std::unordered_map<string_type, string_type>;
  using out_fn = std::function<void(const char *bytes, size_t n)>;
  Process(const string_type &command, const string_type &path = string_type(),
          out_fn read_stdout = nullptr, out_fn read_stderr = nullptr,
          bool open_stdin = false);
  int get_exit_status() noexcept;
  bool try_get_exit_status(int &exit_status) noexcept;
private:
  int status_{-1};
};
} // namespace TinyProcessLib
#endif
