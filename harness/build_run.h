#ifndef VERIF_BUILD_RUN_H_
#define VERIF_BUILD_RUN_H_
#include <nlohmann/json.hpp>
void BuildRun(const nlohmann::ordered_json &desc,
              const nlohmann::ordered_json &plan);
#endif
