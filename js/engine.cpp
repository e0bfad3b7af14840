// The engine behind one C function, for clients in other languages: [function, arguments...] -> result or error, as JSON text.
// ".function" is the function of that name which the wrapper module exports, "function" the engine's own (for the reference).
#include <nlohmann/json.hpp>
#include "rtbot/bindings.h"
#ifdef RT_TABLE  // the functions are those the wrapper's module definition exports
#include "exported.h"
#endif
using json = nlohmann::json;
extern "C" const char* rt_call(const char* text) {
  static std::string out; json a, r;
  try {
    a = json::parse(text); std::string f = a.at(0);
#ifdef RT_TABLE
    if (f[0] == '.') { auto& t = exported::RT_TABLE(); auto it = t.find(f.substr(1)); if (it == t.end()) throw std::runtime_error("no function " + f); a.erase(a.begin()); r = {{"ok", it->second(a)}}; out = r.dump(-1, ' ', false, json::error_handler_t::replace); return out.c_str(); }
#endif
    if (f[0] == '.') f.erase(0, 1);
    auto s = [&](int i) { return a.at(i).get<std::string>(); }; std::string x;
    if (f == "validate") x = validate(s(1)); else if (f == "validateOperator") x = validateOperator(s(1), s(2));
    else if (f == "createProgram") x = createProgram(s(1), s(2)); else if (f == "deleteProgram") x = deleteProgram(s(1));
    else if (f == "addToMessageBuffer") x = addToMessageBuffer(s(1), s(2), a.at(3).get<unsigned long>(), a.at(4).is_null() ? std::nan("") : a.at(4).get<double>());
    else if (f == "processMessageBuffer") x = processMessageBuffer(s(1)); else if (f == "processMessageBufferDebug") x = processMessageBufferDebug(s(1));
    else if (f == "getProgramEntryOperatorId") x = getProgramEntryOperatorId(s(1)); else if (f == "getProgramEntryPorts") x = getProgramEntryPorts(s(1)); else if (f == "getProgramOutputFilter") x = getProgramOutputFilter(s(1));
    else if (f == "processBatch") x = processBatch(s(1), a.at(2).get<std::vector<uint64_t>>(), a.at(3).get<std::vector<double>>(), a.at(4).get<std::vector<std::string>>());
    else if (f == "processBatchDebug") x = processBatchDebug(s(1), a.at(2).get<std::vector<uint64_t>>(), a.at(3).get<std::vector<double>>(), a.at(4).get<std::vector<std::string>>());
    else throw std::runtime_error("no function " + f);
    r = {{"ok", x}};
  } catch (const std::exception& e) { r = {{"error", e.what()}}; }
  out = r.dump(-1, ' ', false, json::error_handler_t::replace); return out.c_str();
}
