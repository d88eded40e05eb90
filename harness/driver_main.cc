// Conformance driver: executes tab-separated commands, one per line, against
// the real library and prints one JSON value per command on stdout.  It only
// uses the library's public API; the abstract state it reports (propositions,
// objects, plans, ...) is what the TLA+ trace specifications compare.
#include "driver.h"

namespace drv {
Session S;
std::map<std::string, Handler> handlers;

std::string ErrorKind(const std::exception& e) {
  if (dynamic_cast<const PartialState::UnknownEvaluation*>(&e)) return "unknown";
  if (dynamic_cast<const std::out_of_range*>(&e)) return "out_of_range";
  if (dynamic_cast<const std::invalid_argument*>(&e)) return "invalid_argument";
  if (dynamic_cast<const std::domain_error*>(&e)) return "domain_error";
  if (dynamic_cast<const std::bad_alloc*>(&e)) return "bad_alloc";
  if (dynamic_cast<const std::runtime_error*>(&e)) return "runtime_error";
  return "exception";
}

}  // namespace drv

// The parse trees of the stand-in are never freed.
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=1";
}

int main() {
  using namespace drv;  // NOLINT
  RegisterSession();
  RegisterStates();
  RegisterActions();
  RegisterIndex();
  RegisterPlanning();
  RegisterTemplates();
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    // Bytes 1 and 2 stand for a tab and a line break inside of a field.
    Fields f = Split(line, '\t');
    for (std::string& x : f) {
      for (char& c : x) c = c == 1 ? '\t' : c == 2 ? '\n' : c;
    }
    std::string out;
    try {
      auto it = handlers.find(f[0]);
      if (it == handlers.end()) throw std::logic_error("unknown op " + f[0]);
      out = it->second(f);
    } catch (const std::exception& e) {
      out = "{\"err\":" + J(ErrorKind(e)) + ",\"what\":" + J(std::string(e.what())) + "}";
    }
    std::cout << out << "\n" << std::flush;
  }
  return 0;
}
