#include "drv.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <sanitizer/allocator_interface.h>
std::map<std::string, OpFn>& registry() { static std::map<std::string, OpFn> r; return r; }
static size_t cur_mem, peak_mem;
static bool   counting;
static void on_malloc(const volatile void*, size_t n) { if (counting) { cur_mem += n; if (cur_mem > peak_mem) peak_mem = cur_mem; } }
static void on_free(const volatile void* p) { if (counting && p) { size_t n = __sanitizer_get_allocated_size(p); cur_mem = cur_mem > n ? cur_mem - n : 0; } }
static int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
extern "C" __attribute__((weak)) int tool_main(int, char**); // a command-line tool of the repository (tool.cpp)
int main(int argc, char** argv) {
   if (tool_main && getenv("VERIF_TOOL")) return tool_main(argc, argv);
   int limit = argc > 1 ? atoi(argv[1]) : 20;
   struct rlimit st{ 8u << 20, 8u << 20 };
   setrlimit(RLIMIT_STACK, &st);
#if !__has_feature(thread_sanitizer)
   __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
   std::string line;
   while (std::getline(std::cin, line)) {
      std::vector<std::string> tok;
      size_t i = 0;
      while (i < line.size()) { size_t j = line.find(' ', i); if (j == std::string::npos) j = line.size(); tok.push_back(line.substr(i, j - i)); i = j + 1; }
      if (tok.size() < 2) continue;
      auto it = registry().find(tok[1]);
      if (it == registry().end()) { fprintf(stderr, "unknown op %s\n", tok[1].c_str()); return 99; }
      Args a;
      for (size_t k = 2; k < tok.size(); ++k) {
         std::string s;
         if (tok[k] != "-") for (size_t x = 0; x + 1 < tok[k].size(); x += 2) s.push_back(char(hv(tok[k][x]) * 16 + hv(tok[k][x + 1])));
         a.push_back(std::move(s));
      }
      Out o; bool ok = true; std::string msg;
      struct itimerval tv{ { 0, 0 }, { limit, 0 } }, wall{ { 0, 0 }, { limit * 10, 0 } }; // a busy machine is no reason for an alarm
      setitimer(ITIMER_PROF, &tv, nullptr); setitimer(ITIMER_REAL, &wall, nullptr);
      cur_mem = peak_mem = 0; counting = true;
      try { it->second(a, o); }
      catch (std::exception& e) { ok = false; msg = e.what(); }
      catch (...) { ok = false; msg = "unknown"; }
      counting = false;
      tv = {}; setitimer(ITIMER_PROF, &tv, nullptr); setitimer(ITIMER_REAL, &tv, nullptr);
      if (!ok) { o.clear(); o.push_back(msg); }
      std::string r = tok[0] + (ok ? " ok " : " err ") + std::to_string(peak_mem / 1024);
      static const char* H = "0123456789abcdef";
      for (auto& s : o) { r += ' '; if (s.empty()) r += '-'; for (unsigned char c : s) { r += H[c >> 4]; r += H[c & 15]; } }
      r += '\n';
      fwrite(r.data(), 1, r.size(), stdout); fflush(stdout);
   }
   return 0;
}
