// the command-line tool tools/name.cpp: every call is a process of its own
#include "drv.hpp"
#include <cstdlib>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#define main name_main
#include <../tools/name.cpp>
#undef main
static int call(int (*f)(int, const char**), int c, char** v) { return f(c, const_cast<const char**>(v)); }
static int call(int (*f)(int, char**), int c, char** v) { return f(c, v); }
extern "C" int tool_main(int c, char** v) { unsetenv("VERIF_TOOL"); return call(name_main, c, v); }
static std::string all(int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, n); close(fd); return s; }
OP(name_tool) { // name called by, standard input, arguments -> standard output, status, whether there are complaints
   int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0);
   if (in < 0 || out < 0 || err < 0 || write(in, a[1].data(), a[1].size()) != ssize_t(a[1].size())) _exit(99);
   lseek(in, 0, SEEK_SET);
   std::vector<char*> v{ const_cast<char*>(a[0].c_str()) };
   for (size_t i = 2; i < a.size(); ++i) v.push_back(const_cast<char*>(a[i].c_str()));
   v.push_back(nullptr);
   pid_t p = fork();
   if (p < 0) _exit(99);
   if (p == 0) {
      dup2(in, 0); dup2(out, 1); dup2(err, 2);
      setenv("VERIF_TOOL", "1", 1);
      alarm(60);
      execv("/proc/self/exe", v.data());
      _exit(99);
   }
   int st = 0;
   while (waitpid(p, &st, 0) < 0) {}
   close(in);
   std::string so = all(out), se = all(err);
   fprintf(stderr, "%s", se.c_str());
   need(WIFEXITED(st), "the tool crashed");
   o.str(so); o.raw("\0\1\2\3", 0); o.back() = std::string(1, char(WEXITSTATUS(st))); o.flag(!se.empty());
}
