// Native driver:  replay ENTRY VALUES ARG...
//   VALUES: one "name hex" line per sx_symbolic call, in order.
// Exit: 0 property held, 99 CHECK failed, 98 uncaught exception, 77 an
// assumption does not hold (the values are not a counterexample), otherwise
// the process died (signal) or a sanitizer stopped it.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
static std::vector<std::vector<unsigned char>> vals;
static size_t at = 0;
static bool covers = false;
static int allow = 0;
extern "C" {
void sx_symbolic(void *p, size_t n, const char *name) {
  if (at >= vals.size()) {
    // beyond the recorded values (the run diverged before this point)
    memset(p, 0, n);
    fprintf(stderr, "SX-EXTRA %s\n", name);
    at++;
    return;
  }
  auto &v = vals[at++];
  if (v.size() != n) {
    fprintf(stderr, "SX-DIVERGED %s size %zu recorded %zu\n", name, n, v.size());
    _Exit(76);
  }
  memcpy(p, v.data(), n);
  fprintf(stderr, "SX-INPUT %s = \"", name);
  for (size_t i = 0; i < n; i++)
    if (v[i] >= 32 && v[i] < 127) fputc(v[i], stderr);
    else fprintf(stderr, "\\x%02x", v[i]);
  fprintf(stderr, "\"\n");
}
void sx_assume(bool b) {
  if (!b) {
    fprintf(stderr, "SX-ASSUME-FALSE\n");
    _Exit(77);
  }
}
void sx_assume_in(int c, const char *set, size_t n) { sx_assume(memchr(set, c, n) != nullptr); }
void sx_assert(bool b, const char *m) {
  if (!b) {
    fprintf(stderr, "SX-FAIL %s\n", m);
    fflush(stderr);
    _Exit(99);
  }
}
void sx_cover(const char *l) {
  if (covers) printf("COVER %s\n", l);
}
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_note(const char *m) { fprintf(stderr, "SX-NOTE %s\n", m); }
void sx_allow_abort(int a) { allow = a; }
}
static void onterm() {
  if (allow) _Exit(0);
  fprintf(stderr, "SX-FAIL uncaught exception\n");
  _Exit(98);
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  std::set_terminate(onterm);
  covers = getenv("SX_COVERS") != nullptr;
  std::ifstream f(argv[2]);
  std::string name, hex;
  while (f >> name >> hex) {
    std::vector<unsigned char> v;
    if (hex != "-")
      for (size_t i = 0; i + 1 < hex.size(); i += 2) v.push_back((unsigned char)strtoul(hex.substr(i, 2).c_str(), nullptr, 16));
    vals.push_back(v);
  }
  void *fn = dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) return 65;
  long a[6] = {0, 0, 0, 0, 0, 0};
  for (int i = 3; i < argc && i < 9; i++) a[i - 3] = atol(argv[i]);
  ((void (*)(int, int, int, int, int, int))fn)((int)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5]);
  fprintf(stderr, "SX-OK\n");
  fflush(stdout);
  _Exit(0);
}
