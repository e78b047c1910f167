// Native runtime: replays the values chosen by the solver.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

#include "harness.h"
#undef fopen
#undef fclose

static FILE* gIn;
static int gCase;
extern "C" void harness_main();
extern "C" [[noreturn]] void verif_check_failed(const char* what) {
  fprintf(stderr, "CHECK failed: %s\n", what);
  fflush(stdout);
  abort();
}
static void next(void* p, size_t size, const char* name) {
  char nm[256], hex[1 << 16];
  size_t n;
  if (!size) return;
  memset(p, 0, size);
  if (!gIn || fscanf(gIn, "%255s %zu %65535s", nm, &n, hex) != 3) {
    printf("END %s\n", name);
    fflush(stdout);
    exit(78);
  }
  if (strcmp(nm, name) || n != size) {
    printf("DIVERGED expected %s got %s\n", name, nm);
    fflush(stdout);
    exit(78);
  }
  for (size_t i = 0; i < size; i++) {
    unsigned v;
    sscanf(hex + 2 * i, "%2x", &v);
    ((unsigned char*)p)[i] = (unsigned char)v;
  }
}
extern "C" {
void sym_make(void* p, size_t size, const char* name) { next(p, size, name); }
void sym_assume(bool c) {
  if (!c) {
    printf("ASSUME\n");
    fflush(stdout);
    _Exit(77);
  }
}
void sym_assert(bool c, const char* msg) {
  if (!c) {
    printf("ASSERT %s\n", msg);
    fflush(stdout);
    _Exit(99);
  }
}
void sym_fail(const char* msg) { sym_assert(false, msg); }
void sym_reach(const char*) {}
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
double sym_real(const char* name, double, double) {
  double d;
  next(&d, 8, name);
  return d;
}
int sym_case(void) { return gCase; }
int sym_engine(void) { return 0; }
void sym_stop(void) {
  fflush(stdout);
  _Exit(0);
}
}
int main(int argc, char** argv) {
  if (argc > 1) gCase = atoi(argv[1]);
  if (argc > 2) gIn = fopen(argv[2], "r");
  harness_main();
  printf("DONE\n");
  fflush(stdout);
  return 0;
}
