// Native side of the harness API: replays a list of values.
// usage: prog <entry> <valuesfile> ; values file: one "name value" per line, in call order
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <cinttypes>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
static std::vector<std::pair<std::string, uint64_t>> vals; static size_t pos; static int tier; static bool quiet = false; static FILE *rep; // report; the code under test has a standard output of its own
// the harness process must not use the replaced operator new for its own bookkeeping beyond start-up
extern "C" {
static int fill = -1; // what the stack below is filled with, if anything, so that uninitialised locals are seen
__attribute__((noinline, no_sanitize("address"))) static void dirty() { if (fill < 0) return; char b[8192]; memset(b, fill, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
static uint64_t nextv(const char *name) {
  if (pos >= vals.size()) { fprintf(rep, "REPLAY-DONE values exhausted at %s\n", name); fflush(rep); _exit(0); }
  dirty();
  if (vals[pos].first != name) { fprintf(rep, "REPLAY-MISMATCH expected %s got %s\n", vals[pos].first.c_str(), name); fflush(rep); _exit(9); }
  return vals[pos++].second;
}
uint64_t vs_sym(const char *name, int bits) { uint64_t v = nextv(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
int64_t vs_range(const char *name, int64_t lo, int64_t hi) { if (lo == hi) { nextv(name); return lo; } return (int64_t)nextv(name); }
void vs_assume(bool c) { if (!c) { fprintf(rep, "REPLAY-ASSUME-FALSE\n"); fflush(rep); _exit(8); } }
void vs_check(bool c, const char *label) { dirty(); if (!c) { fprintf(rep, "CHECK-FAILED %s\n", label); fflush(rep); } else if (!quiet) fprintf(rep, "obs c:%s 1\n", label); }
void vs_cover(const char *label) { if (!quiet) fprintf(rep, "obs v:%s 1\n", label); }
void vs_obs(const char *label, uint64_t v) { if (!quiet) fprintf(rep, "obs o:%s %" PRIu64 "\n", label, v); }
uint64_t vs_pick(uint64_t v) { return v; }
int vs_tier(void) { return tier; }
void vs_known(const char *, bool) {}
void vs_known_end(const char *) {}
void vs_stop(void) { fprintf(rep, "REPLAY-END\n"); fflush(rep); _exit(0); }
int vs_isfreed(void *) { return 0; }
int vs_symbolic(void) { return 0; }
int vs_outlen(void) { fflush(stdout); struct stat st; return fstat(1, &st) ? -1 : (int)st.st_size; }
int vs_outchar(int i) { unsigned char c = 0; fflush(stdout); return pread(1, &c, 1, i) == 1 ? c : -1; }
void vs_outreset(void) { fflush(stdout); if (ftruncate(1, 0) || lseek(1, 0, SEEK_SET)) _exit(6); }
uint64_t vs_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
}
#include "entries.inc"
int main(int argc, char **argv) {
  if (argc < 4) return 2; rep = fdopen(dup(1), "w"); { int fd = memfd_create("console", 0); if (!rep || fd < 0 || dup2(fd, 1) < 0) return 2; } tier = atoi(argv[3]); if (argc > 4) { alarm(atoi(argv[4])); }
  FILE *f = fopen(argv[2], "r"); if (!f) return 2; char nm[256]; unsigned long long v; while (fscanf(f, "%255s %llu", nm, &v) == 2) vals.push_back({nm, v}); fclose(f);
  if (getenv("VS_FILL")) fill = atoi(getenv("VS_FILL"));
  for (auto &e : entries) if (!strcmp(e.name, argv[1])) {
    try { dirty(); e.fn(); } catch (...) { fprintf(rep, "UNCAUGHT-EXCEPTION\n"); fflush(rep); _exit(7); }
    fprintf(rep, "REPLAY-END\n"); fflush(rep); _exit(0); }
  return 2;
}
