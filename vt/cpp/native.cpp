// Native side of the harness interface: replays one counterexample.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
static std::map<std::string, std::string> vals;
static std::deque<int64_t> choices;
static std::string key(const char *n) { std::string s(n); for (auto &c : s) if (c == ' ') c = '_'; return s; }
extern "C" {
void VT_ENTRY();
int64_t vt_i64(const char *n) { auto i = vals.find(key(n)); return i == vals.end() ? 0 : strtoll(i->second.c_str(), 0, 10); }
bool vt_bool(const char *n) { return vt_i64(n) != 0; }
double vt_f64(const char *n) { auto i = vals.find(key(n)); return i == vals.end() ? 0 : strtod(i->second.c_str(), 0); }
float vt_f32(const char *n) { return (float)vt_f64(n); }
void vt_skip() { exit(0); }
void vt_assume(bool b) { if (!b) exit(0); }
void vt_fail(const char *m) { printf("VT-FAIL: %s\n", m); fflush(stdout); _Exit(3); }
void vt_prove(bool b, const char *m) { if (!b) vt_fail(m); }
int64_t vt_choice(int64_t n) { if (n == 1 || choices.empty()) return 0; auto c = choices.front(); choices.pop_front(); return c; }
bool vt_same_f64(double a, double b) { return (a != a && b != b) || memcmp(&a, &b, 8) == 0; }
int64_t vt_split(int64_t v) { return v; }
void vt_assert_fail(const char *m) { printf("VT-FAIL: assertion failed: %s\n", m); fflush(stdout); _Exit(3); }
}
int main(int c, char **v) {
  FILE *f = fopen(v[1], "r");
  char k[16], a[4096], b[4096];
  while (fscanf(f, "%15s", k) == 1) {
    if (!strcmp(k, "choice")) { long long x; fscanf(f, "%lld", &x); choices.push_back(x); }
    else { fscanf(f, "%4095s %4095s", a, b); vals[a] = b; }
  }
  VT_ENTRY();
  return 0;
}
