// Every construct the shared-state rule has to report, one per line marked BAD, next to
// look-alikes it must not report, marked OK.  Analysed with the same code on every run.
#include <atomic>
#include <cstdlib>
#include <map>
#include <memory>
#include <vector>
namespace witness {
constexpr int kOk0 = 3;                       // OK
inline const double kOk1 = 2.0 * kOk0;        // OK
inline int counter = 0;                       // BAD
inline int limit = 5;                         // OK
static std::atomic<int> runs{0};              // BAD
inline const std::unique_ptr<int> cell = std::make_unique<int>(0);  // BAD
template <typename T> struct S {
  static constexpr int N = sizeof(T);         // OK
  inline static T scratch;                    // BAD
  T mem = 0;
  T f(const T &x) {
    static T buffer;                          // BAD
    buffer = x;
    static const T first = x + 1;             // BAD
    static const T half = T(1) / T(2);        // OK
    static const int three = [](int k) { return k + 1; }(2);  // OK
    static const T own = mem;                 // BAD
    thread_local std::vector<T> cache;        // BAD
    cache.push_back(x);
    static const std::size_t bytes = sizeof(x);  // OK
    scratch += buffer;
    ++counter;
    ++runs;
    *cell = 2;
    return first * half * three + own + bytes + (counter < limit ? 1 : 0);
  }
};
inline int g(const char *k) {
  static std::map<int, int> memo;             // BAD
  static const int table[3] = {1, 2, 3};      // OK
  static int readonly = 4;                    // OK
  memo[1] = 2;
  return memo[1] + table[1] + readonly + (k[0] > 'a' ? limit : readonly);
}
inline double noise() { return std::rand(); }  // BAD
inline int &shared() {
  static int one = 1;                         // BAD
  return one;
}
inline double use() { return S<double>().f(1.0); }
}  // namespace witness
