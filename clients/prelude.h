// Common prelude of the analysed client programs.  Logging and text formatting
// are replaced by opaque calls so that they stay visible as calls but do not
// drag the text-formatting machinery into the analysed program.
#pragma once
#include <cstddef>
#include <memory>
#include <sstream>
#include <string>
extern "C" void vpx_log() noexcept;
extern "C" const char *vpx_format() noexcept;
namespace vpfmt {
template <typename... A>
inline const char *format(A &&...) {
  return vpx_format();
}
template <typename... A>
inline void log(A &&...) {
  vpx_log();
}
}  // namespace vpfmt
#define TINYOPT_LOG(...) ::vpfmt::log(__VA_ARGS__)
#define TINYOPT_FORMAT_NS ::vpfmt
#define TINYOPT_NO_FORMATTERS 1
#include <tinyopt/tinyopt.h>
using namespace tinyopt;
// every logging option takes any value
#ifdef VP_LOG
extern "C" __attribute__((const)) bool u_log(int) noexcept;
inline void any_log(Options &o) {
  o.log.enable = u_log(0);
  o.log.print_emoji = u_log(1);
  o.log.print_x = u_log(2);
  o.log.print_dx = u_log(3);
  o.log.print_inliers = u_log(4);
  o.log.print_t = u_log(5);
  o.log.print_J_jet = u_log(6);
  o.log.print_max_stdev = u_log(7);
  o.log.print_failure = u_log(8);
}
#else
inline void any_log(Options &) {}
#endif
