// fmt 9.1 (what Ubuntu ships) lacks the fmt>=10 overload print(FILE*, text_style, format_string<Args...>, Args&&...).
#ifndef VERIF_FMT_COLOR_SHIM
#define VERIF_FMT_COLOR_SHIM
#include_next <fmt/color.h>
namespace fmt {
template <typename... T> void print(std::FILE *f, const text_style &ts, format_string<T...> &s, T &&...args) {
  const auto sv = string_view(s);
  vprint(f, ts, sv, fmt::make_format_args(args...));
}
template <typename... T> void print(const text_style &ts, format_string<T...> &s, T &&...args) {
  vprint(stdout, ts, string_view(s), fmt::make_format_args(args...));
}
}
#endif
