#pragma once
// Stand-in for p-ranav/indicators (not installed here): progress bars that draw nothing.
#include <cstddef>
#include <iostream>
#include <string>
#include <vector>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
enum class FontStyle { bold, dark, italic, underline, blink, reverse, concealed, crossed };
namespace option {
struct BarWidth { explicit BarWidth(std::size_t) {} };
struct Start { explicit Start(const char*) {} };
struct End { explicit End(const char*) {} };
struct ForegroundColor { explicit ForegroundColor(Color) {} };
struct PrefixText { explicit PrefixText(const char*) {} };
struct PostfixText { explicit PostfixText(const char*) {} };
struct ShowElapsedTime { explicit ShowElapsedTime(bool) {} };
struct ShowRemainingTime { explicit ShowRemainingTime(bool) {} };
struct ShowPercentage { explicit ShowPercentage(bool) {} };
struct MaxProgress { template <class T> explicit MaxProgress(T) {} };
struct Stream { explicit Stream(std::ostream&) {} };
struct FontStyles { explicit FontStyles(std::vector<FontStyle>) {} };
}  // namespace option
class BlockProgressBar {
 public:
  template <class... A> explicit BlockProgressBar(A&&...) {}
  template <class T> void set_progress(T) {}
  template <class T> void set_option(T&&) {}
  void tick() {}
  void mark_as_completed() {}
  bool is_completed() const { return false; }
};
using ProgressBar = BlockProgressBar;
inline void show_console_cursor(bool) {}
}  // namespace indicators
