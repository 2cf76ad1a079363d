// What the screen shows for a set of trackers.
#pragma once

#include <map>
#include <string>
#include <vector>

struct View {
  bool show = true;
  float out = 0.F;
  std::string status;
};

inline std::string right(std::string const& s, std::size_t const n) {
  return s.size() < n ? std::string(n - s.size(), ' ') + s : s;
}

inline std::string draw_line(std::string const& name, View const& v) {
  auto l = right(name, 12) + ": ";
  if (!v.show) return l + v.status;
  l += "[";
  for (auto i = 0; i != 55; ++i) l += i * 100 / 55 <= v.out ? "\u25a0" : " ";
  l += " ] " + right(std::to_string(static_cast<int>(v.out)), 3) + "%";
  return v.status.empty() ? l : l + " | " + v.status;
}
