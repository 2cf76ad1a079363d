// A small terminal: interprets what a program prints.
#pragma once

#include <ios>
#include <streambuf>
#include <string>
#include <string_view>
#include <vector>

struct Terminal {
  void feed(std::string_view s) {
    while (!s.empty()) {
      auto const ch = s.front();
      if (ch == '\n') {
        ++row;
        col = 0;
        s.remove_prefix(1);
      } else if (ch == '\r') {
        col = 0;
        s.remove_prefix(1);
      } else if (ch == '\x1b') {
        auto i = std::size_t{1};
        if (i >= s.size() || s[i] != '[') { broken = "incomplete escape sequence"; return; }
        ++i;
        auto n = std::size_t{0};
        auto digits = false;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { n = n * 10 + static_cast<std::size_t>(s[i] - '0'); ++i; digits = true; }
        if (i >= s.size()) { broken = "incomplete escape sequence"; return; }
        switch (s[i]) {
          case 'A':
            if (!digits || n == 0) n = 1;
            if (n > row) { broken = "cursor above the first row"; n = row; }
            row -= n;
            break;
          case 'K': {
            auto& l = line();
            if (l.size() > col) l.resize(col);
            break;
          }
          default: broken = "unexpected escape sequence"; return;
        }
        s.remove_prefix(i + 1);
      } else {
        auto n = std::size_t{1};
        while (n < s.size() && (static_cast<unsigned char>(s[n]) & 0xC0U) == 0x80U) ++n;
        auto& l = line();
        while (l.size() <= col) l.emplace_back(" ");
        l[col++] = std::string{s.substr(0, n)};
        s.remove_prefix(n);
      }
    }
  }
  std::vector<std::string>& line() {
    while (rows.size() <= row) rows.emplace_back();
    return rows[row];
  }
  std::vector<std::string> text() const {
    auto r = std::vector<std::string>{};
    for (auto const& l : rows) {
      r.emplace_back();
      for (auto const& cell : l) r.back() += cell;
    }
    return r;
  }
  std::vector<std::vector<std::string>> rows;
  std::size_t row = 0, col = 0;
  char const* broken = nullptr;
};

struct TerminalBuf : std::streambuf {
  explicit TerminalBuf(Terminal& t) : t_{t} {}
  int overflow(int const ch) override {
    if (ch != traits_type::eof()) pending += static_cast<char>(ch);
    return 0;
  }
  std::streamsize xsputn(char const* s, std::streamsize const n) override {
    pending.append(s, static_cast<std::size_t>(n));
    return n;
  }
  int sync() override {
    t_.feed(pending);
    pending.clear();
    return 0;
  }
  Terminal& t_;
  std::string pending;  // written, not flushed
};
