// Event writer shared by all drivers: one JSON object per line, reals as IEEE bit patterns.
#pragma once
#include <Eigen/Dense>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace vp {
inline FILE*& out() { static FILE* f = stdout; return f; }
inline void hexd(std::string& s, double d) {
  uint64_t u; std::memcpy(&u, &d, 8);
  if (u == 0) { s += '.'; return; }
  char b[20]; std::snprintf(b, sizeof b, "%016" PRIx64, u); s += b;
}
template <class M> std::string mat(const Eigen::MatrixBase<M>& m0) {
  const auto m = m0.eval();
  std::string s = "\"~" + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + ":";
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) hexd(s, (double)m(i, j));
  return s + "\"";
}
inline std::string num(double d) { std::string s = "\"~:"; hexd(s, d); return s + "\""; }
inline std::string str(const std::string& x) {
  std::string s = "\"";
  for (char c : x) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32) s += ' '; else s += c; }
  return s + "\"";
}
inline uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline std::string digest(const std::string& s) { char b[32]; std::snprintf(b, sizeof b, "d%016" PRIx64, fnv(s)); return b; }
struct Ev {
  std::string s;
  explicit Ev(const std::string& e) : s("{\"e\":\"" + e + "\"") {}
  Ev& raw(const std::string& k, const std::string& v) { s += ",\"" + k + "\":" + v; return *this; }
  Ev& f(const std::string& k, const std::string& v) { return raw(k, str(v)); }
  Ev& f(const std::string& k, const char* v) { return raw(k, str(v)); }
  Ev& f(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
  Ev& f(const std::string& k, int v) { return raw(k, std::to_string(v)); }
  Ev& f(const std::string& k, double v) { return raw(k, num(v)); }
  template <class M> Ev& f(const std::string& k, const Eigen::MatrixBase<M>& v) { return raw(k, mat(v)); }
  void emit() { s += "}\n"; std::fwrite(s.data(), 1, s.size(), out()); std::fflush(out()); }
};
template <class C> std::string arr(const C& c) { std::string s = "["; bool first = true; for (auto& x : c) { if (!first) s += ","; first = false; s += x; } return s + "]"; }

struct Rng {   // splitmix64
  uint64_t x;
  explicit Rng(uint64_t s) : x(s * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t u() { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double d() { return (u() >> 11) * (1.0 / 9007199254740992.0) * 2 - 1; }   // [-1,1)
};
}  // namespace vp
