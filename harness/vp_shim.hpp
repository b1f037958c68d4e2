// Force-included before the code under test when it is compiled for the recording scheduler: output files report each
// operation on them as an access of the object (their internals live in the uninstrumented library).
#pragma once
#include <fstream>
#include <iostream>
#include <mutex>
#include <queue>
#include <sstream>
#include <thread>
#include <condition_variable>
#include <atomic>
#include <yaml-cpp/yaml.h>
#include "vp_sched.hpp"
namespace std {
class vp_filebuf : public std::streambuf {
 public:
  std::filebuf f;
  std::streamsize xsputn(const char* s, std::streamsize n) override { vps_access(this, 1); return f.sputn(s, n); }
  int overflow(int c) override { vps_access(this, 1); return f.sputc((char)c); }
  int sync() override { vps_access(this, 1); return f.pubsync(); }
};
class vp_ofstream : public std::ostream {
  vp_filebuf b_;
 public:
  vp_ofstream() : std::ostream(nullptr) { init(&b_); }
  explicit vp_ofstream(const std::string& p, std::ios_base::openmode m = std::ios_base::out) : std::ostream(nullptr) { init(&b_); open(p, m); }
  void open(const std::string& p, std::ios_base::openmode m = std::ios_base::out) { vps_access(&b_, 1); if (!b_.f.open(p.c_str(), m | std::ios_base::out)) setstate(std::ios_base::failbit); else clear(); }
  bool is_open() const { vps_access(&b_, 0); return b_.f.is_open(); }
  void close() { vps_access(&b_, 1); if (!b_.f.close()) setstate(std::ios_base::failbit); }
};
}
#define ofstream vp_ofstream
