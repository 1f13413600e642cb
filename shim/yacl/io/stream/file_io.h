#pragma once
#include <unistd.h>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class FileInputStream : public InputStream {
 public:
  explicit FileInputStream(std::string f) : name_(std::move(f)), in_(name_, std::ios::binary) {
    if (!in_) YACL_THROW_IO_ERROR("Open {} failed", name_);
    std::error_code ec; auto n = std::filesystem::file_size(name_, ec); len_ = ec ? 0 : n;
  }
  InputStream& GetLine(std::string* ret, char delim) override { ret->clear(); std::getline(in_, *ret, delim); return *this; }
  InputStream& Read(void* buf, size_t n) override { in_.read(static_cast<char*>(buf), n); return *this; }
  [[nodiscard]] const std::string& GetName() const override { return name_; }
  [[nodiscard]] size_t GetLength() const override { return len_; }
  [[nodiscard]] size_t Tellg() override { return in_.tellg(); }
  InputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  void Close() override { in_.close(); }
  [[nodiscard]] std::unique_ptr<InputStream> Spawn() override { return std::make_unique<FileInputStream>(name_); }
  [[nodiscard]] bool Eof() const override { return in_.eof(); }
  explicit operator bool() const override { return static_cast<bool>(in_); }
  bool operator!() const override { return !in_; }
 private:
  std::string name_; std::ifstream in_; size_t len_ = 0;
};
class FileOutputStream : public OutputStream {
 public:
  explicit FileOutputStream(std::string f, bool trunc = true, bool exit_for_fail = true) : name_(std::move(f)), exit_(exit_for_fail) {
    auto m = std::ios::binary | std::ios::out;
    m |= trunc ? std::ios::trunc : std::ios::app;
    out_.open(name_, m);
    if (!out_) YACL_THROW_IO_ERROR("Open {} for write failed", name_);
    out_.exceptions(std::ofstream::failbit | std::ofstream::badbit);
  }
  ~FileOutputStream() override {
    try { Close(); } catch (...) { if (exit_) _exit(-1); }
  }
  void Write(const void* buf, size_t n) override { Guard([&] { out_.write(static_cast<const char*>(buf), n); }); }
  void Write(std::string_view b) override { Write(b.data(), b.size()); }
  void Flush() override { Guard([&] { out_.flush(); }); }
  [[nodiscard]] const std::string& GetName() const override { return name_; }
  size_t Tellp() override { return out_.tellp(); }
  void Close() override { if (out_.is_open()) Guard([&] { out_.close(); }); }
 private:
  template <class F> void Guard(F f) { try { f(); } catch (const std::ios_base::failure& e) { YACL_THROW_IO_ERROR("IO error on {}: {}", name_, e.what()); } }
  std::string name_; std::ofstream out_; bool exit_;
};
}  // namespace yacl::io
