#pragma once
#include <sstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class MemInputStream : public InputStream {
 public:
  explicit MemInputStream(std::string s) : name_("mem"), data_(s), in_(std::move(s)) {}
  InputStream& GetLine(std::string* ret, char delim) override { ret->clear(); std::getline(in_, *ret, delim); return *this; }
  InputStream& Read(void* buf, size_t n) override { in_.read(static_cast<char*>(buf), n); return *this; }
  [[nodiscard]] const std::string& GetName() const override { return name_; }
  [[nodiscard]] size_t GetLength() const override { return data_.size(); }
  [[nodiscard]] size_t Tellg() override { return in_.tellg(); }
  InputStream& Seekg(size_t p) override { in_.clear(); in_.seekg(p); return *this; }
  void Close() override {}
  [[nodiscard]] std::unique_ptr<InputStream> Spawn() override { return std::make_unique<MemInputStream>(data_); }
  [[nodiscard]] bool Eof() const override { return in_.eof(); }
  explicit operator bool() const override { return static_cast<bool>(in_); }
  bool operator!() const override { return !in_; }
 private:
  std::string name_, data_; std::istringstream in_;
};
class MemOutputStream : public OutputStream {
 public:
  explicit MemOutputStream(std::string* o) : name_("mem"), o_(o) { YACL_ENFORCE(o_ != nullptr); }
  ~MemOutputStream() override { Close(); }
  void Write(const void* buf, size_t n) override { s_.append(static_cast<const char*>(buf), n); }
  void Write(std::string_view b) override { s_.append(b); }
  void Flush() override {}
  [[nodiscard]] const std::string& GetName() const override { return name_; }
  size_t Tellp() override { return s_.size(); }
  void Close() override { if (o_) { *o_ = s_; o_ = nullptr; } }
 private:
  std::string name_, s_; std::string* o_;
};
}  // namespace yacl::io
