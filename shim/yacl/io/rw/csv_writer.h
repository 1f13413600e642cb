#pragma once
#include "yacl/io/rw/schema.h"
namespace yacl::io {
class CsvWriter : public Writer {
 public:
  CsvWriter(WriterOptions o, std::unique_ptr<OutputStream> out, char fd = ',', char ld = '\n') : o_(std::move(o)), out_(std::move(out)), fd_(fd), ld_(ld) {}
  void Init() override { std::string s; for (auto& n : o_.file_schema.feature_names) { if (!s.empty()) s += fd_; s += n; } s += ld_; out_->Write(s); }
  bool Add(const ColumnVectorBatch& b) override {
    auto sh = b.Shape(); std::string s;
    for (size_t r = 0; r < sh.rows; ++r) { for (size_t c = 0; c < sh.cols; ++c) { if (c) s += fd_; s += b.At<std::string>(r, c); } s += ld_; }
    out_->Write(s); return true;
  }
  void Flush() override { out_->Flush(); }
  void Close() override { out_->Close(); }
 private:
  WriterOptions o_; std::unique_ptr<OutputStream> out_; char fd_, ld_;
};
}  // namespace yacl::io
