// Row CSV reader: fields split on the delimiter, optional surrounding quotes
// stripped, columns picked by header name (as yacl's CsvReader).
#pragma once
#include "yacl/io/rw/schema.h"
namespace yacl::io {
class CsvReader : public Reader {
 public:
  CsvReader(ReaderOptions o, std::unique_ptr<InputStream> in, char fd = ',', char ld = '\n') : o_(std::move(o)), in_(std::move(in)), fd_(fd), ld_(ld) {}
  void Init() override {
    std::string line; in_->GetLine(&line, ld_);
    YACL_ENFORCE(!line.empty(), "csv header is empty");
    head_ = Split(line);
    for (auto& f : o_.file_schema.feature_names) {
      size_t hit = head_.size();
      for (size_t i = 0; i < head_.size(); ++i) if (head_[i] == f) { YACL_ENFORCE(hit == head_.size(), "repeated header {}", f); hit = i; }
      if (hit == head_.size()) YACL_THROW_INVALID_FORMAT("csv header lacks {}", f);
      sel_.push_back(hit);
    }
  }
  bool Next(ColumnVectorBatch* out) override {
    std::vector<StringColumnVector> cols(sel_.size());
    size_t n = 0; std::string line;
    while (n < o_.batch_size) {
      in_->GetLine(&line, ld_);
      if (!*in_) break;
      if (line.empty() || line == "\r") continue;
      auto t = Split(line);
      if (t.size() != head_.size()) YACL_THROW_INVALID_FORMAT("csv row has {} fields, expected {}", t.size(), head_.size());
      for (size_t i = 0; i < sel_.size(); ++i) cols[i].push_back(t[sel_[i]]);
      ++n;
    }
    if (n == 0) return false;
    out->Clear();
    for (auto& c : cols) out->AppendCol(std::move(c));
    return true;
  }
  [[nodiscard]] std::vector<std::string> Headers() const override { return head_; }
 private:
  std::vector<std::string> Split(std::string l) const {
    if (!l.empty() && l.back() == '\r') l.pop_back();
    std::vector<std::string> r; std::string cur; bool q = false;
    for (size_t i = 0; i < l.size(); ++i) {
      if (l[i] == '"') { q = !q; continue; }
      if (l[i] == fd_ && !q) { r.push_back(Trim(cur)); cur.clear(); } else cur += l[i];
    }
    r.push_back(Trim(cur)); return r;
  }
  static std::string Trim(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
  ReaderOptions o_; std::unique_ptr<InputStream> in_; char fd_, ld_; std::vector<std::string> head_; std::vector<size_t> sel_;
};
}  // namespace yacl::io
