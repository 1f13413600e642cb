// Stand-in for the subset of Apache Arrow that psi uses (CSV streaming reader and
// writer, string / int64 / uint64 arrays).  Batch boundaries and type inference
// follow Arrow's documented behaviour; shim_arrow::rows_per_batch makes the batch
// boundary (a nondeterministic choice of the library) controllable.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
namespace shim_arrow {
inline size_t rows_per_batch = 0;  // 0: whole file
}
namespace arrow {
enum class StatusCode { OK, Invalid, IOError, KeyError };
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  [[nodiscard]] bool ok() const { return c_ == StatusCode::OK; }
  [[nodiscard]] StatusCode code() const { return c_; }
  [[nodiscard]] const std::string& message() const { return m_; }
  [[nodiscard]] std::string ToString() const { return ok() ? "OK" : m_; }
  static Status OK() { return {}; }
  static Status Invalid(std::string m) { return {StatusCode::Invalid, std::move(m)}; }
  static Status IOError(std::string m) { return {StatusCode::IOError, std::move(m)}; }
  static Status KeyError(std::string m) { return {StatusCode::KeyError, std::move(m)}; }
  void Abort() const { std::cerr << m_ << std::endl; std::abort(); }
 private:
  StatusCode c_ = StatusCode::OK; std::string m_;
};
inline std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
template <class T> class [[nodiscard]] Result {
 public:
  Result(T v) : v_(std::move(v)) {}                     // NOLINT
  Result(Status s) : s_(std::move(s)) {}                // NOLINT
  template <class U, class = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, T> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, Result>>> Result(U&& u) : v_(std::forward<U>(u)) {}  // NOLINT
  [[nodiscard]] bool ok() const { return s_.ok(); }
  [[nodiscard]] const Status& status() const { return s_; }
  T ValueOrDie() && { if (!ok()) s_.Abort(); return std::move(v_); }
  const T& ValueOrDie() const& { if (!ok()) s_.Abort(); return v_; }
  T& operator*() & { return v_; }
  T operator*() && { return std::move(v_); }
  T* operator->() { return &v_; }
 private:
  T v_{}; Status s_;
};
struct MemoryPool {};
inline MemoryPool* default_memory_pool() { static MemoryPool p; return &p; }
struct DataType { std::string n; [[nodiscard]] std::string ToString() const { return n; } [[nodiscard]] bool Equals(const DataType& o) const { return n == o.n; } };
inline std::shared_ptr<DataType> utf8() { static auto t = std::make_shared<DataType>(DataType{"string"}); return t; }
inline std::shared_ptr<DataType> int64() { static auto t = std::make_shared<DataType>(DataType{"int64"}); return t; }
inline std::shared_ptr<DataType> uint64() { static auto t = std::make_shared<DataType>(DataType{"uint64"}); return t; }
inline std::shared_ptr<DataType> uint32() { static auto t = std::make_shared<DataType>(DataType{"uint32"}); return t; }
inline std::shared_ptr<DataType> float64() { static auto t = std::make_shared<DataType>(DataType{"double"}); return t; }
inline std::shared_ptr<DataType> null() { static auto t = std::make_shared<DataType>(DataType{"null"}); return t; }
class Field {
 public:
  Field(std::string n, std::shared_ptr<DataType> t) : n_(std::move(n)), t_(std::move(t)) {}
  [[nodiscard]] const std::string& name() const { return n_; }
  [[nodiscard]] const std::shared_ptr<DataType>& type() const { return t_; }
 private:
  std::string n_; std::shared_ptr<DataType> t_;
};
using FieldVector = std::vector<std::shared_ptr<Field>>;
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t) { return std::make_shared<Field>(std::move(n), std::move(t)); }
class Schema {
 public:
  explicit Schema(FieldVector f) : f_(std::move(f)) {}
  [[nodiscard]] int num_fields() const { return static_cast<int>(f_.size()); }
  [[nodiscard]] const FieldVector& fields() const { return f_; }
  [[nodiscard]] const std::shared_ptr<Field>& field(int i) const { return f_.at(i); }
  [[nodiscard]] std::vector<std::string> field_names() const { std::vector<std::string> r; for (auto& f : f_) r.push_back(f->name()); return r; }
  [[nodiscard]] int GetFieldIndex(const std::string& n) const { int h = -1; for (int i = 0; i < num_fields(); ++i) if (f_[i]->name() == n) { if (h >= 0) return -1; h = i; } return h; }
  [[nodiscard]] std::string ToString() const { std::string s; for (auto& f : f_) s += f->name() + ": " + f->type()->ToString() + "\n"; return s; }
 private:
  FieldVector f_;
};
inline std::shared_ptr<Schema> schema(FieldVector f) { return std::make_shared<Schema>(std::move(f)); }
class Array {
 public:
  explicit Array(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  virtual ~Array() = default;
  [[nodiscard]] virtual int64_t length() const = 0;
  [[nodiscard]] const std::shared_ptr<DataType>& type() const { return t_; }
 protected:
  std::shared_ptr<DataType> t_;
};
class StringArray : public Array {
 public:
  explicit StringArray(std::vector<std::string> v) : Array(utf8()), v_(std::move(v)) {}
  [[nodiscard]] int64_t length() const override { return v_.size(); }
  [[nodiscard]] std::string_view Value(int64_t i) const { return v_.at(i); }
  [[nodiscard]] std::string_view GetView(int64_t i) const { return v_.at(i); }
  [[nodiscard]] std::string GetString(int64_t i) const { return v_.at(i); }
 private:
  std::vector<std::string> v_;
};
// psi static-casts between the two 64-bit integer arrays; as in Arrow they share
// one layout, so a common implementation type is used for both.
class NumArray64 : public Array {
 public:
  NumArray64(std::shared_ptr<DataType> t, std::vector<int64_t> v) : Array(std::move(t)), v_(std::move(v)) {}
  [[nodiscard]] int64_t length() const override { return v_.size(); }
  [[nodiscard]] int64_t raw(int64_t i) const { return v_.at(i); }
 protected:
  std::vector<int64_t> v_;
};
class Int64Array : public NumArray64 { public: explicit Int64Array(std::vector<int64_t> v) : NumArray64(int64(), std::move(v)) {} [[nodiscard]] int64_t Value(int64_t i) const { return raw(i); } };
class UInt64Array : public NumArray64 { public: explicit UInt64Array(std::vector<int64_t> v) : NumArray64(uint64(), std::move(v)) {} [[nodiscard]] uint64_t Value(int64_t i) const { return static_cast<uint64_t>(raw(i)); } };
class DoubleArray : public Array { public: explicit DoubleArray(std::vector<double> v) : Array(float64()), v_(std::move(v)) {} [[nodiscard]] int64_t length() const override { return v_.size(); } [[nodiscard]] double Value(int64_t i) const { return v_.at(i); } private: std::vector<double> v_; };
struct Scalar { virtual ~Scalar() = default; };
struct UInt64Scalar : Scalar { explicit UInt64Scalar(uint64_t x) : value(x) {} uint64_t value; };
struct Int64Scalar : Scalar { explicit Int64Scalar(int64_t x) : value(x) {} int64_t value; };
struct StringScalar : Scalar { explicit StringScalar(std::string x) : value(std::move(x)) {} std::string value; };
class ArrayBuilder {
 public:
  explicit ArrayBuilder(std::shared_ptr<DataType> t) : t_(std::move(t)) {}
  virtual ~ArrayBuilder() = default;
  Status AppendScalar(const Scalar& s) {
    if (auto* u = dynamic_cast<const UInt64Scalar*>(&s)) { n_.push_back(static_cast<int64_t>(u->value)); return {}; }
    if (auto* u = dynamic_cast<const Int64Scalar*>(&s)) { n_.push_back(u->value); return {}; }
    if (auto* u = dynamic_cast<const StringScalar*>(&s)) { s_.push_back(u->value); return {}; }
    return Status::Invalid("scalar type");
  }
  Status Append(uint64_t v) { n_.push_back(static_cast<int64_t>(v)); return {}; }
  Status Resize(int64_t) { return {}; }
  Status Reserve(int64_t) { return {}; }
  void Reset() { n_.clear(); s_.clear(); }
  [[nodiscard]] int64_t length() const { return t_->n == "string" ? s_.size() : n_.size(); }
  Result<std::shared_ptr<Array>> Finish() {
    std::shared_ptr<Array> a;
    if (t_->n == "string") a = std::make_shared<StringArray>(std::move(s_));
    else if (t_->n == "int64") a = std::make_shared<Int64Array>(std::move(n_));
    else a = std::make_shared<UInt64Array>(std::move(n_));
    Reset(); return a;
  }
 private:
  std::shared_ptr<DataType> t_; std::vector<int64_t> n_; std::vector<std::string> s_;
};
class UInt64Builder : public ArrayBuilder { public: UInt64Builder() : ArrayBuilder(uint64()) {} };
inline Result<std::shared_ptr<ArrayBuilder>> MakeBuilderShared(std::shared_ptr<DataType> t) { return std::make_shared<ArrayBuilder>(std::move(t)); }
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t, MemoryPool* = nullptr) { return std::make_unique<ArrayBuilder>(t); }
class RecordBatch {
 public:
  RecordBatch(std::shared_ptr<Schema> s, int64_t n, std::vector<std::shared_ptr<Array>> c) : s_(std::move(s)), n_(n), c_(std::move(c)) {}
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, std::vector<std::shared_ptr<Array>> c) { return std::make_shared<RecordBatch>(std::move(s), n, std::move(c)); }
  [[nodiscard]] int64_t num_rows() const { return n_; }
  [[nodiscard]] int num_columns() const { return static_cast<int>(c_.size()); }
  [[nodiscard]] const std::vector<std::shared_ptr<Array>>& columns() const { return c_; }
  [[nodiscard]] std::shared_ptr<Array> column(int i) const { return c_.at(i); }
  [[nodiscard]] const std::shared_ptr<Schema>& schema() const { return s_; }
  [[nodiscard]] const std::string& column_name(int i) const { return s_->field(i)->name(); }
 private:
  std::shared_ptr<Schema> s_; int64_t n_; std::vector<std::shared_ptr<Array>> c_;
};
namespace io {
struct IOContext {};
inline IOContext default_io_context() { return {}; }
class InputStream { public: virtual ~InputStream() = default; virtual bool ReadSome(std::string* out, size_t n) = 0; };
class ReadableFile : public InputStream {
 public:
  ~ReadableFile() override { if (fd_ >= 0) ::close(fd_); }
  static Result<std::shared_ptr<ReadableFile>> Open(const std::string& p, MemoryPool* = nullptr) {
    int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return Status::IOError("Failed to open local file '" + p + "'");
    auto f = std::make_shared<ReadableFile>(); f->fd_ = fd; return f;
  }
  bool ReadSome(std::string* out, size_t n) override { out->resize(n); ssize_t r = ::read(fd_, out->data(), n); out->resize(r < 0 ? 0 : r); return r > 0; }
  Status Close() { if (fd_ >= 0) ::close(fd_); fd_ = -1; return {}; }
  [[nodiscard]] bool closed() const { return fd_ < 0; }
 private:
  int fd_ = -1;
};
class OutputStream { public: virtual ~OutputStream() = default; virtual Status Write(const void* p, int64_t n) = 0; Status Write(const std::string& s) { return Write(s.data(), s.size()); } virtual Status Flush() = 0; virtual Status Close() = 0; [[nodiscard]] virtual bool closed() const = 0; };
class FileOutputStream : public OutputStream {
 public:
  ~FileOutputStream() override { if (fd_ >= 0) ::close(fd_); }
  static Result<std::shared_ptr<FileOutputStream>> Open(const std::string& p, bool append = false) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | (append ? O_APPEND : O_TRUNC), 0666);
    if (fd < 0) return Status::IOError("Failed to open local file '" + p + "'");
    auto f = std::make_shared<FileOutputStream>(); f->fd_ = fd; return f;
  }
  using OutputStream::Write;
  Status Write(const void* p, int64_t n) override {
    if (fd_ < 0) return Status::Invalid("closed file");
    auto* c = static_cast<const char*>(p);
    while (n > 0) { ssize_t r = ::write(fd_, c, n); if (r < 0) { if (errno == EINTR) continue; return Status::IOError("write"); } c += r; n -= r; }
    return {};
  }
  Status Flush() override { return {}; }
  Status Close() override { if (fd_ >= 0 && ::close(fd_) != 0) { fd_ = -1; return Status::IOError("close"); } fd_ = -1; return {}; }
  [[nodiscard]] bool closed() const override { return fd_ < 0; }
 private:
  int fd_ = -1;
};
}  // namespace io
namespace ipc {
class RecordBatchReader { public: virtual ~RecordBatchReader() = default; virtual Status ReadNext(std::shared_ptr<RecordBatch>* b) = 0; [[nodiscard]] virtual std::shared_ptr<Schema> schema() const = 0; virtual Status Close() { return {}; } };
class RecordBatchWriter { public: virtual ~RecordBatchWriter() = default; virtual Status WriteRecordBatch(const RecordBatch& b) = 0; virtual Status Close() = 0; };
}  // namespace ipc
using RecordBatchReader = ipc::RecordBatchReader;
namespace csv {
struct ReadOptions { bool use_threads = true; int32_t block_size = 1 << 20; int32_t skip_rows = 0; std::vector<std::string> column_names; bool autogenerate_column_names = false; static ReadOptions Defaults() { return {}; } };
struct ParseOptions { char delimiter = ','; bool quoting = true; char quote_char = '"'; bool double_quote = true; bool escaping = false; bool newlines_in_values = false; bool ignore_empty_lines = true; static ParseOptions Defaults() { return {}; } };
struct ConvertOptions { bool check_utf8 = true; std::unordered_map<std::string, std::shared_ptr<DataType>> column_types; std::vector<std::string> null_values; bool strings_can_be_null = false; std::vector<std::string> include_columns; bool include_missing_columns = false; static ConvertOptions Defaults() { return {}; } };
enum class QuotingStyle { Needed, AllValid, None };
struct WriteOptions { bool include_header = true; int32_t batch_size = 1024; char delimiter = ','; std::string null_string, eol = "\n"; QuotingStyle quoting_style = QuotingStyle::Needed; static WriteOptions Defaults() { return {}; } };
class StreamingReader : public RecordBatchReader {
 public:
  static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::InputStream> in, const ReadOptions& ro, const ParseOptions& po, const ConvertOptions& co) {
    auto r = std::make_shared<StreamingReader>();
    r->in_ = std::move(in); r->po_ = po; r->co_ = co; r->block_ = ro.block_size;
    std::string line;
    int k = r->Line(&line);
    if (k < 0) return Status::Invalid("Empty CSV file");
    Status st = r->Split(line, &r->head_);
    if (!st.ok()) return st;
    if (!ro.column_names.empty()) r->head_ = ro.column_names;
    auto& inc = co.include_columns;
    if (inc.empty()) { for (size_t i = 0; i < r->head_.size(); ++i) r->sel_.push_back(i); }
    else for (auto& c : inc) {
      size_t hit = r->head_.size();
      for (size_t i = 0; i < r->head_.size(); ++i) if (r->head_[i] == c) hit = i;
      if (hit == r->head_.size()) return Status::KeyError("Column '" + c + "' in include_columns does not exist in CSV file");
      r->sel_.push_back(hit);
    }
    st = r->Fill();
    if (!st.ok()) return st;
    FieldVector f;
    for (size_t i = 0; i < r->sel_.size(); ++i) {
      auto& name = r->head_[r->sel_[i]];
      auto it = co.column_types.find(name);
      auto t = it != co.column_types.end() ? it->second : r->Infer(i);
      f.push_back(field(name, t));
    }
    r->schema_ = arrow::schema(f);
    st = r->Convert();
    if (!st.ok()) return st;
    return r;
  }
  Status ReadNext(std::shared_ptr<RecordBatch>* b) override {
    if (!err_.ok()) { *b = nullptr; return err_; }
    *b = next_;
    if (next_) { err_ = Fill(); if (err_.ok()) err_ = Convert(); }
    return {};
  }
  [[nodiscard]] std::shared_ptr<Schema> schema() const override { return schema_; }
  [[nodiscard]] int64_t bytes_read() const { return 0; }
 private:
  int Ch() { if (pos_ == buf_.size()) { pos_ = 0; if (!in_->ReadSome(&buf_, 65536)) { buf_.clear(); return -1; } } return static_cast<unsigned char>(buf_[pos_++]); }
  int Line(std::string* l) {  // next non-empty line; -1 at end
    l->clear();
    for (;;) {
      int c = Ch();
      if (c < 0) { return l->empty() ? -1 : 0; }
      if (c == '\n' || c == '\r') { if (l->empty() && po_.ignore_empty_lines) continue; return 0; }
      l->push_back(static_cast<char>(c));
    }
  }
  Status Split(const std::string& l, std::vector<std::string>* out) const {
    out->clear(); std::string cur; size_t i = 0;
    for (;;) {
      cur.clear();
      if (po_.quoting && i < l.size() && l[i] == po_.quote_char) {
        ++i; bool in = true;
        while (i < l.size()) {
          if (in && l[i] == po_.quote_char) {
            if (po_.double_quote && i + 1 < l.size() && l[i + 1] == po_.quote_char) { cur += po_.quote_char; i += 2; continue; }
            in = false; ++i; continue;
          }
          if (!in && l[i] == po_.delimiter) break;
          cur += l[i++];
        }
        if (in) return Status::Invalid("CSV parser got out of sync with chunker");
      } else {
        while (i < l.size() && l[i] != po_.delimiter) cur += l[i++];
      }
      out->push_back(cur);
      if (i >= l.size()) break;
      ++i;
    }
    return {};
  }
  Status Fill() {
    rows_.assign(sel_.size(), {}); nrows_ = 0; size_t bytes = 0; std::string l; std::vector<std::string> t;
    size_t lim = shim_arrow::rows_per_batch;
    while ((lim == 0 ? bytes < static_cast<size_t>(block_) : nrows_ < lim) && Line(&l) >= 0) {
      bytes += l.size() + 1;
      auto st = Split(l, &t); if (!st.ok()) return st;
      if (t.size() != head_.size()) return Status::Invalid("CSV parse error: Expected " + std::to_string(head_.size()) + " columns, got " + std::to_string(t.size()) + ": " + l);
      for (size_t i = 0; i < sel_.size(); ++i) rows_[i].push_back(t[sel_[i]]);
      ++nrows_;
    }
    return {};
  }
  static bool IsNull(const std::string& s) { for (auto* n : {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null"}) if (s == n) return true; return false; }
  static bool ToI64(std::string s, int64_t* o) {
    size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); if (a == std::string::npos) return false; s = s.substr(a, b - a + 1);
    size_t i = s[0] == '-' ? 1 : 0; if (i == s.size()) return false; for (size_t k = i; k < s.size(); ++k) if (!isdigit(static_cast<unsigned char>(s[k]))) return false;
    errno = 0; *o = strtoll(s.c_str(), nullptr, 10); return errno == 0;
  }
  static bool ToU64(const std::string& s, int64_t* o) { if (s.empty()) return false; for (char c : s) if (!isdigit(static_cast<unsigned char>(c))) return false; errno = 0; *o = static_cast<int64_t>(strtoull(s.c_str(), nullptr, 10)); return errno == 0; }
  static bool ToF(const std::string& s, double* o) { if (s.empty()) return false; char* e; *o = strtod(s.c_str(), &e); return *e == 0; }
  static bool Utf8Ok(const std::string& s) {
    size_t i = 0; auto at = [&](size_t k) { return k < s.size() ? static_cast<unsigned char>(s[k]) : 0; };
    while (i < s.size()) { unsigned char c = at(i); size_t n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 ? 3 : 9; if (n == 9 || (n == 1 && c < 0xC2)) return false; for (size_t k = 1; k <= n; ++k) if ((at(i + k) >> 6) != 2) return false; i += n + 1; }
    return true;
  }
  std::shared_ptr<DataType> Infer(size_t c) const {
    bool allnull = true, i = true, d = true; int64_t v; double f;
    for (auto& s : rows_[c]) { if (IsNull(s)) continue; allnull = false; if (!ToI64(s, &v)) i = false; if (!ToF(s, &f)) d = false; }
    if (allnull) return null();
    return i ? int64() : d ? float64() : utf8();
  }
  Status Convert() {
    if (nrows_ == 0) { next_ = nullptr; return {}; }
    std::vector<std::shared_ptr<Array>> cols;
    for (size_t c = 0; c < sel_.size(); ++c) {
      auto& t = schema_->field(static_cast<int>(c))->type()->n;
      if (t == "string" || t == "null") { for (auto& s : rows_[c]) if (co_.check_utf8 && !Utf8Ok(s)) return Status::Invalid("In CSV column #" + std::to_string(c) + ": CSV conversion error to string: invalid UTF8 data"); cols.push_back(std::make_shared<StringArray>(rows_[c])); }
      else if (t == "int64" || t == "uint64") {
        std::vector<int64_t> v;
        for (auto& s : rows_[c]) { int64_t x = 0; if (!IsNull(s) && !(t == "int64" ? ToI64(s, &x) : ToU64(s, &x))) return Status::Invalid("In CSV column #" + std::to_string(c) + ": CSV conversion error to " + t + ": invalid value '" + s + "'"); v.push_back(x); }
        if (t == "int64") cols.push_back(std::make_shared<Int64Array>(std::move(v))); else cols.push_back(std::make_shared<UInt64Array>(std::move(v)));
      } else { std::vector<double> v; for (auto& s : rows_[c]) { double x = 0; if (!IsNull(s) && !ToF(s, &x)) return Status::Invalid("CSV conversion error to double"); v.push_back(x); } cols.push_back(std::make_shared<DoubleArray>(std::move(v))); }
    }
    next_ = RecordBatch::Make(schema_, nrows_, cols);
    return {};
  }
  std::shared_ptr<io::InputStream> in_; ParseOptions po_; ConvertOptions co_; int32_t block_ = 0;
  std::string buf_; size_t pos_ = 0; std::vector<std::string> head_; std::vector<size_t> sel_;
  std::vector<std::vector<std::string>> rows_; size_t nrows_ = 0;
  std::shared_ptr<Schema> schema_; std::shared_ptr<RecordBatch> next_; Status err_;
};
class CsvWriterImpl : public ipc::RecordBatchWriter {
 public:
  CsvWriterImpl(std::shared_ptr<io::OutputStream> o, WriteOptions w) : o_(std::move(o)), w_(std::move(w)) {}
  Status WriteRecordBatch(const RecordBatch& b) override {
    std::string s;
    for (int64_t r = 0; r < b.num_rows(); ++r) {
      for (int c = 0; c < b.num_columns(); ++c) {
        if (c) s += w_.delimiter;
        auto a = b.column(c);
        if (auto* x = dynamic_cast<StringArray*>(a.get())) { std::string v(x->Value(r)); s += '"'; for (char ch : v) { if (ch == '"') s += '"'; s += ch; } s += '"'; }
        else if (auto* y = dynamic_cast<UInt64Array*>(a.get())) s += std::to_string(y->Value(r));
        else if (auto* z = dynamic_cast<Int64Array*>(a.get())) s += std::to_string(z->Value(r));
        else return Status::Invalid("column type");
      }
      s += w_.eol;
    }
    return o_->Write(s);
  }
  Status Close() override { return {}; }
 private:
  std::shared_ptr<io::OutputStream> o_; WriteOptions w_;
};
inline Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream> o, const std::shared_ptr<Schema>& s, const WriteOptions& w = WriteOptions::Defaults()) {
  if (w.include_header) { std::string h; for (auto& f : s->fields()) { if (!h.empty()) h += w.delimiter; h += '"' + f->name() + '"'; } h += w.eol; auto st = o->Write(h); if (!st.ok()) return st; }
  std::shared_ptr<ipc::RecordBatchWriter> r = std::make_shared<CsvWriterImpl>(std::move(o), w);
  return r;
}
}  // namespace csv
}  // namespace arrow
