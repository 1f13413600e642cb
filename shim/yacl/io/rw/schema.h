#pragma once
#include <map>
#include <string>
#include <variant>
#include <vector>
#include "yacl/base/exception.h"
#include "yacl/io/stream/interface.h"
namespace yacl::io {
struct Schema {
  enum Type { UNKNOWN, BOOL, FLOAT, DOUBLE, STRING };
  std::vector<Type> feature_types;
  std::vector<std::string> feature_names;
};
template <class T> using ColumnVector = std::vector<T>;
using FloatColumnVector = ColumnVector<float>;
using DoubleColumnVector = ColumnVector<double>;
using StringColumnVector = ColumnVector<std::string>;
using ColumnType = std::variant<FloatColumnVector, DoubleColumnVector, StringColumnVector>;
class ColumnVectorBatch {
 public:
  struct S { size_t rows = 0, cols = 0; };
  [[nodiscard]] S Shape() const { S s; s.cols = c_.size(); s.rows = c_.empty() ? 0 : std::visit([](auto& v) { return v.size(); }, c_[0]); return s; }
  template <class T> const T& At(size_t r, size_t c) const { return std::get<ColumnVector<T>>(c_.at(c)).at(r); }
  template <class T> const ColumnVector<T>& Col(size_t c) const { return std::get<ColumnVector<T>>(c_.at(c)); }
  template <class T> void AppendCol(T&& v) { c_.emplace_back(std::forward<T>(v)); }
  void Clear() { c_.clear(); }
  void Reserve(size_t n) { c_.reserve(n); }
 private:
  std::vector<ColumnType> c_;
};
struct ReaderOptions {
  size_t batch_size = 128 * 1024;
  size_t column_batch_size = 0;
  bool column_reader = false;
  bool use_header_order = false;
  Schema file_schema;
};
struct WriterOptions { Schema file_schema; double float_precision = 0; };
class Reader { public: virtual ~Reader() = default; virtual void Init() = 0; virtual bool Next(ColumnVectorBatch*) = 0; [[nodiscard]] virtual std::vector<std::string> Headers() const = 0; };
class Writer { public: virtual ~Writer() = default; virtual void Init() = 0; virtual bool Add(const ColumnVectorBatch&) = 0; virtual void Flush() = 0; virtual void Close() = 0; };
}  // namespace yacl::io
