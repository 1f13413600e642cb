#pragma once
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <string>
namespace rapidjson {
class Value {
 public:
  Value() = default;
  explicit Value(nlohmann::json j) : j_(std::move(j)) {}
  Value operator[](const char* k) const { return Value(j_.at(k)); }
  const char* GetString() const { return j_.get_ref<const std::string&>().c_str(); }
  size_t GetStringLength() const { return j_.get_ref<const std::string&>().size(); }
  bool HasMember(const char* k) const { return j_.contains(k); }
 protected:
  nlohmann::json j_;
};
class Document : public Value { public: Document& Parse(const char* s) { j_ = nlohmann::json::parse(s, nullptr, false); return *this; } bool HasParseError() const { return j_.is_discarded(); } 
  const char* Own(const char* k) { return j_.at(k).get_ref<const std::string&>().c_str(); }
  struct Ref { const nlohmann::json* p; const char* GetString() const { return p->get_ref<const std::string&>().c_str(); } size_t GetStringLength() const { return p->get_ref<const std::string&>().size(); } };
  Ref operator[](const char* k) const { return {&j_.at(k)}; } };
}  // namespace rapidjson
