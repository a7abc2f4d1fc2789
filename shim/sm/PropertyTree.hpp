// Stand-in for sm_property_tree: string map with '/'-separated keys; a key without default must exist
#ifndef SHIM_SM_PT_HPP
#define SHIM_SM_PT_HPP
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <sstream>
namespace sm {
struct KeyNotFoundException : std::runtime_error { explicit KeyNotFoundException(const std::string& s) : std::runtime_error("no key " + s) {} };
class PropertyTree { public:
  typedef std::map<std::string, std::string> Map;
  PropertyTree() : m_(new Map), read_(new std::set<std::string>) {}
  PropertyTree(const PropertyTree& o, const std::string& base) : m_(o.m_), read_(o.read_), base_(o.join(base)) {}
  double getDouble(const std::string& k) const { return std::strtod(need(k).c_str(), 0); }
  double getDouble(const std::string& k, double d) const { const std::string* s = find(k); return s ? std::strtod(s->c_str(), 0) : d; }
  int getInt(const std::string& k) const { return std::atoi(need(k).c_str()); }
  int getInt(const std::string& k, int d) const { const std::string* s = find(k); return s ? std::atoi(s->c_str()) : d; }
  bool getBool(const std::string& k) const { return b(need(k)); }
  bool getBool(const std::string& k, bool d) const { const std::string* s = find(k); return s ? b(*s) : d; }
  std::string getString(const std::string& k) const { return need(k); }
  std::string getString(const std::string& k, const std::string& d) const { const std::string* s = find(k); return s ? *s : d; }
  void setDouble(const std::string& k, double v) { std::ostringstream o; o.precision(17); o << v; (*m_)[join(k)] = o.str(); }
  void setInt(const std::string& k, int v) { (*m_)[join(k)] = std::to_string(v); }
  void setBool(const std::string& k, bool v) { (*m_)[join(k)] = v ? "true" : "false"; }
  void setString(const std::string& k, const std::string& v) { (*m_)[join(k)] = v; }
  bool doesKeyExist(const std::string& k) const { return find(k) != 0; }
  void erase(const std::string& k) { m_->erase(join(k)); }
  const Map& all() const { return *m_; }
  const std::set<std::string>& readKeys() const { return *read_; }
  PropertyTree deepCopy() const { PropertyTree p; *p.m_ = *m_; return p; }
 protected:
  explicit PropertyTree(const std::string& base) : m_(new Map), read_(new std::set<std::string>), base_(base) {}
  static bool b(const std::string& s) { return s == "true" || s == "1"; }
  std::string join(const std::string& k) const { return base_.empty() ? k : base_ + "/" + k; }
  const std::string* find(const std::string& k) const { read_->insert(join(k)); auto it = m_->find(join(k)); return it == m_->end() ? 0 : &it->second; }
  const std::string& need(const std::string& k) const { const std::string* s = find(k); if (!s) throw KeyNotFoundException(join(k)); return *s; }
  std::shared_ptr<Map> m_; std::shared_ptr<std::set<std::string>> read_; std::string base_;
};
}
#endif
