// Property tree kept in XML files (nested elements, '/' between their names; attributes and comments are skipped)
#ifndef SHIM_SM_BPT_HPP
#define SHIM_SM_BPT_HPP
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <sm/PropertyTree.hpp>
namespace sm {
class BoostPropertyTree : public PropertyTree { public:
  BoostPropertyTree() {}
  explicit BoostPropertyTree(const std::string& baseNamespace) : PropertyTree(baseNamespace) {}
  void loadXml(const std::string& file) { boost::property_tree::ptree t; boost::property_tree::read_xml(file, t, boost::property_tree::xml_parser::trim_whitespace | boost::property_tree::xml_parser::no_comments); m_->clear(); flatten(t, ""); }
  void saveXml(const std::string& file) const { boost::property_tree::ptree t; for (auto& e : *m_) t.put(boost::property_tree::ptree::path_type(e.first, '/'), e.second); boost::property_tree::write_xml(file, t); }
 private:
  void flatten(const boost::property_tree::ptree& t, const std::string& at) { for (auto& e : t) { if (e.first == "<xmlattr>") continue; const std::string k = at.empty() ? e.first : at + "/" + e.first; if (e.second.empty()) m_->insert({k, e.second.data()}); else flatten(e.second, k); } }
};
}
#endif
