// Stand-in for ROS messages and bags: a bag is a list of messages held in memory under its file name.
#ifndef SHIM_ROS_STANDIN_HPP
#define SHIM_ROS_STANDIN_HPP
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <typeinfo>
#include <vector>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
namespace ros {
class Time { public: uint32_t sec, nsec; Time() : sec(0), nsec(0) {}
  static Time fromNsec(uint64_t t) { Time r; r.sec = (uint32_t)(t / 1000000000ull); r.nsec = (uint32_t)(t % 1000000000ull); return r; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; } uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + (uint64_t)nsec; } };
}
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace rosbag {
struct BagException : std::runtime_error { using std::runtime_error::runtime_error; };
struct Record { std::string topic; uint64_t time; std::type_index type; boost::shared_ptr<const void> message; };
inline std::map<std::string, std::vector<Record>>& files() { static std::map<std::string, std::vector<Record>> f; return f; }
template <class M> void record(const std::string& file, const std::string& topic, uint64_t time, const M& m) { files()[file].push_back(Record{topic, time, std::type_index(typeid(M)), boost::make_shared<const M>(m)}); }
class MessageInstance { public: explicit MessageInstance(const Record& r) : r_(r) {}
  const std::string& getTopic() const { return r_.topic; } ros::Time getTime() const { return ros::Time::fromNsec(r_.time); }
  /// a fresh copy for every caller, nothing if the message is of another type
  template <class M> boost::shared_ptr<M> instantiate() const { if (r_.type != std::type_index(typeid(M))) return boost::shared_ptr<M>(); return boost::make_shared<M>(*static_cast<const M*>(r_.message.get())); }
 private: Record r_; };
namespace bagmode { enum BagMode { Write = 1, Read = 2, Append = 4 }; }
class Bag { public: Bag() {} explicit Bag(const std::string& f, uint32_t = bagmode::Read) { open(f); } void open(const std::string& f, uint32_t = bagmode::Read) { if (!files().count(f)) throw BagException("Error opening file: " + f); records = files()[f]; } void close() { records.clear(); } std::vector<Record> records; };
class TopicQuery { public: TopicQuery(const std::string& t) : topics(1, t) {} TopicQuery(const std::vector<std::string>& t) : topics(t) {} std::vector<std::string> topics; };
/// the messages of the topics asked for, in the order they were received
class View { public: View() {} View(const Bag& b, const TopicQuery& q) { addQuery(b, q); } explicit View(const Bag& b) { for (auto& r : b.records) m_.push_back(MessageInstance(r)); sort(); }
  void addQuery(const Bag& b, const TopicQuery& q) { for (auto& r : b.records) if (std::find(q.topics.begin(), q.topics.end(), r.topic) != q.topics.end()) m_.push_back(MessageInstance(r)); sort(); }
  typedef std::vector<MessageInstance>::const_iterator iterator; typedef iterator const_iterator; iterator begin() const { return m_.begin(); } iterator end() const { return m_.end(); } uint32_t size() const { return (uint32_t)m_.size(); }
  ros::Time getBeginTime() const { return m_.empty() ? ros::Time() : m_.front().getTime(); } ros::Time getEndTime() const { return m_.empty() ? ros::Time() : m_.back().getTime(); }
 private: void sort() { std::stable_sort(m_.begin(), m_.end(), [](const MessageInstance& a, const MessageInstance& b) { return a.getTime().toNSec() < b.getTime().toNSec(); }); } std::vector<MessageInstance> m_; };
}
#define SHIM_MESSAGE(name) typedef boost::shared_ptr<name> name##Ptr; typedef boost::shared_ptr<name const> name##ConstPtr;
#endif
