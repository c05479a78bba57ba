#pragma once
#include <boost/shared_array.hpp>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
// Layout and ownership as in roscpp_serialization: serializeMessage() allocates exactly 4 + length bytes, stores the
// length first and points message_start behind it; num_bytes counts the whole allocation.
namespace ros {
struct SerializedMessage {
  boost::shared_array<uint8_t> buf;
  size_t num_bytes = 0;
  uint8_t* message_start = nullptr;
  SerializedMessage() {}
  SerializedMessage(boost::shared_array<uint8_t> b, size_t n) : buf(b), num_bytes(n), message_start(b ? b.get() : nullptr) {}
};
namespace serialization {
struct StreamOverrunException : std::runtime_error {
  StreamOverrunException() : std::runtime_error("Buffer Overrun") {}
};
struct Stream {
  uint8_t *data, *end;
  uint8_t* advance(uint32_t n) {
    uint8_t* old = data;
    if (n > (size_t)(end - data)) throw StreamOverrunException();
    data += n;
    return old;
  }
};
struct OStream : Stream {
  template <typename T> void pod(const T& v) { std::memcpy(advance(sizeof(T)), &v, sizeof(T)); }
  void next(uint32_t v) { pod(v); }
  void next(int32_t v) { pod(v); }
  void next(double v) { pod(v); }
  void next(const std::string& s) { next((uint32_t)s.size()); if (!s.empty()) std::memcpy(advance((uint32_t)s.size()), s.data(), s.size()); }
  template <typename T> void next(const std::vector<T>& v) { next((uint32_t)v.size()); for (auto& x : v) next(x); }
  template <typename M> auto next(const M& m) -> decltype(const_cast<M&>(m).fields(*this), void()) { const_cast<M&>(m).fields(*this); }
};
struct IStream : Stream {
  template <typename T> void pod(T& v) { std::memcpy(&v, advance(sizeof(T)), sizeof(T)); }
  void next(uint32_t& v) { pod(v); }
  void next(int32_t& v) { pod(v); }
  void next(double& v) { pod(v); }
  void next(std::string& s) { uint32_t n; next(n); if (n) { uint8_t* p = advance(n); s = std::string((char*)p, n); } else s.clear(); }
  template <typename T> void next(std::vector<T>& v) { uint32_t n; next(n); v.resize(n); for (auto& x : v) next(x); }
  template <typename M> auto next(M& m) -> decltype(m.fields(*this), void()) { m.fields(*this); }
};
struct LStream {
  uint32_t count = 0;
  void next(uint32_t) { count += 4; }
  void next(int32_t) { count += 4; }
  void next(double) { count += 8; }
  void next(const std::string& s) { count += 4 + (uint32_t)s.size(); }
  template <typename T> void next(const std::vector<T>& v) { count += 4; for (auto& x : v) next(x); }
  template <typename M> auto next(const M& m) -> decltype(const_cast<M&>(m).fields(*this), void()) { const_cast<M&>(m).fields(*this); }
};
template <typename M> inline uint32_t serializationLength(const M& m) {
  LStream s;
  s.next(m);
  return s.count;
}
template <typename M> inline SerializedMessage serializeMessage(const M& message) {
  SerializedMessage m;
  const uint32_t len = serializationLength(message);
  m.num_bytes = len + 4;
  m.buf.reset(new uint8_t[m.num_bytes]);
  OStream s;
  s.data = m.buf.get(), s.end = m.buf.get() + m.num_bytes;
  s.next((uint32_t)m.num_bytes - 4);
  m.message_start = s.data;
  s.next(message);
  return m;
}
template <typename M> inline void deserializeMessage(const SerializedMessage& m, M& message) {
  IStream s;
  s.data = m.message_start, s.end = m.message_start + (m.num_bytes - (m.message_start - m.buf.get()));
  s.next(message);
}
}
}
