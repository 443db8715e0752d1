// A stand-in for the cbor library the native back-end uses, which is a submodule that is not here. It encodes RFC 8949
// with the parts of that library's interface the back-end needs.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace cbor
{
using Bytes = std::vector<std::uint8_t>;
class error : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
struct result
{
  bool success{ true };
  std::size_t length{ 0 };
  result() = default;
  result(bool s, std::size_t l = 0) : success(s), length(l) {}
  explicit operator bool() const { return success; }
  operator std::size_t() const { return length; }
  result& operator+=(const result& o) { success = success && o.success; length += o.length; return *this; }
};

class writer
{
public:
  Bytes& out;
  explicit writer(Bytes& o) : out(o) {}
  result head(std::uint8_t major, std::uint64_t n)
  {
    const std::size_t b = out.size();
    const std::uint8_t m = std::uint8_t(major << 5);
    if (n < 24) out.push_back(m | std::uint8_t(n));
    else
    {
      const int bytes = n <= 0xff ? 1 : n <= 0xffff ? 2 : n <= 0xffffffffull ? 4 : 8;
      out.push_back(m | (bytes == 1 ? 24 : bytes == 2 ? 25 : bytes == 4 ? 26 : 27));
      for (int i = bytes - 1; i >= 0; i--) out.push_back(std::uint8_t(n >> (8 * i)));
    }
    return { true, out.size() - b };
  }
  result raw(const void* p, std::size_t n) { auto c = static_cast<const std::uint8_t*>(p); out.insert(out.end(), c, c + n); return { true, n }; }
  result openArray(std::size_t n) { return head(4, n); }
  result openMap(std::size_t n) { return head(5, n); }
};
class reader
{
public:
  const std::uint8_t *p, *end;
  reader(const Bytes& b) : p(b.data()), end(b.data() + b.size()) {}
  bool peek(std::uint8_t& major) const { if (p == end) return false; major = *p >> 5; return true; }
  result head(std::uint8_t& major, std::uint64_t& n)
  {
    if (p == end) return { false };
    const std::uint8_t* b = p;
    major = *p >> 5;
    const std::uint8_t a = *p & 31;
    p++;
    if (a < 24) { n = a; return { true, std::size_t(p - b) }; }
    if (a > 27) { p = b; return { false }; }
    const int bytes = 1 << (a - 24);
    if (end - p < bytes) { p = b; return { false }; }
    n = 0;
    for (int i = 0; i < bytes; i++) n = (n << 8) | *p++;
    return { true, std::size_t(p - b) };
  }
  result expectArray() { std::uint8_t m; return { peek(m) && m == 4 }; }
  result expectMap() { std::uint8_t m; return { peek(m) && m == 5 }; }
  result readLength(std::size_t& n) { std::uint8_t m; std::uint64_t v = 0; result r = head(m, v); n = v; return r; }
  bool skip(int depth = 0)
  {
    std::uint8_t m; std::uint64_t n;
    if (depth > 100 || !head(m, n)) return false;
    if (m == 2 || m == 3) { if (std::uint64_t(end - p) < n) return false; p += n; return true; }
    if (m == 4 || m == 5) { for (std::uint64_t i = 0; i < n * (m == 5 ? 2 : 1); i++) if (!skip(depth + 1)) return false; return true; }
    if (m == 6) return skip(depth + 1);
    return true;
  }
};

class cbor_object;
// numbers
template <typename T> typename std::enable_if<std::is_integral<T>::value, result>::type to_cbor(const T& v, writer& w)
{
  return v < 0 ? w.head(1, std::uint64_t(-(std::int64_t(v) + 1))) : w.head(0, std::uint64_t(v));
}
template <typename T> typename std::enable_if<std::is_integral<T>::value, result>::type from_cbor(T& v, reader& r)
{
  std::uint8_t m; std::uint64_t n;
  const auto b = r.p;
  result res = r.head(m, n);
  if (!res || m > 1) { r.p = b; return { false }; }
  v = m == 0 ? T(n) : T(-std::int64_t(n) - 1);
  return res;
}
inline result to_cbor(const std::string& s, writer& w) { result r = w.head(3, s.size()); r += w.raw(s.data(), s.size()); return r; }
inline result from_cbor(std::string& s, reader& r)
{
  std::uint8_t m; std::uint64_t n;
  const auto b = r.p;
  if (!r.head(m, n) || m != 3 || std::uint64_t(r.end - r.p) < n) { r.p = b; return { false }; }
  s.assign(reinterpret_cast<const char*>(r.p), n);
  r.p += n;
  return { true, std::size_t(r.p - b) };
}
result to_cbor(const cbor_object& o, writer& w);
result from_cbor(cbor_object& o, reader& r);
inline result to_cbor(const Bytes& s, writer& w) { result r = w.head(2, s.size()); r += w.raw(s.data(), s.size()); return r; }
inline result from_cbor(Bytes& s, reader& r)
{
  std::uint8_t m; std::uint64_t n;
  const auto b = r.p;
  if (!r.head(m, n) || m != 2 || std::uint64_t(r.end - r.p) < n) { r.p = b; return { false }; }
  s.assign(r.p, r.p + n);
  r.p += n;
  return { true, std::size_t(r.p - b) };
}
template <typename T> result to_cbor(const std::vector<T>& v, writer& w);
template <typename K, typename V> result to_cbor(const std::map<K, V>& v, writer& w);
template <typename T> result to_cbor(const std::unique_ptr<T>& v, writer& w);
template <typename T> result from_cbor(std::vector<T>& v, reader& r);
template <typename K, typename V> result from_cbor(std::map<K, V>& v, reader& r);
template <typename T> result from_cbor(std::unique_ptr<T>& v, reader& r);

template <typename T> result to_cbor(const std::vector<T>& v, writer& w)
{
  result r = w.openArray(v.size());
  for (const auto& x : v) r += to_cbor(x, w);
  return r;
}
template <typename K, typename V> result to_cbor(const std::map<K, V>& v, writer& w)
{
  result r = w.openMap(v.size());
  for (const auto& x : v) { r += to_cbor(x.first, w); r += to_cbor(x.second, w); }
  return r;
}
template <typename T> result to_cbor(const std::unique_ptr<T>& v, writer& w) { return v ? to_cbor(*v, w) : w.head(7, 22); }
template <typename T> result from_cbor(std::vector<T>& v, reader& r)
{
  std::size_t n;
  v.clear();
  if (!r.expectArray() || !r.readLength(n)) return { false };
  result res;
  for (std::size_t i = 0; i < n && res; i++) { T x; res += from_cbor(x, r); if (res) v.push_back(std::move(x)); }
  return res;
}
template <typename K, typename V> result from_cbor(std::map<K, V>& v, reader& r)
{
  std::size_t n;
  v.clear();
  if (!r.expectMap() || !r.readLength(n)) return { false };
  result res;
  for (std::size_t i = 0; i < n && res; i++)
  {
    K k; V x;
    res += from_cbor(k, r);
    if (res) res += from_cbor(x, r);
    if (res) v[std::move(k)] = std::move(x);
  }
  return res;
}
template <typename T> result from_cbor(std::unique_ptr<T>& v, reader& r)
{
  if (r.p != r.end && *r.p == 0xf6) { r.p++; v.reset(); return { true, 1 }; }
  v.reset(new T());
  return from_cbor(*v, r);
}
// to and from bytes
template <typename T> result to_cbor(const T& v, Bytes& out) { writer w{ out }; return to_cbor(v, w); }
template <typename T> result from_cbor(T& v, const Bytes& in) { reader r{ in }; return from_cbor(v, r); }

class cbor_object
{
public:
  Bytes bytes;
  cbor_object() = default;
  cbor_object(const cbor_object&) = default;
  cbor_object(cbor_object&&) = default;
  cbor_object& operator=(const cbor_object&) = default;
  cbor_object& operator=(cbor_object&&) = default;
  template <typename T, typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, cbor_object>::value>::type>
  explicit cbor_object(const T& v) { writer w{ bytes }; to_cbor(v, w); }
  const Bytes& serialized() const { return bytes; }
  template <typename T> void get_to(T& v) const { reader r{ bytes }; if (!from_cbor(v, r)) throw error("value is not of that type"); }
  template <typename T> T get() const { T v{}; get_to(v); return v; }
};
inline result to_cbor(const cbor_object& o, writer& w) { return w.raw(o.bytes.data(), o.bytes.size()); }
inline result from_cbor(cbor_object& o, reader& r)
{
  const auto b = r.p;
  if (!r.skip()) { r.p = b; return { false }; }
  o.bytes.assign(b, r.p);
  return { true, o.bytes.size() };
}
}  // namespace cbor
