// A model of array values, and raw access to the memory of an array that does not go through the library's indexing,
// assignment or conversion code: values are read and written by following the documented arrmeta layout.
#pragma once
#include "tast.hpp"
#include <dynd/memblock/external_memory_block.hpp>

namespace arr {
using namespace tast;

typedef __int128 i128;
typedef unsigned __int128 u128;

enum VK { VInt, VFloat, VComplex, VStr, VBytes, VSeq, VNA };
struct Val;
typedef std::shared_ptr<Val> V;
struct Val {
  VK k;
  i128 i = 0;               // VInt (bool, signed, unsigned up to 64 bits, int128)
  double d = 0, e = 0;      // VFloat, VComplex
  std::string s;            // VStr (UTF-8), VBytes
  std::vector<V> c;         // VSeq: elements of a dimension, fields of a tuple or struct
};
inline V vi(i128 i) {
  V v = std::make_shared<Val>();
  v->k = VInt;
  v->i = i;
  return v;
}
inline V vf(double d) {
  V v = std::make_shared<Val>();
  v->k = VFloat;
  v->d = d;
  return v;
}
inline V vc(double d, double e) {
  V v = std::make_shared<Val>();
  v->k = VComplex;
  v->d = d;
  v->e = e;
  return v;
}
inline V vs(const std::string &s) {
  V v = std::make_shared<Val>();
  v->k = VStr;
  v->s = s;
  return v;
}
inline V vb(const std::string &s) {
  V v = std::make_shared<Val>();
  v->k = VBytes;
  v->s = s;
  return v;
}
inline V vseq(std::vector<V> c = {}) {
  V v = std::make_shared<Val>();
  v->k = VSeq;
  v->c = std::move(c);
  return v;
}
inline V vna() {
  V v = std::make_shared<Val>();
  v->k = VNA;
  return v;
}

inline std::string i128str(i128 x) {
  bool neg = x < 0;
  u128 u = neg ? -(u128)x : (u128)x;
  std::string s;
  do {
    s += char('0' + (int)(u % 10));
    u /= 10;
  } while (u);
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}
inline bool same_bits(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
inline std::string show(const V &v) {
  std::stringstream ss;
  ss << std::setprecision(17);
  switch (v->k) {
  case VInt: return i128str(v->i);
  case VFloat: ss << v->d << "f"; return ss.str();
  case VComplex: ss << "(" << v->d << "," << v->e << ")"; return ss.str();
  case VStr: return "\"" + pbt::json_escape(v->s) + "\"";
  case VBytes: return "b\"" + pbt::json_escape(v->s) + "\"";
  case VNA: return "NA";
  case VSeq: {
    std::string s = "[";
    for (size_t i = 0; i < v->c.size(); ++i) s += (i ? ", " : "") + show(v->c[i]);
    return s + "]";
  }
  }
  return "?";
}
// identical values; NaN equals NaN, 0.0 differs from -0.0
inline bool eq(const V &a, const V &b) {
  if (a->k != b->k) return false;
  switch (a->k) {
  case VInt: return a->i == b->i;
  case VFloat: return same_bits(a->d, b->d);
  case VComplex: return same_bits(a->d, b->d) && same_bits(a->e, b->e);
  case VStr:
  case VBytes: return a->s == b->s;
  case VNA: return true;
  case VSeq:
    if (a->c.size() != b->c.size()) return false;
    for (size_t i = 0; i < a->c.size(); ++i)
      if (!eq(a->c[i], b->c[i])) return false;
    return true;
  }
  return false;
}
inline V copy(const V &v) {
  V r = std::make_shared<Val>(*v);
  for (V &x : r->c) x = copy(x);
  return r;
}

// IEEE binary16, written from the format definition
inline double half_to_double(uint16_t h) {
  int e = (h >> 10) & 31, m = h & 1023;
  double r = e == 0 ? std::ldexp((double)m, -24)
             : e == 31 ? (m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity())
                       : std::ldexp((double)(1024 + m), e - 25);
  return h & 0x8000 ? -r : r;
}
// round to nearest even
inline uint16_t double_to_half(double d) {
  uint16_t sign = std::signbit(d) ? 0x8000 : 0;
  d = std::fabs(d);
  if (d != d) return sign | 0x7e00;
  if (d >= 65520.0) return sign | 0x7c00;
  int e;
  std::frexp(d, &e); // d = f * 2^e, f in [0.5, 1)
  int q = std::max(e - 11, -24); // exponent of the last place
  double n = std::nearbyint(std::ldexp(d, -q));
  if (n == 0) return sign;
  // n * 2^q with n <= 2048
  if (n >= 2048) {
    n /= 2;
    ++q;
  }
  if (n < 1024) return sign | (uint16_t)n;
  return sign | (uint16_t)(((q + 25) << 10) | ((int)n - 1024));
}

// ---------------------------------------------------------------------------------------------- raw access
template <typename T>
T ld(const char *p) {
  T x;
  memcpy(&x, p, sizeof x);
  return x;
}
template <typename T>
void st(char *p, T x) {
  memcpy(p, &x, sizeof x);
}
inline void put_utf8(std::string &o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) {
    o += (char)(0xc0 | c >> 6);
    o += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    o += (char)(0xe0 | c >> 12);
    o += (char)(0x80 | (c >> 6 & 63));
    o += (char)(0x80 | (c & 63));
  } else {
    o += (char)(0xf0 | c >> 18);
    o += (char)(0x80 | (c >> 12 & 63));
    o += (char)(0x80 | (c >> 6 & 63));
    o += (char)(0x80 | (c & 63));
  }
}
inline std::vector<uint32_t> cps(const std::string &s) {
  std::vector<uint32_t> r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t cp = n == 1 ? c : c & (0xff >> (n + 1));
    for (int k = 1; k < n && i + k < s.size(); ++k) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
    r.push_back(cp);
    i += n;
  }
  return r;
}
inline std::string utf8(const std::vector<uint32_t> &v) {
  std::string s;
  for (uint32_t c : v) put_utf8(s, c);
  return s;
}
// bytes of a text in an encoding
inline std::string encode(const std::vector<uint32_t> &v, string_encoding_t e) {
  std::string s;
  for (uint32_t c : v) {
    switch (e) {
    case string_encoding_utf_16:
    case string_encoding_ucs_2:
      if (c >= 0x10000) {
        uint16_t hi = 0xd800 + ((c - 0x10000) >> 10), lo = 0xdc00 + ((c - 0x10000) & 1023);
        s.append((char *)&hi, 2);
        s.append((char *)&lo, 2);
      } else {
        uint16_t x = (uint16_t)c;
        s.append((char *)&x, 2);
      }
      break;
    case string_encoding_utf_32:
      s.append((char *)&c, 4);
      break;
    case string_encoding_utf_8:
      put_utf8(s, c);
      break;
    default:
      s += (char)c;
    }
  }
  return s;
}
inline std::vector<uint32_t> decode(const std::string &b, string_encoding_t e) {
  std::vector<uint32_t> r;
  switch (e) {
  case string_encoding_utf_16:
  case string_encoding_ucs_2:
    for (size_t i = 0; i + 1 < b.size(); i += 2) {
      uint32_t x = ld<uint16_t>(b.data() + i);
      if (e == string_encoding_utf_16 && x >= 0xd800 && x < 0xdc00 && i + 3 < b.size()) {
        x = 0x10000 + ((x - 0xd800) << 10) + (ld<uint16_t>(b.data() + i + 2) - 0xdc00);
        i += 2;
      }
      r.push_back(x);
    }
    return r;
  case string_encoding_utf_32:
    for (size_t i = 0; i + 3 < b.size(); i += 4) r.push_back(ld<uint32_t>(b.data() + i));
    return r;
  case string_encoding_utf_8:
    return cps(b);
  default:
    for (unsigned char c : b) r.push_back(c);
    return r;
  }
}
inline size_t enc_unit(string_encoding_t e) {
  return e == string_encoding_utf_16 || e == string_encoding_ucs_2 ? 2 : e == string_encoding_utf_32 ? 4 : 1;
}

inline bool raw_is_na(const ndt::type &t, const char *arrmeta, const char *p) {
  switch (t.get_id()) {
  case bool_id: return (unsigned char)*p == 2;
  case int8_id: return ld<int8_t>(p) == INT8_MIN;
  case int16_id: return ld<int16_t>(p) == INT16_MIN;
  case int32_id: return ld<int32_t>(p) == INT32_MIN;
  case int64_id: return ld<int64_t>(p) == INT64_MIN;
  case int128_id: return ld<u128>(p) == (u128)1 << 127;
  case uint8_id: return ld<uint8_t>(p) == UINT8_MAX;
  case uint16_id: return ld<uint16_t>(p) == UINT16_MAX;
  case uint32_id: return ld<uint32_t>(p) == UINT32_MAX;
  case uint64_id: return ld<uint64_t>(p) == UINT64_MAX;
  case float32_id: return ld<uint32_t>(p) == 0x7f8007a2u;
  case float64_id: return ld<uint64_t>(p) == 0x7ff00000000007a2ull;
  case complex_float32_id: return ld<uint32_t>(p) == 0x7f8007a2u && ld<uint32_t>(p + 4) == 0x7f8007a2u;
  case complex_float64_id:
    return ld<uint64_t>(p) == 0x7ff00000000007a2ull && ld<uint64_t>(p + 8) == 0x7ff00000000007a2ull;
  case string_id:
  case bytes_id: {
    return false;
  }
  default: throw std::logic_error("raw_is_na " + pbt::str(t));
  }
}

inline V read(const ndt::type &t, const char *m, const char *p) {
  switch (t.get_id()) {
  case bool_id: return vi((unsigned char)*p);
  case int8_id: return vi(ld<int8_t>(p));
  case int16_id: return vi(ld<int16_t>(p));
  case int32_id: return vi(ld<int32_t>(p));
  case int64_id: return vi(ld<int64_t>(p));
  case int128_id: return vi(ld<i128>(p));
  case uint8_id: return vi(ld<uint8_t>(p));
  case uint16_id: return vi(ld<uint16_t>(p));
  case uint32_id: return vi(ld<uint32_t>(p));
  case uint64_id: return vi(ld<uint64_t>(p));
  case uint128_id: return vi(ld<i128>(p));
  case float16_id: return vf(half_to_double(ld<uint16_t>(p)));
  case float32_id: return vf(ld<float>(p));
  case float64_id: return vf(ld<double>(p));
  case complex_float32_id: return vc(ld<float>(p), ld<float>(p + 4));
  case complex_float64_id: return vc(ld<double>(p), ld<double>(p + 8));
  case string_id: {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(p);
    return vs(std::string(s->begin(), s->end()));
  }
  case bytes_id: {
    const dynd::bytes *s = reinterpret_cast<const dynd::bytes *>(p);
    return vb(std::string(s->begin(), s->end()));
  }
  case fixed_string_id: {
    const auto *ft = t.extended<ndt::fixed_string_type>();
    string_encoding_t e = ft->get_encoding();
    size_t u = enc_unit(e), n = ft->get_data_size() / u, k = 0;
    for (; k < n; ++k) {
      bool z = true;
      for (size_t j = 0; j < u; ++j) z = z && p[k * u + j] == 0;
      if (z) break;
    }
    return vs(utf8(decode(std::string(p, k * u), e)));
  }
  case fixed_bytes_id: return vb(std::string(p, t.get_data_size()));
  case char_id: {
    string_encoding_t e = t.extended<ndt::char_type>()->get_encoding();
    return vs(utf8(decode(std::string(p, t.get_data_size()), e)));
  }
  case option_id: {
    const ndt::type &u = t.extended<ndt::option_type>()->get_value_type();
    if (raw_is_na(u, m, p)) return vna();
    return read(u, m, p);
  }
  case fixed_dim_id: {
    const ndt::type &u = t.extended<ndt::base_dim_type>()->get_element_type();
    intptr_t n = ld<intptr_t>(m), s = ld<intptr_t>(m + 8);
    V r = vseq();
    for (intptr_t i = 0; i < n; ++i) r->c.push_back(read(u, m + 16, p + i * s));
    return r;
  }
  case var_dim_id: {
    const ndt::type &u = t.extended<ndt::base_dim_type>()->get_element_type();
    const auto *vm = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(m);
    const auto *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
    V r = vseq();
    if (d->begin == nullptr) return r;
    for (size_t i = 0; i < d->size; ++i)
      r->c.push_back(read(u, m + sizeof(*vm), d->begin + vm->offset + (intptr_t)i * vm->stride));
    return r;
  }
  case tuple_id:
  case struct_id: {
    V r = vseq();
    intptr_t n;
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(m);
    if (t.get_id() == tuple_id) {
      const auto *tt = t.extended<ndt::tuple_type>();
      n = tt->get_field_count();
      for (intptr_t i = 0; i < n; ++i)
        r->c.push_back(read(tt->get_field_type(i), m + tt->get_arrmeta_offsets()[i], p + off[i]));
    } else {
      const auto *tt = t.extended<ndt::struct_type>();
      n = tt->get_field_count();
      for (intptr_t i = 0; i < n; ++i)
        r->c.push_back(read(tt->get_field_type(i), m + tt->get_arrmeta_offsets()[i], p + off[i]));
    }
    return r;
  }
  case pointer_id: {
    const ndt::type &u = t.extended<ndt::pointer_type>()->get_target_type();
    const auto *pm = reinterpret_cast<const pointer_type_arrmeta *>(m);
    return read(u, m + sizeof(*pm), ld<char *>(p) + pm->offset);
  }
  default: throw std::logic_error("arr::read " + pbt::str(t));
  }
}
inline V read(const nd::array &a) { return read(a.get_type(), a.get()->metadata(), a.cdata()); }

inline void write_na(const ndt::type &t, char *p) {
  switch (t.get_id()) {
  case bool_id: *p = 2; return;
  case int8_id: st<int8_t>(p, INT8_MIN); return;
  case int16_id: st<int16_t>(p, INT16_MIN); return;
  case int32_id: st<int32_t>(p, INT32_MIN); return;
  case int64_id: st<int64_t>(p, INT64_MIN); return;
  case int128_id: st<u128>(p, (u128)1 << 127); return;
  case uint8_id: st<uint8_t>(p, UINT8_MAX); return;
  case uint16_id: st<uint16_t>(p, UINT16_MAX); return;
  case uint32_id: st<uint32_t>(p, UINT32_MAX); return;
  case uint64_id: st<uint64_t>(p, UINT64_MAX); return;
  case float32_id: st<uint32_t>(p, 0x7f8007a2u); return;
  case float64_id: st<uint64_t>(p, 0x7ff00000000007a2ull); return;
  case complex_float32_id:
    st<uint32_t>(p, 0x7f8007a2u);
    st<uint32_t>(p + 4, 0x7f8007a2u);
    return;
  case complex_float64_id:
    st<uint64_t>(p, 0x7ff00000000007a2ull);
    st<uint64_t>(p + 8, 0x7ff00000000007a2ull);
    return;
  default: throw std::logic_error("write_na " + pbt::str(t));
  }
}

// Writes a value into memory that is default constructed (zeroed where the type asks for it).
inline void write(const ndt::type &t, const char *m, char *p, const V &v) {
  switch (t.get_id()) {
  case bool_id: *p = v->i ? 1 : 0; return;
  case int8_id: st<int8_t>(p, (int8_t)v->i); return;
  case int16_id: st<int16_t>(p, (int16_t)v->i); return;
  case int32_id: st<int32_t>(p, (int32_t)v->i); return;
  case int64_id: st<int64_t>(p, (int64_t)v->i); return;
  case int128_id: st<i128>(p, v->i); return;
  case uint8_id: st<uint8_t>(p, (uint8_t)v->i); return;
  case uint16_id: st<uint16_t>(p, (uint16_t)v->i); return;
  case uint32_id: st<uint32_t>(p, (uint32_t)v->i); return;
  case uint64_id: st<uint64_t>(p, (uint64_t)v->i); return;
  case uint128_id: st<i128>(p, v->i); return;
  case float16_id: st<uint16_t>(p, double_to_half(v->d)); return;
  case float32_id: st<float>(p, (float)v->d); return;
  case float64_id: st<double>(p, v->d); return;
  case complex_float32_id:
    st<float>(p, (float)v->d);
    st<float>(p + 4, (float)v->e);
    return;
  case complex_float64_id:
    st<double>(p, v->d);
    st<double>(p + 8, v->e);
    return;
  case string_id: reinterpret_cast<dynd::string *>(p)->assign(v->s.data(), v->s.size()); return;
  case bytes_id: reinterpret_cast<dynd::bytes *>(p)->assign(v->s.data(), v->s.size()); return;
  case fixed_string_id: {
    const auto *ft = t.extended<ndt::fixed_string_type>();
    std::string b = encode(cps(v->s), ft->get_encoding());
    if (b.size() > ft->get_data_size()) throw std::logic_error("fixed_string value too long");
    memset(p, 0, ft->get_data_size());
    memcpy(p, b.data(), b.size());
    return;
  }
  case fixed_bytes_id:
    if (v->s.size() != t.get_data_size()) throw std::logic_error("fixed_bytes size");
    memcpy(p, v->s.data(), v->s.size());
    return;
  case char_id: {
    std::string b = encode(cps(v->s), t.extended<ndt::char_type>()->get_encoding());
    memcpy(p, b.data(), std::min<size_t>(b.size(), t.get_data_size()));
    return;
  }
  case option_id: {
    const ndt::type &u = t.extended<ndt::option_type>()->get_value_type();
    if (v->k == VNA) write_na(u, p);
    else write(u, m, p, v);
    return;
  }
  case fixed_dim_id: {
    const ndt::type &u = t.extended<ndt::base_dim_type>()->get_element_type();
    intptr_t n = ld<intptr_t>(m), s = ld<intptr_t>(m + 8);
    if ((size_t)n != v->c.size()) throw std::logic_error("fixed_dim size");
    for (intptr_t i = 0; i < n; ++i) write(u, m + 16, p + i * s, v->c[i]);
    return;
  }
  case var_dim_id: {
    const ndt::type &u = t.extended<ndt::base_dim_type>()->get_element_type();
    const auto *vm = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(m);
    auto *d = reinterpret_cast<ndt::var_dim_type::data_type *>(p);
    // vm->offset is zero for memory of our own
    d->begin = const_cast<nd::memory_block &>(vm->blockref)->alloc(v->c.size());
    d->size = v->c.size();
    for (size_t i = 0; i < d->size; ++i) write(u, m + sizeof(*vm), d->begin + (intptr_t)i * vm->stride, v->c[i]);
    return;
  }
  case tuple_id:
  case struct_id: {
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(m);
    for (size_t i = 0; i < v->c.size(); ++i) {
      if (t.get_id() == tuple_id) {
        const auto *tt = t.extended<ndt::tuple_type>();
        write(tt->get_field_type(i), m + tt->get_arrmeta_offsets()[i], p + off[i], v->c[i]);
      } else {
        const auto *tt = t.extended<ndt::struct_type>();
        write(tt->get_field_type(i), m + tt->get_arrmeta_offsets()[i], p + off[i], v->c[i]);
      }
    }
    return;
  }
  default: throw std::logic_error("arr::write " + pbt::str(t));
  }
}
inline void write(const nd::array &a, const V &v) { write(a.get_type(), a.get()->metadata(), const_cast<char *>(a.cdata()), v); }

// Calls f(type, arrmeta, data, value) for every scalar of an array, following its arrmeta; the value tree is the model
// of the array and its leaves are passed along.
typedef std::function<void(const ndt::type &, const char *, char *, V &)> LeafFn;
inline void walk(const ndt::type &t, const char *m, char *p, V &v, const LeafFn &f) {
  switch (t.get_id()) {
  case fixed_dim_id: {
    const ndt::type &u = t.extended<ndt::base_dim_type>()->get_element_type();
    intptr_t n = ld<intptr_t>(m), s = ld<intptr_t>(m + 8);
    if ((size_t)n != v->c.size()) pbt::fail("a dimension has size " + pbt::str(n) + " instead of " + pbt::str(v->c.size()));
    for (intptr_t i = 0; i < n; ++i) walk(u, m + 16, p + i * s, v->c[i], f);
    return;
  }
  case var_dim_id: {
    const ndt::type &u = t.extended<ndt::base_dim_type>()->get_element_type();
    const auto *vm = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(m);
    const auto *d = reinterpret_cast<const ndt::var_dim_type::data_type *>(p);
    if ((d->begin ? d->size : 0) != v->c.size()) pbt::fail("a var dimension has another size");
    for (size_t i = 0; i < v->c.size(); ++i)
      walk(u, m + sizeof(*vm), d->begin + vm->offset + (intptr_t)i * vm->stride, v->c[i], f);
    return;
  }
  case tuple_id:
  case struct_id: {
    const uintptr_t *off = reinterpret_cast<const uintptr_t *>(m);
    for (size_t i = 0; i < v->c.size(); ++i) {
      if (t.get_id() == tuple_id) {
        const auto *tt = t.extended<ndt::tuple_type>();
        walk(tt->get_field_type(i), m + tt->get_arrmeta_offsets()[i], p + off[i], v->c[i], f);
      } else {
        const auto *tt = t.extended<ndt::struct_type>();
        walk(tt->get_field_type(i), m + tt->get_arrmeta_offsets()[i], p + off[i], v->c[i], f);
      }
    }
    return;
  }
  default: f(t, m, p, v);
  }
}
inline void walk(const nd::array &a, V &v, const LeafFn &f) {
  walk(a.get_type(), a.get()->metadata(), const_cast<char *>(a.cdata()), v, f);
}

// ---------------------------------------------------------------------------------------------- generators
struct TOpt {
  std::vector<std::string> scalars{"int32",   "bool",   "int8",   "int16",   "int64",   "uint8",          "uint16", "uint32",
                                   "uint64", "float32", "float64", "complex[float32]", "complex[float64]"};
  bool strings = true, fixed_strings = true, bytes = true, fixed_bytes = true, options = true, records = true,
       vars = true, dims = true;
  int max_dim = 4;    // largest size of a dimension
  bool long_dims = true; // rarely, one dimension longer than the buffers inside the library
  int max_fields = 4;
  bool empty = true;  // zero size dimensions and zero field records
};
inline N mk_fixed(int64_t n, N e) {
  N x = mk(FixedDim, e);
  x->n = n;
  return x;
}
inline N mk_var(N e) { return mk(VarDim, e); }
inline N mk_tuple3(N a, N b, N c) {
  N x = mk(Tuple);
  x->c = {a, b, c};
  return x;
}
inline int64_t gen_size(G &g, const TOpt &o) {
  // mostly small, 0 and 1 present
  int64_t lo = o.empty ? 0 : 1;
  int64_t n = 1 + (int64_t)g.u(o.max_dim);
  if (lo == 0 && g.u(12) == 11) n = 0;
  return n;
}
inline N gen_leaf(G &g, const TOpt &o) {
  if (o.strings && g.u(6) == 5) return mks("string");
  if (o.fixed_strings && g.u(12) == 11) {
    N x = mk(FixedString);
    x->n = g.range(1, 9);
    x->s = g.pick<const char *>({"utf8", "ascii", "utf16", "utf32", "ucs2"});
    return x;
  }
  if (o.bytes && g.u(14) == 13) return mks("bytes");
  if (o.fixed_bytes && g.u(14) == 13) {
    N x = mk(FixedBytes);
    x->m = 1ll << g.u(4);
    x->n = x->m * g.range(1, 3);
    return x;
  }
  N x = mks(g.pick(o.scalars));
  if (o.options && x->s != "float16" && x->s != "int128" && g.u(6) == 5) return mk(Option, x);
  return x;
}
inline N gen_dtype(G &g, int depth, const TOpt &o);
inline N gen_array_type(G &g, int ndim, int depth, const TOpt &o) {
  if (ndim == 0) return gen_dtype(g, depth, o);
  bool var = o.vars && g.u(4) == 3;
  int64_t n = var ? 0 : gen_size(g, o);
  N e = gen_array_type(g, ndim - 1, depth, o);
  if (!var && o.long_dims && ndim == 1 && (e->c.empty() || e->k == Option) && g.u(60) == 59) n = 100 + (int64_t)g.u(200);
  return var ? mk_var(e) : mk_fixed(n, e);
}
inline N gen_dtype(G &g, int depth, const TOpt &o) {
  if (o.records && depth > 0 && g.u(4) == 3) {
    bool st = g.coin();
    N x = mk(st ? Struct : Tuple);
    size_t n = o.empty ? g.u(o.max_fields + 1) : 1 + g.u(o.max_fields);
    for (size_t i = 0; i < n; ++i) {
      x->c.push_back(gen_array_type(g, o.dims && g.u(3) == 2 ? (int)g.range(1, 2) : 0, depth - 1, o));
      if (st) x->names.push_back(std::string(1, char('a' + i)) + g.pick({"", "x", "_1"}));
    }
    return x;
  }
  return gen_leaf(g, o);
}

inline std::string gen_text(G &g, size_t maxlen, int plane = 3) {
  // plane 0: ASCII, 1: latin, 2: BMP, 3: all
  std::vector<uint32_t> v;
  size_t n = g.u(maxlen + 1);
  for (size_t i = 0; i < n; ++i) {
    switch (g.u(plane == 0 ? 6 : plane == 1 ? 7 : plane == 2 ? 8 : 9)) {
    case 8: v.push_back((uint32_t)g.pick({0x10000, 0x1f600, 0x10ffff, 0x2a6d6})); break;
    case 7: v.push_back((uint32_t)g.pick({0x800, 0x20ac, 0xffff - 2, 0xd7ff, 0xe000, 0x4e2d})); break;
    case 6: v.push_back((uint32_t)g.pick({0xe9, 0x80, 0xff, 0xa0, 0xc3})); break;
    case 5: v.push_back((uint32_t)g.pick<int>({' ', '"', '\\', '\n', 'Z', '0', '\t', '/', 0x7f, 1, '\'', ','})); break;
    default: v.push_back((uint32_t)('a' + g.u(6)));
    }
  }
  return utf8(v);
}
inline void int_limits(const std::string &s, i128 &lo, i128 &hi) {
  if (s == "bool") { lo = 0; hi = 1; }
  else if (s == "int8") { lo = INT8_MIN; hi = INT8_MAX; }
  else if (s == "int16") { lo = INT16_MIN; hi = INT16_MAX; }
  else if (s == "int32") { lo = INT32_MIN; hi = INT32_MAX; }
  else if (s == "int64") { lo = INT64_MIN; hi = INT64_MAX; }
  else if (s == "int128") { lo = (i128)((u128)1 << 127); hi = (i128)(~((u128)1 << 127)); }
  else if (s == "uint8") { lo = 0; hi = UINT8_MAX; }
  else if (s == "uint16") { lo = 0; hi = UINT16_MAX; }
  else if (s == "uint32") { lo = 0; hi = UINT32_MAX; }
  else if (s == "uint64") { lo = 0; hi = UINT64_MAX; }
  else throw std::logic_error("int_limits " + s);
}
inline bool is_int(const std::string &s) { return s.compare(0, 3, "int") == 0 || s.compare(0, 4, "uint") == 0; }
inline i128 gen_int(G &g, const std::string &s) {
  i128 lo, hi;
  int_limits(s, lo, hi);
  switch (g.u(6)) {
  case 5: return hi - (i128)g.u(2);
  case 4: return lo + (i128)g.u(2);
  case 3: {
    // near a power of two
    int b = (int)g.u(64);
    i128 x = ((i128)1 << b) + (i128)g.range(-1, 1);
    if (g.coin()) x = -x;
    return x < lo || x > hi ? (i128)g.u(2) : x;
  }
  case 2: {
    i128 x = (i128)g.bits();
    u128 w = (u128)(hi - lo) + 1;
    return w ? lo + (i128)((u128)x % w) : x;
  }
  default: {
    i128 x = (i128)g.range(0, 20) - (lo < 0 ? 5 : 0);
    return x < lo ? lo : x > hi ? hi : x;
  }
  }
}
inline double gen_double(G &g, bool special = true) {
  switch (g.u(special ? 8 : 6)) {
  case 7: return g.pick({INFINITY, -INFINITY, (float)NAN});
  case 6: return g.pick({-0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, -1.7976931348623157e308});
  case 5: {
    double d;
    uint64_t b = g.bits();
    b = (b & ~(0x7ffull << 52)) | (uint64_t)(1023 - 60 + g.u(120)) << 52;
    memcpy(&d, &b, 8);
    return d;
  }
  case 4: return std::ldexp(1.0, (int)g.range(0, 80) - 10) * (g.coin() ? 1 : -1);
  case 3: return (double)g.range(0, 4000) / 16 - 100;
  default: return (double)(int64_t)g.range(0, 30) - 10;
  }
}
inline double gen_float32(G &g, bool special = true) {
  double d = gen_double(g, special);
  float f = (float)d;
  if (!special && std::isinf(f)) f = 1;
  return f;
}
inline V gen_val(G &g, const N &t, bool na = true) {
  switch (t->k) {
  case Scalar:
    if (t->s == "bool" || is_int(t->s)) return vi(gen_int(g, t->s));
    if (t->s == "float16") return vf(half_to_double(double_to_half(gen_double(g))));
    if (t->s == "float32") return vf(gen_float32(g));
    if (t->s == "float64") return vf(gen_double(g));
    if (t->s == "complex[float32]") { double d = gen_float32(g); return vc(d, gen_float32(g)); }
    if (t->s == "complex[float64]") { double d = gen_double(g); return vc(d, gen_double(g)); }
    if (t->s == "string") return vs(gen_text(g, g.u(4) == 3 ? 40 : 6));
    if (t->s == "bytes") {
      std::string s;
      size_t n = g.u(g.u(4) == 3 ? 40 : 6);
      for (size_t i = 0; i < n; ++i) s += (char)g.u(256);
      return vb(s);
    }
    throw std::logic_error("gen_val " + t->s);
  case FixedString: {
    string_encoding_t e = enc(t->s);
    std::string s = gen_text(g, t->n, e == string_encoding_ascii ? 0 : e == string_encoding_ucs_2 ? 2 : 3);
    std::vector<uint32_t> v = cps(s);
    while (encode(v, e).size() > (size_t)t->n * enc_unit(e)) v.pop_back();
    return vs(utf8(v));
  }
  case FixedBytes: {
    std::string s;
    for (int64_t i = 0; i < t->n; ++i) s += (char)g.u(256);
    return vb(s);
  }
  case Option: {
    if (na && g.u(3) == 2) return vna();
    V v = gen_val(g, t->c[0], na);
    // a value that is the NA pattern is not a value of the option type
    if (v->k == VInt && t->c[0]->s != "bool") {
      i128 lo, hi;
      int_limits(t->c[0]->s, lo, hi);
      if (lo < 0 ? v->i == lo : v->i == hi) v->i = 0;
    }
    if (v->k == VFloat && v->d != v->d) v->d = 1; // any NaN counts as NA
    return v;
  }
  case FixedDim: {
    V r = vseq();
    for (int64_t i = 0; i < t->n; ++i)
      r->c.push_back(i >= 23 && t->n > 60 ? copy(r->c[i - 23]) : gen_val(g, t->c[0], na));
    return r;
  }
  case VarDim: {
    V r = vseq();
    size_t n = g.u(5);
    if (t->c[0]->c.empty() && g.u(12) == 11) n = 5 + g.u(36); // more than the first allocation of a growing dimension
    for (size_t i = 0; i < n; ++i) r->c.push_back(gen_val(g, t->c[0], na));
    return r;
  }
  case Tuple:
  case Struct: {
    V r = vseq();
    for (const N &f : t->c) r->c.push_back(gen_val(g, f, na));
    return r;
  }
  default: throw std::logic_error("gen_val kind");
  }
}

// An array of a given type and value with a generated memory layout: the leading fixed dimensions get permuted,
// reversed and padded strides over a base array; everything that is not part of the array (the padding) holds a value
// of its own that must never change.
struct Arr {
  N type;
  nd::array a, base;
  std::vector<int64_t> slots; // number of slots of each padded dimension
  V before;                   // base contents after construction
  std::vector<int> fields;    // the elements are records of some fields of larger ones in memory, at these positions
  size_t nfields = 0;         // (of so many)
  int var_field = 0;          // the elements of the var dimension at this depth are one field of the tuples in memory
  std::string layout;
};
// (int8, T, int16) around the elements at a depth
inline N wrap_type(const N &t, int depth) {
  if (depth == 0) return mk_tuple3(mks("int8"), t, mks("int16"));
  N r = t->k == FixedDim ? mk_fixed(t->n, wrap_type(t->c[0], depth - 1)) : mk_var(wrap_type(t->c[0], depth - 1));
  return r;
}
inline V wrap_val(const V &v, int depth) {
  if (depth == 0) return vseq({vi(77), v, vi(-12345)});
  V r = vseq();
  for (const V &x : v->c) r->c.push_back(wrap_val(x, depth - 1));
  return r;
}
// the value of the larger record, and the arrmeta of a record of some of its fields
inline V widen_val(const V &v, const std::vector<int> &fields, size_t n) {
  V r = vseq(std::vector<V>(n));
  for (size_t i = 0; i < fields.size(); ++i) r->c[fields[i]] = v->c[i];
  for (size_t i = 0; i < n; ++i)
    if (!r->c[i]) r->c[i] = vi(40 + (int)i);
  return r;
}
inline void widen_arrmeta(const ndt::type &bt, const char *bm, const ndt::type &vt, char *vm, const std::vector<int> &fields,
                          const nd::memory_block &own) {
  const std::vector<uintptr_t> &b = bt.extended<ndt::tuple_type>()->get_arrmeta_offsets();
  bool tup = vt.get_id() == tuple_id;
  for (size_t i = 0; i < fields.size(); ++i) {
    reinterpret_cast<uintptr_t *>(vm)[i] = reinterpret_cast<const uintptr_t *>(bm)[fields[i]];
    const ndt::type &ft = tup ? vt.extended<ndt::tuple_type>()->get_field_type(i) : vt.extended<ndt::struct_type>()->get_field_type(i);
    uintptr_t at = tup ? vt.extended<ndt::tuple_type>()->get_arrmeta_offset(i) : vt.extended<ndt::struct_type>()->get_arrmeta_offset(i);
    if (!ft.is_builtin()) ft.extended()->arrmeta_copy_construct(vm + at, bm + b[fields[i]], own);
  }
}
// the arrmeta of a view of the middle field
inline void wrap_arrmeta(const ndt::type &bt, const char *bm, const ndt::type &vt, char *vm, int depth,
                         const nd::memory_block &own) {
  const ndt::type &be = bt.extended<ndt::base_dim_type>()->get_element_type();
  const ndt::type &ve = vt.extended<ndt::base_dim_type>()->get_element_type();
  size_t sz = 16;
  if (bt.get_id() == fixed_dim_id) {
    memcpy(vm, bm, 16);
  } else {
    typedef ndt::var_dim_type::metadata_type md;
    const md *b = reinterpret_cast<const md *>(bm);
    md *w = reinterpret_cast<md *>(vm);
    new (&w->blockref) nd::memory_block(b->blockref ? b->blockref : own);
    w->stride = b->stride;
    w->offset = b->offset;
    sz = sizeof(md);
    if (depth == 1) {
      w->offset += reinterpret_cast<const uintptr_t *>(bm + sz)[1];
      if (!ve.is_builtin())
        ve.extended()->arrmeta_copy_construct(vm + sz, bm + sz + be.extended<ndt::tuple_type>()->get_arrmeta_offsets()[1], own);
      return;
    }
  }
  wrap_arrmeta(be, bm + sz, ve, vm + sz, depth - 1, own);
}
inline void fixed_prefix(const N &t, std::vector<int64_t> &shape, N &el) {
  el = t;
  while (el->k == FixedDim) {
    shape.push_back(el->n);
    el = el->c[0];
  }
}
inline void collect_offsets(const std::vector<int64_t> &shape, const std::vector<int64_t> &strides, size_t d, int64_t off,
                            std::vector<int64_t> &out) {
  if (d == shape.size()) {
    out.push_back(off);
    return;
  }
  for (int64_t i = 0; i < shape[d]; ++i) collect_offsets(shape, strides, d + 1, off + i * strides[d], out);
}
inline void flatten(const V &v, size_t ndim, std::vector<V> &out) {
  if (ndim == 0) {
    out.push_back(v);
    return;
  }
  for (const V &x : v->c) flatten(x, ndim - 1, out);
}

// kind: 0 contiguous C order, 1 random layout
inline Arr make(G &g, const N &t, const V &v, bool fancy = true, uint64_t flags = nd::readwrite_access_flags,
                std::function<V(G &, const N &)> filler = nullptr) {
  Arr r;
  r.type = t;
  std::vector<int64_t> shape;
  N el;
  fixed_prefix(t, shape, el);
  size_t nd = shape.size();
  ndt::type et = build(el);
  std::vector<int64_t> strides(nd, 0); // in elements
  int64_t total = 1, offset = 0;
  if (!fancy || nd == 0 || g.u(3) == 0) {
    for (size_t i = nd; i-- > 0;) {
      strides[i] = total;
      total *= shape[i];
    }
    r.layout = "C";
  } else {
    std::vector<size_t> perm;
    for (size_t i = 0; i < nd; ++i) perm.insert(perm.begin() + g.u(perm.size() + 1), i);
    for (size_t k = nd; k-- > 0;) {
      size_t i = perm[k];
      int64_t step = 1 + (g.u(3) == 2 ? (int64_t)g.u(2) + 1 : 0);
      strides[i] = total * step;
      int64_t n = std::max<int64_t>(shape[i], 1);
      int64_t slots = n * step + (g.u(4) == 3 ? 1 : 0);
      if (g.u(3) == 2) {
        offset += total * step * (n - 1);
        strides[i] = -strides[i];
      }
      total *= slots;
    }
    r.layout = "strides";
    for (size_t i = 0; i < nd; ++i) r.layout += " " + std::to_string(strides[i]);
  }
  std::vector<int64_t> offs;
  collect_offsets(shape, strides, 0, offset, offs);
  // sometimes the elements of a var dimension are a field of larger elements
  if (fancy && el->k == VarDim && g.u(3) == 2) {
    int k = 0;
    N e = el;
    while (e->k == VarDim || e->k == FixedDim) {
      ++k;
      if (e->k == VarDim && (!r.var_field || g.coin())) r.var_field = k;
      e = e->c[0];
    }
    r.layout += " field of var dim " + std::to_string(r.var_field);
  }
  // sometimes the records are some of the fields of larger ones, in the same or in the other order
  N bel = r.var_field ? wrap_type(el, r.var_field) : el;
  if (fancy && (el->k == Tuple || el->k == Struct) && !el->c.empty() && g.u(3) == 2) {
    bool rev = g.coin();
    bel = mk(Tuple);
    r.fields.resize(el->c.size());
    for (size_t i = 0; i <= el->c.size(); ++i) {
      for (size_t k = g.u(3) == 2 ? 1 + g.u(2) : 0; k-- > 0;) bel->c.push_back(mks(g.pick<const char *>({"int8", "int64", "int16"})));
      if (i == el->c.size()) break;
      size_t f = rev ? el->c.size() - 1 - i : i;
      r.fields[f] = (int)bel->c.size();
      bel->c.push_back(el->c[f]);
    }
    r.nfields = bel->c.size();
    r.layout += " fields";
    for (int f : r.fields) r.layout += " " + std::to_string(f);
    r.layout += " of " + std::to_string(r.nfields);
  }
  // base array
  N bt = mk_fixed(total, bel);
  V bv = vseq(std::vector<V>(total));
  std::vector<V> flat;
  flatten(v, nd, flat);
  for (size_t i = 0; i < offs.size(); ++i) bv->c[offs[i]] = flat[i];
  V pad;
  for (V &x : bv->c) {
    if (!x) {
      if (!pad) pad = filler ? filler(g, el) : gen_val(g, el);
      x = pad;
    }
    if (r.var_field) x = wrap_val(x, r.var_field);
    if (r.nfields) x = widen_val(x, r.fields, r.nfields);
  }
  r.base = nd::empty(build(bt));
  write(r.base, bv);
  r.before = bv;
  // the view
  ndt::type full = build(t);
  int64_t es = ld<intptr_t>(r.base.get()->metadata() + 8);
  nd::buffer b = nd::make_buffer(full, const_cast<char *>(r.base.cdata()) + offset * es, r.base, flags);
  char *m = b.get()->metadata();
  for (size_t i = 0; i < nd; ++i) {
    st<intptr_t>(m + 16 * i, shape[i]);
    st<intptr_t>(m + 16 * i + 8, strides[i] * es);
  }
  if (r.var_field)
    wrap_arrmeta(build(bel), r.base.get()->metadata() + 16, et, m + 16 * nd, r.var_field, nd::memory_block(r.base));
  else if (r.nfields)
    widen_arrmeta(build(bel), r.base.get()->metadata() + 16, et, m + 16 * nd, r.fields, nd::memory_block(r.base));
  else if (!et.is_builtin())
    et.extended()->arrmeta_copy_construct(m + 16 * nd, r.base.get()->metadata() + 16, nd::memory_block(r.base));
  r.a = nd::array(b);
  return r;
}
// The base contents with the elements of the view replaced
inline V base_with(const Arr &r, const V &v) {
  std::vector<int64_t> shape, strides;
  N el;
  fixed_prefix(r.type, shape, el);
  int64_t es = ld<intptr_t>(r.base.get()->metadata() + 8);
  for (size_t i = 0; i < shape.size(); ++i)
    strides.push_back(es ? ld<intptr_t>(r.a.get()->metadata() + 16 * i + 8) / es : 0);
  int64_t offset = es ? (r.a.cdata() - r.base.cdata()) / es : 0;
  std::vector<int64_t> offs;
  collect_offsets(shape, strides, 0, offset, offs);
  std::vector<V> flat;
  flatten(v, shape.size(), flat);
  V b = vseq(r.before->c);
  for (size_t i = 0; i < offs.size(); ++i) b->c[offs[i]] = r.var_field ? wrap_val(flat[i], r.var_field) : r.nfields ? widen_val(flat[i], r.fields, r.nfields) : flat[i];
  return b;
}
inline void check_base(const Arr &r, const V &v, const char *what) {
  V got = read(r.base), want = base_with(r, v);
  CHECK_MSG(eq(got, want), what << ": memory is " << show(got) << " but should be " << show(want));
}
inline std::string tstr(const N &t) { return plain(t); }

} // namespace arr
