// A model of dynd types, independent of the library: generated as a tree, rendered as datashape text, built through
// the constructors, and compared structurally against what the library made of it.
#pragma once
#include "pbt.hpp"

#include <dynd/array.hpp>
#include <dynd/type_registry.hpp>
#include <dynd/types/any_kind_type.hpp>
#include <dynd/types/array_type.hpp>
#include <dynd/types/bool_kind_type.hpp>
#include <dynd/types/bytes_kind_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/char_type.hpp>
#include <dynd/types/complex_kind_type.hpp>
#include <dynd/types/dim_kind_type.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_bytes_kind_type.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_kind_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/float_kind_type.hpp>
#include <dynd/types/int_kind_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/scalar_kind_type.hpp>
#include <dynd/types/string_kind_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/type_type.hpp>
#include <dynd/types/typevar_constructed_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/types/uint_kind_type.hpp>
#include <dynd/types/var_dim_type.hpp>

#include <memory>

namespace tast {
using namespace dynd;
using pbt::G;

enum Kind {
  Scalar,      // name
  Kindt,       // symbolic kind: name
  Bytes,       // n = align
  FixedBytes,  // n = size, m = align
  FixedString, // n = size, s = encoding
  Char,        // s = encoding
  FixedDim,    // n, c[0]
  VarDim,      // c[0]
  FixedKindDim,
  DimKindDim, // only in patterns built through the API: it has no text form
  TypevarDim, // s, c[0]
  EllipsisDim, // s or "", c[0]
  PowDim,      // s exponent, c[0] = base dim (with void element), c[1] element
  Tuple,       // c, variadic
  Struct,      // names, c, variadic
  Option,
  Pointer,
  Typevar,
  TypevarCons, // s, c[0]
  Callable     // ret c[0], then positional (n of them), then keyword names; variadic, kvariadic
};

struct Node;
typedef std::shared_ptr<Node> N;
struct Node {
  Kind k;
  std::string s;
  int64_t n = 0, m = 0;
  bool variadic = false, kvariadic = false;
  std::vector<std::string> names;
  std::vector<N> c;
};

inline N mk(Kind k) {
  N x = std::make_shared<Node>();
  x->k = k;
  return x;
}
inline N mk(Kind k, N c0) {
  N x = mk(k);
  x->c.push_back(c0);
  return x;
}
inline N mks(const std::string &s) {
  N x = mk(Scalar);
  x->s = s;
  return x;
}

inline const std::vector<std::string> &scalar_names() {
  static const std::vector<std::string> v{"int32",  "bool",   "int8",   "int16",   "int64",   "uint8",    "uint16",
                                          "uint32", "uint64", "int128", "uint128", "float16", "float32",  "float64",
                                          "float128", "complex[float32]", "complex[float64]", "string", "bytes", "type",
                                          "array", "void"};
  return v;
}
inline const std::vector<std::string> &kind_names() {
  static const std::vector<std::string> v{"Any", "Scalar", "Bool", "Int", "UInt", "Float", "Complex", "Bytes",
                                          "FixedBytes", "String", "FixedString"};
  return v;
}
inline ndt::type scalar_type(const std::string &s) {
  if (s == "bool") return ndt::make_type<bool1>();
  if (s == "int8") return ndt::make_type<int8_t>();
  if (s == "int16") return ndt::make_type<int16_t>();
  if (s == "int32") return ndt::make_type<int32_t>();
  if (s == "int64") return ndt::make_type<int64_t>();
  if (s == "int128") return ndt::make_type<int128>();
  if (s == "uint8") return ndt::make_type<uint8_t>();
  if (s == "uint16") return ndt::make_type<uint16_t>();
  if (s == "uint32") return ndt::make_type<uint32_t>();
  if (s == "uint64") return ndt::make_type<uint64_t>();
  if (s == "uint128") return ndt::make_type<uint128>();
  if (s == "float16") return ndt::make_type<float16>();
  if (s == "float32") return ndt::make_type<float>();
  if (s == "float64") return ndt::make_type<double>();
  if (s == "float128") return ndt::make_type<float128>();
  if (s == "complex[float32]") return ndt::make_type<dynd::complex<float>>();
  if (s == "complex[float64]") return ndt::make_type<dynd::complex<double>>();
  if (s == "string") return ndt::make_type<ndt::string_type>();
  if (s == "bytes") return ndt::make_type<ndt::bytes_type>(1);
  if (s == "type") return ndt::make_type<ndt::type_type>();
  if (s == "array") return ndt::make_type<ndt::array_type>();
  if (s == "void") return ndt::make_type<void>();
  throw std::logic_error("scalar_type " + s);
}
inline type_id_t scalar_id(const std::string &s) {
  static const std::map<std::string, type_id_t> m{
      {"bool", bool_id}, {"int8", int8_id}, {"int16", int16_id}, {"int32", int32_id}, {"int64", int64_id},
      {"int128", int128_id}, {"uint8", uint8_id}, {"uint16", uint16_id}, {"uint32", uint32_id}, {"uint64", uint64_id},
      {"uint128", uint128_id}, {"float16", float16_id}, {"float32", float32_id}, {"float64", float64_id},
      {"float128", float128_id}, {"complex[float32]", complex_float32_id}, {"complex[float64]", complex_float64_id},
      {"string", string_id}, {"bytes", bytes_id}, {"type", type_id}, {"array", array_id}, {"void", void_id}};
  return m.at(s);
}
inline ndt::type kind_type(const std::string &s) {
  if (s == "Any") return ndt::make_type<ndt::any_kind_type>();
  if (s == "Scalar") return ndt::make_type<ndt::scalar_kind_type>();
  if (s == "Bool") return ndt::make_type<ndt::bool_kind_type>();
  if (s == "Int") return ndt::make_type<ndt::int_kind_type>();
  if (s == "UInt") return ndt::make_type<ndt::uint_kind_type>();
  if (s == "Float") return ndt::make_type<ndt::float_kind_type>();
  if (s == "Complex") return ndt::make_type<ndt::complex_kind_type>();
  if (s == "Bytes") return ndt::make_type<ndt::bytes_kind_type>();
  if (s == "FixedBytes") return ndt::make_type<ndt::fixed_bytes_kind_type>();
  if (s == "String") return ndt::make_type<ndt::string_kind_type>();
  if (s == "FixedString") return ndt::make_type<ndt::fixed_string_kind_type>();
  throw std::logic_error("kind_type " + s);
}
inline string_encoding_t enc(const std::string &s) {
  if (s == "ascii") return string_encoding_ascii;
  if (s == "utf8") return string_encoding_utf_8;
  if (s == "utf16") return string_encoding_utf_16;
  if (s == "utf32") return string_encoding_utf_32;
  if (s == "ucs2") return string_encoding_ucs_2;
  throw std::logic_error("enc " + s);
}

inline bool simple_name(const std::string &s) {
  if (s.empty()) return false;
  if (!(isalpha((unsigned char)s[0]) || s[0] == '_')) return false;
  for (unsigned char ch : s)
    if (!(isalnum(ch) || ch == '_') || ch >= 128) return false;
  return true;
}

inline bool has_symbolic(const N &x) {
  switch (x->k) {
  case Kindt:
  case FixedKindDim:
  case DimKindDim:
  case TypevarDim:
  case EllipsisDim:
  case PowDim:
  case Typevar:
  case TypevarCons:
    return true;
  default:
    break;
  }
  if (x->variadic) return true;
  for (auto &c : x->c)
    if (has_symbolic(c)) return true;
  return false;
}

// ---------------------------------------------------------------- construction through the API
inline ndt::type build(const N &x) {
  switch (x->k) {
  case Scalar:
    return scalar_type(x->s);
  case Kindt:
    return kind_type(x->s);
  case Bytes:
    return ndt::make_type<ndt::bytes_type>(x->n);
  case FixedBytes:
    return ndt::make_type<ndt::fixed_bytes_type>(x->n, x->m);
  case FixedString:
    return ndt::make_type<ndt::fixed_string_type>(x->n, enc(x->s));
  case Char:
    return ndt::make_type<ndt::char_type>(enc(x->s));
  case FixedDim:
    return ndt::make_fixed_dim(x->n, build(x->c[0]));
  case VarDim:
    return ndt::make_type<ndt::var_dim_type>(build(x->c[0]));
  case FixedKindDim:
    return ndt::make_type<ndt::fixed_dim_kind_type>(build(x->c[0]));
  case DimKindDim:
    return ndt::make_type<ndt::dim_kind_type>(build(x->c[0]));
  case TypevarDim:
    return ndt::make_type<ndt::typevar_dim_type>(x->s, build(x->c[0]));
  case EllipsisDim:
    return x->s.empty() ? ndt::make_type<ndt::ellipsis_dim_type>(build(x->c[0]))
                        : ndt::make_type<ndt::ellipsis_dim_type>(x->s, build(x->c[0]));
  case PowDim:
    return ndt::make_type<ndt::pow_dimsym_type>(build(x->c[0]), x->s, build(x->c[1]));
  case Tuple: {
    std::vector<ndt::type> t;
    for (auto &c : x->c) t.push_back(build(c));
    return ndt::make_type<ndt::tuple_type>(t.size(), t.data(), x->variadic);
  }
  case Struct: {
    std::vector<ndt::type> t;
    for (auto &c : x->c) t.push_back(build(c));
    return ndt::make_type<ndt::struct_type>(x->names, t, x->variadic);
  }
  case Option:
    return ndt::make_type<ndt::option_type>(build(x->c[0]));
  case Pointer:
    return ndt::make_type<ndt::pointer_type>(build(x->c[0]));
  case Typevar:
    return ndt::make_type<ndt::typevar_type>(x->s);
  case TypevarCons:
    return ndt::make_type<ndt::typevar_constructed_type>(x->s, build(x->c[0]));
  case Callable: {
    std::vector<ndt::type> p, k;
    for (int64_t i = 0; i < x->n; ++i) p.push_back(build(x->c[1 + i]));
    for (size_t i = 1 + x->n; i < x->c.size(); ++i) k.push_back(build(x->c[i]));
    return ndt::make_type<ndt::callable_type>(build(x->c[0]),
                                              ndt::make_type<ndt::tuple_type>(p.size(), p.data(), x->variadic),
                                              ndt::make_type<ndt::struct_type>(x->names, k, x->kvariadic));
  }
  }
  throw std::logic_error("build");
}

// ---------------------------------------------------------------- text
// ws: called between tokens
struct Render {
  std::function<std::string()> ws = [] { return std::string(); };
  std::function<unsigned(unsigned)> choose = [](unsigned) { return 0u; };

  std::string quote(const std::string &s) {
    char q = choose(2) ? '"' : '\'';
    std::string o(1, q);
    for (char ch : s) {
      if (ch == q || ch == '\\') {
        o += '\\';
        o += ch;
      }
      else if (ch == '\n') {
        o += "\\n";
      }
      else if (ch == '\t') {
        o += "\\t";
      }
      else if (ch == '\r') {
        o += "\\r";
      }
      else if (ch == '\b') {
        o += "\\b";
      }
      else if (ch == '\f') {
        o += "\\f";
      }
      else if ((unsigned char)ch < 32 || ch == 127) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", ch);
        o += b;
      }
      else {
        o += ch;
      }
    }
    o += q;
    return o;
  }
  std::string encname(const std::string &e) {
    if (e == "ascii") return pick({"ascii", "A", "us-ascii"});
    if (e == "utf8") return pick({"utf8", "U8", "utf-8", "utf_8"});
    if (e == "utf16") return pick({"utf16", "U16", "utf-16", "utf_16"});
    if (e == "utf32") return pick({"utf32", "U32", "utf-32", "utf_32"});
    return pick({"ucs2", "ucs-2", "ucs_2"});
  }
  std::string pick(std::vector<std::string> v) { return v[choose(v.size())]; }
  std::string dim(const N &x) {
    switch (x->k) {
    case FixedDim:
      return std::to_string(x->n);
    case VarDim:
      return "var";
    case FixedKindDim:
      return "Fixed";
    case DimKindDim:
      return "Dim";
    case TypevarDim:
      return x->s;
    default:
      throw std::logic_error("dim");
    }
  }
  std::string go(const N &x) { return ws() + go1(x); }
  std::string go1(const N &x) {
    switch (x->k) {
    case Scalar:
      if (x->s == "complex[float32]") return pick({"complex[float32]", "complex64", "complex" + ws() + "[" + ws() + "float32" + ws() + "]"});
      if (x->s == "complex[float64]") return pick({"complex[float64]", "complex", "complex128"});
      if (x->s == "int32") return pick({"int32", "int"});
      if (x->s == "int64") return pick({"int64", "intptr"});
      if (x->s == "uint64") return pick({"uint64", "uintptr", "size"});
      if (x->s == "float64") return pick({"float64", "real"});
      return x->s;
    case Kindt:
    case Typevar:
      return x->s;
    case Bytes:
      if (x->n == 1 && choose(2) == 0) return "bytes";
      return "bytes" + ws() + "[" + ws() + "align" + ws() + "=" + ws() + std::to_string(x->n) + ws() + "]";
    case FixedBytes: {
      std::string r = "fixed_bytes" + ws() + "[" + ws() + std::to_string(x->n) + ws();
      if (x->m != 1 || choose(2)) r += "," + ws() + "align" + ws() + "=" + ws() + std::to_string(x->m) + ws();
      return r + "]";
    }
    case FixedString: {
      std::string r = "fixed_string" + ws() + "[" + ws() + std::to_string(x->n) + ws();
      if (x->s != "utf8" || choose(2)) r += "," + ws() + quote(encname(x->s)) + ws();
      return r + "]";
    }
    case Char:
      if (x->s == "utf32" && choose(2) == 0) return "char";
      return "char" + ws() + "[" + ws() + quote(encname(x->s)) + ws() + "]";
    case FixedDim: {
      if (choose(4) == 3) return "fixed" + ws() + "[" + ws() + std::to_string(x->n) + ws() + "]" + ws() + "*" + go(x->c[0]);
      // power notation of repeated equal dims
      int64_t rep = 1;
      N e = x->c[0];
      while (e->k == FixedDim && e->n == x->n) {
        ++rep;
        e = e->c[0];
      }
      if (rep > 1 && choose(2) == 1)
        return std::to_string(x->n) + ws() + "**" + std::to_string(rep) + ws() + "*" + go(e);
      return dim(x) + ws() + "*" + go(x->c[0]);
    }
    case VarDim:
    case FixedKindDim:
    case DimKindDim:
    case TypevarDim:
      return dim(x) + ws() + "*" + go(x->c[0]);
    case EllipsisDim:
      return x->s + (x->s.empty() ? "" : ws()) + "..." + ws() + "*" + go(x->c[0]);
    case PowDim:
      return dim(x->c[0]) + ws() + "**" + x->s + ws() + "*" + go(x->c[1]);
    case Tuple: {
      std::string r = "(";
      for (size_t i = 0; i < x->c.size(); ++i) r += (i ? "," : "") + go(x->c[i]) + ws();
      if (x->variadic)
        r += std::string(x->c.empty() ? "" : ",") + ws() + "..." + ws();
      else if (!x->c.empty() && choose(4) == 3)
        r += "," + ws();
      return r + ")";
    }
    case Struct: {
      std::string r = "{";
      for (size_t i = 0; i < x->c.size(); ++i) {
        std::string nm = simple_name(x->names[i]) && choose(4) != 3 ? x->names[i] : quote(x->names[i]);
        r += (i ? "," : "") + ws() + nm + ws() + ":" + go(x->c[i]) + ws();
      }
      if (x->variadic)
        r += std::string(x->c.empty() ? "" : ",") + ws() + "..." + ws();
      else if (!x->c.empty() && choose(4) == 3)
        r += "," + ws();
      return r + "}";
    }
    case Option:
      if (choose(4) == 3) return "option" + ws() + "[" + go(x->c[0]) + ws() + "]";
      return "?" + go(x->c[0]);
    case Pointer:
      return "pointer" + ws() + "[" + go(x->c[0]) + ws() + "]";
    case TypevarCons:
      return x->s + ws() + "[" + go(x->c[0]) + ws() + "]";
    case Callable: {
      std::string r = "(";
      bool first = true;
      for (int64_t i = 0; i < x->n; ++i) {
        r += (first ? "" : ",") + go(x->c[1 + i]) + ws();
        first = false;
      }
      if (x->variadic) {
        r += std::string(first ? "" : ",") + ws() + "..." + ws();
        first = false;
      }
      for (size_t i = 0; i < x->names.size(); ++i) {
        r += (first ? "" : ",") + ws() + x->names[i] + ws() + ":" + go(x->c[1 + x->n + i]) + ws();
        first = false;
      }
      if (x->kvariadic && !x->names.empty()) r += std::string(first ? "" : ",") + ws() + "..." + ws();
      return r + ")" + ws() + "->" + go(x->c[0]);
    }
    }
    throw std::logic_error("render");
  }
};

// The canonical text of the datashape grammar: what the type prints as
inline std::string canon_escape(const std::string &s);

inline std::string plain(const N &x) {
  Render r;
  return r.go(x);
}

// ---------------------------------------------------------------- structural comparison
inline std::string diff(const N &x, const ndt::type &t);

inline std::string diff(const N &x, const ndt::type &t) {
  auto bad = [&](const std::string &w) { return w + " for " + plain(x) + ", got type " + pbt::str(t); };
  switch (x->k) {
  case Scalar:
    if (t.get_id() != scalar_id(x->s)) return bad("wrong scalar");
    if (x->s == "bytes" && t.extended<ndt::bytes_type>()->get_target_alignment() != 1) return bad("bytes alignment");
    return "";
  case Kindt:
    if (!(t == kind_type(x->s))) return bad("wrong kind");
    return "";
  case Bytes:
    if (t.get_id() != bytes_id || (int64_t)t.extended<ndt::bytes_type>()->get_target_alignment() != x->n)
      return bad("bytes alignment");
    return "";
  case FixedBytes:
    if (t.get_id() != fixed_bytes_id || (int64_t)t.get_data_size() != x->n || (int64_t)t.get_data_alignment() != x->m)
      return bad("fixed_bytes");
    return "";
  case FixedString: {
    if (t.get_id() != fixed_string_id) return bad("fixed_string");
    auto *fs = t.extended<ndt::fixed_string_type>();
    int64_t w = x->s == "utf16" || x->s == "ucs2" ? 2 : x->s == "utf32" ? 4 : 1;
    if (fs->get_encoding() != enc(x->s) || (int64_t)t.get_data_size() != w * x->n) return bad("fixed_string");
    return "";
  }
  case Char:
    if (t.get_id() != char_id || t.extended<ndt::char_type>()->get_encoding() != enc(x->s)) return bad("char");
    return "";
  case FixedDim:
    if (t.get_id() != fixed_dim_id || t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() != x->n)
      return bad("fixed dim");
    return diff(x->c[0], t.extended<ndt::base_dim_type>()->get_element_type());
  case VarDim:
    if (t.get_id() != var_dim_id) return bad("var dim");
    return diff(x->c[0], t.extended<ndt::base_dim_type>()->get_element_type());
  case FixedKindDim:
    if (t.get_id() != fixed_dim_kind_id) return bad("Fixed dim");
    return diff(x->c[0], t.extended<ndt::base_dim_type>()->get_element_type());
  case DimKindDim:
    if (t.get_id() != dim_kind_id) return bad("Dim dim");
    return diff(x->c[0], t.extended<ndt::base_dim_type>()->get_element_type());
  case TypevarDim:
    if (t.get_id() != typevar_dim_id || t.extended<ndt::typevar_dim_type>()->get_name() != x->s)
      return bad("typevar dim");
    return diff(x->c[0], t.extended<ndt::base_dim_type>()->get_element_type());
  case EllipsisDim:
    if (t.get_id() != ellipsis_dim_id || t.extended<ndt::ellipsis_dim_type>()->get_name() != x->s)
      return bad("ellipsis dim");
    return diff(x->c[0], t.extended<ndt::base_dim_type>()->get_element_type());
  case PowDim: {
    if (t.get_id() != pow_dimsym_id || t.extended<ndt::pow_dimsym_type>()->get_exponent() != x->s)
      return bad("pow dim");
    std::string d = diff(x->c[0], t.extended<ndt::pow_dimsym_type>()->get_base_type());
    return d.empty() ? diff(x->c[1], t.extended<ndt::base_dim_type>()->get_element_type()) : d;
  }
  case Tuple:
  case Struct: {
    if (t.get_id() != (x->k == Tuple ? tuple_id : struct_id)) return bad("not the tuple/struct");
    intptr_t fc = x->k == Tuple ? t.extended<ndt::tuple_type>()->get_field_count()
                                : t.extended<ndt::struct_type>()->get_field_count();
    bool var = x->k == Tuple ? t.extended<ndt::tuple_type>()->is_variadic()
                             : t.extended<ndt::struct_type>()->is_variadic();
    if (fc != (intptr_t)x->c.size() || var != x->variadic) return bad("field count or variadic flag");
    for (size_t i = 0; i < x->c.size(); ++i) {
      if (x->k == Struct && t.extended<ndt::struct_type>()->get_field_name(i) != x->names[i])
        return bad("field name " + std::to_string(i));
      std::string d = diff(x->c[i], x->k == Tuple ? t.extended<ndt::tuple_type>()->get_field_type(i)
                                                  : t.extended<ndt::struct_type>()->get_field_type(i));
      if (!d.empty()) return d;
    }
    return "";
  }
  case Option:
    if (t.get_id() != option_id) return bad("option");
    return diff(x->c[0], t.extended<ndt::option_type>()->get_value_type());
  case Pointer:
    if (t.get_id() != pointer_id) return bad("pointer");
    return diff(x->c[0], t.extended<ndt::pointer_type>()->get_target_type());
  case Typevar:
    if (t.get_id() != typevar_id || t.extended<ndt::typevar_type>()->get_name() != x->s) return bad("typevar");
    return "";
  case TypevarCons:
    if (t.get_id() != typevar_constructed_id || t.extended<ndt::typevar_constructed_type>()->get_name() != x->s)
      return bad("constructed typevar");
    return diff(x->c[0], t.extended<ndt::typevar_constructed_type>()->get_arg());
  case Callable: {
    if (t.get_id() != callable_id) return bad("callable");
    auto *ct = t.extended<ndt::callable_type>();
    if (ct->get_narg() != x->n || ct->get_nkwd() != (intptr_t)x->names.size()) return bad("callable arity");
    if (ct->get_pos_tuple().extended<ndt::tuple_type>()->is_variadic() != x->variadic) return bad("callable variadic");
    std::string d = diff(x->c[0], ct->get_return_type());
    for (int64_t i = 0; d.empty() && i < x->n; ++i) d = diff(x->c[1 + i], ct->get_argument_types()[i]);
    for (size_t i = 0; d.empty() && i < x->names.size(); ++i) {
      if (ct->get_named_kwd_types()[i].second != x->names[i]) return bad("keyword name");
      d = diff(x->c[1 + x->n + i], ct->get_named_kwd_types()[i].first);
    }
    return d;
  }
  }
  return "?";
}

inline bool same(const N &a, const N &b) {
  if (a->k != b->k || a->s != b->s || a->n != b->n || a->m != b->m || a->variadic != b->variadic ||
      a->kvariadic != b->kvariadic || a->names != b->names || a->c.size() != b->c.size()) {
    // bytes without align is the Bytes node with alignment 1
    auto isb1 = [](const N &x) { return (x->k == Scalar && x->s == "bytes") || (x->k == Bytes && x->n == 1); };
    return isb1(a) && isb1(b);
  }
  for (size_t i = 0; i < a->c.size(); ++i)
    if (!same(a->c[i], b->c[i])) return false;
  return true;
}
inline size_t count(const N &a) {
  size_t n = 1;
  for (auto &c : a->c) n += count(c);
  return n;
}

// ---------------------------------------------------------------- generation
struct Opt {
  bool symbolic = true;
  bool callables = true;
  bool pointers = true;
  bool odd_names = true;
  bool opaque = true;  // type, array, void
};

inline std::string gen_name(G &g, bool odd) {
  static const std::vector<std::string> base{"x", "y", "z", "a", "b", "name", "field_1", "_p", "Xy", "var", "type", "int32"};
  if (!odd || g.u(4) != 3) return g.pick(base) + (g.u(3) == 2 ? std::to_string(g.u(20)) : "");
  std::string s;
  size_t len = g.u(6);
  static const std::vector<std::string> bits{" ", "a", "'", "\"", "\\", "\n", "\t", "/", "1", ":", ",", "}", "#", "\xc3\xa9",
                                             "\xe2\x82\xac", "\x01", "-", "\b", "\f", "\r", "\xf0\x9f\x98\x80", "\x7f"};
  for (size_t i = 0; i < len; ++i) s += g.pick(bits);
  return s;
}
inline std::string gen_tv(G &g) {
  static const std::vector<std::string> v{"T", "S", "M", "N", "R", "Dims", "T1", "A_b"};
  return g.pick(v);
}

inline N gen(G &g, int depth, const Opt &o, bool dim_ok = true);

inline N gen_scalar(G &g, const Opt &o) {
  switch (g.weighted({10, 1, 1, 2, 2, 2})) {
  case 0: {
    size_t lim = o.opaque ? scalar_names().size() : scalar_names().size() - 3;
    return mks(scalar_names()[g.u(lim)]);
  }
  case 1:
    return mks("string");
  case 2: {
    N x = mk(Bytes);
    x->n = int64_t(1) << g.u(5);
    return x;
  }
  case 3: {
    N x = mk(FixedBytes);
    x->m = int64_t(1) << g.u(5);
    x->n = x->m * g.range(1, 5);
    return x;
  }
  case 4: {
    N x = mk(FixedString);
    x->n = g.u(5) == 4 ? g.range(1, 5000) : g.range(1, 12);
    x->s = g.pick({"utf8", "ascii", "utf16", "utf32", "ucs2"});
    return x;
  }
  default: {
    N x = mk(Char);
    x->s = g.pick({"utf32", "ascii", "ucs2"});
    return x;
  }
  }
}

inline N gen(G &g, int depth, const Opt &o, bool dim_ok) {
  if (depth <= 0) {
    if (o.symbolic && g.u(4) == 3) {
      if (g.coin()) {
        N x = mk(Kindt);
        x->s = g.pick(kind_names());
        return x;
      }
      N x = mk(Typevar);
      x->s = gen_tv(g);
      return x;
    }
    return gen_scalar(g, o);
  }
  switch (g.weighted({3, dim_ok ? 5 : 0, 2, 3, 2, o.pointers ? 1 : 0, o.symbolic && dim_ok ? 4 : 0,
                      o.symbolic ? 1 : 0, o.callables ? 2 : 0})) {
  case 0:
    return gen(g, 0, o);
  case 1: {
    N x = mk(g.u(3) == 2 ? VarDim : FixedDim, gen(g, depth - 1, o));
    if (x->k == FixedDim) x->n = g.u(6) == 5 ? g.range(0, 100000) : g.range(0, 9);
    return x;
  }
  case 2: {
    N x = mk(Tuple);
    size_t n = g.u(g.u(5) == 4 ? 12 : 4);
    for (size_t i = 0; i < n; ++i) x->c.push_back(gen(g, depth - 1, o));
    x->variadic = o.symbolic && g.u(4) == 3;
    return x;
  }
  case 3: {
    N x = mk(Struct);
    size_t n = g.u(g.u(5) == 4 ? 12 : 4);
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) {
      std::string nm = gen_name(g, o.odd_names);
      while (!used.insert(nm).second) nm += "_" + std::to_string(i);
      x->names.push_back(nm);
      x->c.push_back(gen(g, depth - 1, o));
    }
    x->variadic = o.symbolic && g.u(4) == 3;
    return x;
  }
  case 4: {
    N e = gen(g, depth - 1, o, true);
    // an option of an option is not a type
    return e->k == Option ? e : mk(Option, e);
  }
  case 5:
    return mk(Pointer, gen(g, depth - 1, o));
  case 6:
    switch (g.u(4)) {
    case 0:
      return mk(g.coin() ? DimKindDim : FixedKindDim, gen(g, depth - 1, o));
    case 1: {
      N x = mk(TypevarDim, gen(g, depth - 1, o));
      x->s = gen_tv(g);
      return x;
    }
    case 2: {
      N x = mk(EllipsisDim, gen(g, depth - 1, o));
      if (g.coin()) x->s = gen_tv(g);
      return x;
    }
    default: {
      N base;
      N v = mks("void");
      switch (g.u(4)) {
      case 0:
        base = mk(FixedDim, v);
        base->n = g.range(0, 20);
        break;
      case 1:
        base = mk(VarDim, v);
        break;
      case 2:
        base = mk(FixedKindDim, v);
        break;
      default:
        base = mk(TypevarDim, v);
        base->s = gen_tv(g);
      }
      N x = mk(PowDim);
      x->s = gen_tv(g);
      x->c.push_back(base);
      x->c.push_back(gen(g, depth - 1, o));
      return x;
    }
    }
  case 7: {
    N x = mk(TypevarCons, gen(g, depth - 1, o));
    x->s = gen_tv(g);
    return x;
  }
  default: {
    N x = mk(Callable);
    x->c.push_back(gen(g, depth - 1, o));
    x->n = g.u(4);
    for (int64_t i = 0; i < x->n; ++i) x->c.push_back(gen(g, depth - 1, o));
    x->variadic = o.symbolic && g.u(5) == 4;
    size_t k = g.u(3) ? 0 : g.u(4);
    std::set<std::string> used;
    for (size_t i = 0; i < k; ++i) {
      std::string nm = gen_name(g, false);
      while (!used.insert(nm).second) nm += "_" + std::to_string(i);
      x->names.push_back(nm);
      x->c.push_back(gen(g, depth - 1, o));
    }
    // without keywords, variadic positional arguments imply variadic keywords: the text cannot say otherwise
    x->kvariadic = k ? o.symbolic && g.u(5) == 4 : x->variadic;
    return x;
  }
  }
}

// A copy of x with one small difference somewhere (or, rarely, none)
inline N clone(const N &x) {
  N y = std::make_shared<Node>(*x);
  for (auto &c : y->c) c = clone(c);
  return y;
}
inline void collect(const N &x, std::vector<N> &out) {
  out.push_back(x);
  for (size_t i = 0; i < x->c.size(); ++i) {
    if (x->k == PowDim && i == 0) continue;
    collect(x->c[i], out);
  }
}
inline N mutate(G &g, const N &x, const Opt &o) {
  N y = clone(x);
  std::vector<N> all;
  collect(y, all);
  N z = all[g.u(all.size())];
  switch (z->k) {
  case Scalar:
  case Kindt:
    *z = *gen(g, 0, o);
    break;
  case Bytes:
    z->n = z->n == 16 ? 8 : z->n * 2;
    break;
  case FixedBytes:
    if (g.coin()) z->n += z->m;
    else if (z->m > 1) z->m /= 2;
    break;
  case FixedString:
    if (g.coin()) z->n += 1;
    else z->s = g.pick({"utf8", "ascii", "utf16", "utf32", "ucs2"});
    break;
  case Char:
    z->s = g.pick({"utf32", "ascii", "ucs2"});
    break;
  case FixedDim:
    if (g.coin()) z->n += 1;
    else z->k = VarDim, z->n = 0;
    break;
  case VarDim:
    z->k = FixedDim;
    z->n = g.range(0, 9);
    break;
  case FixedKindDim:
  case DimKindDim:
    z->k = VarDim;
    break;
  case TypevarDim:
  case Typevar:
  case PowDim:
  case TypevarCons:
  case EllipsisDim:
    z->s = gen_tv(g);
    break;
  case Tuple:
  case Struct: {
    int w = (int)g.u(5);
    if (w == 0 && !z->c.empty()) {
      z->c.pop_back();
      if (z->k == Struct) z->names.pop_back();
    }
    else if (w == 1 && z->c.size() > 1) {
      size_t i = g.u(z->c.size() - 1);
      std::swap(z->c[i], z->c[i + 1]);
      if (g.coin() && z->k == Struct) std::swap(z->names[i], z->names[i + 1]);
    }
    else if (w == 2 && z->k == Struct && !z->c.empty())
      z->names[g.u(z->names.size())] += "q";
    else if (w == 3 && o.symbolic)
      z->variadic = !z->variadic;
    else if (w == 4) {
      z->c.push_back(mks("int32"));
      if (z->k == Struct) z->names.push_back("zz" + std::to_string(z->names.size()));
    }
    break;
  }
  case Option: {
    N e = z->c[0];
    *z = *e;
    break;
  }
  case Pointer: {
    N e = z->c[0];
    if (g.coin() && e->k != Option) z->k = Option;
    else *z = *e;
    break;
  }
  case Callable:
    if (z->n > 1 && g.coin()) std::swap(z->c[1], z->c[2]);
    else if (z->n > 0) std::swap(z->c[0], z->c[1]);
    break;
  }
  // the mutation may have made an option of an option or a repeated name
  std::function<bool(const N &)> ok = [&](const N &q) {
    if (q->k == Option && q->c[0]->k == Option) return false;
    if (q->k == Struct && std::set<std::string>(q->names.begin(), q->names.end()).size() != q->names.size()) return false;
    for (auto &c : q->c)
      if (!ok(c)) return false;
    return true;
  };
  return ok(y) ? y : clone(x);
}
} // namespace tast
