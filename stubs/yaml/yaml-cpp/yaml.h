// Stand-in for yaml-cpp in the symbolic build (the replay uses the real library on a real file): a tree that the harness
// builds, with the part of the Node interface that reads it.  Values are symbolic.
#pragma once
#include <cstdlib>
#include <cstring>  // the real header brings these in too
#include <cmath>
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
struct vf_yaml {
  enum Kind { MAP, SEQ, REAL, INT, STR } kind;
  const char *key;
  double d;
  int i;
  const char *s;
  vf_yaml *child[16];
  int n;
};
extern "C" vf_yaml *vf_yaml_root(const char *file);  // harness
namespace YAML
{
class Exception : public std::runtime_error
{
 public:
  explicit Exception(const char *m) : std::runtime_error(m) {}
};
class BadFile : public Exception
{
 public:
  BadFile() : Exception("bad file") {}
};
class BadConversion : public Exception
{
 public:
  BadConversion() : Exception("bad conversion") {}
};
struct NodeType {
  enum value { Undefined, Null, Scalar, Sequence, Map };
};
class Node;
template <class T>
struct vf_as;
class Node
{
 public:
  Node() : m_p(nullptr) {}
  explicit Node(vf_yaml *p) : m_p(p) {}
  bool IsDefined() const { return m_p != nullptr; }
  explicit operator bool() const { return m_p != nullptr; }
  bool operator!() const { return m_p == nullptr; }
  bool IsNull() const { return m_p == nullptr; }
  bool IsMap() const { return m_p && m_p->kind == vf_yaml::MAP; }
  bool IsSequence() const { return m_p && m_p->kind == vf_yaml::SEQ; }
  bool IsScalar() const { return m_p && m_p->kind > vf_yaml::SEQ; }
  NodeType::value Type() const
  {
    return !m_p ? NodeType::Undefined : IsMap() ? NodeType::Map : IsSequence() ? NodeType::Sequence : NodeType::Scalar;
  }
  std::size_t size() const { return m_p && (IsMap() || IsSequence()) ? (std::size_t)m_p->n : 0; }
  Node operator[](const char *key) const { return find(key); }
  Node operator[](const std::string &key) const { return find(key.c_str()); }
  Node operator[](int i) const { return at(i); }
  Node operator[](std::size_t i) const { return at((int)i); }
  template <class T>
  T as() const
  {
    if (!m_p) throw BadConversion();
    return vf_as<T>::get(m_p);
  }
  template <class T, class S>
  T as(const S &fallback) const
  {
    if (!m_p || !vf_as<T>::can(m_p)) return fallback;
    return vf_as<T>::get(m_p);
  }
  std::string Scalar() const { return as<std::string>(); }

 private:
  Node at(int i) const { return Node(m_p && m_p->kind == vf_yaml::SEQ && i >= 0 && i < m_p->n ? m_p->child[i] : nullptr); }
  Node find(const char *key) const
  {
    if (!m_p || m_p->kind != vf_yaml::MAP) return Node();
    for (int i = 0; i < m_p->n; ++i) {
      const char *a = m_p->child[i]->key, *b = key;
      while (*a && *a == *b) ++a, ++b;
      if (*a == *b) return Node(m_p->child[i]);
    }
    return Node();
  }
  vf_yaml *m_p;
};
template <>
struct vf_as<double> {
  static bool can(vf_yaml *p) { return p->kind == vf_yaml::REAL || p->kind == vf_yaml::INT; }
  static double get(vf_yaml *p)
  {
    if (!can(p)) throw BadConversion();
    return p->kind == vf_yaml::REAL ? p->d : (double)p->i;
  }
};
template <>
struct vf_as<float> {
  static bool can(vf_yaml *p) { return vf_as<double>::can(p); }
  static float get(vf_yaml *p) { return (float)vf_as<double>::get(p); }
};
template <class T>
struct vf_as_int {
  static bool can(vf_yaml *p) { return p->kind == vf_yaml::INT; }
  static T get(vf_yaml *p)
  {
    if (!can(p)) throw BadConversion();
    return (T)p->i;
  }
};
template <>
struct vf_as<int> : vf_as_int<int> {
};
template <>
struct vf_as<long> : vf_as_int<long> {
};
template <>
struct vf_as<unsigned> : vf_as_int<unsigned> {
};
template <>
struct vf_as<unsigned long> : vf_as_int<unsigned long> {
};
template <>
struct vf_as<std::string> {
  static bool can(vf_yaml *p) { return p->kind == vf_yaml::STR; }
  static std::string get(vf_yaml *p)
  {
    if (!can(p)) throw BadConversion();
    return std::string(p->s);
  }
};
template <class T>
struct vf_as<std::vector<T>> {
  static bool can(vf_yaml *p)
  {
    if (p->kind != vf_yaml::SEQ) return false;
    for (int i = 0; i < p->n; ++i)
      if (!vf_as<T>::can(p->child[i])) return false;
    return true;
  }
  static std::vector<T> get(vf_yaml *p)
  {
    if (p->kind != vf_yaml::SEQ) throw BadConversion();
    std::vector<T> v;
    for (int i = 0; i < p->n; ++i) v.push_back(vf_as<T>::get(p->child[i]));
    return v;
  }
};
inline Node LoadFile(const std::string &f)
{
  vf_yaml *r = vf_yaml_root(f.c_str());
  if (!r) throw BadFile();
  return Node(r);
}
}
