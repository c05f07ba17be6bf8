// Stand-in for the `filesystem` submodule (not part of this sandbox).  Nothing here touches the file system: every
// question and every command goes to the harness, which records the path and decides the answer.
#pragma once
#include <string>
extern "C" {
int vf_fs_exists(const char *p);
int vf_fs_remove(const char *p);
int vf_fs_create(const char *p, int parents);
int vf_fs_rmtree(const char *p);
int vf_fs_is_dir(const char *p);
}
namespace filesystem
{
class path
{
 public:
  path() {}
  path(const std::string &s) : m_s(s) {}
  path(const char *s) : m_s(s) {}
  bool exists() const { return vf_fs_exists(m_s.c_str()) != 0; }
  bool remove_file() const { return vf_fs_remove(m_s.c_str()) != 0; }
  bool is_directory() const { return exists() && vf_fs_is_dir(m_s.c_str()) != 0; }
  bool is_file() const { return exists() && vf_fs_is_dir(m_s.c_str()) == 0; }
  bool is_absolute() const { return !m_s.empty() && m_s[0] == '/'; }
  std::string filename() const
  {
    size_t p = m_s.rfind('/');
    return p == std::string::npos ? m_s : m_s.substr(p + 1);
  }
  std::string extension() const
  {
    const std::string n = filename();
    size_t p = n.rfind('.');
    return p == std::string::npos ? std::string() : n.substr(p + 1);
  }
  path parent_path() const
  {
    size_t p = m_s.rfind('/');
    return path(p == std::string::npos ? std::string() : p == 0 ? std::string("/") : m_s.substr(0, p));
  }
  std::string str() const { return m_s; }
  bool empty() const { return m_s.empty(); }
  path operator/(const path &o) const { return path(m_s + "/" + o.m_s); }
  bool operator==(const path &o) const { return m_s == o.m_s; }
  bool operator!=(const path &o) const { return m_s != o.m_s; }

 private:
  std::string m_s;
};
inline bool create_directory(const path &p) { return vf_fs_create(p.str().c_str(), 0) != 0; }
inline bool create_directories(const path &p) { return vf_fs_create(p.str().c_str(), 1) != 0; }
inline bool remove_directories(const path &p) { return vf_fs_rmtree(p.str().c_str()) != 0; }
}
