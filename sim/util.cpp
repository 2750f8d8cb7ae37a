#include "util.h"
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <fcntl.h>
#include <stdexcept>
#include <unistd.h>
#include <sys/syscall.h>

std::string hex64(uint64_t v)
{
  char b[24];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
  return b;
}
std::string fmt(const char* f, ...)
{
  char b[4096];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (n < (int)sizeof b) return b;
  std::string r(n + 1, 0);
  va_start(a, f);
  vsnprintf(&r[0], n + 1, f, a);
  va_end(a);
  r.resize(n);
  return r;
}
Json& Json::set(const std::string& k, Json v)
{
  kind = Obj;
  for (auto& p : o) if (p.first == k) { p.second = std::move(v); return *this; }
  o.emplace_back(k, std::move(v));
  return *this;
}
const Json* Json::find(const std::string& k) const
{
  for (auto& p : o) if (p.first == k) return &p.second;
  return nullptr;
}
const Json& Json::at(const std::string& k) const
{
  static const Json none;
  auto p = find(k);
  return p ? *p : none;
}
static void quote(std::string& r, const std::string& s)
{
  r += '"';
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);  // bytes, not code points
    else r += c;
  }
  r += '"';
}
std::string Json::dump(int ind, int lvl) const
{
  std::string r;
  auto nl = [&](int l) { if (ind >= 0) { r += '\n'; r.append(l * ind, ' '); } };
  switch (kind)
  {
    case Null: return "null";
    case Bool: return i ? "true" : "false";
    case Int: return std::to_string(i);
    case Str: quote(r, s); return r;
    case Arr:
    {
      bool flat = true;
      for (auto& x : a) if (x.kind >= Arr) flat = false;
      r += '[';
      for (size_t k = 0; k < a.size(); k++)
      {
        if (k) r += flat && ind >= 0 ? ", " : ",";
        if (!flat) nl(lvl + 1);
        r += a[k].dump(ind, lvl + 1);
      }
      if (!flat && a.size()) nl(lvl);
      r += ']';
      return r;
    }
    case Obj:
    {
      r += '{';
      bool first = true, flat = true;
      for (auto& p : o) if (p.second.kind >= Arr && (p.second.a.size() || p.second.o.size())) flat = false;
      for (auto& p : o)
      {
        if (!first) r += flat && ind >= 0 ? ", " : ",";
        first = false;
        if (!flat) nl(lvl + 1);
        quote(r, p.first);
        r += ind >= 0 ? ": " : ":";
        r += p.second.dump(ind, lvl + 1);
      }
      if (!flat && o.size()) nl(lvl);
      r += '}';
      return r;
    }
  }
  return r;
}
namespace
{
struct P
{
  const std::string& t;
  size_t p = 0;
  [[noreturn]] void bad(const char* m) { throw std::runtime_error(fmt("json: %s at %zu", m, p)); }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
  Json val()
  {
    ws();
    if (p >= t.size()) bad("end");
    char c = t[p];
    if (c == '{')
    {
      Json j = Json::object();
      p++; ws();
      if (t[p] == '}') { p++; return j; }
      for (;;)
      {
        ws();
        std::string k = string();
        ws();
        if (t[p++] != ':') bad("colon");
        j.o.emplace_back(k, val());
        ws();
        if (t[p] == ',') { p++; continue; }
        if (t[p] == '}') { p++; return j; }
        bad("object");
      }
    }
    if (c == '[')
    {
      Json j = Json::array();
      p++; ws();
      if (t[p] == ']') { p++; return j; }
      for (;;)
      {
        j.a.push_back(val());
        ws();
        if (t[p] == ',') { p++; continue; }
        if (t[p] == ']') { p++; return j; }
        bad("array");
      }
    }
    if (c == '"') return Json(string());
    if (!t.compare(p, 4, "true")) { p += 4; return Json(true); }
    if (!t.compare(p, 5, "false")) { p += 5; return Json(false); }
    if (!t.compare(p, 4, "null")) { p += 4; return Json(); }
    size_t q = p;
    if (t[q] == '-') q++;
    while (q < t.size() && t[q] >= '0' && t[q] <= '9') q++;
    if (q == p) bad("value");
    Json j((long long)strtoll(t.c_str() + p, nullptr, 10));
    p = q;
    return j;
  }
  std::string string()
  {
    if (t[p] != '"') bad("string");
    p++;
    std::string r;
    while (p < t.size() && t[p] != '"')
    {
      if (t[p] != '\\') { r += t[p++]; continue; }
      char e = t[++p];
      p++;
      if (e == 'n') r += '\n';
      else if (e == 't') r += '\t';
      else if (e == 'r') r += '\r';
      else if (e == 'u') { r += (char)strtol(t.substr(p, 4).c_str(), nullptr, 16); p += 4; }
      else r += e;
    }
    p++;
    return r;
  }
};
}
Json Json::parse(const std::string& t)
{
  P p{t};
  return p.val();
}
std::vector<std::string> strs(const Json* j)
{
  std::vector<std::string> r;
  if (j) for (auto& x : j->a) r.push_back(x.s);
  return r;
}
// Host file access goes straight to the kernel: the usual entry points belong to the simulated world.
std::string readFile(const std::string& path, bool* ok)
{
  std::string r;
  long fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return r;
  char b[65536];
  long n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, n);
  syscall(SYS_close, fd);
  return r;
}
bool writeFile(const std::string& path, const std::string& d)
{
  long fd = syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < d.size())
  {
    long n = syscall(SYS_write, fd, d.data() + o, d.size() - o);
    if (n <= 0) break;
    o += n;
  }
  syscall(SYS_close, fd);
  return o == d.size();
}
std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
double monotonic()
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
