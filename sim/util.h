// Small utilities shared by the simulator: PRNG, hashing, JSON, strings.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- PRNG
// splitmix64 seeded xoshiro256**: one integer decides everything.
struct Rng
{
  uint64_t s[4];
  static uint64_t mix(uint64_t& x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) { for (auto& v : s) v = mix(seed); }
  Rng(uint64_t seed, const std::string& label, uint64_t index)
  {
    uint64_t h = seed * 0x2545F4914F6CDD1Dull + 0x1234567;
    for (unsigned char c : label) h = (h ^ c) * 0x100000001b3ull;
    h ^= index * 0xD6E8FEB86659FD93ull;
    for (auto& v : s) v = mix(h);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next()
  {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template<class T> void shuffle(std::vector<T>& v)
  {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};

// ---------------------------------------------------------------- hash
struct Hash
{
  uint64_t h = 0xcbf29ce484222325ull;
  void bytes(const void* p, size_t n)
  {
    auto b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  }
  void u64(uint64_t v) { bytes(&v, 8); }
  void str(const std::string& s) { u64(s.size()); bytes(s.data(), s.size()); }
};
std::string hex64(uint64_t v);

// ---------------------------------------------------------------- JSON
struct Json
{
  enum Kind { Null, Bool, Int, Str, Arr, Obj } kind = Null;
  int64_t i = 0;
  std::string s;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
  Json() {}
  Json(bool b) : kind(Bool), i(b) {}
  Json(int v) : kind(Int), i(v) {}
  Json(unsigned v) : kind(Int), i(v) {}
  Json(long v) : kind(Int), i(v) {}
  Json(long long v) : kind(Int), i(v) {}
  Json(unsigned long v) : kind(Int), i((int64_t)v) {}
  Json(unsigned long long v) : kind(Int), i((int64_t)v) {}
  Json(const char* v) : kind(Str), s(v) {}
  Json(const std::string& v) : kind(Str), s(v) {}
  static Json array() { Json j; j.kind = Arr; return j; }
  static Json object() { Json j; j.kind = Obj; return j; }
  template<class T> static Json from(const std::vector<T>& v)
  {
    Json j = array();
    for (auto& x : v) j.a.push_back(Json(x));
    return j;
  }
  Json& set(const std::string& k, Json v);
  Json& push(Json v) { kind = Arr; a.push_back(std::move(v)); return *this; }
  const Json* find(const std::string& k) const;
  const Json& at(const std::string& k) const;
  bool has(const std::string& k) const { return find(k) != nullptr; }
  int64_t num(const std::string& k, int64_t d = 0) const { auto p = find(k); return p && (p->kind == Int || p->kind == Bool) ? p->i : d; }
  std::string str(const std::string& k, const std::string& d = "") const { auto p = find(k); return p && p->kind == Str ? p->s : d; }
  bool flag(const std::string& k, bool d = false) const { auto p = find(k); return p ? p->i != 0 : d; }
  std::string dump(int indent = -1, int level = 0) const;
  static Json parse(const std::string& t);
};
std::vector<std::string> strs(const Json* j);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string readFile(const std::string& p, bool* ok = nullptr);
bool writeFile(const std::string& p, const std::string& d);
std::string lower(std::string s);
std::string upper(std::string s);
double monotonic();
