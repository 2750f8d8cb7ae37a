// CAN matrix model: random generation, DBC text, and a reference codec that is independent of the generator.
#pragma once
#include "util.h"
#include <functional>

struct Dec  // decimal constant m / 10^e, with the text used in the DBC
{
  int64_t m = 0;
  int e = 0;
  std::string text() const;
  long double value() const;
  bool isInt() const { return e == 0; }
};

struct Sig
{
  std::string name;
  int start = 0, len = 1;
  bool motorola = false, sgn = false;
  Dec factor{1, 0}, offset{0, 0};
  std::string min = "0", max = "0", unit;
  std::vector<std::string> recv;
  int mux = 0, muxVal = 0;             // 1 master, 2 multiplexed
  int role = 0;                        // 1 rolling counter, 2 checksum
  std::string method;
  int op = 0;
  std::vector<std::pair<int64_t, std::string>> vals;
  std::vector<char> again;             // entries whose C name an earlier entry has: only the first one is available
  bool named(size_t e) const { return e >= again.size() || !again[e]; }
  std::string comment;
  bool dbl() const { return factor.e != 0 || offset.e != 0; }
  bool simple() const { return !dbl() && factor.m == 1 && offset.m == 0; }
  std::string field() const { return simple() ? name : name + "_ro"; }
  std::string phys() const { return name + "_phys"; }
  int rawWidth() const { return len <= 8 ? 8 : len <= 16 ? 16 : len <= 32 ? 32 : 64; }
  uint64_t mask() const { return len >= 64 ? ~0ull : ((1ull << len) - 1); }
  // absolute payload bits (byte*8+bit), least significant first
  std::vector<int> bits() const;
  bool fits(int dlc) const;
  uint64_t get(const uint8_t* d) const;          // raw bits
  void put(uint8_t* d, uint64_t raw) const;
  int64_t sext(uint64_t raw) const;              // value as stored in the struct (as 64-bit pattern)
  long double physOf(uint64_t raw) const;
};
struct Msg
{
  std::string name;
  uint32_t id = 0;
  bool ext = false;
  int dlc = 8;
  std::string tx;                      // "" or Vector__XXX: none
  std::vector<std::string> moreTx;
  std::vector<Sig> sigs;
  int cycle = -1;                      // -1: no attribute
  std::string comment;
  const Sig* byRole(int r) const { for (auto& s : sigs) if (s.role == r) return &s; return nullptr; }
  std::vector<std::string> senders() const;
  std::vector<std::string> receivers() const;
  bool coversBit(int b) const;
};
// the C name of the text of a value table entry
std::string cName(const std::string& text);
struct Matrix
{
  std::string drv = "drv";
  std::vector<std::string> nodes;
  std::vector<Msg> msgs;
  bool hasVer = true;
  uint32_t hi = 1, lo = 0;
  uint64_t style = 0;                  // 0: plain canonical text
  std::string dbc() const;
  Json json() const;
  static Matrix from(const Json& j);
  void markNames();
  int maxDlc() const;
  std::vector<std::string> crcMethods() const;
  std::vector<std::string> roles() const;      // nodes that get their own utility, in no particular order
};
struct Profile
{
  int nodes = 4, msgs = 6, sigs = 6;
  double fd = 0.15, ext = 0.4, motorola = 0.5, sgn = 0.4, phys = 0.3, intPhys = 0.4, mux = 0.1, roll = 0.3, csm = 0.3, empty = 0.05, moreTx = 0.2, cycle = 0.5, vals = 0.1, comment = 0.3, wide = 0.25, version = 0.8;
  bool noSharedScaled = false;
  bool crowd = false;                  // hundreds of multiplexed signals in the same few bytes
  std::string prefix;                  // message name prefix (keeps two matrices apart)
  bool roleTx = true;                  // every message has a transmitter
};
Profile randomProfile(Rng& r);
Matrix randomMatrix(Rng& r, const Profile& p);
// shrinking candidates, simplest first
std::vector<Matrix> shrinkMatrix(const Matrix& m);
// the user's hash: any function of the payload outside the checksum bits
uint32_t userHash(const Msg& m, const uint8_t* d, int len, uint32_t id, const std::string& method, int op);
