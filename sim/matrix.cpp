#include "matrix.h"
#include <algorithm>
#include <cmath>
#include <set>

std::string Dec::text() const
{
  if (e == 0) return std::to_string(m);
  bool neg = m < 0;
  std::string s = std::to_string(neg ? -m : m);
  while ((int)s.size() <= e) s = "0" + s;
  s.insert(s.size() - (size_t)e, ".");
  return (neg ? "-" : "") + s;
}
long double Dec::value() const
{
  long double v = (long double)m;
  for (int i = 0; i < e; i++) v /= 10.0L;
  return v;
}
std::vector<int> Sig::bits() const
{
  std::vector<int> r;
  if (!motorola)
  {
    for (int i = 0; i < len; i++) r.push_back(start + i);
    return r;
  }
  // start is the most significant bit; inside a byte go down, then to bit 7 of the next byte
  int b = start;
  for (int i = 0; i < len; i++)
  {
    r.push_back(b);
    b = b % 8 == 0 ? b + 15 : b - 1;
  }
  std::reverse(r.begin(), r.end());
  return r;
}
bool Sig::fits(int dlc) const
{
  for (int b : bits()) if (b < 0 || b >= dlc * 8) return false;
  return true;
}
uint64_t Sig::get(const uint8_t* d) const
{
  uint64_t v = 0;
  auto b = bits();
  for (int i = 0; i < len; i++) if (d[b[i] / 8] >> (b[i] % 8) & 1) v |= 1ull << i;
  return v;
}
void Sig::put(uint8_t* d, uint64_t raw) const
{
  auto b = bits();
  for (int i = 0; i < len; i++)
  {
    d[b[i] / 8] = (uint8_t)(d[b[i] / 8] & ~(1u << (b[i] % 8)));
    if (raw >> i & 1) d[b[i] / 8] = (uint8_t)(d[b[i] / 8] | 1u << (b[i] % 8));
  }
}
int64_t Sig::sext(uint64_t raw) const
{
  raw &= mask();
  if (sgn && len < 64 && (raw >> (len - 1) & 1)) raw |= ~mask();
  return (int64_t)raw;
}
long double Sig::physOf(uint64_t raw) const
{
  int64_t v = sext(raw);
  long double x = sgn ? (long double)v : (long double)(uint64_t)v;
  return x * factor.value() + offset.value();
}
std::vector<std::string> Msg::senders() const
{
  std::vector<std::string> r;
  if (!tx.empty()) r.push_back(tx);
  for (auto& t : moreTx) if (std::find(r.begin(), r.end(), t) == r.end()) r.push_back(t);
  return r;
}
std::vector<std::string> Msg::receivers() const
{
  std::vector<std::string> r;
  for (auto& s : sigs) for (auto& n : s.recv) if (std::find(r.begin(), r.end(), n) == r.end()) r.push_back(n);
  return r;
}
bool Msg::coversBit(int b) const
{
  for (auto& s : sigs) for (int x : s.bits()) if (x == b) return true;
  return false;
}
int Matrix::maxDlc() const
{
  int d = 0;
  for (auto& m : msgs) d = std::max(d, m.dlc);
  return d;
}
std::vector<std::string> Matrix::crcMethods() const
{
  std::set<std::string> s;
  for (auto& m : msgs) for (auto& g : m.sigs) if (g.role == 2) s.insert(g.method);
  return {s.begin(), s.end()};
}
std::vector<std::string> Matrix::roles() const
{
  std::set<std::string> s;
  for (auto& m : msgs)
  {
    for (auto& n : m.senders()) s.insert(n);
    for (auto& n : m.receivers()) s.insert(n);
  }
  return {s.begin(), s.end()};
}
// ---------------------------------------------------------------- DBC text
std::string cName(const std::string& text)
{
  std::string r;
  for (char c : text)
  {
    bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_', digit = c >= '0' && c <= '9';
    if (letter || (digit && !r.empty())) r += c;
    else if (c == ' ') r += '_';
  }
  return r;
}
std::string Matrix::dbc() const
{
  Rng r(style * 31 + 5);
  bool fancy = style != 0;
  auto yes = [&](double p) { return fancy && r.chance(p); };
  Rng r2(style * 37 + 11);
  auto also = [&](double p) { return fancy && r2.chance(p); };
  const bool nested = also(0.3), others = also(0.3);
  std::string nl = yes(0.25) ? "\r\n" : "\n";
  std::string o;
  auto line = [&](const std::string& s) { o += s + (yes(0.05) ? " " : "") + nl; };
  const bool expo = yes(0.2);
  const std::string lead = yes(0.1) ? "\t" : yes(0.1) ? "  " : yes(0.06) ? "" : " ";
  // blanks are free between the items of a line
  const double loose = yes(0.15) ? 0.5 : 0;
  auto gap = [&](const char* usual, bool optional = false) -> std::string
  {
    if (loose == 0 || !r.chance(loose)) return usual;
    static const std::vector<std::string> g{" ", "  ", "\t", "   "};
    return optional && r.chance(0.4) ? "" : r.pick(g);
  };
  auto num = [&](const Dec& d) { return expo && d.e > 1 && r.chance(0.5) ? fmt("%lldE-%03d", (long long)d.m, d.e) : d.text(); };
  if (hasVer) line(fmt("VERSION \"%u.%u\"", hi, lo)); else line("VERSION \"\"");
  line("");
  if (!fancy || r.chance(0.7))
  {
    line("NS_ :");
    for (auto k : {"NS_DESC_", "CM_", "BA_DEF_", "BA_", "VAL_", "BO_TX_BU_", "SIG_GROUP_", "SG_MUL_VAL_"}) line(std::string("\t") + k);
    line("");
  }
  line("BS_:");
  line("");
  std::string bu = "BU_:";
  for (auto& n : nodes) bu += " " + n;
  line(bu);
  if (yes(0.2)) { line("VAL_TABLE_ OnOff 1 \"On\" 0 \"Off\" ;"); }
  line("");
  for (auto& m : msgs)
  {
    line("BO_ " + gap("", true) + fmt("%u", m.id | (m.ext ? 0x80000000u : 0)) + gap(" ") + m.name + gap("", true) + ":" + gap(" ", true) + fmt("%d", m.dlc) + gap(" ") + (m.tx.empty() ? "Vector__XXX" : m.tx));
    std::vector<const Sig*> ss;
    for (auto& s : m.sigs) ss.push_back(&s);
    if (fancy) r.shuffle(ss);
    for (auto p : ss)
    {
      auto& s = *p;
      // a multiplexed signal can be the multiplexor of others (extended multiplexing)
      std::string mx = s.mux == 1 ? " M" : s.mux == 2 ? fmt(" m%d%s", s.muxVal, nested && r2.chance(0.4) ? "M" : "") : "";
      std::string rc;
      for (size_t i = 0; i < s.recv.size(); i++) rc += (i ? "," : "") + s.recv[i];
      if (rc.empty()) rc = "Vector__XXX";
      line(lead + "SG_" + gap(" ") + s.name + mx + gap(" ", true) + ":" + gap(" ", true) + fmt("%d|%d@%d%c", s.start, s.len, s.motorola ? 0 : 1, s.sgn ? '-' : '+') + gap(" ") +
        fmt("(%s,", num(s.factor).c_str()) + gap("", true) + num(s.offset) + ")" + gap(" ", true) + fmt("[%s|%s]", s.min.c_str(), s.max.c_str()) + gap(" ") + "\"" + s.unit + "\"" + gap(" ") + (fancy ? " " : "") + rc);
    }
    line("");
  }
  bool pseudo = yes(0.2);
  for (auto& m : msgs) if (m.id == 0) pseudo = false;    // its number without the flag bits is 0
  if (pseudo)
  {
    // what the Vector tools write for unattached signals
    line("BO_ 3221225472 VECTOR__INDEPENDENT_SIG_MSG: 0 Vector__XXX");
    line(" SG_ Orphan_sig : 0|8@1+ (1,0) [0|0] \"\" Vector__XXX");
    line("");
  }
  for (auto& m : msgs)
    if (!m.moreTx.empty())
    {
      std::string t;
      for (auto& n : m.senders()) t += (t.empty() ? "" : "," + gap("", true)) + n;
      line("BO_TX_BU_" + gap(" ") + fmt("%u%s:%s%s;", m.id | (m.ext ? 0x80000000u : 0), gap(" ", true).c_str(), gap(" ", true).c_str(), t.c_str()));
    }
  line("");
  auto idOf = [](const Msg& m) { return m.id | (m.ext ? 0x80000000u : 0); };
  if (others && r2.chance(0.5))
  {
    line("EV_ Env_Temp: 0 [-40|120] \"C\" 20 1 DUMMY_NODE_VECTOR0 Vector__XXX;");
    line("EV_ Env_Text: 0 [0|0] \"\" 0 2 DUMMY_NODE_VECTOR8000 Vector__XXX;");
    line("ENVVAR_DATA_ Env_Text: 8;");
    line("");
  }
  std::vector<std::string> tail;
  if (others && r2.chance(0.3)) tail.push_back("CM_ EV_ Env_Temp \"Temperature <RollingCounter> of the <Checksum:XOR8:1> air\";");
  if (yes(0.3)) tail.push_back("CM_ \"Network comment\";");
  if (yes(0.3) && nodes.size()) tail.push_back("CM_ BU_ " + nodes[0] + " \"Node comment\";");
  for (auto& m : msgs)
  {
    uint32_t id = m.id | (m.ext ? 0x80000000u : 0);
    auto breakLines = [&](std::string s)
    {
      if (fancy) for (auto& c : s) if (c == ' ' && r.chance(0.08)) c = '\n';
      std::string t;
      for (char c : s) t += c == '\n' ? nl : std::string(1, c);
      return t;
    };
    if (!m.comment.empty()) tail.push_back(fmt("CM_ BO_ %u \"%s\";", id, breakLines(m.comment).c_str()));
    for (auto& s : m.sigs)
    {
      std::string c = s.comment;
      std::string mk = s.role == 1 ? "<RollingCounter>" : s.role == 2 ? fmt("<Checksum:%s:%d>", s.method.c_str(), s.op) : "";
      if (!mk.empty())
      {
        if (c.empty() || !fancy) c = c.empty() ? mk : mk + " " + c;
        else c = r.chance(0.5) ? mk + " " + c : c + " " + mk;
      }
      if (!c.empty()) tail.push_back("CM_ " + gap("", true) + "SG_" + gap(" ") + fmt("%u", id) + gap(" ") + s.name + gap(" ") + "\"" + breakLines(c) + "\"" + gap("", true) + ";");
    }
  }
  if (pseudo && r.chance(0.5)) tail.push_back("CM_ SG_ 3221225472 Orphan_sig \"Orphan comment\";");
  if (fancy) r.shuffle(tail);
  for (auto& t : tail) line(t);
  line("BA_DEF_ BO_  \"GenMsgCycleTime\" INT 0 100000;");
  if (yes(0.4)) { line("BA_DEF_  \"BusType\" STRING ;"); line("BA_DEF_ SG_  \"GenSigStartValue\" INT 0 65535;"); }
  line("BA_DEF_DEF_  \"GenMsgCycleTime\" 0;");
  if (yes(0.4)) line("BA_ \"BusType\" \"CAN\";");
  if (others && r2.chance(0.5))
  {
    line("BA_DEF_ BO_  \"VFrameFormat\" ENUM  \"StandardCAN\",\"ExtendedCAN\",\"reserved\",\"J1939PG\";");
    line("BA_DEF_ BU_  \"NodeLayerModules\" STRING ;");
    line("BA_DEF_REL_ BU_SG_REL_  \"GenSigTimeoutTime\" INT 0 65535;");
    line("BA_DEF_DEF_  \"VFrameFormat\" \"StandardCAN\";");
    line("BA_DEF_DEF_REL_ \"GenSigTimeoutTime\" 0;");
    line("BA_ \"DBName\" \"BO_ 5 GenMsgCycleTime 7\";");
    for (auto& m : msgs)
    {
      if (r2.chance(0.4)) line(fmt("BA_ \"VFrameFormat\" BO_ %u %d;", idOf(m), m.ext ? 1 : 0));
      if (!nodes.empty() && m.sigs.size() && r2.chance(0.2)) line(fmt("BA_REL_ \"GenSigTimeoutTime\" BU_SG_REL_ %s SG_ %u %s 500;", nodes[0].c_str(), idOf(m), m.sigs[0].name.c_str()));
    }
  }
  tail.clear();
  for (auto& m : msgs)
  {
    uint32_t id = m.id | (m.ext ? 0x80000000u : 0);
    if (m.cycle >= 0) tail.push_back("BA_ " + gap("", true) + "\"GenMsgCycleTime\"" + gap(" ") + fmt("BO_%s%u%s%d%s;", gap(" ").c_str(), id, gap(" ").c_str(), m.cycle, gap("", true).c_str()));
    if (yes(0.2)) tail.push_back(fmt("BA_ \"GenMsgSendType\" BO_ %u %d;", id, 3));
    if (yes(0.2) && m.sigs.size()) tail.push_back(fmt("BA_ \"GenSigStartValue\" SG_ %u %s 77;", id, m.sigs[0].name.c_str()));
  }
  if (pseudo && yes(0.7)) tail.push_back("BA_ \"GenMsgCycleTime\" BO_ 3221225472 777;");
  for (auto& m : msgs)
    if (yes(0.05))
    {
      uint32_t id = m.id | (m.ext ? 0x80000000u : 0);
      tail.push_back(r.chance(0.5) ? fmt("BA_ \"GenMsgCycleTimeFast\" BO_ %u 5;", id) : fmt("BA_ \"GenMsgDelayTime\" BO_ %u 7;", id));
      if (!m.sigs.empty() && r.chance(0.5)) tail.push_back(fmt("BA_ \"GenMsgCycleTime\" SG_ %u %s 99;", id, m.sigs[0].name.c_str()));
    }
  if (fancy) r.shuffle(tail);
  for (auto& t : tail) line(t);
  for (auto& m : msgs)
    for (auto& s : m.sigs)
      if (!s.vals.empty())
      {
        std::string t = fmt("VAL_ %u %s", m.id | (m.ext ? 0x80000000u : 0), s.name.c_str());
        for (auto& v : s.vals) t += gap(" ") + (s.sgn ? fmt("%lld", (long long)s.sext((uint64_t)v.first)) : fmt("%llu", (unsigned long long)v.first)) + gap(" ") + "\"" + v.second + "\"";
        line(t + gap(" ", true) + ";");
      }
  for (auto& m : msgs)
    for (auto& s : m.sigs)
    {
      if (nested && s.mux == 2)
        for (auto& t : m.sigs)
          if (t.mux == 1) line(fmt("SG_MUL_VAL_ %u %s %s %d-%d;", idOf(m), s.name.c_str(), t.name.c_str(), s.muxVal, s.muxVal));
      if (others && r2.chance(0.15)) line(fmt("SIG_VALTYPE_ %u %s : 0;", idOf(m), s.name.c_str()));
    }
  if (others)
    for (auto& m : msgs)
      if (m.sigs.size() && r2.chance(0.3))
      {
        std::string t = fmt("SIG_GROUP_ %u Group_%u 1 :", idOf(m), m.id);
        for (auto& s : m.sigs) t += " " + s.name;
        line(t + ";");
      }
  if (yes(0.2)) o.resize(o.size() - nl.size());  // no newline at the end of the file
  return o;
}
// ---------------------------------------------------------------- JSON
static Json decJ(const Dec& d) { Json j = Json::array(); j.push(d.m).push(d.e); return j; }
static Dec decF(const Json& j) { return j.a.size() == 2 ? Dec{j.a[0].i, (int)j.a[1].i} : Dec{}; }
Json Matrix::json() const
{
  Json j = Json::object();
  j.set("drv", drv).set("nodes", Json::from(nodes)).set("ver", hasVer).set("hi", hi).set("lo", lo).set("style", style);
  Json ms = Json::array();
  for (auto& m : msgs)
  {
    Json k = Json::object();
    k.set("name", m.name).set("id", m.id).set("ext", m.ext).set("dlc", m.dlc).set("tx", m.tx).set("cycle", m.cycle);
    if (!m.moreTx.empty()) k.set("moreTx", Json::from(m.moreTx));
    if (!m.comment.empty()) k.set("comment", m.comment);
    Json ss = Json::array();
    for (auto& s : m.sigs)
    {
      Json q = Json::object();
      q.set("name", s.name).set("start", s.start).set("len", s.len);
      if (s.motorola) q.set("motorola", true);
      if (s.sgn) q.set("signed", true);
      if (s.factor.m != 1 || s.factor.e) q.set("factor", decJ(s.factor));
      if (s.offset.m || s.offset.e) q.set("offset", decJ(s.offset));
      q.set("min", s.min).set("max", s.max);
      if (!s.unit.empty()) q.set("unit", s.unit);
      q.set("recv", Json::from(s.recv));
      if (s.mux) q.set("mux", s.mux).set("muxVal", s.muxVal);
      if (s.role) q.set("role", s.role);
      if (s.role == 2) q.set("method", s.method).set("op", s.op);
      if (!s.comment.empty()) q.set("comment", s.comment);
      if (!s.vals.empty())
      {
        Json v = Json::array();
        for (auto& p : s.vals) { Json e = Json::array(); e.push(p.first).push(p.second); v.push(e); }
        q.set("vals", v);
      }
      ss.push(q);
    }
    k.set("sigs", ss);
    ms.push(k);
  }
  return j.set("msgs", ms);
}
Matrix Matrix::from(const Json& j)
{
  Matrix x;
  x.drv = j.str("drv");
  x.nodes = strs(j.find("nodes"));
  x.hasVer = j.flag("ver");
  x.hi = (uint32_t)j.num("hi");
  x.lo = (uint32_t)j.num("lo");
  x.style = (uint64_t)j.num("style");
  for (auto& k : j.at("msgs").a)
  {
    Msg m;
    m.name = k.str("name");
    m.id = (uint32_t)k.num("id");
    m.ext = k.flag("ext");
    m.dlc = (int)k.num("dlc");
    m.tx = k.str("tx");
    m.cycle = (int)k.num("cycle", -1);
    m.moreTx = strs(k.find("moreTx"));
    m.comment = k.str("comment");
    for (auto& q : k.at("sigs").a)
    {
      Sig s;
      s.name = q.str("name");
      s.start = (int)q.num("start");
      s.len = (int)q.num("len");
      s.motorola = q.flag("motorola");
      s.sgn = q.flag("signed");
      if (auto f = q.find("factor")) s.factor = decF(*f);
      if (auto f = q.find("offset")) s.offset = decF(*f);
      s.min = q.str("min", "0");
      s.max = q.str("max", "0");
      s.unit = q.str("unit");
      s.recv = strs(q.find("recv"));
      s.mux = (int)q.num("mux");
      s.muxVal = (int)q.num("muxVal");
      s.role = (int)q.num("role");
      s.method = q.str("method");
      s.op = (int)q.num("op");
      s.comment = q.str("comment");
      for (auto& v : q.at("vals").a) s.vals.push_back({v.a[0].i, v.a[1].s});
      m.sigs.push_back(s);
    }
    x.msgs.push_back(m);
  }
  x.markNames();
  return x;
}
void Matrix::markNames()
{
  std::set<std::string> names;
  for (auto& m : msgs)
    for (auto& s : m.sigs)
    {
      s.again.clear();
      for (auto& v : s.vals) s.again.push_back(!names.insert(s.name + "_" + m.name + "_" + cName(v.second)).second);
    }
}
// ---------------------------------------------------------------- random matrices
Profile randomProfile(Rng& r)
{
  Profile p;
  p.nodes = (int)r.range(1, 5);
  p.msgs = r.chance(0.15) ? 1 : (int)r.range(2, 9);
  if (r.chance(0.06)) p.msgs = (int)r.range(10, 24);
  if (r.chance(0.04)) { p.nodes = (int)r.range(6, 14); }
  p.sigs = (int)r.range(1, 9);
  auto w = [&](double lo, double hi) { return r.chance(0.25) ? 0.0 : lo + (hi - lo) * (double)r.below(1000) / 1000; };
  p.fd = w(0, 0.6);
  p.ext = r.chance(0.2) ? 1.0 : w(0, 0.8);
  p.motorola = r.chance(0.2) ? 1.0 : w(0, 1);
  p.sgn = w(0, 0.8);
  p.phys = w(0, 0.8);
  p.intPhys = r.chance(0.3) ? 1.0 : w(0, 1);
  p.mux = w(0, 0.5);
  p.roll = w(0, 0.8);
  p.csm = w(0, 0.8);
  p.empty = w(0, 0.2);
  p.moreTx = w(0, 0.6);
  p.cycle = w(0, 1);
  p.vals = w(0, 0.4);
  p.comment = w(0, 0.7);
  p.wide = w(0, 0.8);
  p.version = r.chance(0.2) ? 0 : 1;
  return p;
}
static const std::vector<std::string> kSigWords = {"Speed", "Torque", "Temp", "Volt", "Curr", "State", "Mode", "Flag", "Angle", "Press", "Level", "Count", "Req", "Ack", "Pos", "Lim", "Err", "S", "x", "Dist", "a_b", "Rpm"};
static const std::vector<std::string> kMsgWords = {"Engine", "Brake", "Door", "Dash", "Gear", "Lamp", "Diag", "Batt", "Wheel", "Seat", "Mirror", "M", "Fan", "Pump", "Radar", "Stat"};
static const std::vector<std::string> kNodeWords = {"ECU", "Gateway", "BMS", "abs", "TCU", "Dash_board", "Tester", "A", "Inverter", "BCM"};
static const std::vector<std::string> kUnits = {"", "km/h", "%", "V", "deg", "rpm", "m/s^2", "C", "1 : 10", "km:h", "SG_ :", "\xC2\xB0" "K", "(1,0) [0/1]", "\\\"", "\\\"x\\\""};
static const std::vector<std::string> kComments = {"simple text", "value in percent 100% done", "first line of text", "see spec 3.4.1 (rev B)", "sent on change, else cyclic", "reserved", "a b c d e f g", "x < y and y > z", "it's quoted", "50%s and %d", "0: off; 1: on; 2: error; 3: n/a", "Changed in\nVersion 7.3\nafter version 6.1 was dropped", "a <b> c <d:e> f", "see C:\\spec\\", "one \\\ntwo \\ \nthree \\", "\xC3\xA4\xC3\xB6", "/* not */ a // comment ??/", "5\\\" pipe, other", "a \\\"quoted; text\\\" b", "\\\"q\\\""};
static std::string longText(Rng& r) { std::string s; int n = (int)r.range(300, 2500); for (int i = 0; i < n; i++) s += fmt("word%d ", i); return s + "end"; }

Matrix randomMatrix(Rng& r, const Profile& p)
{
  Matrix x;
  static const std::vector<std::string> drvs = {"drv", "TestDb", "veh_can", "A1", "Body", "ptCAN"};
  x.drv = r.pick(drvs);
  x.hasVer = r.chance(p.version);
  x.hi = (uint32_t)(r.chance(0.8) ? r.below(20) : r.below(100000));
  x.lo = (uint32_t)(r.chance(0.8) ? r.below(20) : r.below(100000));
  if (!x.hasVer) x.hi = x.lo = 0;
  x.style = r.chance(0.2) ? 0 : 1 + r.below(1u << 20);
  std::set<std::string> used;
  for (int i = 0; i < p.nodes; i++)
  {
    std::string n = r.pick(kNodeWords);
    if (used.count(lower(n)) || (n.size() > 1 && r.chance(0.3))) n += std::to_string(i + 1);
    if (used.count(lower(n))) n += "_" + std::to_string(i);
    used.insert(lower(n));
    x.nodes.push_back(n);
  }
  std::set<uint32_t> ids;
  uint32_t base = (uint32_t)r.below(0x700);
  bool dense = r.chance(0.4);
  const uint64_t window = p.msgs > 48 ? (uint64_t)p.msgs * 2 : 64;
  if (base + window > 0x800) base = (uint32_t)(0x800 - window);
  for (int i = 0; i < p.msgs; i++)
  {
    Msg m;
    m.name = p.prefix + r.pick(kMsgWords) + std::to_string(i + 1);
    if (r.chance(0.05)) m.name += "_with_a_quite_long_name";
    m.ext = r.chance(p.ext);
    for (;;)
    {
      m.id = dense ? base + (uint32_t)r.below(window) : m.ext ? (uint32_t)r.below(0x20000000) : (uint32_t)r.below(0x800);
      if (r.chance(0.05)) m.id = m.ext ? 0x1FFFFFFF : r.chance(0.5) ? 0 : 0x7FF;
      if (!m.ext) m.id &= 0x7FF;
      if (!ids.count(m.id)) break;
    }
    ids.insert(m.id);
    m.dlc = (int)r.range(1, 8);
    if (r.chance(0.5)) m.dlc = 8;
    if (r.chance(p.fd)) m.dlc = r.chance(0.7) ? r.pick(std::vector<int>{12, 16, 20, 24, 32, 48, 64, 64, 64}) : (int)r.range(9, 64);
    m.tx = p.roleTx || r.chance(0.8) ? r.pick(x.nodes) : "";
    if (!m.tx.empty() && r.chance(p.moreTx))
      for (auto& n : x.nodes) if (n != m.tx && r.chance(0.5)) m.moreTx.push_back(n);
    if (r.chance(p.cycle)) m.cycle = r.chance(0.8) ? (int)r.range(1, 100) * 10 : r.chance(0.7) ? (int)r.range(0, 60000) : (int)r.range(60000, 4000000);
    if (r.chance(p.comment)) m.comment = r.chance(0.03) ? longText(r) : r.pick(kComments);
    bool empty = r.chance(p.empty);
    bool crowd = p.crowd && x.msgs.empty();
    if (crowd) { empty = false; m.dlc = (int)r.range(2, 4); }
    int want = empty ? 0 : 1 + (int)r.below((uint64_t)p.sigs);
    std::vector<char> taken((size_t)m.dlc * 8, 0);
    std::set<std::string> names;
    bool mux = crowd || r.chance(p.mux);
    int groups = mux ? (int)r.range(2, 3) : 0;
    bool flags = !mux && !empty && r.chance(0.03);     // a message of many tiny signals
    if (flags) want = (int)r.range(20, 64);
    if (mux && !empty && r.chance(0.03)) { groups = (int)r.range(40, 256); want = groups + (int)r.range(0, 40); }
    if (crowd) { groups = 256; want = (int)r.range(500, 700); }
    std::vector<std::vector<char>> gTaken((size_t)groups, taken);
    bool rollDone = false, csmDone = false;
    auto place = [&](Sig& s, std::vector<char>& t) -> bool
    {
      for (int tries = 0; tries < 30; tries++)
      {
        s.start = (int)r.below((uint64_t)m.dlc * 8);
        if (r.chance(0.3)) s.start = s.start / 8 * 8 + (s.motorola ? 7 : 0);
        if (tries < 4 && r.chance(0.12))
        {
          // the very end or the very beginning of the payload
          if (r.chance(0.3)) s.start = s.motorola ? 7 : 0;
          else if (!s.motorola) s.start = std::max(0, m.dlc * 8 - s.len);
          else { int by = (s.len + 7) / 8; s.start = std::max(0, (m.dlc - by) * 8 + (s.len - 1) % 8); }
        }
        if (!s.fits(m.dlc)) continue;
        bool ok = true;
        for (int b : s.bits()) if (t[(size_t)b]) ok = false;
        if (!ok) continue;
        for (int b : s.bits()) t[(size_t)b] = 1;
        return true;
      }
      return false;
    };
    auto newName = [&]()
    {
      std::string n;
      do
      {
        n = r.pick(kSigWords);
        if (names.size() > 30) n += "_of_a_big_group_" + std::to_string(names.size());
        else if (r.chance(0.6)) n += std::to_string(r.below(9));
        if (r.chance(0.05)) n += "_is_a_rather_long_signal_name";
      } while (names.count(n));
      names.insert(n);
      return n;
    };
    auto receivers = [&](Sig& s)
    {
      for (auto& n : x.nodes) if (r.chance(0.45)) s.recv.push_back(n);
      if (s.recv.empty() && r.chance(0.7)) s.recv.push_back(r.pick(x.nodes));
    };
    if (mux && want > 0)
    {
      Sig s;
      s.name = newName();
      s.mux = 1;
      s.len = groups > 4 ? 8 : (int)r.range(2, 4);
      s.motorola = r.chance(p.motorola);
      receivers(s);
      if (place(s, taken)) { for (auto& g : gTaken) g = taken; m.sigs.push_back(s); }
      else { mux = false; groups = 0; }
    }
    for (int k = 0; k < want; k++)
    {
      Sig s;
      s.motorola = r.chance(p.motorola);
      s.sgn = r.chance(p.sgn);
      bool special = false;
      if (!rollDone && k == 0 && r.chance(p.roll))
      {
        s.role = 1;
        s.sgn = r.chance(0.15);
        s.len = r.pick(std::vector<int>{2, 3, 4, 4, 4, 8, 8, 1, 5, 12, 16, 20, 24});
        if (r.chance(0.1)) s.len = r.pick(std::vector<int>{30, 31, 32, 33, 48, 63, 64});
        special = rollDone = true;
      }
      else if (!csmDone && k <= 1 && r.chance(p.csm))
      {
        s.role = 2;
        s.sgn = false;
        s.len = r.pick(std::vector<int>{8, 8, 8, 4, 4, 2, 1, 7, 5});
        s.method = r.pick(std::vector<std::string>{"XOR8", "CRC8_J1850", "SUM4", "Crc8h2f", "xor4", "_sum", "E2E_P01"});
        s.op = r.chance(0.8) ? (int)r.below(20) : (int)r.range(-100, 100000);
        special = csmDone = true;
      }
      else if (r.chance(p.wide)) s.len = r.chance(0.5) ? (int)r.range(17, 64) : r.pick(std::vector<int>{24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 55, 56, 57, 63, 64});
      else s.len = r.chance(0.5) ? (int)r.range(1, 16) : r.pick(std::vector<int>{1, 7, 8, 9, 15, 16, 17});
      if (flags && !special) s.len = (int)r.range(1, 2);
      if (s.len > m.dlc * 8) s.len = (int)r.range(1, m.dlc * 8);
      if (s.role == 2) s.len = std::min(s.len, 8);
      if (crowd) s.len = (int)r.range(3, 12);
      bool grp = mux && !special && (crowd || r.chance(0.6));
      int gi = grp ? crowd ? k % groups : (int)r.below((uint64_t)groups) : -1;
      bool ok = false;
      if (s.role == 2)
      {
        for (int t = 0; t < 40 && !ok; t++)
        {
          Sig q = s;
          std::vector<char> tt = taken;
          if (!place(q, tt)) break;
          auto b = q.bits();
          if (b.front() / 8 != b.back() / 8) continue;
          s = q;
          taken = tt;
          ok = true;
        }
      }
      else if (!grp) ok = place(s, taken);
      else
      {
        ok = place(s, gTaken[(size_t)gi]);
        // a multiplexed signal may share bits with the other groups only
        if (ok) for (int b : s.bits()) if (taken[(size_t)b]) ok = false;
      }
      if (!ok) continue;
      if (!grp) for (auto& g : gTaken) for (int b : s.bits()) { if (g[(size_t)b]) ok = false; }
      if (!ok) { for (int b : s.bits()) taken[(size_t)b] = 0; continue; }
      if (!grp) for (auto& g : gTaken) for (int b : s.bits()) g[(size_t)b] = 1;
      if (grp) { s.mux = 2; s.muxVal = gi; }
      s.name = newName();
      if (special && r.chance(0.3)) s.comment = r.chance(0.05) ? longText(r) : r.pick(kComments);
      if (!special)
      {
        if (r.chance(p.comment * 0.5)) s.comment = r.pick(kComments);
      }
      if (s.role == 1 ? s.len <= 24 && r.chance(p.phys * 0.25) : !special)
      {
        if (special || r.chance(p.phys))
        {
          bool ip = r.chance(p.intPhys);
          if (ip)
          {
            int64_t lim = s.len <= 32 ? (r.chance(0.8) ? 100 : 1000000) : s.len <= 48 ? 100 : 4;
            s.factor.m = r.chance(0.3) ? 1 : r.range(1, lim);
            if (r.chance(0.2)) s.factor.m = -s.factor.m;
            int64_t ol = r.chance(0.7) ? 500 : 2000000000;
            s.offset.m = r.chance(0.3) ? 0 : r.range(-ol, ol);
            if (s.len <= 24 && r.chance(0.3))
            {
              // an end of the physical range at the edge of an integer type, or one beside it
              int64_t lo = s.sgn ? -(1ll << (s.len - 1)) : 0, hi = s.sgn ? (1ll << (s.len - 1)) - 1 : (1ll << s.len) - 1;
              if (r.chance(0.6)) s.factor.m = s.factor.m < 0 ? -1 : 1;
              int64_t edge = r.pick(std::vector<int64_t>{127, 128, -128, -129, 255, 256, 0, -1, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll}) + (r.chance(0.2) ? r.range(-1, 1) : 0);
              s.offset.m = edge - (r.chance(0.5) ? lo : hi) * s.factor.m;
            }
          }
          else if (s.len <= 48)
          {
            static const std::vector<Dec> f = {{1, 1}, {5, 1}, {1, 2}, {25, 2}, {1, 3}, {125, 3}, {15, 1}, {25, 1}, {100001, 5}, {3, 6}, {1, 9}, {-5, 1}, {-1, 2}, {392157, 6}, {1, 0}, {2, 0}, {1234567, 3}};
            static const std::vector<Dec> of = {{0, 0}, {0, 0}, {-40, 0}, {-1000, 0}, {5, 1}, {-273, 0}, {-27315, 2}, {1, 1}, {100000, 0}, {-125, 3}, {1, 9}};
            s.factor = r.pick(f);
            s.offset = r.pick(of);
            if (!s.dbl()) s.offset = {5, 1};
          }
        }
        if (r.chance(0.6)) s.unit = r.pick(kUnits);
      }
      if (!special)
      {
        if (r.chance(p.vals))
        {
          int n = (int)(r.chance(0.05) ? r.range(5, 40) : r.range(1, 5));
          for (int v = 0; v < n; v++)
          {
            uint64_t raw = r.chance(0.5) ? (uint64_t)v : r.chance(0.3) ? s.mask() : r.chance(0.3) ? s.mask() >> 1 : r.chance(0.3) ? 1ull << (s.len - 1) : r.next() >> r.below(64);
            static const std::vector<std::string> texts = {"V", "Off state ", "Err/Inv", "not available", "SNA_", "Description for the value '0x7' ", "100 km/h", "2nd gear ", "", "-", "100%d ", "a:b;c", "on,off", "\\", "(x == 1) ? ", "[0|1]", "\xC3\x9C" "ber", "SG_ ", "_"};
            std::string t = r.pick(texts);
            if (r.chance(0.8)) t += std::to_string(v);
            s.vals.push_back({(int64_t)(raw & s.mask()), t});
          }
        }
      }
      if (s.simple()) { s.min = "0"; s.max = std::to_string(s.len < 63 ? (long long)s.mask() : 0ll); }
      receivers(s);
      m.sigs.push_back(s);
    }
    x.msgs.push_back(m);
  }
  // a signal which occurs in several messages, with the same table of values
  if (x.msgs.size() > 1 && r.chance(p.vals))
    for (int tries = 0, done = 0; tries < 8 && !done; tries++)
  {
    Msg& a = x.msgs[(size_t)r.below(x.msgs.size())];
    Msg& b = x.msgs[(size_t)r.below(x.msgs.size())];
    if (&a != &b && !a.sigs.empty() && !b.sigs.empty())
    {
      const Sig s = r.pick(a.sigs);
      Sig& t = b.sigs[(size_t)r.below(b.sigs.size())];
      bool ok = !s.vals.empty() && !t.role && t.mux != 1 && t.sgn == s.sgn && t.len >= s.len && !(s.sgn && t.len != s.len);
      for (auto& e : b.sigs) if (e.name == s.name && &e != &t) ok = false;
      if (ok) { done = 1; t.name = s.name; t.vals = s.vals; if (r.chance(0.5)) t.comment = s.comment; }
    }
  }
  // a node which only sends
  if (x.nodes.size() > 1 && r.chance(0.2))
  {
    const std::string n = r.pick(x.nodes);
    for (auto& m : x.msgs)
      for (auto& s : m.sigs)
        if (s.recv.size() > 1) s.recv.erase(std::remove(s.recv.begin(), s.recv.end(), n), s.recv.end());
        else if (s.recv.size() == 1 && s.recv[0] == n) s.recv[0] = n == x.nodes[0] ? x.nodes[1] : x.nodes[0];
  }
  x.markNames();
  return x;
}
// ---------------------------------------------------------------- shrinking
std::vector<Matrix> shrinkMatrix(const Matrix& m)
{
  std::vector<Matrix> r;
  // whole parts of a big matrix first
  for (size_t part = m.msgs.size() / 2; part >= 4; part /= 2)
    for (size_t b = 0; b < m.msgs.size(); b += part)
    {
      Matrix c = m;
      c.msgs.erase(c.msgs.begin() + (long)b, c.msgs.begin() + (long)std::min(b + part, m.msgs.size()));
      if (!c.msgs.empty()) r.push_back(c);
    }
  for (size_t i = 0; i < m.msgs.size() && m.msgs.size() > 1; i++)
  {
    Matrix c = m;
    c.msgs.erase(c.msgs.begin() + (long)i);
    r.push_back(c);
  }
  if (m.style) { Matrix c = m; c.style = 0; r.push_back(c); }
  for (size_t i = 0; i < m.msgs.size(); i++)
    for (size_t k = 0; k < m.msgs[i].sigs.size() && m.msgs[i].sigs.size() > 1; k++)
    {
      Matrix c = m;
      c.msgs[i].sigs.erase(c.msgs[i].sigs.begin() + (long)k);
      r.push_back(c);
    }
  for (size_t i = 0; i < m.msgs.size(); i++)
  {
    Matrix c = m;
    auto& q = c.msgs[i];
    bool ch = !q.comment.empty() || !q.moreTx.empty();
    q.comment.clear();
    q.moreTx.clear();
    for (auto& s : q.sigs)
    {
      if (!s.comment.empty() || !s.unit.empty() || !s.vals.empty()) ch = true;
      s.comment.clear();
      s.unit.clear();
      s.vals.clear();
    }
    if (ch) r.push_back(c);
  }
  for (size_t i = 0; i < m.nodes.size() && m.nodes.size() > 1; i++)
  {
    std::string n = m.nodes[i];
    Matrix c = m;
    c.nodes.erase(c.nodes.begin() + (long)i);
    bool ok = true;
    for (auto& q : c.msgs)
    {
      if (q.tx == n) ok = false;
      for (size_t k = 0; k < q.moreTx.size();) if (q.moreTx[k] == n) q.moreTx.erase(q.moreTx.begin() + (long)k); else k++;
      for (auto& s : q.sigs) for (size_t k = 0; k < s.recv.size();) if (s.recv[k] == n) s.recv.erase(s.recv.begin() + (long)k); else k++;
    }
    if (ok) r.push_back(c);
  }
  return r;
}
uint32_t userHash(const Msg& m, const uint8_t* d, int len, uint32_t id, const std::string& method, int op)
{
  uint8_t b[72] = {0};
  memcpy(b, d, (size_t)std::min(len, 64));
  const Sig* s = m.byRole(2);
  if (s && s->fits(std::min(len, 64))) s->put(b, 0);
  Hash h;
  h.bytes(b, (size_t)std::min(len, 64));
  h.u64(id);
  h.u64((uint64_t)len);
  h.str(method);
  h.u64((uint64_t)(int64_t)op);
  return (uint32_t)(h.h ^ (h.h >> 29));
}
