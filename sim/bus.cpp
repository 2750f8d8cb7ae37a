// Driver-side checks (D01..D15): the nodes run the real generated code; bus, time, faults and applications are simulated.
#include "bus.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <map>
#include <queue>
#include <set>
#include <sys/time.h>
#include <ucontext.h>

std::shared_ptr<Fleet> buildFleet(const BusPlan& p, Stats& st);

namespace
{
const int BOX = 256, GUARD = 64, DATA = 64;    // transmit mailbox: guard, frame, guard
// ---------------------------------------------------------------- calls into generated code
sigjmp_buf g_jmp;
volatile bool g_in = false;
void onCrash(int s)
{
  if (g_in) { g_in = false; siglongjmp(g_jmp, s); }
  signal(s, SIG_DFL);
  raise(s);
}
struct CrashGuard
{
  struct sigaction old[5];
  static constexpr int S[5] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM};
  CrashGuard()
  {
    struct sigaction sa{};
    sa.sa_handler = onCrash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int i = 0; i < 5; i++) sigaction(S[i], &sa, &old[i]);
    arm(60);
  }
  ~CrashGuard() { arm(0); for (int i = 0; i < 5; i++) sigaction(S[i], &old[i], nullptr); }
  void arm(int s) { struct itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_REAL, &t, nullptr); }
};
constexpr int CrashGuard::S[5];

struct Frame
{
  bool ok = false;
  int drv = 0;
  uint32_t id = 0;
  int dlc = 0;
  uint8_t d[64] = {0};
  int from = -1;                      // node index, -1 independent
  int msg = -1;
  std::vector<int64_t> val;           // what the sender had stored, per signal
  std::vector<char> eff;              // signals that are meaningful in this frame (multiplexing)
};
struct MonRec { bool known = false; uint32_t last = 0, cnt = 0; uint64_t expt = 0; uint32_t roll = 0, csm = 0, dlc = 0; std::vector<int64_t> v; uint32_t timeout = 0, cycleError = 0; };
struct FrameMonitor { uint32_t last_cycle, timeout_cycle, frame_cnt, roll_error, csm_error, cycle_error, dlc_error; };
struct Node
{
  int idx = 0;
  const NodeCfg* cfg = nullptr;
  const Matrix* m = nullptr;
  const SimDrv* api = nullptr;
  const SimUtil* util = nullptr;
  const DrvOpt* opt = nullptr;
  std::vector<uint8_t> rxMem, txMem;               // guard around
  std::vector<std::vector<uint8_t>> own;           // send objects outside the utility
  std::vector<char> rxWant, txWant;
  std::vector<MonRec> model;
  std::vector<uint64_t> roll;                      // sender's counter model
  std::vector<char> rollKnown;
  uint32_t tickBase = 0;
  bool up = true;
  uint8_t* rx() { return rxMem.data() + GUARD; }
  uint8_t* tx() { return txMem.data() + GUARD; }
};
struct HashCall { std::vector<uint8_t> d; int len; uint32_t id; int method, op; uint32_t ret; };
struct MonCall { void* p; uint32_t id; int drv, which; std::vector<uint8_t> snap; };

struct World;
World* g_w = nullptr;
uint32_t hostTick();
uint32_t hostHash(const uint8_t*, int, uint32_t, int, int);
void hostMon(void*, uint32_t, int, int);
void hostAccess(const void*, int);
const SimHost g_host = {hostTick, hostHash, hostMon, hostAccess};

struct World
{
  const BusPlan& p;
  Stats& st;
  bool log;
  Outcome out;
  Hash tr;
  std::shared_ptr<Fleet> fl;
  std::vector<Node> n;
  std::map<int64_t, Frame> air;
  int64_t now = 0;
  // the call that is being made
  Node* cur = nullptr;
  const Msg* curMsg = nullptr;
  uint8_t* curSlot = nullptr;
  unsigned curSize = 0;
  std::vector<HashCall> hashes;
  std::vector<MonCall> mons;
  int ticks = 0;
  std::vector<std::string> methods;
  bool interesting = false;

  World(const BusPlan& q, Stats& s, bool l) : p(q), st(s), log(l)
  {
    std::set<std::string> ms;
    for (auto& d : p.drv) for (auto& m : d.m.crcMethods()) ms.insert(m);
    methods.assign(ms.begin(), ms.end());
  }
  bool is(const char* a) const { return p.prop == a; }
  bool any(std::initializer_list<const char*> l) const { for (auto a : l) if (p.prop == a) return true; return false; }
  bool bad() const { return out.bad(); }
  void fail(const std::string& c, const std::string& d)
  {
    if (out.cls.empty()) { out.cls = c; out.detail = d; }
  }
  void say(const std::string& s) { if (log) out.log.push_back(fmt("%8lld ms  ", (long long)now) + s); }
  int method(const std::string& m) const { for (size_t i = 0; i < methods.size(); i++) if (methods[i] == m) return (int)i; return -1; }
  const Matrix& mat(int d) const { return p.drv[(size_t)d].m; }
  std::string nm(const Node& x) const { return fmt("node %d (%s%s)", x.idx, x.cfg->name.empty() ? "all" : x.cfg->name.c_str(), p.drv.size() > 1 ? ("@" + x.m->drv).c_str() : ""); }
  int msgOf(const Matrix& m, const std::string& name) const { for (size_t i = 0; i < m.msgs.size(); i++) if (m.msgs[i].name == name) return (int)i; return -1; }
  int msgOfId(const Matrix& m, uint32_t id) const { for (size_t i = 0; i < m.msgs.size(); i++) if (m.msgs[i].id == id) return (int)i; return -1; }
  uint32_t hashValue(const Msg& m, const uint8_t* d, int len, uint32_t id, int meth, int op) const
  {
    uint32_t v = userHash(m, d, len, id, meth >= 0 && meth < (int)methods.size() ? methods[(size_t)meth] : "?", op);
    return v;
  }
  // run generated code; false when it crashed
  template<class F> bool call(const char* what, F f)
  {
    int s = sigsetjmp(g_jmp, 1);
    if (s == 0)
    {
      g_in = true;
      f();
      g_in = false;
      return true;
    }
    fail("driver-crashed", fmt("%s ends with signal %d (%s)", what, s, s == SIGALRM ? "endless loop" : s == SIGFPE ? "division" : s == SIGILL || s == SIGTRAP ? "undefined behaviour trapped" : "bad memory access"));
    return false;
  }
  bool setup()
  {
    fl = buildFleet(p, st);
    if (!fl->cls.empty()) { fail(fl->cls, fl->detail); return false; }
    for (auto& f : fl->init) f(&g_host);
    for (size_t i = 0; i < p.node.size(); i++)
    {
      Node x;
      x.idx = (int)i;
      x.cfg = &p.node[i];
      x.m = &mat(x.cfg->d);
      x.api = fl->api[(size_t)x.cfg->c][(size_t)x.cfg->d];
      x.opt = &p.cfg[(size_t)x.cfg->c].per[(size_t)x.cfg->d];
      bool nu = p.drv[(size_t)x.cfg->d].nodeutils;
      for (int u = 0; u < x.api->nutil; u++) if (x.api->util[u].name == x.cfg->name) x.util = &x.api->util[u];
      if (!x.util) { fail("simulator", "no utility for node " + x.cfg->name); return false; }
      for (auto& m : x.m->msgs)
      {
        auto rc = m.receivers();
        auto sn = m.senders();
        bool ne = !m.sigs.empty();
        x.rxWant.push_back(ne && (!nu || std::find(rc.begin(), rc.end(), x.cfg->name) != rc.end()));
        x.txWant.push_back(ne && nu && std::find(sn.begin(), sn.end(), x.cfg->name) != sn.end());
      }
      n.push_back(x);
    }
    for (auto& x : n) if (!members(x)) return false;
    for (auto& x : n) power(x, 0);
    return !bad();
  }
  bool members(Node& x)
  {
    bool nu = p.drv[(size_t)x.cfg->d].nodeutils;
    for (size_t i = 0; i < x.m->msgs.size(); i++)
    {
      auto& m = x.m->msgs[i];
      if (m.sigs.empty()) continue;
      bool r = x.util->rxOff[i] >= 0, t = x.util->txOff[i] >= 0;
      if (r != (bool)x.rxWant[i]) { if (r || any({"D03", "D04", "D12"})) fail("membership", fmt("%s: message %s is %s the receive structure", nm(x).c_str(), m.name.c_str(), r ? "wrongly in" : "missing from")); else fail("membership", nm(x) + ": message " + m.name + " cannot be received"); return false; }
      if (nu && t != (bool)x.txWant[i] && (!t || any({"D04", "D12"}))) { fail("membership", fmt("%s: message %s is %s the send structure", nm(x).c_str(), m.name.c_str(), t ? "wrongly in" : "missing from")); return false; }
    }
    return true;
  }
  void power(Node& x, uint32_t tick, uint64_t ctr = 0)
  {
    x.rxMem.assign(GUARD * 2 + x.util->rxSize, 0xC3);
    x.txMem.assign(GUARD * 2 + x.util->txSize, 0xC3);
    memset(x.rx(), 0, x.util->rxSize);
    memset(x.tx(), 0, x.util->txSize);
    x.own.clear();
    size_t k = x.m->msgs.size();
    for (size_t i = 0; i < k; i++) x.own.push_back(std::vector<uint8_t>(x.api->msg[i].size, 0));
    x.model.assign(k, MonRec());
    x.roll.assign(k, 0);
    x.rollKnown.assign(k, 1);
    // an application may start its counters anywhere, also just before they wrap around
    for (size_t i = 0; i < k && ctr; i++)
    {
      const Sig* rs = x.m->msgs[i].byRole(1);
      if (!rs || !x.opt->roll) continue;
      Rng r(ctr, x.m->msgs[i].name, 11);
      x.roll[i] = (r.chance(0.6) ? rs->mask() - r.below(3) : r.chance(0.3) ? (rs->mask() >> 1) - r.below(2) : r.next()) & rs->mask();
      x.api->msg[i].set(sendSlot(x, i), (int)(rs - x.m->msgs[i].sigs.data()), rs->sext(x.roll[i]));
    }
    x.tickBase = tick - (uint32_t)now;
    for (size_t i = 0; i < k; i++)
    {
      MonRec& r = x.model[i];
      r.v.assign(x.m->msgs[i].sigs.size(), 0);
      if (!x.rxWant[i] || !x.opt->mon) continue;
      FrameMonitor f{};
      // what an application does at start-up
      f.timeout_cycle = r.timeout = x.m->msgs[i].cycle > 0 ? (uint32_t)x.m->msgs[i].cycle * 3 : 0x5A5A5A5Au;
      f.last_cycle = r.last = tickOf(x);
      // its counters go on where they were before the restart, its own flag and a stale one too
      Rng q(ctr, x.m->msgs[i].name, 13);
      if (ctr && q.chance(0.5)) f.frame_cnt = r.cnt = q.chance(0.5) ? 0xFFFFFFFFu - (uint32_t)q.below(4) : (uint32_t)(q.next() >> (32 + q.below(32)));
      if (ctr) { f.cycle_error = r.cycleError = q.chance(0.3); f.dlc_error = q.chance(0.3); }
      x.api->monSet(monPtr(x, i), &f.last_cycle);
    }
  }
  uint32_t tickOf(const Node& x) const { return x.tickBase + (uint32_t)now; }
  uint8_t* slot(Node& x, size_t i) { return x.rx() + x.util->rxOff[i]; }
  uint8_t* monPtr(Node& x, size_t i) { return slot(x, i) + x.api->msg[i].mon; }
  FrameMonitor monAt(const Node& x, const void* p) const { FrameMonitor f{}; x.api->monGet(p, &f.last_cycle); return f; }
  FrameMonitor mon(Node& x, size_t i) { return monAt(x, monPtr(x, i)); }
  uint8_t* sendSlot(Node& x, size_t i) { return x.util->txOff[i] >= 0 ? x.tx() + x.util->txOff[i] : x.own[i].data(); }
  bool guardsOk(Node& x)
  {
    for (auto* v : {&x.rxMem, &x.txMem})
      for (int i = 0; i < GUARD; i++) if ((*v)[(size_t)i] != 0xC3 || (*v)[v->size() - 1 - (size_t)i] != 0xC3) return false;
    return true;
  }
  // ---- values an application stores before sending
  static uint64_t pickRaw(const Sig& s, Rng& r)
  {
    uint64_t m = s.mask();
    switch (r.below(9))
    {
      case 0: return 0;
      case 1: return m;
      case 2: return s.len > 1 ? m >> 1 : m;
      case 3: return 1ull << (s.len - 1);
      case 4: return (1ull << r.below((uint64_t)s.len)) & m;
      case 5: return (m ^ (1ull << r.below((uint64_t)s.len))) & m;
      case 6: return 0x5555555555555555ull & m;
      default: return r.next() & m;
    }
  }
  struct Want { std::vector<uint64_t> raw; std::vector<char> eff; std::vector<long double> phys; };
  Want wanted(const Msg& m, uint64_t seed) const
  {
    Want w;
    const Sig* master = nullptr;
    uint64_t mv = 0;
    for (auto& s : m.sigs) if (s.mux == 1) master = &s;
    if (master)
    {
      Rng r(seed, "mux", 0);
      std::vector<int> g;
      for (auto& s : m.sigs) if (s.mux == 2) g.push_back(s.muxVal);
      mv = g.empty() || r.chance(0.15) ? pickRaw(*master, r) : (uint64_t)r.pick(g) & master->mask();
    }
    for (auto& s : m.sigs)
    {
      Rng r(seed, s.name, 7);
      bool eff = s.mux != 2 || (master && (uint64_t)s.muxVal == mv) || !master;
      uint64_t v = s.mux == 1 ? mv : eff ? pickRaw(s, r) : 0;
      if (is("D16") && !s.vals.empty() && eff && s.mux != 1 && r.chance(0.7)) v = (uint64_t)r.pick(s.vals).first & s.mask();
      w.raw.push_back(v);
      w.eff.push_back(eff);
      long double ph = 0;
      if (!s.simple())
      {
        if (!s.dbl()) ph = (long double)(s.sgn ? (long double)s.sext(v) : (long double)v) * s.factor.value() + s.offset.value();
        else if (v == 0) ph = strtod(s.offset.text().c_str(), nullptr);
        else
        {
          ph = s.physOf(v);
          // anywhere between two steps, staying inside the range
          if (is("D09") && eff && r.chance(0.5))
          {
            long double ext = s.sgn ? (long double)s.sext(v) : (long double)v;
            long double lim = s.sgn ? (long double)s.sext(s.mask() >> 1) : (long double)s.mask();
            if (ext < lim) ph += s.factor.value() * ((long double)r.below(1000) / 1000.0L);
          }
          ph = (double)ph;
        }
      }
      w.phys.push_back(ph);
    }
    return w;
  }
  static bool closeStep(const Sig& s, uint64_t raw, long double phys, bool f32)
  {
    long double f = fabsl(s.factor.value()), g = s.physOf(raw);
    long double big = std::max(fabsl(phys), std::max(fabsl(s.offset.value()), fabsl(g)));
    if (!s.dbl()) return g == phys;
    return fabsl(g - phys) <= f * 1.0001L + big * (f32 ? 2.5e-7L : 4e-16L);
  }
  static bool closePhys(const Sig& s, uint64_t raw, long double got, bool f32)
  {
    long double g = s.physOf(raw);
    if (!s.dbl()) return g == got;
    long double v = s.sgn ? (long double)s.sext(raw) : (long double)raw;
    return fabsl(g - got) <= (fabsl(v * s.factor.value()) + fabsl(s.offset.value())) * (f32 ? 2.5e-7L : 8e-16L);
  }
  int initByte(const Node& x) const { return x.opt->init >= 0 ? x.opt->init : 0; }
  std::string bytes(const uint8_t* d, int l) const { std::string s; for (int i = 0; i < l; i++) s += fmt("%s%02x", i ? " " : "", d[i]); return s; }

  // one pack call into a garbage filled mailbox; fills fr, checks the mailbox
  bool packOnce(Node& x, size_t mi, uint8_t* slotp, uint64_t fill, Frame& fr, bool ide)
  {
    auto& m = x.m->msgs[mi];
    auto& a = x.api->msg[mi];
    uint8_t box[BOX], ref[BOX];
    Rng r(fill, "box", mi);
    int kind = (int)r.below(4);
    for (int i = 0; i < BOX; i++) box[i] = kind == 0 ? 0 : kind == 1 ? 0xff : (uint8_t)r.next();
    memcpy(ref, box, BOX);
    uint8_t* data = nullptr;
    uint8_t len = (uint8_t)r.next(), id8 = (uint8_t)r.next();
    uint32_t id = (uint32_t)r.next(), ret = 0;
    cur = &x;
    curMsg = &m;
    hashes.clear();
    mons.clear();
    if (!call(("Pack of " + m.name).c_str(), [&] { ret = a.pack(slotp, box + DATA, &data, &len, &id8, &id); })) return false;
    long at = data - box;
    if (any({"D02", "D10", "D11", "D12"}))
    {
      if (ret != m.id || id != m.id) { fail("frame-id", fmt("%s: Pack of %s gives identifier %#x / %#x instead of %#x", nm(x).c_str(), m.name.c_str(), ret, id, m.id)); return false; }
      if (len != m.dlc) { fail("frame-length", fmt("%s: Pack of %s gives length %d instead of %d", nm(x).c_str(), m.name.c_str(), len, m.dlc)); return false; }
      if (id8 != (m.ext ? 1 : 0)) { fail("frame-format", fmt("%s: Pack of %s gives IDE %d instead of %d", nm(x).c_str(), m.name.c_str(), id8, m.ext)); return false; }
    }
    if (any({"D10", "D12"}))
      for (int i = 0; i < BOX; i++)
      {
        bool mine = i >= at && i < at + m.dlc;
        if (x.opt->str && i >= DATA && i < DATA + 6) mine = true;       // identifier, length, format
        if (!mine && box[i] != ref[i]) { fail("overrun", fmt("%s: Pack of %s writes outside of its %d payload bytes (at %ld)", nm(x).c_str(), m.name.c_str(), m.dlc, i - at)); return false; }
      }
    (void)ide;
    fr.ok = true;
    fr.drv = x.cfg->d;
    fr.id = m.id;
    fr.dlc = m.dlc;
    memset(fr.d, 0, 64);
    memcpy(fr.d, data, (size_t)m.dlc);
    fr.from = x.idx;
    fr.msg = (int)mi;
    return true;
  }
  void reference(const Node& x, const Msg& m, const std::vector<uint64_t>& raw, uint8_t* d) const
  {
    uint8_t acc[64] = {0};
    std::vector<char> cov((size_t)m.dlc * 8, 0);
    for (size_t i = 0; i < m.sigs.size(); i++)
    {
      uint8_t t[64] = {0};
      m.sigs[i].put(t, raw[i]);
      for (int k = 0; k < m.dlc; k++) acc[k] |= t[k];
      for (int b : m.sigs[i].bits()) cov[(size_t)b] = 1;
    }
    for (int b = 0; b < m.dlc * 8; b++) if (!cov[(size_t)b] && (initByte(x) >> (b % 8) & 1)) acc[b / 8] = (uint8_t)(acc[b / 8] | 1u << (b % 8));
    memcpy(d, acc, 64);
  }
  bool doSend(const Json& o)
  {
    Node& x = n[(size_t)o.num("n")];
    int mi0 = msgOf(*x.m, o.str("m"));
    if (mi0 < 0 || x.m->msgs[(size_t)mi0].sigs.empty()) return true;
    size_t mi = (size_t)mi0;
    auto& m = x.m->msgs[mi];
    auto& a = x.api->msg[mi];
    if (p.drv[(size_t)x.cfg->d].nodeutils && !x.txWant[mi]) return true;
    uint64_t seed = (uint64_t)o.num("s");
    Want w = wanted(m, seed);
    uint8_t* sp = sendSlot(x, mi);
    std::vector<uint8_t> fieldsBefore;
    for (size_t i = 0; i < m.sigs.size(); i++)
    {
      auto& s = m.sigs[i];
      if (s.role == 1 && x.opt->roll) continue;
      if (s.role == 2 && x.opt->csm) continue;
      if (!s.simple() && x.opt->flt) { a.setp(sp, (int)i, w.phys[i]); continue; }
      a.set(sp, (int)i, s.sext(w.raw[i]));
      if (is("D16"))
        for (size_t e = 0; e < s.vals.size() && e < 100; e++)
        {
          // the application uses the name instead of the number
          if (!s.named(e) || ((uint64_t)s.vals[e].first & s.mask()) != w.raw[i]) continue;
          a.set(sp, (int)i, s.sext(~w.raw[i] & s.mask()));
          a.named(sp, (int)i, (int)e, 1);
          if (a.get(sp, (int)i) != s.sext(w.raw[i])) { fail("constant-value", fmt("%s: the constant \"%s\" of %s.%s stores %lld instead of %lld", nm(x).c_str(), s.vals[e].second.c_str(), m.name.c_str(), s.field().c_str(), (long long)a.get(sp, (int)i), (long long)s.sext(w.raw[i]))); return false; }
          st.probes["named values stored"]++;
          break;
        }
    }
    std::vector<int64_t> before;
    std::vector<long double> pb;
    for (size_t i = 0; i < m.sigs.size(); i++)
    {
      before.push_back(a.get(sp, (int)i));
      pb.push_back(!m.sigs[i].simple() && x.opt->flt ? a.getp(sp, (int)i) : 0);
    }
    std::vector<uint8_t> image(sp, sp + a.size);
    Frame fr;
    if (!packOnce(x, mi, sp, (uint64_t)o.num("b"), fr, true)) return false;
    if (!guardsOk(x)) { fail("memory", fmt("%s: Pack of %s writes outside of the message", nm(x).c_str(), m.name.c_str())); return false; }
    // ---- what happened to the stored message
    std::vector<uint64_t> raw;
    for (size_t i = 0; i < m.sigs.size(); i++)
    {
      auto& s = m.sigs[i];
      int64_t v = a.get(sp, (int)i);
      raw.push_back((uint64_t)v & s.mask());
      fr.val.push_back(v);
      fr.eff.push_back(w.eff[i]);
      bool own = (s.role == 1 && x.opt->roll) || (s.role == 2 && x.opt->csm) || (!s.simple() && x.opt->flt);
      if (any({"D01", "D11", "D12"}) && !own && v != before[i]) { fail("sender-touched", fmt("%s: packing %s changes the stored %s from %lld to %lld", nm(x).c_str(), m.name.c_str(), s.field().c_str(), (long long)before[i], (long long)v)); return false; }
      if (any({"D01", "D09", "D11", "D12"}) && !s.simple() && x.opt->flt && !(s.role == 1 && x.opt->roll) && a.getp(sp, (int)i) != pb[i]) { fail("sender-touched", fmt("%s: packing %s changes the stored %s", nm(x).c_str(), m.name.c_str(), s.phys().c_str())); return false; }
      if (s.role == 1 && x.opt->roll && x.opt->flt && !s.simple())
      {
        // the counter belongs to the driver, its physical copy too
        long double got = a.getp(sp, (int)i), want = s.physOf(raw[i]);
        if (any({"D07", "D09", "D11", "D12"}) && !closePhys(s, raw[i], got, x.opt->f32)) { fail("phys-send", fmt("%s: the counter %s.%s is sent as raw %lld, its physical copy says %.12Lg instead of %.12Lg", nm(x).c_str(), m.name.c_str(), s.phys().c_str(), (long long)s.sext(raw[i]), got, want)); return false; }
      }
      else if (any({"D09", "D11", "D12"}) && !s.simple() && x.opt->flt)
      {
        if (pb[i] != w.phys[i] && !s.dbl()) { fail("phys-range", fmt("%s: %s.%s cannot hold the physical value %.9Lg", nm(x).c_str(), m.name.c_str(), s.phys().c_str(), w.phys[i])); return false; }
        if (!closeStep(s, raw[i], w.phys[i], x.opt->f32)) { fail("phys-send", fmt("%s: %s.%s set to %.12Lg is sent as raw %lld, which means %.12Lg (factor %s offset %s)", nm(x).c_str(), m.name.c_str(), s.phys().c_str(), w.phys[i], (long long)s.sext(raw[i]), s.physOf(raw[i]), s.factor.text().c_str(), s.offset.text().c_str())); return false; }
      }
    }
    // D01: values the application wanted; a stored value must be representable in the structure
    if (any({"D01", "D02", "D11", "D12"}))
      for (size_t i = 0; i < m.sigs.size(); i++)
      {
        auto& s = m.sigs[i];
        bool drvSets = (s.role == 1 && x.opt->roll) || (s.role == 2 && x.opt->csm) || (!s.simple() && x.opt->flt);
        if (!drvSets && before[i] != s.sext(w.raw[i])) { fail("field-range", fmt("%s: the field %s of %s cannot hold %lld", nm(x).c_str(), s.field().c_str(), m.name.c_str(), (long long)s.sext(w.raw[i]))); return false; }
      }
    const Sig* rs = m.byRole(1);
    if (rs && x.opt->roll)
    {
      uint64_t want = (x.roll[mi] + 1) & rs->mask();
      uint64_t got = rs->get(fr.d);
      if (any({"D07", "D12", "D11"}) && got != want) { fail("roll-send", fmt("%s: frame of %s carries counter %llu after %llu", nm(x).c_str(), m.name.c_str(), (unsigned long long)got, (unsigned long long)x.roll[mi])); return false; }
      x.roll[mi] = got;
    }
    else if (rs) x.roll[mi] = rs->get(fr.d);
    const Sig* cs = m.byRole(2);
    if (cs && x.opt->csm && any({"D08", "D11", "D12"}))
    {
      uint8_t z[64];
      memcpy(z, fr.d, 64);
      cs->put(z, 0);
      const bool own = !p.cfg[(size_t)x.cfg->c].nohash;
      uint32_t h = own ? hashValue(m, z, m.dlc, m.id, method(cs->method), cs->op) : 0;
      if (own && hashes.empty()) { fail("csm-send", fmt("%s: packing %s does not compute the checksum", nm(x).c_str(), m.name.c_str())); return false; }
      if (!hashArgs(x, m, *cs, z, "packing")) return false;
      if (cs->get(fr.d) != (h & cs->mask())) { fail("csm-send", fmt("%s: frame of %s carries checksum %#llx instead of %#llx", nm(x).c_str(), m.name.c_str(), (unsigned long long)cs->get(fr.d), (unsigned long long)(h & cs->mask()))); return false; }
    }
    else if (any({"D08", "D11"}) && !hashes.empty()) { fail("csm-send", fmt("%s: packing %s computes a checksum nobody asked for", nm(x).c_str(), m.name.c_str())); return false; }
    // ---- the frame
    if (any({"D02", "D08", "D11", "D12"}))
    {
      uint8_t want[64];
      std::vector<uint64_t> rr = raw;
      for (size_t i = 0; i < m.sigs.size(); i++)
      {
        auto& s = m.sigs[i];
        if (s.role == 2 && x.opt->csm) rr[i] = s.get(fr.d);
        else if (s.role == 1 && x.opt->roll) rr[i] = s.get(fr.d);
        else if (s.simple() || !x.opt->flt) rr[i] = w.raw[i];
      }
      reference(x, m, rr, want);
      if (memcmp(want, fr.d, (size_t)m.dlc) != 0)
      {
        std::string which = "unused bits";
        for (size_t i = 0; i < m.sigs.size(); i++) if (m.sigs[i].get(want) != m.sigs[i].get(fr.d)) which = "signal " + m.sigs[i].name;
        fail("frame-bits", fmt("%s: frame of %s is [%s] instead of [%s] (%s)", nm(x).c_str(), m.name.c_str(), bytes(fr.d, m.dlc).c_str(), bytes(want, m.dlc).c_str(), which.c_str()));
        return false;
      }
    }
    if (is("D10"))
    {
      // the same stored message again, other garbage in the mailbox; and through the other interface
      for (size_t c = 0; c < p.cfg.size() + 1; c++)
      {
        Node* y = &x;
        Node other;
        if (c < p.cfg.size())
        {
          auto& oo = p.cfg[c].per[(size_t)x.cfg->d];
          auto& mo = *x.opt;
          if (oo.bits != mo.bits || oo.mon != mo.mon || oo.flt != mo.flt || oo.roll != mo.roll || oo.csm != mo.csm || oo.init != mo.init || oo.f32 != mo.f32 || p.cfg[c].nohash != p.cfg[(size_t)x.cfg->c].nohash) continue;
          other.idx = x.idx;
          other.cfg = x.cfg;
          other.m = x.m;
          other.opt = &oo;
          other.api = fl->api[c][(size_t)x.cfg->d];
          y = &other;
        }
        std::vector<uint8_t> copy = image;
        if (y->api->msg[mi].size != copy.size()) continue;
        Frame g;
        if (!packOnce(*y, mi, copy.data(), (uint64_t)o.num("b") * 77 + 13 + c, g, false)) return false;
        if (memcmp(g.d, fr.d, (size_t)m.dlc) != 0)
        {
          fail(y == &x ? "stale-bytes" : "interfaces-differ", fmt("%s: the same message %s packed %s gives [%s] and [%s]", nm(x).c_str(), m.name.c_str(), y == &x ? "into another buffer" : "through the other interface", bytes(fr.d, m.dlc).c_str(), bytes(g.d, m.dlc).c_str()));
          return false;
        }
        tr.bytes(g.d, 64);
      }
    }
    air[o.num("k")] = fr;
    say(fmt("%s sends %s #%lld id %#x [%s]", nm(x).c_str(), m.name.c_str(), (long long)o.num("k"), m.id, bytes(fr.d, m.dlc).c_str()));
    tr.u64(m.id);
    tr.bytes(fr.d, 64);
    st.probes["frames sent"]++;
    return true;
  }
  bool hashArgs(Node& x, const Msg& m, const Sig& cs, const uint8_t* want, const char* when)
  {
    for (auto& h : hashes)
    {
      if (h.len != m.dlc || h.id != m.id || h.method != method(cs.method) || h.op != cs.op)
      {
        fail("csm-arguments", fmt("%s: %s %s calls the hash with length %d id %#x method %d option %d instead of %d %#x %d %d", nm(x).c_str(), when, m.name.c_str(), h.len, h.id, h.method, h.op, m.dlc, m.id, method(cs.method), cs.op));
        return false;
      }
      if (memcmp(h.d.data(), want, (size_t)m.dlc) != 0) { fail("csm-arguments", fmt("%s: %s %s hashes [%s] instead of [%s]", nm(x).c_str(), when, m.name.c_str(), bytes(h.d.data(), m.dlc).c_str(), bytes(want, m.dlc).c_str())); return false; }
    }
    return true;
  }
  bool doRef(const Json& o)
  {
    int d = (int)o.num("d");
    int mi = msgOf(mat(d), o.str("m"));
    if (mi < 0) return true;
    auto& m = mat(d).msgs[(size_t)mi];
    Frame fr;
    fr.ok = true;
    fr.drv = d;
    fr.id = m.id;
    fr.dlc = m.dlc;
    fr.msg = mi;
    uint64_t seed = (uint64_t)o.num("s");
    Rng r(seed, "payload", 3);
    for (auto& b : fr.d) b = (uint8_t)r.next();
    Want w = wanted(m, seed);
    for (size_t i = 0; i < m.sigs.size(); i++) if (w.eff[i]) m.sigs[i].put(fr.d, w.raw[i]);
    if (const Sig* cs = m.byRole(2)) cs->put(fr.d, userHash(m, fr.d, m.dlc, m.id, cs->method, cs->op));
    if (const Sig* rs = m.byRole(1)) { static const int step[] = {1, 1, 1, 0, 2}; if (!refRoll.count({d, mi}) && r.chance(0.5)) refRoll[{d, mi}] = rs->mask() - r.below(4); refRoll[{d, mi}] += (uint64_t)step[r.below(5)]; rs->put(fr.d, refRoll[{d, mi}] & rs->mask()); }
    for (size_t i = 0; i < m.sigs.size(); i++) { fr.val.push_back(m.sigs[i].sext(m.sigs[i].get(fr.d))); fr.eff.push_back(w.eff[i]); }
    air[o.num("k")] = fr;
    tr.bytes(fr.d, 64);
    say(fmt("independent node sends %s #%lld id %#x [%s]", m.name.c_str(), (long long)o.num("k"), m.id, bytes(fr.d, m.dlc).c_str()));
    return true;
  }
  std::map<std::pair<int, int>, uint64_t> refRoll;
  bool doForeign(const Json& o)
  {
    Frame fr;
    fr.ok = true;
    fr.drv = (int)o.num("d");
    fr.id = (uint32_t)o.num("id");
    fr.dlc = (int)o.num("l", 8);
    Rng r((uint64_t)o.num("s"), "foreign", 1);
    for (auto& b : fr.d) b = (uint8_t)r.next();
    fr.msg = -1;
    air[o.num("k")] = fr;
    say(fmt("foreign frame #%lld id %#x", (long long)o.num("k"), fr.id));
    return true;
  }
  bool doDeliver(const Json& o)
  {
    auto it = air.find(o.num("k"));
    if (it == air.end() || !it->second.ok) return true;
    const Frame& f = it->second;
    Node& x = n[(size_t)o.num("n")];
    if (!x.up || x.cfg->d != f.drv || !x.util->receive) return true;
    // mailbox with the frame, the bytes after it are left from earlier traffic
    uint8_t box[BOX], keep[BOX];
    Rng r((uint64_t)o.num("b"), "rx", 5);
    for (auto& b : box) b = (uint8_t)r.next();
    uint8_t* d = box + DATA;
    int dlc = f.dlc;
    bool intact = true;
    memcpy(d, f.d, (size_t)std::min(f.dlc, 64));
    if (auto fl = o.find("flip"))
      for (auto& b : fl->a) if (b.i < dlc * 8) { d[b.i / 8] ^= (uint8_t)(1u << (b.i % 8)); intact = false; }
    if (o.has("dlc"))
    {
      dlc = (int)o.num("dlc");
      if (dlc < f.dlc) { for (int i = dlc; i < 64; i++) d[i] = (uint8_t)r.next(); intact = false; }
    }
    uint32_t id = f.id;
    if (o.has("id")) { id = (uint32_t)o.num("id"); intact = intact && id == f.id; }
    memcpy(keep, box, BOX);
    int mi0 = msgOfId(*x.m, id);
    bool accept = mi0 >= 0 && x.rxWant[(size_t)mi0];
    size_t mi = accept ? (size_t)mi0 : 0;
    const Msg* m = accept ? &x.m->msgs[mi] : nullptr;
    std::vector<uint8_t> before = x.rxMem;
    std::vector<std::vector<uint8_t>> othersBefore;
    if (p.drv.size() > 1) for (auto& y : n) othersBefore.push_back(y.rxMem);
    cur = &x;
    curMsg = m;
    curSlot = accept ? slot(x, mi) : nullptr;
    curSize = accept ? x.api->msg[mi].size : 0;
    hashes.clear();
    mons.clear();
    ticks = 0;
    uint32_t ret = 0;
    if (!call(("receiving " + (m ? m->name : "a foreign frame")).c_str(), [&] { ret = x.util->receive(x.rx(), d, id, (uint8_t)dlc); })) return false;
    std::string who = nm(x), what = m ? m->name : fmt("id %#x", id);
    // ---- D03
    if (any({"D03", "D04", "D12"}))
    {
      if (accept ? ret != m->id : ret != 0) { fail("dispatch-return", fmt("%s: receiving %s returns %#x", who.c_str(), what.c_str(), ret)); return false; }
      size_t from = accept ? (size_t)(curSlot - x.rxMem.data()) : 0, to = from + curSize;
      for (size_t i = 0; i < before.size(); i++)
      {
        if (i >= from && i < to && accept) continue;
        if (before[i] != x.rxMem[i])
        {
          std::string victim = "memory outside of all messages";
          for (size_t k = 0; k < x.m->msgs.size(); k++) if (x.rxWant[k] && (long)i >= slot(x, k) - x.rxMem.data() && (long)i < slot(x, k) - x.rxMem.data() + (long)x.api->msg[k].size) victim = "message " + x.m->msgs[k].name;
          fail(accept ? "other-touched" : "foreign-touched", fmt("%s: receiving %s changes %s", who.c_str(), what.c_str(), victim.c_str()));
          return false;
        }
      }
      if (memcmp(keep, box, BOX) != 0) { fail("frame-modified", fmt("%s: receiving %s modifies the frame", who.c_str(), what.c_str())); return false; }
      if (p.drv.size() > 1)
        for (size_t k = 0; k < n.size(); k++) if (&n[k] != &x && n[k].rxMem != othersBefore[k]) { fail("other-touched", fmt("%s: receiving %s changes %s", who.c_str(), what.c_str(), nm(n[k]).c_str())); return false; }
    }
    if (!guardsOk(x)) { fail("memory", who + ": receiving " + what + " writes outside of the receive structure"); return false; }
    tr.u64((uint64_t)x.idx << 32 | id);
    tr.u64(accept);
    st.probes[accept ? intact ? "intact frames received" : "damaged frames received" : "frames for others"]++;
    if (!accept)
    {
      if (any({"D05", "D12", "D15"}) && !mons.empty()) { fail("hook-count", fmt("%s: a monitor function is called for %s, which the node does not receive", who.c_str(), what.c_str())); return false; }
      if (any({"D05", "D15", "D14"}) && before != x.rxMem) { fail("foreign-touched", fmt("%s: receiving %s changes stored messages", who.c_str(), what.c_str())); return false; }
      say(fmt("%s ignores #%lld (%s)", who.c_str(), (long long)o.num("k"), what.c_str()));
      return true;
    }
    auto& a = x.api->msg[mi];
    uint8_t* sp = curSlot;
    MonRec& md = x.model[mi];
    bool full = dlc >= m->dlc;
    std::vector<int64_t> got;
    for (size_t i = 0; i < m->sigs.size(); i++) got.push_back(a.get(sp, (int)i));
    if (log)
    {
      std::string s;
      for (size_t i = 0; i < m->sigs.size() && i < 12; i++) s += fmt(" %s=%lld", m->sigs[i].name.c_str(), (long long)got[i]);
      say(fmt("%s receives %s #%lld dlc %d [%s]%s:%s", who.c_str(), m->name.c_str(), (long long)o.num("k"), dlc, bytes(d, m->dlc).c_str(), intact ? "" : " damaged", s.c_str()));
    }
    if (full && is("D16"))
      for (size_t i = 0; i < m->sigs.size(); i++)
      {
        auto& s = m->sigs[i];
        for (size_t e = 0; e < s.vals.size() && e < 100; e++)
        {
          if (!s.named(e)) continue;
          bool same = ((uint64_t)s.vals[e].first & s.mask()) == s.get(d);
          if (a.named(sp, (int)i, (int)e, 2) != same)
          {
            fail("constant-value", fmt("%s: %s [%s]: %s = %lld is %sequal to the constant \"%s\" (%lld)", who.c_str(), m->name.c_str(), bytes(d, m->dlc).c_str(), s.field().c_str(), (long long)got[i], same ? "not " : "", s.vals[e].second.c_str(), (long long)s.sext((uint64_t)s.vals[e].first)));
            return false;
          }
          if (same) st.probes["named values recognised"]++;
        }
      }
    // ---- values
    if (full)
      for (size_t i = 0; i < m->sigs.size(); i++)
      {
        auto& s = m->sigs[i];
        int64_t want = s.sext(s.get(d));
        if (any({"D02", "D04", "D11", "D12"}) && got[i] != want)
        {
          fail("decode", fmt("%s: %s [%s] is read as %s = %lld instead of %lld", who.c_str(), m->name.c_str(), bytes(d, m->dlc).c_str(), s.field().c_str(), (long long)got[i], (long long)want));
          return false;
        }
        if (is("D01") && intact && f.msg == (int)mi && f.from >= 0 && f.eff[i] && got[i] != f.val[i])
        {
          fail("value-lost", fmt("%s: %s.%s was %lld at the sender (node %d) and is %lld here; frame [%s]", who.c_str(), m->name.c_str(), s.field().c_str(), (long long)f.val[i], f.from, (long long)got[i], bytes(d, m->dlc).c_str()));
          return false;
        }
        if (x.opt->flt && !s.simple() && any({"D09", "D11", "D12"}))
        {
          long double ph = a.getp(sp, (int)i);
          if (!closePhys(s, s.get(d), ph, x.opt->f32))
          {
            fail("phys-receive", fmt("%s: %s.%s: raw %lld is presented as %.12Lg instead of %.12Lg (factor %s offset %s)", who.c_str(), m->name.c_str(), s.phys().c_str(), (long long)s.sext(s.get(d)), ph, s.physOf(s.get(d)), s.factor.text().c_str(), s.offset.text().c_str()));
            return false;
          }
        }
      }
    // ---- monitors
    if (x.opt->mon)
    {
      const FrameMonitor rec = mon(x, mi), *fm = &rec;
      uint32_t tick = p.cfg[(size_t)x.cfg->c].notick ? 0 : tickOf(x);
      if (any({"D05", "D12", "D11", "D15"}))
      {
        if (fm->frame_cnt != md.cnt + 1 && !is("D15")) { fail("frame-count", fmt("%s: frame counter of %s goes from %u to %u", who.c_str(), m->name.c_str(), md.cnt, fm->frame_cnt)); return false; }
        if (fm->last_cycle != tick) { fail("time-stamp", fmt("%s: %s received at tick %u is stamped %u", who.c_str(), m->name.c_str(), tick, fm->last_cycle)); return false; }
        if (fm->timeout_cycle != md.timeout || fm->cycle_error != md.cycleError) { fail("application-field", fmt("%s: receiving %s changes the timeout or cycle error the application owns", who.c_str(), m->name.c_str())); return false; }
      }
      if (any({"D05", "D12", "D06"}) && !p.cfg[(size_t)x.cfg->c].stubs)
      {
        if (mons.size() != 1) { fail("hook-count", fmt("%s: receiving %s calls %zu monitor functions", who.c_str(), m->name.c_str(), mons.size())); return false; }
        auto& c = mons[0];
        if (c.p != monPtr(x, mi) || c.id != m->id || c.drv != x.cfg->d || c.which != (x.opt->mono ? -1 : (int)mi))
        {
          fail("hook-arguments", fmt("%s: receiving %s calls the monitor function %d with %s and id %#x", who.c_str(), m->name.c_str(), c.which, c.p == monPtr(x, mi) ? "its monitor" : "another monitor", c.id));
          return false;
        }
        if (c.snap.size() == a.size && memcmp(c.snap.data(), sp, a.size) != 0 && any({"D05", "D12"})) { fail("hook-early", fmt("%s: %s still changes after its monitor function has run", who.c_str(), m->name.c_str())); return false; }
        if (is("D06"))
        {
          const FrameMonitor sm = monAt(x, c.snap.data() + a.mon);
          if (sm.dlc_error != (dlc < m->dlc)) { fail("dlc-flag", fmt("%s: inside the monitor function of %s the length flag is %u for a frame of %d bytes (matrix %d)", who.c_str(), m->name.c_str(), sm.dlc_error, dlc, m->dlc)); return false; }
        }
      }
      if (any({"D06", "D11", "D12"}) && fm->dlc_error != (dlc < m->dlc)) { fail("dlc-flag", fmt("%s: length flag of %s is %u after a frame of %d bytes (matrix %d)", who.c_str(), m->name.c_str(), fm->dlc_error, dlc, m->dlc)); return false; }
      const Sig* rs = m->byRole(1);
      if (any({"D07", "D11", "D12"}))
      {
        if (rs && x.opt->roll)
        {
          uint64_t c = (uint64_t)a.get(sp, (int)(rs - m->sigs.data())) & rs->mask(), e = md.expt;
          if (fm->roll_error != (c != e)) { fail("roll-flag", fmt("%s: %s with counter %llu after expecting %llu: rolling error %u", who.c_str(), m->name.c_str(), (unsigned long long)c, (unsigned long long)e, fm->roll_error)); return false; }
        }
        else if (fm->roll_error) { fail("roll-flag", fmt("%s: rolling error of %s without a counter", who.c_str(), m->name.c_str())); return false; }
      }
      if (rs) md.expt = ((uint64_t)a.get(sp, (int)(rs - m->sigs.data())) + 1) & rs->mask();
      const Sig* cs = m->byRole(2);
      if (any({"D08", "D11", "D12"}))
      {
        if (cs && x.opt->csm)
        {
          if (!hashArgs(x, *m, *cs, d, "receiving")) return false;
          uint32_t h = p.cfg[(size_t)x.cfg->c].nohash ? 0 : hashValue(*m, d, m->dlc, m->id, method(cs->method), cs->op);
          bool err = (h & cs->mask()) != cs->get(d);
          if (fm->csm_error != err) { fail("csm-flag", fmt("%s: %s [%s] has checksum %#llx, the hash is %#llx, checksum error %u", who.c_str(), m->name.c_str(), bytes(d, m->dlc).c_str(), (unsigned long long)cs->get(d), (unsigned long long)(h & cs->mask()), fm->csm_error)); return false; }
        }
        else if (fm->csm_error) { fail("csm-flag", fmt("%s: checksum error of %s without a checksum", who.c_str(), m->name.c_str())); return false; }
      }
      md.cnt = fm->frame_cnt;
      md.last = tick;
      tr.u64((uint64_t)fm->dlc_error | fm->roll_error << 1 | fm->csm_error << 2 | (uint64_t)fm->frame_cnt << 8);
    }
    md.known = intact;
    md.v = got;
    for (auto v : got) tr.u64((uint64_t)v);
    return true;
  }
  // ---- application level supervision (D15)
  bool doWatch(const Json& o)
  {
    Node& x = n[(size_t)o.num("n")];
    for (size_t i = 0; i < x.m->msgs.size(); i++)
    {
      auto& m = x.m->msgs[i];
      if (!x.rxWant[i] || !x.opt->mon || m.cycle <= 0) continue;
      uint32_t tick = tickOf(x);
      const FrameMonitor rec = mon(x, i), *fm = &rec;
      uint32_t tmo = 3 * (uint32_t)x.api->msg[i].cyc;
      bool silent = (uint32_t)(tick - fm->last_cycle) > tmo;
      bool truth = (uint32_t)(tick - x.model[i].last) > (uint32_t)m.cycle * 3;
      st.probes[truth ? "watchdog: silent" : "watchdog: alive"]++;
      if (silent != truth) { fail("watchdog", fmt("%s: the watchdog takes %s for %s at tick %u (last frame at %u, stamped %u)", nm(x).c_str(), m.name.c_str(), silent ? "silent" : "alive", tick, x.model[i].last, fm->last_cycle)); return false; }
      tr.u64(silent);
    }
    return true;
  }
  // the conversion macros on their own
  bool conversions(Node& x, size_t i)
  {
    auto& m = x.m->msgs[i];
    auto& a = x.api->msg[i];
    Rng r(m.id, m.name, x.cfg->c);
    std::vector<uint64_t> mem(a.size / 8 + 2);
    for (size_t k = 0; k < m.sigs.size(); k++)
    {
      auto& s = m.sigs[k];
      if (s.simple()) continue;
      for (int t = 0; t < 6; t++)
      {
        uint64_t raw = t == 0 ? 0 : t == 1 ? s.mask() : t == 2 ? s.mask() >> 1 : t == 3 ? (s.mask() >> 1) + 1 : r.next() & s.mask();
        long double want = s.physOf(raw), got = 0;
        if (fabsl(want) > 4e18L || (!s.sgn && raw >> 62)) continue;
        a.set(mem.data(), (int)k, s.sext(raw));
        int sz = a.conv(mem.data(), (int)k, 0, 0, &got);
        if (!sz) continue;
        bool ok = closePhys(s, raw, got, false);
        if (!ok && !s.dbl()) ok = sz == 4 ? (uint32_t)(long long)got == (uint32_t)(long long)want : sz == 8 && (got < 0 ? (uint64_t)(long long)got : (uint64_t)got) == (uint64_t)(long long)want;
        if (!ok) { fail("conversion", fmt("%s: raw %lld of %s.%s is converted to %.12Lg instead of %.12Lg (factor %s offset %s)", nm(x).c_str(), (long long)s.sext(raw), m.name.c_str(), s.field().c_str(), got, want, s.factor.text().c_str(), s.offset.text().c_str())); return false; }
        long double ph = s.dbl() ? (long double)(double)want : want;
        a.conv(mem.data(), (int)k, 1, ph, &got);
        uint64_t back = (uint64_t)a.get(mem.data(), (int)k) & s.mask();
        if (!closeStep(s, back, ph, false)) { fail("conversion", fmt("%s: the physical value %.12Lg of %s.%s is converted to raw %lld, which means %.12Lg (factor %s offset %s)", nm(x).c_str(), ph, m.name.c_str(), s.field().c_str(), (long long)s.sext(back), s.physOf(back), s.factor.text().c_str(), s.offset.text().c_str())); return false; }
        st.probes["conversion macros evaluated"]++;
      }
    }
    return true;
  }
  bool macros()
  {
    for (auto& x : n)
      for (size_t i = 0; i < x.m->msgs.size(); i++)
      {
        auto& m = x.m->msgs[i];
        auto& a = x.api->msg[i];
        long cyc = m.cycle > 0 ? m.cycle : -1;
        if (any({"D15", "D12"}) && a.cyc != cyc) { fail("cycle-constant", fmt("the cycle constant of %s is %ld instead of %ld (-1: none)", m.name.c_str(), a.cyc, cyc)); return false; }
        if (any({"D11", "D12", "D16"}))
          for (size_t k = 0; k < m.sigs.size(); k++)
            for (size_t e = 0; e < m.sigs[k].vals.size() && e < 100; e++)
              if (m.sigs[k].named(e) && a.named(x.rxMem.data(), (int)k, (int)e, 0) == 0) { fail("constant-missing", fmt("there is no constant for \"%s\" of %s.%s", m.sigs[k].vals[e].second.c_str(), m.name.c_str(), m.sigs[k].name.c_str())); return false; }
        if (any({"D09", "D11", "D12"}) && !m.sigs.empty() && !conversions(x, i)) return false;
        if (any({"D02", "D03", "D06", "D10", "D12", "D14"}) && (a.canid != (long)m.id || a.dlc != m.dlc || a.ide != m.ext)) { fail("constants", fmt("the constants of %s are id %#lx dlc %ld ide %ld", m.name.c_str(), a.canid, a.dlc, a.ide)); return false; }
      }
    return true;
  }
  // ---- D14: state of all nodes after the faults have stopped
  bool doConverged(const Json& o)
  {
    int round = (int)o.num("round");
    for (auto& f : o.at("frames").a)
    {
      auto it = air.find(f.i);
      if (it == air.end() || it->second.from < 0) continue;
      const Frame& fr = it->second;
      for (auto& x : n)
      {
        if (x.cfg->d != fr.drv || x.idx == fr.from || !x.rxWant[(size_t)fr.msg]) continue;
        size_t mi = (size_t)fr.msg;
        auto& m = x.m->msgs[mi];
        for (size_t i = 0; i < m.sigs.size(); i++)
        {
          if (!fr.eff[i]) continue;
          int64_t v = x.api->msg[mi].get(slot(x, mi), (int)i);
          if (v != fr.val[i]) { fail("not-converged", fmt("%s: after the faults stopped and %s was sent again %s is %lld, the sender has %lld", nm(x).c_str(), m.name.c_str(), m.sigs[i].field().c_str(), (long long)v, (long long)fr.val[i])); return false; }
          if (x.opt->flt && n[(size_t)fr.from].opt->flt && !m.sigs[i].simple())
          {
            long double a = x.api->msg[mi].getp(slot(x, mi), (int)i), b = n[(size_t)fr.from].api->msg[mi].getp(sendSlot(n[(size_t)fr.from], mi), (int)i);
            if (!closeStep(m.sigs[i], (uint64_t)v & m.sigs[i].mask(), a, x.opt->f32) || (m.sigs[i].dbl() ? fabsl(a - b) > fabsl(m.sigs[i].factor.value()) * 1.01L + fabsl(b) * (x.opt->f32 || n[(size_t)fr.from].opt->f32 ? 1e-6L : 1e-15L) : a != b)) { fail("not-converged", fmt("%s: %s.%s stays at %.9Lg, the sender has %.9Lg", nm(x).c_str(), m.name.c_str(), m.sigs[i].phys().c_str(), a, b)); return false; }
          }
        }
        if (!x.opt->mon) continue;
        const FrameMonitor rec = mon(x, mi), *fm = &rec;
        if (fm->dlc_error) { fail("not-converged", fmt("%s: length error of %s stays set", nm(x).c_str(), m.name.c_str())); return false; }
        if (fm->csm_error && n[(size_t)fr.from].opt->csm) { fail("not-converged", fmt("%s: checksum error of %s stays set", nm(x).c_str(), m.name.c_str())); return false; }
        if (round >= 2 && fm->roll_error && n[(size_t)fr.from].opt->roll) { fail("not-converged", fmt("%s: rolling error of %s stays set after two good frames", nm(x).c_str(), m.name.c_str())); return false; }
        st.probes["converged messages"]++;
      }
    }
    return true;
  }
  void runOps()
  {
    g_w = this;
    if (!macros()) return;
    for (auto& o : p.ops.a)
    {
      now = std::max(now, o.num("t", now));
      std::string k = o.str("o");
      bool go = true;
      if (o.has("n") && (size_t)o.num("n") >= n.size()) continue;
      if (o.has("d") && (size_t)o.num("d") >= p.drv.size()) continue;
      st.steps++;
      if (k == "send") go = doSend(o);
      else if (k == "ref") go = doRef(o);
      else if (k == "foreign") { go = doForeign(o); fault("foreign-frame"); }
      else if (k == "rx")
      {
        if (o.has("flip")) fault("bit-flip");
        if (o.has("dlc")) fault(o.flag("long") ? "over-long" : "truncation");
        if (o.has("id")) fault("identifier-damage");
        if (o.flag("late")) fault("reorder-delay");
        if (o.flag("dup")) fault("duplicate");
        go = doDeliver(o);
      }
      else if (k == "lost") { fault(o.flag("part") ? "partition-loss" : "loss"); say(fmt("frame #%lld lost on the way to node %lld", (long long)o.num("k"), (long long)o.num("n"))); }
      else if (k == "power") { power(n[(size_t)o.num("n")], (uint32_t)o.num("tick"), (uint64_t)o.num("ctr")); if (o.flag("fault")) fault("restart"); say(fmt("%s starts with tick %u", nm(n[(size_t)o.num("n")]).c_str(), (unsigned)o.num("tick"))); tr.u64((uint64_t)o.num("tick")); }
      else if (k == "jump") { n[(size_t)o.num("n")].tickBase += (uint32_t)o.num("by"); fault("clock-jump"); say(fmt("clock of node %lld jumps by %lld", (long long)o.num("n"), (long long)o.num("by"))); }
      else if (k == "watch") go = doWatch(o);
      else if (k == "check") go = doConverged(o);
      if (!go || bad()) break;
    }
    st.simNs += now * 1000000;
  }
  void fault(const char* k) { st.fired[k]++; interesting = true; }
  void tasks();
};
uint32_t hostTick() { g_w->ticks++; return g_w->cur ? g_w->tickOf(*g_w->cur) : 0; }
uint32_t hostHash(const uint8_t* d, int len, uint32_t id, int method, int op)
{
  HashCall h;
  h.d.assign(64, 0);
  memcpy(h.d.data(), d, (size_t)std::max(0, std::min(len, 64)));
  h.len = len;
  h.id = id;
  h.method = method;
  h.op = op;
  static const Msg none;
  h.ret = g_w->hashValue(g_w->curMsg ? *g_w->curMsg : none, d, len, id, method, op);
  if (g_w->hashes.size() < 16) g_w->hashes.push_back(h);
  return h.ret;
}
void hostMon(void* p, uint32_t id, int drv, int which)
{
  MonCall c;
  c.p = p;
  c.id = id;
  c.drv = drv;
  c.which = which;
  if (g_w->curSlot) c.snap.assign(g_w->curSlot, g_w->curSlot + g_w->curSize);
  if (g_w->mons.size() < 16) g_w->mons.push_back(c);
}

// ---------------------------------------------------------------- D13: contexts that preempt each other
// Instrumented drivers call access() before every memory access; the simulator switches contexts there.
struct Task
{
  ucontext_t uc;
  std::vector<char> stack;
  int node = 0;
  bool done = false, started = false;
  std::vector<const Json*> jobs;
  std::vector<uint8_t> rx;
  std::vector<std::vector<uint8_t>> tx;
  std::vector<std::vector<uint8_t>> boxes;            // what every job produced
  // host context
  const Msg* curMsg = nullptr;
  uint32_t tick = 0;
};
struct Threads
{
  World& w;
  std::vector<Task> t;
  ucontext_t mainUc;
  int running = -1;
  int64_t accesses = 0;
  const std::vector<std::pair<int64_t, int>>* sched = nullptr;
  size_t at = 0;
  int64_t switches = 0;
  // frames which several contexts receive (they are handed out by reference)
  std::map<std::tuple<const Matrix*, int, uint64_t>, std::vector<uint8_t>> hub;
  std::string hubWrite;
  explicit Threads(World& x) : w(x) {}
};
Threads* g_t = nullptr;
void switchTo(int k)
{
  int old = g_t->running;
  if (k == old) return;
  g_t->running = k;
  g_t->switches++;
  swapcontext(&g_t->t[(size_t)old].uc, &g_t->t[(size_t)k].uc);
}
void hostAccess(const void* p, int write)
{
  if (!g_t || g_t->running < 0) return;
  Threads& s = *g_t;
  if (write && s.hubWrite.empty())
    for (auto& h : s.hub)
      if ((const uint8_t*)p >= h.second.data() && (const uint8_t*)p < h.second.data() + h.second.size()) s.hubWrite = std::get<0>(h.first)->msgs[(size_t)std::get<1>(h.first)].name;
  int64_t a = s.accesses++;
  if (!s.sched || s.at >= s.sched->size() || (*s.sched)[s.at].first > a) return;
  int to = (*s.sched)[s.at++].second % (int)s.t.size();
  if (!s.t[(size_t)to].done) switchTo(to);
}
void body(Task& t)
{
  World& w = g_t->w;
  Node& x = w.n[(size_t)t.node];
  for (auto j : t.jobs)
  {
    const Json& o = *j;
    int mi = w.msgOf(*x.m, o.str("m"));
    if (mi < 0 || x.m->msgs[(size_t)mi].sigs.empty()) continue;
    auto& m = x.m->msgs[(size_t)mi];
    auto& a = x.api->msg[mi];
    t.curMsg = &m;
    uint64_t seed = (uint64_t)o.num("s");
    World::Want want = w.wanted(m, seed);
    std::vector<uint8_t> box(BOX, 0);
    Rng r(seed, "box", 9);
    for (auto& b : box) b = (uint8_t)r.next();
    t.tick = (uint32_t)seed;
    if (o.str("o") == "pack")
    {
      uint8_t* sp = t.tx[(size_t)mi].data();
      for (size_t i = 0; i < m.sigs.size(); i++)
      {
        auto& s = m.sigs[i];
        if (s.role && (x.opt->roll || x.opt->csm)) continue;
        if (!s.simple() && x.opt->flt) a.setp(sp, (int)i, want.phys[i]);
        else a.set(sp, (int)i, s.sext(want.raw[i]));
      }
      uint8_t* data = nullptr;
      uint8_t len = 0, ide = 0;
      uint32_t id = 0;
      uint32_t ret = a.pack(sp, box.data() + DATA, &data, &len, &ide, &id);
      box.push_back(len);
      box.push_back(ide);
      for (int i = 0; i < 4; i++) { box.push_back((uint8_t)(id >> (8 * i))); box.push_back((uint8_t)(ret >> (8 * i))); }
    }
    else
    {
      for (size_t i = 0; i < m.sigs.size(); i++) if (want.eff[i]) m.sigs[i].put(box.data() + DATA, want.raw[i]);
      uint32_t ret = 0;
      uint8_t* frame = box.data();
      if (o.flag("hub"))
      {
        auto& h = g_t->hub[{x.m, mi, seed}];
        if (h.empty()) h = box;
        w.st.probes["frames handed to several contexts by reference"]++;
        frame = h.data();
      }
      if (o.flag("direct") || !x.util->receive || x.util->rxOff[mi] < 0) ret = a.unpack(t.tx[(size_t)mi].data(), frame + DATA, (uint8_t)m.dlc);
      else ret = x.util->receive(t.rx.data(), frame + DATA, m.id, (uint8_t)m.dlc);
      if (frame != box.data()) std::copy(frame, frame + box.size(), box.begin());
      for (int i = 0; i < 4; i++) box.push_back((uint8_t)(ret >> (8 * i)));
    }
    t.boxes.push_back(box);
  }
}
void trampoline()
{
  Threads& s = *g_t;
  Task& t = s.t[(size_t)s.running];
  body(t);
  t.done = true;
  for (size_t i = 0; i < s.t.size(); i++)
    if (!s.t[i].done)
    {
      s.running = (int)i;
      setcontext(&s.t[i].uc);
    }
  s.running = -1;
  setcontext(&s.mainUc);
}
uint32_t taskTick() { return g_t && g_t->running >= 0 ? g_t->t[(size_t)g_t->running].tick : 0; }
uint32_t taskHash(const uint8_t* d, int len, uint32_t id, int method, int op)
{
  static const Msg none;
  const Msg* m = g_t && g_t->running >= 0 ? g_t->t[(size_t)g_t->running].curMsg : nullptr;
  return g_t->w.hashValue(m ? *m : none, d, len, id, method, op);
}
void taskMon(void*, uint32_t, int, int) {}
const SimHost g_taskHost = {taskTick, taskHash, taskMon, hostAccess};

void World::tasks()
{
  g_w = this;
  for (auto& f : fl->init) f(&g_taskHost);
  // contexts: ops with a task number
  int k = 0;
  std::vector<std::pair<int64_t, int>> sched;
  for (auto& o : p.ops.a)
  {
    if (o.str("o") == "switch") sched.push_back({o.num("a"), (int)o.num("to")});
    else k = std::max(k, (int)o.num("task") + 1);
  }
  if (!k) return;
  auto run = [&](const std::vector<int>& which, bool preempt, Threads& th) -> bool
  {
    th.t.clear();
    th.t.resize(which.size());
    for (size_t i = 0; i < which.size(); i++)
    {
      Task& t = th.t[i];
      for (auto& o : p.ops.a) if (o.str("o") != "switch" && o.num("task") == which[i]) { t.jobs.push_back(&o); t.node = (int)o.num("n"); }
      if (t.jobs.empty() || (size_t)t.node >= n.size()) { t.jobs.clear(); t.node = 0; }
      Node& x = n[(size_t)t.node];
      t.rx.assign(x.util->rxSize + 16, 0);
      for (size_t q = 0; q < x.m->msgs.size(); q++) t.tx.push_back(std::vector<uint8_t>(x.api->msg[q].size + 16, 0));
      t.stack.assign(192 * 1024, 0);
      getcontext(&t.uc);
      t.uc.uc_stack.ss_sp = t.stack.data();
      t.uc.uc_stack.ss_size = t.stack.size();
      t.uc.uc_link = nullptr;
      makecontext(&t.uc, trampoline, 0);
    }
    th.accesses = 0;
    th.at = 0;
    th.sched = preempt ? &sched : nullptr;
    g_t = &th;
    bool ok = call("a preempted driver call", [&] { th.running = 0; swapcontext(&th.mainUc, &th.t[0].uc); });
    g_t = nullptr;
    if (ok && !th.hubWrite.empty()) { fail("writes-received-frame", fmt("unpacking %s writes into the received frame, which other contexts read", th.hubWrite.c_str())); return false; }
    return ok;
  };
  std::vector<Task> solo;
  int64_t total = 0;
  for (int i = 0; i < k; i++)
  {
    Threads th(*this);
    if (!run({i}, false, th)) return;
    total += th.accesses;
    solo.push_back(std::move(th.t[0]));
  }
  // hidden state may also survive from run to run: once more alone, in other order
  for (int i = k - 1; i >= 0; i--)
  {
    Threads th(*this);
    if (!run({i}, false, th)) return;
    if (th.t[0].boxes != solo[(size_t)i].boxes || th.t[0].rx != solo[(size_t)i].rx || th.t[0].tx != solo[(size_t)i].tx) { fail("hidden-state", fmt("context %d alone gives different results after other calls", i)); return; }
  }
  Threads th(*this);
  std::vector<int> all;
  for (int i = 0; i < k; i++) all.push_back(i);
  if (!run(all, true, th)) return;
  st.fired["preemption"] += th.switches;
  interesting = th.switches > 0;
  st.steps += th.accesses;
  st.probes["instrumented accesses"] += th.accesses;
  tr.u64((uint64_t)th.switches);
  tr.u64((uint64_t)th.accesses);
  for (int i = 0; i < k; i++)
  {
    auto& a = solo[(size_t)i];
    auto& b = th.t[(size_t)i];
    std::string what;
    for (size_t q = 0; q < a.boxes.size() && what.empty(); q++)
      if (q >= b.boxes.size() || a.boxes[q] != b.boxes[q]) what = fmt("job %zu (%s %s) gives another result", q, a.jobs[q]->str("o").c_str(), a.jobs[q]->str("m").c_str());
    if (what.empty() && a.rx != b.rx) what = "received messages differ";
    if (what.empty() && a.tx != b.tx) what = "message objects differ";
    for (auto& q : b.boxes) tr.bytes(q.data(), q.size());
    if (!what.empty()) { fail("not-reentrant", fmt("context %d (%s), preempted %lld times in all: %s than when it runs alone", i, nm(n[(size_t)a.node]).c_str(), (long long)th.switches, what.c_str())); return; }
  }
  if (log) say(fmt("%lld accesses, %lld switches", (long long)th.accesses, (long long)th.switches));
  for (auto& f : fl->init) f(&g_host);
}

// ---------------------------------------------------------------- plans
bool fitsInt(const Sig& s)
{
  __int128 lo = s.sgn ? -((__int128)1 << (s.len - 1)) : 0, hi = s.sgn ? ((__int128)1 << (s.len - 1)) - 1 : ((__int128)1 << s.len) - 1;
  __int128 a = lo * s.factor.m + s.offset.m, b = hi * s.factor.m + s.offset.m, L = ((__int128)1 << 63) - 1;
  return a >= -L - 1 && a <= L && b >= -L - 1 && b <= L;
}
void domain(Matrix& m)
{
  for (auto& g : m.msgs)
    for (auto& s : g.sigs)
      if (!s.simple() && !s.dbl() && !fitsInt(s)) { s.factor = {1, 0}; s.offset = {0, 0}; s.min = "0"; s.max = "0"; }
}
int maxSigned(const Matrix& m) { int r = 0; for (auto& g : m.msgs) for (auto& s : g.sigs) if (s.sgn) r = std::max(r, s.len); return r; }

struct Sched
{
  struct Ev { int64_t t; uint64_t n; Json o; bool operator<(const Ev& b) const { return t != b.t ? t > b.t : n > b.n; } };
};
BusPlan makeFleet(Rng& r, const std::string& prop)
{
  BusPlan p;
  p.prop = prop;
  Profile f = randomProfile(r);
  auto raise = [&](double& v, double lo) { if (v < lo) v = lo; };
  if (prop == "D04") { raise(f.moreTx, 0.3); f.nodes = std::max(f.nodes, 2); raise(f.empty, 0.1); f.msgs = std::max(f.msgs, 3); }
  if (prop == "D03") { f.msgs = r.chance(0.3) ? (int)r.range(10, 24) : std::max(f.msgs, 3); f.sigs = std::min(f.sigs, 4); }
  if ((prop == "D02" || prop == "D03" || prop == "D04" || prop == "D15") && r.chance(prop == "D03" ? 0.06 : 0.03))
  {
    // a matrix of the size of a whole vehicle
    f.msgs = r.chance(0.6) ? (int)r.range(60, 150) : (int)r.range(256, 330);
    f.sigs = 1;
    f.vals = f.comment = f.mux = 0;
    f.nodes = r.chance(0.3) ? (int)r.range(10, 40) : f.nodes;
  }
  if ((prop == "D11" || prop == "D02") && r.chance(prop == "D11" ? 0.04 : 0.01))
  {
    f.crowd = true;
    f.msgs = (int)r.range(1, 2);
    f.vals = f.comment = 0;
    f.roll = f.csm = f.phys = 0;
  }
  if (prop == "D07") { raise(f.roll, 0.8); raise(f.phys, 0.3); }
  if (prop == "D08") raise(f.csm, 0.8);
  if (prop == "D09") { raise(f.phys, 0.7); }
  if (prop == "D10") raise(f.fd, 0.3);
  if (prop == "D14") { raise(f.roll, 0.3); raise(f.csm, 0.3); }
  if (prop == "D15") raise(f.cycle, 0.6);
  if (prop == "D16") { raise(f.vals, 0.6); raise(f.phys, 0.3); }
  int drivers = prop == "D12" ? 2 : 1;
  if (prop == "D13") f.msgs = std::min(f.msgs, 6);
  for (int d = 0; d < drivers; d++)
  {
    DrvSrc s;
    Profile q = f;
    if (drivers > 1) { q.prefix = d ? "Bx_" : "Ax_"; q.msgs = std::min(q.msgs, 6); }
    s.m = randomMatrix(r, q);
    domain(s.m);
    if (d && r.chance(0.35))
    {
      // names which resemble each other, one may be the beginning of the other
      std::string a = p.drv[0].m.drv;
      s.m.drv = r.chance(0.4) ? a + r.pick(std::vector<std::string>{"2", "_b", "x", "_aux", "0"}) : a.size() > 1 ? a.substr(0, a.size() - 1) + (tolower((unsigned char)a.back()) == 'q' ? "w" : "q") : a + "b";
    }
    if (d && lower(s.m.drv) == lower(p.drv[0].m.drv)) s.m.drv = p.drv[0].m.drv == "other" ? "other2" : "other";
    s.nodeutils = r.chance(prop == "D04" ? 0.85 : 0.6);
    if (s.m.msgs.size() > 255) s.nodeutils = r.chance(0.2);
    if (s.nodeutils && s.m.roles().empty()) s.nodeutils = false;
    if (d && r.chance(0.5))
    {
      // coinciding node names, identifiers and signal names
      Rng z(r.next());
      Matrix& a = p.drv[0].m;
      for (size_t i = 0; i < s.m.msgs.size() && i < a.msgs.size(); i++)
      {
        s.m.msgs[i].id = a.msgs[i].id;
        s.m.msgs[i].ext = a.msgs[i].ext;
        for (size_t k = 0; k < s.m.msgs[i].sigs.size() && k < a.msgs[i].sigs.size(); k++)
        {
          bool clash = false;
          for (auto& g : s.m.msgs[i].sigs) if (g.name == a.msgs[i].sigs[k].name) clash = true;
          if (!clash) s.m.msgs[i].sigs[k].name = a.msgs[i].sigs[k].name;
        }
      }
      std::set<uint32_t> ids;
      for (auto& g : s.m.msgs) { while (ids.count(g.id)) g.id = (g.id + 1) & (g.ext ? 0x1FFFFFFFu : 0x7FFu); ids.insert(g.id); }
      for (auto& g : s.m.msgs) if (g.id == 0) g.moreTx.clear();
    }
    p.drv.push_back(s);
  }
  int ncfg = prop == "D11" ? (int)r.range(2, 4) : prop == "D10" ? 2 : prop == "D13" ? 1 : (int)r.range(1, 2);
  for (int c = 0; c < ncfg; c++)
  {
    Cfg g;
    g.opt = r.chance(0.3) ? 2 : r.chance(0.3) ? 1 : 0;
    int ms = 0;
    for (auto& d : p.drv) ms = std::max(ms, maxSigned(d.m));
    g.ext64 = ms > 31 || r.chance(0.5);
    g.def = r.chance(0.25);
    g.tsan = prop == "D13";
    if (g.tsan) g.opt = r.chance(0.5) ? 1 : 0;
    if (!g.tsan)
    {
      if (r.chance(0.3)) g.lang = r.pick(std::vector<std::string>{"c99", "c11", "c17", "gnu99"});
      g.clang = r.chance(0.2);
      g.trap = r.chance(0.15);
    }
    g.own = r.chance(0.4);
    bool f32 = r.chance(0.15), maxdlc = r.chance(0.15);
    if (prop == "D10" && c == 1) f32 = p.cfg[0].per[0].f32;
    for (auto& d : p.drv) for (auto& m : d.m.msgs) for (auto& s : m.sigs)
      if (s.dbl() && powl(2, s.len) + fabsl(s.offset.value() / s.factor.value()) > 1048576) f32 = false;   // more than a float resolves
    g.stubs = prop == "D11" && r.chance(0.4);
    if (prop == "D11") { g.notick = r.chance(0.15); g.nohash = r.chance(0.15); }
    g.cross = prop == "D12" && r.chance(0.4);
    for (size_t d = 0; d < p.drv.size(); d++)
    {
      DrvOpt o;
      o.bits = r.chance(0.35);
      o.mon = r.chance(0.5);
      o.flt = r.chance(0.4);
      o.str = r.chance(0.4);
      o.roll = r.chance(0.4);
      o.csm = r.chance(0.4);
      if (r.chance(0.4)) o.init = r.pick(std::vector<int>{0, 255, 0x55, 0xCC, 1});
      if (prop == "D05" || prop == "D06" || prop == "D15") o.mon = true;
      if (prop == "D07") { o.roll = r.chance(0.9); o.mon = r.chance(0.9); }
      if (prop == "D08") { o.csm = r.chance(0.9); o.mon = r.chance(0.9); }
      if (prop == "D09") o.flt = r.chance(0.9);
      if (prop == "D14") { if (c == 0) { o.roll = r.chance(0.7); o.csm = r.chance(0.7); } else { o.roll = p.cfg[0].per[d].roll; o.csm = p.cfg[0].per[d].csm; } o.mon = r.chance(0.85); }
      if (prop == "D13") { o.roll = r.chance(0.6); o.csm = r.chance(0.6); o.mon = r.chance(0.6); o.flt = r.chance(0.6); }
      if (prop == "D10" && c == 1) { o = p.cfg[0].per[d]; o.str = !o.str; o.mono = false; }
      if (o.mon) o.mono = r.chance(0.4);
      o.f32 = f32;
      o.maxdlc = maxdlc;
      g.per.push_back(o);
    }
    p.cfg.push_back(g);
  }
  for (size_t d = 0; d < p.drv.size(); d++)
  {
    auto add = [&](const std::string& nme) { p.node.push_back({(int)d, (int)r.below((uint64_t)ncfg), nme}); };
    if (p.drv[d].nodeutils) for (auto& q : p.drv[d].m.roles()) add(q);
    else { int k = (int)r.range(2, 3); if (prop == "D11") k = ncfg; for (int i = 0; i < k; i++) { add(""); if (prop == "D11") p.node.back().c = i; } }
  }
  return p;
}
// seeded discrete-event simulation of traffic and faults; its result is the list of operations of the plan
void makeOps(BusPlan& p, Rng& r, int count)
{
  Json ops = Json::array();
  std::priority_queue<Sched::Ev> q;
  uint64_t serial = 0;
  int64_t now = 0, k = 1;
  auto w = [&](double lo, double hi) { return r.chance(0.35) ? 0.0 : lo + (hi - lo) * (double)r.below(1000) / 1000; };
  bool d04 = p.prop == "D04", d03 = p.prop == "D03";
  double loss = w(0, 0.3), dup = w(0, 0.3), late = w(0, 0.4), flip = w(0, 0.3), trunc = w(0, 0.4), idf = w(0, 0.15), pRestart = w(0, 0.03), pJump = w(0, 0.05), foreign = w(0, 0.3), indep = w(0, 0.5), part = w(0, 0.02);
  if (d03 && foreign < 0.25) foreign = 0.25;
  if (p.prop == "D06" && trunc < 0.2) trunc = 0.2;
  if (d04) { flip *= 0.3; trunc *= 0.3; }
  std::vector<int64_t> cut(p.node.size(), -1);
  std::vector<std::vector<std::pair<int, std::string>>> who(p.drv.size());
  std::vector<std::pair<int, std::string>> tx;
  for (size_t i = 0; i < p.node.size(); i++)
  {
    auto& d = p.drv[(size_t)p.node[i].d];
    for (auto& m : d.m.msgs)
    {
      if (m.sigs.empty()) continue;
      auto s = m.senders();
      if (!d.nodeutils || std::find(s.begin(), s.end(), p.node[i].name) != s.end()) tx.push_back({(int)i, m.name});
    }
  }
  auto op = [&](const char* kind) { Json o = Json::object(); o.set("o", kind).set("t", now); return o; };
  auto seed = [&]() { return (int64_t)(r.next() >> 20); };
  auto tickStart = [&]() -> int64_t { return r.chance(0.4) ? 0 : r.chance(0.5) ? (int64_t)(0xFFFFFFFFu - r.below(3000)) : (int64_t)(r.next() & 0xFFFFFFFFu); };
  for (size_t i = 0; i < p.node.size(); i++) { Json o = op("power"); ops.push(o.set("n", (int)i).set("tick", tickStart())); if (r.chance(0.5)) ops.a.back().set("ctr", (int64_t)(1 + r.below(1000000))); }
  auto flush = [&](int64_t upto) { while (!q.empty() && q.top().t <= upto) { Sched::Ev e = q.top(); q.pop(); e.o.set("t", e.t); ops.push(e.o); } };
  auto broadcast = [&](int d, int from, int64_t frame, const Msg* m, bool faults)
  {
    for (size_t i = 0; i < p.node.size(); i++)
    {
      if (p.node[i].d != d || (int)i == from) continue;
      if (faults && now < cut[i]) { ops.push(op("lost").set("n", (int)i).set("k", frame).set("part", true)); continue; }
      if (faults && from >= 0 && now < cut[(size_t)from]) { ops.push(op("lost").set("n", (int)i).set("k", frame).set("part", true)); continue; }
      if (faults && r.chance(loss)) { ops.push(op("lost").set("n", (int)i).set("k", frame)); continue; }
      int copies = faults && r.chance(dup) ? (int)r.range(2, 3) : 1;
      for (int c = 0; c < copies; c++)
      {
        Json o = Json::object();
        o.set("o", "rx").set("n", (int)i).set("k", frame).set("b", seed());
        if (c) o.set("dup", true);
        int64_t at = now + (int64_t)r.below(2);
        if (faults && r.chance(late)) { at += (int64_t)r.below(200); o.set("late", true); }
        if (faults && m && r.chance(flip))
        {
          Json fl = Json::array();
          int bits = (int)r.range(1, 3);
          for (int b = 0; b < bits; b++) fl.push((int64_t)r.below((uint64_t)m->dlc * 8));
          o.set("flip", fl);
        }
        if (faults && m && r.chance(trunc))
        {
          if (r.chance(0.8)) o.set("dlc", (int64_t)(r.chance(0.4) ? m->dlc - 1 : (int64_t)r.below((uint64_t)m->dlc)));
          else o.set("dlc", (int64_t)std::min<int64_t>(64, m->dlc + (int64_t)r.range(1, 8))).set("long", true);
        }
        if (faults && r.chance(idf) && m)
        {
          uint32_t id = m->id;
          auto& ms = p.drv[(size_t)d].m.msgs;
          id = r.chance(0.4) ? ms[r.below(ms.size())].id : id ^ (1u << r.below(r.chance(0.8) ? 29 : 32));
          o.set("id", (int64_t)id);
        }
        q.push({at, serial++, o});
      }
    }
  };
  for (int c = 0; c < count; c++)
  {
    now += (int64_t)(r.chance(0.3) ? 0 : r.chance(0.9) ? r.below(30) : r.chance(0.9) ? r.below(3000) : r.below(400000));
    flush(now);
    if (r.chance(pRestart)) { size_t i = r.below(p.node.size()); ops.push(op("power").set("n", (int)i).set("tick", tickStart()).set("fault", true)); if (r.chance(0.4)) ops.a.back().set("ctr", (int64_t)(1 + r.below(1000000))); continue; }
    if (r.chance(pJump)) { size_t i = r.below(p.node.size()); ops.push(op("jump").set("n", (int)i).set("by", (int64_t)(r.chance(0.5) ? r.range(-5000, 5000) : r.range(-2000000000, 2000000000)))); continue; }
    if (r.chance(part)) { cut[r.below(p.node.size())] = now + (int64_t)r.below(2000); continue; }
    if (r.chance(foreign))
    {
      int d = (int)r.below(p.drv.size());
      auto& ms = p.drv[(size_t)d].m.msgs;
      uint32_t id = r.chance(0.7) ? ms[r.below(ms.size())].id : (uint32_t)r.next();
      switch (r.below(7))
      {
        case 0: id += 1; break;
        case 1: id -= 1; break;
        case 2: id ^= 0x80000000u; break;
        case 3: id ^= 1u << r.below(32); break;
        case 4: id = r.chance(0.5) ? 0xFFFFFFFFu : 0; break;
        case 5: id &= 0x7FF; break;
        default: break;
      }
      ops.push(op("foreign").set("d", d).set("id", (int64_t)id).set("l", (int64_t)r.below(9)).set("s", seed()).set("k", k));
      broadcast(d, -1, k++, nullptr, true);
      continue;
    }
    if (r.chance(0.1)) { ops.push(op("watch").set("n", (int)r.below(p.node.size()))); if (p.prop != "D15") continue; }
    if (tx.empty() || (r.chance(indep) && p.prop != "D14"))
    {
      int d = (int)r.below(p.drv.size());
      auto& m = p.drv[(size_t)d].m.msgs[r.below(p.drv[(size_t)d].m.msgs.size())];
      ops.push(op("ref").set("d", d).set("m", m.name).set("s", seed()).set("k", k));
      broadcast(d, -1, k++, &m, true);
      continue;
    }
    auto& t = tx[r.below(tx.size())];
    int reps = r.chance(0.15) ? (int)r.range(2, 20) : 1;      // bursts let counters wrap
    for (int b = 0; b < reps; b++)
    {
      auto& dr = p.drv[(size_t)p.node[(size_t)t.first].d];
      const Msg* m = nullptr;
      for (auto& z : dr.m.msgs) if (z.name == t.second) m = &z;
      ops.push(op("send").set("n", t.first).set("m", t.second).set("s", seed()).set("b", seed()).set("k", k));
      broadcast(p.node[(size_t)t.first].d, t.first, k++, m, true);
    }
  }
  now += 1000;
  flush(now);
  if (p.prop == "D14")
    for (int round = 1; round <= 2; round++)
    {
      Json fr = Json::array();
      std::set<std::pair<int, std::string>> done;
      for (auto& t : tx)
      {
        int d = p.node[(size_t)t.first].d;
        if (!done.insert({d, t.second}).second) continue;
        const Msg* m = nullptr;
        for (auto& z : p.drv[(size_t)d].m.msgs) if (z.name == t.second) m = &z;
        ops.push(op("send").set("n", t.first).set("m", t.second).set("s", seed()).set("b", seed()).set("k", k));
        fr.push(k);
        broadcast(d, t.first, k++, m, false);
        now += 10;
        flush(now);
      }
      now += 10;
      flush(now);
      ops.push(op("check").set("round", round).set("frames", fr));
    }
  p.ops = ops;
}
void makeTasks(BusPlan& p, Rng& r, bool thorough)
{
  Json ops = Json::array();
  int k = (int)r.range(2, 4);
  std::vector<std::string> names;
  for (auto& m : p.drv[0].m.msgs) if (!m.sigs.empty()) names.push_back(m.name);
  if (names.empty()) { p.ops = ops; return; }
  std::string same = r.pick(names);
  bool one = r.chance(0.4);
  int jobs = 0;
  int64_t hub = (int64_t)(r.next() >> 20);
  for (int t = 0; t < k; t++)
  {
    int node = (int)r.below(p.node.size()), cnt = (int)r.range(1, 5);
    for (int j = 0; j < cnt; j++)
    {
      Json o = Json::object();
      o.set("o", r.chance(0.6) ? "pack" : "unpack").set("task", t).set("n", node).set("m", one ? same : r.pick(names)).set("s", (int64_t)(r.next() >> 20));
      if (r.chance(0.3)) o.set("direct", true);
      if (o.str("o") == "unpack" && r.chance(0.4)) o.set("hub", true).set("s", hub);
      ops.push(o);
      jobs++;
    }
  }
  int sw = (int)(r.chance(0.3) ? r.range(1, 4) : r.range(5, thorough ? 120 : 60));
  int64_t a = 0, span = r.chance(0.5) ? 6 : (int64_t)jobs * 40 / sw + 2;
  for (int i = 0; i < sw; i++)
  {
    a += 1 + (int64_t)r.below((uint64_t)span);
    Json o = Json::object();
    ops.push(o.set("o", "switch").set("a", a).set("to", (int64_t)r.below((uint64_t)k)));
  }
  p.ops = ops;
}

struct Bus : Check
{
  Outcome execute(const Json& j, Stats& st, bool log) override
  {
    BusPlan p = BusPlan::from(j);
    World w(p, st, log);
    st.plans++;
    st.runs++;
    CrashGuard g;
    if (w.setup())
    {
      if (p.prop == "D13") w.tasks(); else w.runOps();
    }
    g_w = nullptr;
    w.out.trace = w.tr.h;
    st.outcomes[w.bad() ? w.out.cls : "held"]++;
    if (st.traces.size() < 2000000) st.traces.insert(w.tr.h);
    if (w.interesting && st.nontrivial.size() < 2000000) st.nontrivial.insert(w.tr.h);
    return w.out;
  }
  void cases(uint64_t seed, uint64_t index, const std::string& prop, bool thorough, Stats& st, const std::function<bool(const Json&, const Outcome&)>& visit) override
  {
    Rng r(seed, "bus/" + prop, index);
    BusPlan p = makeFleet(r, prop);
    int plans = prop == "D13" ? (thorough ? 120 : 40) : thorough ? 24 : 8;
    for (int i = 0; i < plans; i++)
    {
      Rng q(seed, fmt("bus/%s/%llu", prop.c_str(), (unsigned long long)index), (uint64_t)i);
      if (prop == "D13") makeTasks(p, q, thorough); else makeOps(p, q, (int)q.range(20, thorough ? 400 : 150));
      Json j = p.json();
      Outcome o = execute(j, st, false);
      addSample(st, j);
      if (!visit(j, o)) return;
      if (o.bad()) return;
    }
  }
  std::vector<Json> shrinks(const Json& plan) override
  {
    std::vector<Json> r = dropChunks(plan, {"ops"});
    BusPlan p = BusPlan::from(plan);
    // fewer nodes and configurations: only ones nobody uses
    for (size_t d = 0; d < p.drv.size(); d++)
      for (auto& m : shrinkMatrix(p.drv[d].m))
      {
        BusPlan q = p;
        q.drv[d].m = m;
        if (q.drv[d].nodeutils)
        {
          auto ro = m.roles();
          bool ok = true;
          for (auto& x : q.node) if (x.d == (int)d && std::find(ro.begin(), ro.end(), x.name) == ro.end()) ok = false;
          if (!ok) continue;
        }
        r.push_back(q.json());
      }
    for (size_t i = 0; i < p.cfg.size(); i++)
    {
      std::vector<std::function<bool(Cfg&)>> t = {
        [](Cfg& c) { bool b = c.opt != 0; c.opt = 0; return b; }, [](Cfg& c) { bool b = c.def; c.def = false; return b; },
        [](Cfg& c) { bool b = c.cross; c.cross = false; return b; },
        [](Cfg& c) { bool b = c.lang != "gnu11"; c.lang = "gnu11"; return b; }, [](Cfg& c) { bool b = c.clang; c.clang = false; return b; }, [](Cfg& c) { bool b = c.trap; c.trap = false; return b; },
        [](Cfg& c) { bool b = c.own; c.own = false; return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.f32; o.f32 = false; } return b; }, [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.maxdlc; o.maxdlc = false; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.bits; o.bits = false; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.str; o.str = false; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.init >= 0; o.init = -1; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.mono; o.mono = false; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.flt; o.flt = false; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.roll; o.roll = false; } return b; },
        [](Cfg& c) { bool b = false; for (auto& o : c.per) { b |= o.csm; o.csm = false; } return b; },
        [](Cfg& c) { bool b = c.notick || c.nohash; c.notick = c.nohash = false; return b; }};
      for (auto& f : t) { BusPlan q = p; if (f(q.cfg[i])) r.push_back(q.json()); }
    }
    bool multi = false;
    for (auto& x : p.node) if (x.c != p.node[0].c) multi = true;
    if (multi) { BusPlan q = p; for (auto& x : q.node) x.c = 0; r.push_back(q.json()); }
    for (size_t c = 0; c < p.cfg.size() && p.cfg.size() > 1; c++)
    {
      bool used = false;
      for (auto& x : p.node) if (x.c == (int)c) used = true;
      if (used) continue;
      BusPlan q = p;
      q.cfg.erase(q.cfg.begin() + (long)c);
      for (auto& x : q.node) if (x.c > (int)c) x.c--;
      r.push_back(q.json());
    }
    // single faults off
    for (size_t i = 0; i < plan.at("ops").a.size(); i++)
    {
      auto& o = plan.at("ops").a[i];
      for (auto k : {"flip", "dlc", "id"})
        if (o.has(k))
        {
          Json c = plan;
          Json* e = walk(c, {"ops", std::to_string(i)});
          for (size_t z = 0; z < e->o.size(); z++) if (e->o[z].first == k) { e->o.erase(e->o.begin() + (long)z); break; }
          r.push_back(c);
        }
    }
    return r;
  }
};
}
Check* busCheck() { static Bus b; return &b; }
