// Turns a plan's matrices into running code: the real generator (on the simulated machine), then gcc, then dlopen.
#include "bus.h"
#include "cc.h"
#include "gen.h"
#include <stdexcept>
#include <algorithm>
#include <dlfcn.h>
#include <set>

Json BusPlan::json() const
{
  Json j = Json::object();
  j.set("prop", prop).set("kind", "bus");
  Json a = Json::array();
  for (auto& d : drv) { Json q = Json::object(); q.set("matrix", d.m.json()).set("nodeutils", d.nodeutils); a.push(q); }
  j.set("drivers", a);
  a = Json::array();
  for (auto& c : cfg)
  {
    Json q = Json::object(), b = Json::array();
    q.set("O", c.opt).set("ext64", c.ext64).set("globals", c.def).set("stubs", c.stubs).set("cross", c.cross);
    if (c.notick) q.set("notick", true);
    if (c.nohash) q.set("nohash", true);
    if (c.tsan) q.set("instrumented", true);
    if (c.lang != "gnu11") q.set("std", c.lang);
    if (c.clang) q.set("clang", true);
    if (c.trap) q.set("trap", true);
    if (c.own) q.set("generatedconf", true);
    for (auto& o : c.per)
    {
      Json e = Json::object();
      e.set("bits", o.bits).set("mon", o.mon).set("mono", o.mono).set("sigfloat", o.flt).set("canstruct", o.str).set("roll", o.roll).set("csm", o.csm);
      if (o.init >= 0) e.set("initial", o.init);
      if (o.f32) e.set("float", true);
      if (o.maxdlc) e.set("maxdlc", true);
      b.push(e);
    }
    a.push(q.set("options", b));
  }
  j.set("configurations", a);
  a = Json::array();
  for (auto& n : node) { Json q = Json::object(); q.set("name", n.name).set("driver", n.d).set("configuration", n.c); a.push(q); }
  return j.set("nodes", a).set("ops", ops);
}
BusPlan BusPlan::from(const Json& j)
{
  BusPlan p;
  p.prop = j.str("prop");
  for (auto& q : j.at("drivers").a) p.drv.push_back({Matrix::from(q.at("matrix")), q.flag("nodeutils")});
  for (auto& q : j.at("configurations").a)
  {
    Cfg c;
    c.opt = (int)q.num("O");
    c.ext64 = q.flag("ext64");
    c.def = q.flag("globals");
    c.stubs = q.flag("stubs");
    c.notick = q.flag("notick");
    c.nohash = q.flag("nohash");
    c.cross = q.flag("cross");
    c.tsan = q.flag("instrumented");
    c.lang = q.str("std", "gnu11");
    c.clang = q.flag("clang");
    c.trap = q.flag("trap");
    c.own = q.flag("generatedconf");
    for (auto& e : q.at("options").a)
    {
      DrvOpt o;
      o.bits = e.flag("bits");
      o.mon = e.flag("mon");
      o.mono = e.flag("mono");
      o.flt = e.flag("sigfloat");
      o.str = e.flag("canstruct");
      o.roll = e.flag("roll");
      o.csm = e.flag("csm");
      o.init = (int)e.num("initial", -1);
      o.f32 = e.flag("float");
      o.maxdlc = e.flag("maxdlc");
      c.per.push_back(o);
    }
    p.cfg.push_back(c);
  }
  for (auto& q : j.at("nodes").a) p.node.push_back({(int)q.num("driver"), (int)q.num("configuration"), q.str("name")});
  p.ops = j.at("ops");
  return p;
}
Fleet::~Fleet() { for (void* h : handles) dlclose(h); }

static std::string utilId(const std::string& node, const std::string& drv) { return lower(node.empty() ? drv : node + "_" + drv); }
static std::vector<std::string> utilNodes(const DrvSrc& d)
{
  if (!d.nodeutils) return {""};
  return d.m.roles();
}
static const char* COMMON_TYPES = R"(
typedef struct {
  uint32_t (*tick)(void);
  uint32_t (*hash)(const uint8_t*, int, uint32_t, int, int);
  void (*mon)(void*, uint32_t, int, int);
  void (*access)(const void*, int);
} SimHost;
)";
// the user's part of the configuration
static std::string codeConf(const BusPlan& p, const Cfg& c, const std::string& generated)
{
  std::set<std::string> methods;
  for (auto& d : p.drv) for (auto& m : d.m.crcMethods()) methods.insert(m);
  std::string s = "#pragma once\n#include <stdint.h>\n";
  s += c.per.size() && c.per[0].f32 ? "typedef float sigfloat_t;\n" : "typedef double sigfloat_t;\n";
  // the user edits the generated file: the types of the sign extension are his only if the default is too narrow
  if (c.own && c.ext64) s += "#define ubitext_t generated_ubitext_t\n#define bitext_t generated_bitext_t\n" + generated + "\n#undef ubitext_t\n#undef bitext_t\n";
  else if (c.own) s += generated + "\n";
  if (!c.own || c.ext64) s += c.ext64 ? "typedef uint64_t ubitext_t;\ntypedef int64_t bitext_t;\n" : "typedef uint32_t ubitext_t;\ntypedef int32_t bitext_t;\n";
  s += "typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t IDE; uint8_t Data[64]; } __CoderDbcCanFrame_t__;\n";
  s += "#ifdef __cplusplus\nextern \"C\" {\n#endif\nuint32_t sim_tick(void);\nuint32_t sim_hash(const uint8_t* d, int len, uint32_t id, int method, int op);\n#ifdef __cplusplus\n}\n#endif\n";
  if (!c.notick) s += "#define GetSystemTick() sim_tick()\n";
  if (!c.nohash) s += "#define GetFrameHash(a,b,c,d,e) sim_hash((a),(int)(b),(c),(int)(d),(int)(e))\n";
  if (!methods.empty() && !c.nohash)
  {
    s += "enum { ";
    for (auto& m : methods) s += m + ", ";
    s += "SIM_METHODS };\n";
  }
  if (c.def)
    for (auto& d : p.drv) for (auto& n : utilNodes(d)) s += "#define __DEF_" + upper(utilId(n, d.m.drv)) + "__\n";
  return s;
}
static std::string driverConf(const std::string& generated, const std::string& drv, const DrvOpt& o)
{
  std::string s = generated, D = upper(drv);
  if (s.empty() || s.back() != '\n') s += "\n";
  auto def = [&](bool on, const char* n) { if (on) s += "#define " + D + n + "\n"; };
  def(o.bits, "_USE_BITS_SIGNAL");
  def(o.mon, "_USE_DIAG_MONITORS");
  def(o.mono, "_USE_MONO_FMON");
  def(o.flt, "_USE_SIGFLOAT");
  def(o.str, "_USE_CANSTRUCT");
  def(o.roll, "_AUTO_ROLL");
  def(o.csm, "_AUTO_CSM");
  if (o.maxdlc) s += "#define " + D + "_MAX_DLC_VALUE 64U\n";
  if (o.init >= 0) s += "#define " + D + fmt("_INITIAL_BYTE_VALUE 0x%XU\n", (unsigned)o.init);
  return s;
}
static std::string glueText(const BusPlan& p, const Cfg& c, size_t di)
{
  const DrvSrc& d = p.drv[di];
  const Matrix& x = d.m;
  const DrvOpt& o = c.per[di];
  std::string dl = lower(x.drv), s = "#include <stdint.h>\n#include <stddef.h>\n", tag = std::to_string(di);
  auto utils = utilNodes(d);
  s += "namespace fb_ {\n";
  for (auto& n : utils) { std::string u = utilId(n, x.drv); s += "struct " + u + "_rx_t { char none_; };\nstruct " + u + "_tx_t { char none_; };\n"; }
  s += "}\n";
  s += "#include \"" + dl + ".h\"\n";
  if (o.mon) s += "#include \"" + dl + "-fmon.h\"\n";
  for (auto& n : utils) s += "#include \"" + utilId(n, x.drv) + "-binutil.h\"\n";
  s += "using namespace fb_;\n";           // only found where the driver itself declares no such type
  s += COMMON_TYPES;
  s += "extern \"C\" const SimHost* sim_host;\n";
  if (di == 0)
  {
    s += "const SimHost* sim_host;\nextern \"C\" {\n__attribute__((visibility(\"default\"))) void sim_init(const SimHost* h) { sim_host = h; }\n";
    s += "uint32_t sim_tick(void) { return sim_host->tick(); }\n";
    s += "uint32_t sim_hash(const uint8_t* d, int len, uint32_t id, int method, int op) { return sim_host->hash(d, len, id, method, op); }\n";
    if (c.tsan)
    {
      s += "void __tsan_init(void) {}\nvoid __tsan_func_entry(void*) {}\nvoid __tsan_func_exit(void*) {}\n";
      for (auto rw : {"read", "write"})
        for (auto n : {"1", "2", "4", "8", "16"})
          for (auto un : {"", "unaligned_"})
            s += std::string("void __tsan_") + un + rw + n + "(void* p) { sim_host->access(p, " + (rw[0] == 'w' ? "1" : "0") + "); }\n";
      s += "void __tsan_read_range(void* p, unsigned long) { sim_host->access(p, 0); }\nvoid __tsan_write_range(void* p, unsigned long) { sim_host->access(p, 1); }\n";
      s += "void* __tsan_memcpy(void* d, const void* q, unsigned long n) { sim_host->access(d, 1); return __builtin_memcpy(d, q, n); }\nvoid* __tsan_memset(void* d, int v, unsigned long n) { sim_host->access(d, 1); return __builtin_memset(d, v, n); }\n";
    }
    s += "}\n";
  }
  if (o.mon && !c.stubs)
  {
    s += "extern \"C\" {\n";
    if (o.mono) s += fmt("void _FMon_MONO_%s(FrameMonitor_t* m, uint32_t id) { sim_host->mon(m, id, %zu, -1); }\n", dl.c_str(), di);
    else
      for (size_t i = 0; i < x.msgs.size(); i++)
        s += fmt("void _FMon_%s_%s(FrameMonitor_t* m, uint32_t id) { sim_host->mon(m, id, %zu, %zu); }\n", x.msgs[i].name.c_str(), dl.c_str(), di, i);
    s += "}\n";
  }
  s += R"(
struct SimMsg { long canid, dlc, ide, cyc; unsigned size; long mon; long long (*get)(const void*, int); void (*set)(void*, int, long long);
  long double (*getp)(const void*, int); void (*setp)(void*, int, long double); long long (*expt)(const void*); int (*named)(void*, int, int, int); int (*conv)(void*, int, int, long double, long double*);
  uint32_t (*pack)(void*, uint8_t*, uint8_t**, uint8_t*, uint8_t*, uint32_t*); uint32_t (*unpack)(void*, const uint8_t*, uint8_t); };
struct SimUtil { const char* name; unsigned rxSize, txSize; const long* rxOff; const long* txOff; uint32_t (*receive)(void*, const uint8_t*, uint32_t, uint8_t); void* rxGlobal; void* txGlobal; };
struct SimDrv { int nmsg, nutil; const SimMsg* msg; const SimUtil* util; void (*monGet)(const void*, unsigned*); void (*monSet)(void*, const unsigned*); };
namespace {
)";
  std::string table = "const SimMsg msgs_[] = {\n";
  for (size_t i = 0; i < x.msgs.size(); i++)
  {
    auto& m = x.msgs[i];
    std::string cyc = "cyc_" + std::to_string(i);
    s += "#ifdef " + m.name + "_CYC\nconst long " + cyc + " = (long)(" + m.name + "_CYC);\n#else\nconst long " + cyc + " = -1;\n#endif\n";
    std::string head = fmt("  {(long)(%s_CANID), (long)(%s_DLC), (long)(%s_IDE), %s, ", m.name.c_str(), m.name.c_str(), m.name.c_str(), cyc.c_str());
    if (m.sigs.empty()) { table += head + "0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0},\n"; continue; }
    std::string T = m.name + "_t", k = std::to_string(i);
    std::string g = "long long get_" + k + "(const void* p_, int f_) { const " + T + "* m_ = (const " + T + "*)p_; switch (f_) {\n";
    std::string st = "void set_" + k + "(void* p_, int f_, long long v_) { " + T + "* m_ = (" + T + "*)p_; switch (f_) {\n";
    std::string gp = "long double getp_" + k + "(const void* p_, int f_) { const " + T + "* m_ = (const " + T + "*)p_; (void)m_; switch (f_) {\n";
    std::string sp = "void setp_" + k + "(void* p_, int f_, long double v_) { " + T + "* m_ = (" + T + "*)p_; (void)m_; switch (f_) {\n";
    for (size_t q = 0; q < m.sigs.size(); q++)
    {
      auto& z = m.sigs[q];
      g += fmt("case %zu: return (long long)m_->%s;\n", q, z.field().c_str());
      st += fmt("case %zu: m_->%s = v_; break;\n", q, z.field().c_str());
      if (!z.simple() && o.flt)
      {
        gp += fmt("case %zu: return (long double)m_->%s;\n", q, z.phys().c_str());
        sp += fmt("case %zu: m_->%s = (decltype(m_->%s))v_; break;\n", q, z.phys().c_str(), z.phys().c_str());
      }
    }
    s += g + "} return 0; }\n" + st + "} }\n" + gp + "} return 0; }\n" + sp + "} }\n";
    s += "int named_" + k + "(void* p_, int f_, int e_, int w_) { " + T + "* m_ = (" + T + "*)p_; (void)m_; switch (f_ * 100 + e_) {\n";
    for (size_t q = 0; q < m.sigs.size(); q++)
      for (size_t e = 0; e < m.sigs[q].vals.size() && e < 100; e++)
      {
        auto& z = m.sigs[q];
        if (!z.named(e)) continue;
        std::string f = z.field(), tail = "_" + m.name + "_" + cName(z.vals[e].second);
        std::vector<std::string> cns{z.field() + tail};
        if (!z.simple()) cns.push_back(z.name + tail);
        for (auto& cn : cns)
          s += (cn == cns[0] ? "#if defined(" : "#elif defined(") + cn + fmt(")\ncase %zu: if (w_ == 1) m_->%s = %s; return w_ == 2 ? m_->%s == %s : 1;\n", q * 100 + e, f.c_str(), cn.c_str(), f.c_str(), cn.c_str());
        s += "#endif\n";
      }
    s += "} return 0; }\n";
    // the conversion macros with an expression as argument, as a node without physical fields uses them
    s += "int conv_" + k + "(void* p_, int f_, int w_, long double v_, long double* r_) { " + T + "* m_ = (" + T + "*)p_; volatile int z_ = 1; (void)m_; (void)z_; switch (f_) {\n";
    for (size_t q = 0; q < m.sigs.size(); q++)
    {
      auto& z = m.sigs[q];
      if (z.simple()) continue;
      std::string f = z.field(), a = upper(x.drv) + "_" + f + "_" + m.name, b = upper(x.drv) + "_" + f, t = z.dbl() ? "double" : "long long";
      for (auto& cn : {a, b})
        s += (cn == a ? "#if defined(" : "#elif defined(") + cn + "_toS) && defined(" + cn + fmt("_fromS)\ncase %zu: { if (w_) { %s q_ = (%s)v_; m_->%s = %s_toS(z_ ? q_ : q_); return 8; } auto q_ = %s_fromS(z_ ? m_->%s : m_->%s); *r_ = (long double)q_; return (int)sizeof(q_); }\n", q, t.c_str(), t.c_str(), f.c_str(), cn.c_str(), cn.c_str(), f.c_str(), f.c_str());
      s += "#endif\n";
    }
    s += "} return 0; }\n";
    const Sig* roll = m.byRole(1);
    std::string ex = "0";
    if (roll && o.roll)
    {
      s += "long long expt_" + k + "(const void* p_) { return (long long)((const " + T + "*)p_)->" + roll->field() + "_expt; }\n";
      ex = "expt_" + k;
    }
    std::string fn = m.name + "_" + x.drv;
    s += "uint32_t pack_" + k + "(void* p_, uint8_t* b_, uint8_t** d_, uint8_t* l_, uint8_t* i_, uint32_t* id_) {\n";
    if (o.str)
      s += "  __CoderDbcCanFrame_t__* f_ = (__CoderDbcCanFrame_t__*)b_; uint32_t r_ = Pack_" + fn + "((" + T + "*)p_, f_); *d_ = f_->Data; *l_ = f_->DLC; *i_ = f_->IDE; *id_ = f_->MsgId; return r_; }\n";
    else
      s += "  *d_ = b_; uint32_t r_ = Pack_" + fn + "((" + T + "*)p_, b_, l_, i_); *id_ = r_; return r_; }\n";
    s += "uint32_t unpack_" + k + "(void* p_, const uint8_t* d_, uint8_t l_) { return Unpack_" + fn + "((" + T + "*)p_, d_, l_); }\n";
    s += fmt("template<class T> constexpr auto off_%zu(int) -> decltype((void)&T::%s, 0L) { return (long)offsetof(T, %s); }\ntemplate<class T> constexpr long off_%zu(...) { return -1; }\n", i, m.name.c_str(), m.name.c_str(), i);
    table += head + fmt("(unsigned)sizeof(%s), %s, get_%s, set_%s, getp_%s, setp_%s, %s, named_%s, conv_%s, pack_%s, unpack_%s},\n", T.c_str(),
      o.mon ? ("(long)offsetof(" + T + ", mon1)").c_str() : "-1", k.c_str(), k.c_str(), k.c_str(), k.c_str(), ex.c_str(), k.c_str(), k.c_str(), k.c_str(), k.c_str());
  }
  s += table + "};\n";
  std::string ut = "const SimUtil utils_[] = {\n";
  for (size_t u = 0; u < utils.size(); u++)
  {
    std::string id = utilId(utils[u], x.drv);
    bool wantRx = false, wantTx = false;
    for (auto dir : {"rx", "tx"})
    {
      s += fmt("const long %s_%zu[] = {", dir, u);
      for (size_t i = 0; i < x.msgs.size(); i++)
        s += x.msgs[i].sigs.empty() ? "-1, " : fmt("off_%zu< ::%s_%s_t >(0), ", i, id.c_str(), dir);
      s += "};\n";
    }
    for (auto& m : x.msgs)
    {
      if (m.sigs.empty()) continue;
      auto rc = m.receivers();
      auto sn = m.senders();
      if (!d.nodeutils || std::find(rc.begin(), rc.end(), utils[u]) != rc.end()) wantRx = true;
      if (d.nodeutils && std::find(sn.begin(), sn.end(), utils[u]) != sn.end()) wantTx = true;
    }
    std::string rcv = "0";
    if (wantRx)
    {
      s += fmt("uint32_t rcv_%zu(void* p_, const uint8_t* d_, uint32_t i_, uint8_t l_) { return ::%s_Receive((::%s_rx_t*)p_, d_, i_, l_); }\n", u, id.c_str(), id.c_str());
      rcv = fmt("rcv_%zu", u);
    }
    ut += fmt("  {\"%s\", (unsigned)sizeof(::%s_rx_t), (unsigned)sizeof(::%s_tx_t), rx_%zu, tx_%zu, %s, %s, %s},\n", utils[u].c_str(), id.c_str(), id.c_str(), u, u, rcv.c_str(),
      c.def && wantRx ? ("(void*)&::" + id + "_rx").c_str() : "0", c.def && wantTx ? ("(void*)&::" + id + "_tx").c_str() : "0");
  }
  s += ut + "};\n";
  if (o.mon)
    s += "void monGet_(const void* p_, unsigned* v_) { const FrameMonitor_t& m_ = *(const FrameMonitor_t*)p_; v_[0] = m_.last_cycle; v_[1] = m_.timeout_cycle; v_[2] = m_.frame_cnt; v_[3] = m_.roll_error; v_[4] = m_.csm_error; v_[5] = m_.cycle_error; v_[6] = m_.dlc_error; }\n"
      "void monSet_(void* p_, const unsigned* v_) { FrameMonitor_t& m_ = *(FrameMonitor_t*)p_; m_.last_cycle = v_[0]; m_.timeout_cycle = v_[1]; m_.frame_cnt = v_[2]; m_.roll_error = v_[3]; m_.csm_error = v_[4]; m_.cycle_error = v_[5]; m_.dlc_error = v_[6]; }\n";
  s += fmt("const SimDrv drv_ = {%zu, %zu, msgs_, utils_, %s};\n}\nextern \"C\" __attribute__((visibility(\"default\"))) const SimDrv* sim_drv_%zu(void) { return &drv_; }\n", x.msgs.size(), utils.size(), o.mon ? "monGet_, monSet_" : "0, 0", di);
  return s;
}
static std::string firstError(const std::string& out)
{
  size_t at = std::string::npos;
  for (auto w : {"undefined reference", "multiple definition", "error"}) if (at == std::string::npos) at = out.find(w);
  if (at == std::string::npos) return out.substr(0, 300);
  size_t b = out.rfind('\n', at), e = out.find('\n', at);
  b = b == std::string::npos ? 0 : b + 1;
  return out.substr(b, std::min<size_t>(300, (e == std::string::npos ? out.size() : e) - b));
}
static uint64_t fleetKey(const BusPlan& p)
{
  Json j = p.json();
  Hash h;
  h.str(j.at("drivers").dump());
  h.str(j.at("configurations").dump());
  return h.h;
}
std::shared_ptr<Fleet> buildFleet(const BusPlan& p, Stats& st)
{
  static std::vector<std::shared_ptr<Fleet>> cache;
  static int serial = 0;
  uint64_t key = fleetKey(p);
  for (auto& f : cache) if (f->key == key) return f;
  auto fl = std::make_shared<Fleet>();
  fl->key = key;
  if (cache.size() >= 4) cache.erase(cache.begin());
  cache.push_back(fl);
  std::string dir = g_scratch + "/fleet" + std::to_string(serial++);
  auto fail = [&](const std::string& c, const std::string& d) { fl->cls = c; fl->detail = d; if (!getenv("SIM_KEEP")) removeTree(dir); return fl; };
  std::vector<std::vector<std::string>> sources;
  std::map<std::string, std::string> all;
  for (auto& d : p.drv)
  {
    Opt o;
    o.drv = d.m.drv;
    o.nodeutils = d.nodeutils;
    std::string why;
    auto files = generateOnce(d.m.dbc(), o, why);
    if (files.empty()) return fail("generation-failed", "the generator fails on a valid matrix: " + why);
    for (auto& e : expectedFiles(d.m, o)) if (!files.count(e)) return fail("file-missing", "the generator left out " + e);
    std::string dl = lower(d.m.drv);
    std::vector<std::string> src{"lib/" + dl + ".c"};
    for (auto& n : utilNodes(d)) src.push_back("butl/" + utilId(n, d.m.drv) + "-binutil.c");
    sources.push_back(src);
    for (auto& e : files) all[e.first] = e.second;
  }
  for (auto& e : all)
    if (e.first.compare(0, 5, "conf/") != 0 && !putFile(dir + "/" + e.first, e.second)) throw std::runtime_error("cannot write " + dir + "/" + e.first);
  for (size_t ci = 0; ci < p.cfg.size(); ci++)
  {
    auto& c = p.cfg[ci];
    std::string cd = dir + "/c" + std::to_string(ci);
    putFile(cd + "/dbccodeconf.h", codeConf(p, c, all["conf/dbccodeconf.h"]));
    std::string obj = cd + "/fleet.so", out;
    std::vector<std::string> cc{c.clang ? "clang" : "gcc", fmt("-O%d", c.opt), "-std=" + c.lang, "-w", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-fPIC", "-fvisibility=hidden", "-fno-asynchronous-unwind-tables", "-c", "-I" + cd, "-I" + dir + "/lib", "-I" + dir + "/inc", "-I" + dir + "/butl"};
    if (c.tsan) cc.push_back("-fsanitize=thread");
    if (c.trap) for (auto f : {"-fsanitize=undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize=shift-base", c.clang ? "-fsanitize-trap=all" : "-fsanitize-undefined-trap-on-error"}) cc.push_back(f);
    std::vector<std::string> cxx{"g++", "-shared", "-O0", "-std=c++17", "-w", "-fpermissive", "-fPIC", "-fvisibility=hidden", "-fno-exceptions", "-fno-rtti", "-fno-asynchronous-unwind-tables", "-nostdlib", "-Wl,-z,defs", "-I" + cd, "-I" + dir + "/lib", "-I" + dir + "/inc", "-I" + dir + "/butl", "-o", obj};
    for (size_t di = 0; di < p.drv.size(); di++)
    {
      std::string dl = lower(p.drv[di].m.drv);
      std::string own = driverConf(all["conf/" + dl + "-config.h"], p.drv[di].m.drv, c.per[di]);
      // a program whose own headers are shared: this driver is compiled after the headers of the later ones
      for (size_t o = di + 1; c.cross && o < p.drv.size(); o++) own += "\n#include \"" + lower(p.drv[o].m.drv) + ".h\"\n";
      putFile(cd + "/" + dl + "-config.h", own);
      std::string glue = cd + "/glue" + std::to_string(di) + ".cpp";
      putFile(glue, glueText(p, c, di));
      for (auto& f : sources[di])
      {
        cc.push_back(dir + "/" + f);
        std::string b = f.substr(f.rfind('/') + 1);
        cxx.push_back(cd + "/" + b.substr(0, b.size() - 2) + ".o");
      }
      if (c.stubs)
      {
        cc.push_back(dir + "/usr/" + dl + "-fmon.c");
        cxx.push_back(cd + "/" + dl + "-fmon.o");
      }
      cxx.push_back(glue);
    }
    if (c.cross)
    {
      // a gateway: one unit that uses every driver, in either order of inclusion
      for (int rev = 0; rev < 2; rev++)
      {
        std::string t;
        for (size_t k = 0; k < p.drv.size(); k++)
        {
          auto& d = p.drv[rev ? p.drv.size() - 1 - k : k];
          t += "#include \"" + lower(d.m.drv) + ".h\"\n";
          for (auto& n : utilNodes(d)) t += "#include \"" + utilId(n, d.m.drv) + "-binutil.h\"\n";
        }
        std::string f = cd + fmt("/gateway%d.c", rev);
        putFile(f, t);
        cc.push_back(f);
        cxx.push_back(cd + fmt("/gateway%d.o", rev));
        // what one driver defines for the application must not be defined as something else by the other
        std::vector<std::string> chk{"clang", "-Wno-everything", "-Werror=macro-redefined", "-fsyntax-only", "-I" + cd, "-I" + dir + "/lib", "-I" + dir + "/inc", "-I" + dir + "/butl", f};
        if (runTool(chk, cd, out) != 0) return fail("compile-failed", fmt("a unit using all drivers is not valid (configuration %zu): ", ci) + firstError(out));
      }
    }
    cxx.push_back("-lc");
    cxx.push_back("-lgcc");
    st.probes["compilations"]++;
    std::string what = fmt(" (configuration %zu)", ci);
    if (runTool(cc, cd, out) != 0) return fail("compile-failed", "the generated driver does not compile" + what + ": " + firstError(out));
    if (runTool(cxx, cd, out) != 0) return fail("compile-failed", "the generated interface does not fit the matrix or does not link" + what + ": " + firstError(out));
    void* h = dlopen(obj.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) return fail("compile-failed", std::string("does not load: ") + dlerror());
    fl->handles.push_back(h);
    std::vector<const SimDrv*> ds;
    for (size_t di = 0; di < p.drv.size(); di++)
    {
      auto f = (const SimDrv* (*)())dlsym(h, fmt("sim_drv_%zu", di).c_str());
      if (!f) throw std::runtime_error("no entry point in the compiled fleet");
      ds.push_back(f());
    }
    fl->api.push_back(ds);
    fl->init.push_back((void (*)(const SimHost*))dlsym(h, "sim_init"));
  }
  removeTree(dir);
  return fl;
}
