// Generator-side checks (G01..G13): the whole coderdbc program on a simulated machine.
#include "gen.h"
#include "cc.h"
#include <algorithm>
#include <cerrno>
#include <ctime>
#include <set>
using namespace simos;

// ---------------------------------------------------------------- plan data
std::vector<std::string> Opt::argv() const
{
  std::vector<std::string> r{"coderdbc"};
  if (useRaw) { r.insert(r.end(), raw.begin(), raw.end()); return r; }
  std::vector<std::vector<std::string>> g{{"-dbc", dbc}, {"-out", out}, {"-drvname", drv}};
  if (rw) g.push_back({"-rw"});
  if (nodeutils) g.push_back({"-nodeutils"});
  if (gendate) g.push_back({"-gendate"});
  if (noconfig) g.push_back({"-noconfig"});
  if (noinc) g.push_back({"-noinc"});
  if (nofmon) g.push_back({"-nofmon"});
  if (driverdir) g.push_back({"-driverdir"});
  if (ord) { Rng q(ord); q.shuffle(g); }
  for (auto& e : g) r.insert(r.end(), e.begin(), e.end());
  return r;
}
Json Opt::json() const
{
  Json j = Json::object();
  j.set("dbc", dbc).set("out", out).set("drv", drv);
  if (rw) j.set("rw", true);
  if (nodeutils) j.set("nodeutils", true);
  if (gendate) j.set("gendate", true);
  if (noconfig) j.set("noconfig", true);
  if (noinc) j.set("noinc", true);
  if (nofmon) j.set("nofmon", true);
  if (driverdir) j.set("driverdir", true);
  if (ord) j.set("ord", ord);
  if (useRaw) j.set("raw", Json::from(raw));
  return j;
}
Opt Opt::from(const Json& j)
{
  Opt o;
  o.dbc = j.str("dbc");
  o.out = j.str("out");
  o.drv = j.str("drv");
  o.rw = j.flag("rw");
  o.nodeutils = j.flag("nodeutils");
  o.gendate = j.flag("gendate");
  o.noconfig = j.flag("noconfig");
  o.noinc = j.flag("noinc");
  o.nofmon = j.flag("nofmon");
  o.driverdir = j.flag("driverdir");
  o.ord = (uint64_t)j.num("ord");
  if (j.has("raw")) { o.useRaw = true; o.raw = strs(j.find("raw")); }
  return o;
}
static std::string normal(const std::string& cwd, const std::string& p)
{
  std::string f = p.empty() || p[0] != '/' ? cwd + "/" + p : p, r;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i <= f.size())
  {
    size_t e = f.find('/', i);
    if (e == std::string::npos) e = f.size();
    std::string s = f.substr(i, e - i);
    if (s == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!s.empty() && s != ".") parts.push_back(s);
    i = e + 1;
  }
  for (auto& s : parts) r += "/" + s;
  return r.empty() ? "/" : r;
}
std::string Opt::root(const std::string& cwd) const { return normal(cwd, driverdir ? out + "/" + drv : out); }
Json Src::json() const
{
  Json j = Json::object();
  if (isText) j.set("text", text); else j.set("matrix", m.json());
  return j;
}
Src Src::from(const Json& j)
{
  Src s;
  if (j.has("text")) { s.isText = true; s.text = j.str("text"); }
  else s.m = Matrix::from(j.at("matrix"));
  return s;
}
Json Plan::json() const
{
  Json j = Json::object();
  j.set("prop", prop).set("kind", "gen");
  Json a = Json::array();
  for (auto& s : src) a.push(s.json());
  j.set("sources", a);
  a = Json::array();
  for (auto& f : init)
  {
    Json q = Json::object();
    q.set("path", f.path).set("kind", std::string(1, f.kind));
    if (f.kind != 'd') q.set("data", f.data);
    if (f.mode >= 0) q.set("mode", f.mode);
    a.push(q);
  }
  j.set("files", a);
  a = Json::array();
  for (auto& s : steps)
  {
    Json q = Json::object(), b = Json::array();
    for (auto& o : s.opt) b.push(o.json());
    q.set("options", b);
    b = Json::array();
    for (auto& e : s.env) b.push(e.json());
    q.set("environments", b);
    b = Json::array();
    for (auto& f : s.faults) b.push(f.json());
    q.set("faults", b);
    b = Json::array();
    for (auto& h : s.host) b.push(h.json());
    q.set("host", b);
    b = Json::array();
    for (auto& w : s.sched) { Json e = Json::array(); e.push(w.step).push(w.proc); b.push(e); }
    q.set("schedule", b);
    if (s.dbc >= 0) q.set("dbc", s.dbc);
    if (s.capacity >= 0) q.set("capacity", s.capacity);
    if (s.power) q.set("power", true);
    if (s.powerSeed) q.set("powerSeed", s.powerSeed);
    a.push(q);
  }
  return j.set("steps", a).set("x", x);
}
Plan Plan::from(const Json& j)
{
  Plan p;
  p.prop = j.str("prop");
  for (auto& s : j.at("sources").a) p.src.push_back(Src::from(s));
  for (auto& f : j.at("files").a)
  {
    FsItem i;
    i.path = f.str("path");
    i.kind = f.str("kind", "f")[0];
    i.data = f.str("data");
    i.mode = (int)f.num("mode", -1);
    p.init.push_back(i);
  }
  for (auto& q : j.at("steps").a)
  {
    Step s;
    for (auto& o : q.at("options").a) s.opt.push_back(Opt::from(o));
    for (auto& e : q.at("environments").a) s.env.push_back(Env::from(e));
    for (auto& f : q.at("faults").a) s.faults.push_back(Fault::from(f));
    for (auto& f : q.at("host").a) s.host.push_back(HostAct::from(f));
    for (auto& f : q.at("schedule").a) s.sched.push_back({f.a[0].i, (int)f.a[1].i});
    s.dbc = (int)q.num("dbc", -1);
    s.capacity = (long)q.num("capacity", -1);
    s.power = q.flag("power");
    s.powerSeed = (uint64_t)q.num("powerSeed");
    p.steps.push_back(s);
  }
  p.x = j.at("x");
  return p;
}

// ---------------------------------------------------------------- running
std::string utilName(const std::string& node, const std::string& drv) { return lower(node + "_" + drv) + "-binutil"; }
std::vector<std::string> expectedFiles(const Matrix& m, const Opt& o)
{
  std::string d = lower(o.drv);
  std::vector<std::string> r{"lib/" + d + ".h", "lib/" + d + ".c", "lib/" + d + "-fmon.h"};
  if (!o.nofmon) r.push_back("usr/" + d + "-fmon.c");
  if (!o.noconfig) { r.push_back("conf/" + d + "-config.h"); r.push_back("conf/dbccodeconf.h"); }
  if (!o.noinc) r.push_back("inc/canmonitorutil.h");
  if (!o.nodeutils) { r.push_back("butl/" + d + "-binutil.h"); r.push_back("butl/" + d + "-binutil.c"); }
  else
    for (auto& n : m.roles()) { r.push_back("butl/" + utilName(n, o.drv) + ".h"); r.push_back("butl/" + utilName(n, o.drv) + ".c"); }
  return r;
}
namespace
{
const char* OUT_DIRS[] = {"lib", "usr", "inc", "conf", "butl"};
struct Exec
{
  Stats& st;
  bool log;
  Outcome out;
  Hash trace;
  explicit Exec(Stats& s, bool l) : st(s), log(l) {}
  void note(const WorldResult& w, bool interesting)
  {
    st.runs += (int64_t)w.p.size();
    st.simNs += w.simNs;
    st.steps += w.steps;
    trace.u64(w.trace);
    if (st.traces.size() < 2000000) st.traces.insert(w.trace);
    if (interesting && st.nontrivial.size() < 2000000) st.nontrivial.insert(w.trace);
    for (auto& f : w.fired) st.fired[f.first] += f.second;
    if (!w.taken.empty()) st.fired["context-switch"] += (int64_t)w.taken.size();
    for (auto& p : w.p) st.outcomes[p.how == Exit::Killed ? "killed" : !p.clean() ? "died" : p.success() ? "success" : p.rc ? "failed" : "refused"]++;
    if (log) for (auto& l : w.log) out.log.push_back(l);
  }
  bool fail(const std::string& cls, const std::string& d)
  {
    if (out.cls.empty()) { out.cls = cls; out.detail = d; }
    return false;
  }
};
std::string dirOf(const std::string& p) { size_t s = p.rfind('/'); return s ? p.substr(0, s) : "/"; }
void install(Vfs& fs, const FsItem& f)
{
  if (f.kind == 'd') fs.mkdirs(f.path);
  else
  {
    size_t s = f.path.rfind('/');
    if (s > 0) fs.mkdirs(f.path.substr(0, s));
    if (f.kind == 'l') fs.link(f.path, f.data); else fs.put(f.path, f.data);
  }
  if (f.mode >= 0) fs.n[f.path]->mode = f.mode;
}
void syncAll(Vfs& fs) { for (auto& e : fs.n) { e.second->synced = true; e.second->syncedData = e.second->data; } }
std::vector<ProcSpec> procsOf(const Step& s)
{
  std::vector<ProcSpec> r;
  for (size_t i = 0; i < s.opt.size(); i++) r.push_back({s.opt[i].argv(), i < s.env.size() ? s.env[i] : Env()});
  return r;
}
StepOut runStep(const Plan& p, const Step& s, const Vfs& start, Exec& ex)
{
  StepOut o;
  Vfs fs = start.clone();
  if (s.dbc >= 0)
    for (size_t i = 0; i < s.opt.size(); i++)
    {
      std::string at = normal(i < s.env.size() ? s.env[i].cwd : "/home/user", s.opt[i].dbc);
      auto l = fs.n.find(at);
      if (l != fs.n.end() && l->second->type == Inode::Link) at = normal(dirOf(at), l->second->data);
      fs.mkdirs(dirOf(at));
      fs.put(at, p.src[(size_t)s.dbc].dbc());
    }
  syncAll(fs);
  fs.capacity = s.capacity;
  o.before = fs.clone();
  WorldSpec w;
  w.procs = procsOf(s);
  w.faults = s.faults;
  w.host = s.host;
  for (auto& h : w.host) if (!h.data.empty() && h.data[0] == '@') h.data = p.src[(size_t)atoi(h.data.c_str() + 1)].dbc();
  w.sched = s.sched;
  o.w = simos::run(fs, w, ex.log);
  ex.note(o.w, !s.faults.empty() || !s.host.empty() || !s.sched.empty() || s.capacity >= 0 || s.power);
  fs.capacity = -1;
  bool power = s.power;
  for (auto& r : o.w.p) if (r.note == "power") power = true;
  if (power)
  {
    fs = powerLoss(o.before, fs, s.powerSeed);
    ex.st.fired["power-loss"]++;
  }
  o.after = fs;
  return o;
}
// the same step with nothing going wrong, first process only
struct RefKey { uint64_t h; };
std::map<uint64_t, std::shared_ptr<StepOut>> g_refs;
std::shared_ptr<StepOut> reference(const Plan& p, const Step& s, const Vfs& before, Exec& ex, size_t proc = 0)
{
  Step q;
  q.opt = {s.opt[proc]};
  Env e = proc < s.env.size() ? s.env[proc] : Env();
  e.chunk = e.wchunk = e.eintr = 0;
  q.env = {e};
  Hash h;
  h.u64(before.hash());
  h.str(q.opt[0].json().dump());
  h.str(e.json().dump());
  auto it = g_refs.find(h.h);
  if (it != g_refs.end()) return it->second;
  if (g_refs.size() > 60) g_refs.clear();
  bool l = ex.log;
  ex.log = false;
  const Hash t = ex.trace;
  auto r = std::make_shared<StepOut>(runStep(p, q, before, ex));
  ex.log = l;
  ex.trace = t;       // the trace is that of the plan, not of what the cache had
  g_refs[h.h] = r;
  return r;
}
std::string why(const ProcResult& r)
{
  std::string s = fmt("%s rc=%d", exitName(r.how), r.rc);
  if (!r.note.empty()) s += " (" + r.note + ")";
  std::string t = r.err.empty() ? r.out : r.err;
  while (!t.empty() && t.back() == '\n') t.pop_back();
  size_t nl = t.rfind('\n');
  if (nl != std::string::npos) t = t.substr(nl + 1);
  if (!t.empty()) s += ": " + t.substr(0, 200);
  return s;
}
// the date of a run is not compared (G04 judges it)
std::string undated(std::string t)
{
  const std::string key = "// Generation time   : ";
  for (size_t b = t.find(key); b != std::string::npos; b = t.find(key, b))
  {
    size_t e = t.find('\n', b);
    if (e != b + key.size() + 19 || (b && t[b - 1] != '\n')) { b++; continue; }
    t.erase(b, e + 1 - b);
  }
  return t;
}
std::string diffTrees(const std::map<std::string, std::string>& want, const std::map<std::string, std::string>& got, bool extra)
{
  for (auto& e : want)
  {
    auto it = got.find(e.first);
    if (it == got.end()) return e.first + " is missing";
    if (it->second != e.second && undated(it->second) != undated(e.second))
    {
      size_t k = 0;
      while (k < e.second.size() && k < it->second.size() && e.second[k] == it->second[k]) k++;
      return fmt("%s differs at byte %zu (%zu bytes instead of %zu)", e.first.c_str(), k, it->second.size(), e.second.size());
    }
  }
  if (extra) for (auto& e : got) if (!want.count(e.first)) return e.first + " should not exist";
  return "";
}
// directory of the finished output: the root, or the new NNN below it
std::string genDir(const Opt& o, const std::string& cwd, const Vfs& before, const Vfs& after)
{
  std::string root = o.root(cwd);
  if (o.rw) return root;
  std::string found;
  for (auto& e : after.n)
  {
    if (e.first.size() <= root.size() + 1 || e.first.compare(0, root.size() + 1, root + "/")) continue;
    std::string rest = e.first.substr(root.size() + 1);
    if (rest.find('/') != std::string::npos || e.second->type != Inode::Dir || before.n.count(e.first)) continue;
    if (rest.size() == 3 && isdigit((unsigned char)rest[0]) && isdigit((unsigned char)rest[1]) && isdigit((unsigned char)rest[2])) { found = e.first; break; }
  }
  return found;
}
// every file a fault-free run leaves is there with the same bytes
std::string incomplete(const Plan& p, const Step& s, const StepOut& o, Exec& ex, size_t proc = 0)
{
  auto ref = reference(p, s, o.before, ex, proc);
  const Opt& op = s.opt[proc];
  std::string cwd = proc < s.env.size() ? s.env[proc].cwd : "/home/user";
  std::string dr = genDir(op, cwd, ref->before, ref->after), dg = genDir(op, cwd, o.before, o.after);
  if (!ref->w.p[0].success()) return "";     // judged elsewhere
  if (dg.empty()) return "no output directory of this run";
  auto want = ref->after.tree(dr), got = o.after.tree(dg);
  std::map<std::string, std::string> own;
  auto bt = op.rw ? o.before.tree(dr) : std::map<std::string, std::string>();
  for (auto& e : want)
  {
    // files the run itself made
    bool made = !bt.count(e.first) || bt[e.first] != e.second;
    if (!made) for (auto& m : ref->w.muts) if (m.path == dr + "/" + e.first) made = true;
    if (made) own[e.first] = e.second;
  }
  return diffTrees(own, got, false);
}

// ---------------------------------------------------------------- random parts
Env randomEnv(Rng& r)
{
  Env e;
  e.now = r.range(946684800, 4000000000ll) * 1000000000ll + (int64_t)r.below(1000000000);
  e.pid = (int)r.range(2, 30000);
  e.fill = r.chance(0.5) ? (int)r.below(256) : 0xA5;
  e.descending = r.chance(0.3);
  if (r.chance(0.3)) { e.tzOffset = (int)r.range(-12, 14) * 60 + (r.chance(0.2) ? 30 : 0); e.tzName = "X"; }
  if (r.chance(0.3)) e.vars["LANG"] = r.pick(std::vector<std::string>{"C", "de_DE.UTF-8", "en_US.UTF-8", "ja_JP.SJIS", "tr_TR"});
  if (r.chance(0.2)) e.vars["LC_ALL"] = r.pick(std::vector<std::string>{"C", "de_DE.UTF-8", "POSIX", "bogus"});
  if (r.chance(0.1)) e.vars["TZ"] = "Asia/Tokyo";
  e.enUsInstalled = r.chance(0.7);
  if (r.chance(0.15)) e.chunk = r.chance(0.3) ? 1 : (int)r.range(2, 4000);
  if (r.chance(0.15)) e.wchunk = (int)r.range(7, 4000);
  if (r.chance(0.1)) e.eintr = (int)r.range(1, 5);
  return e;
}
Opt randomOpt(Rng& r, const Matrix& m)
{
  Opt o;
  o.drv = m.drv;
  o.rw = r.chance(0.6);
  o.nodeutils = r.chance(0.5);
  o.noconfig = r.chance(0.2);
  o.noinc = r.chance(0.2);
  o.nofmon = r.chance(0.2);
  o.driverdir = r.chance(0.2);
  o.gendate = r.chance(0.25);
  o.ord = r.chance(0.5) ? r.below(1000) : 0;
  int k = (int)r.below(8);
  if (k == 0) o.out = "/home/user/gen/";
  if (k == 1) o.out = "gen";
  if (k == 2) o.out = "/home/user/work/a b/gen";
  if (k == 3) { o.dbc = "db/net.dbc"; o.out = "./gen"; }
  if (k == 4) o.out = "/home/user/../user/gen";
  return o;
}
// a later version of the same network
Matrix revise(Rng& r, const Matrix& m)
{
  Matrix x = m;
  x.hi = m.hi + (uint32_t)r.below(2);
  x.lo = m.lo + 1;
  x.hasVer = m.hasVer;
  if (!x.hasVer) x.hi = x.lo = 0;
  for (auto& q : x.msgs)
  {
    if (r.chance(0.3)) q.cycle = (int)r.range(1, 50) * 7;
    if (r.chance(0.2)) q.comment = "revised";
    for (auto& s : q.sigs) if (r.chance(0.2) && !s.role && !s.simple()) s.offset.m += 1;
  }
  if (x.msgs.size() > 1 && r.chance(0.5)) x.msgs.erase(x.msgs.begin() + (long)r.below(x.msgs.size()));
  else if (!x.msgs.empty() && r.chance(0.6))
  {
    Msg q = x.msgs[0];
    q.name += "_N";
    q.moreTx.clear();
    uint32_t id = 1;
    for (bool again = true; again;)
    {
      again = false;
      for (auto& e : x.msgs) if (e.id == id) { id++; again = true; }
    }
    q.id = id;
    q.ext = false;
    x.msgs.push_back(q);
  }
  return x;
}
Matrix smallMatrix(Rng& r)
{
  Profile p = randomProfile(r);
  if (r.chance(0.6)) { p.msgs = std::min(p.msgs, 4); p.sigs = std::min(p.sigs, 4); }
  return randomMatrix(r, p);
}
const std::vector<std::pair<std::string, std::vector<std::pair<std::string, int>>>> FAULTS = {
  {"open", {{"err", EACCES}, {"err", EMFILE}, {"err", ENOSPC}, {"err", EIO}, {"err", ENFILE}, {"err", EROFS}}},
  {"write", {{"err", EIO}, {"err", ENOSPC}, {"err", EDQUOT}, {"short", 1}, {"short", 100}, {"err", EINTR}, {"err", EFBIG}}},
  {"close", {{"err", EIO}, {"err", ENOSPC}, {"err", EDQUOT}}},
  {"mkdir", {{"err", EACCES}, {"err", ENOSPC}, {"err", EIO}, {"err", EROFS}, {"err", EMLINK}}},
  {"stat", {{"err", EACCES}, {"err", EIO}, {"err", ENOMEM}}},
  {"read", {{"err", EIO}, {"short", 1}, {"short", 37}, {"err", EINTR}, {"err", ESTALE}, {"err", EISDIR}}},
  {"seek", {{"err", EIO}, {"err", EINVAL}, {"err", ESPIPE}}},
  {"alloc", {{"null", ENOMEM}}},
  {"fsync", {{"err", EIO}}},
  {"rename", {{"err", EIO}, {"err", ENOSPC}}},
  {"time", {{"err", EIO}}},
  {"localtime", {{"null", EOVERFLOW}}},
};
static std::vector<int64_t> g_sites;     // representative allocations of the case at hand
Fault randomFault(Rng& r, const std::map<std::string, int64_t>& calls, const std::vector<std::string>& classes)
{
  for (int t = 0; t < 50; t++)
  {
    const std::string& c = r.pick(classes);
    auto n = calls.find(c);
    if (n == calls.end() || n->second <= 0) continue;
    for (auto& f : FAULTS)
      if (f.first == c)
      {
        auto& k = r.pick(f.second);
        Fault q;
        q.cls = c;
        q.kind = k.first;
        q.arg = k.second;
        q.nth = c == "alloc" && !g_sites.empty() && r.chance(0.6) ? r.pick(g_sites) : (int64_t)r.below((uint64_t)n->second);
        if (q.kind == "short" && r.chance(0.5)) q.arg = (int64_t)r.range(1, 3000);
        bool intr = q.kind == "short" || q.arg == EINTR;
        q.sticky = r.chance(0.25) && (!intr || q.kind == "short");
        return q;
      }
  }
  return Fault();
}
std::vector<Fault> randomFaults(Rng& r, const std::map<std::string, int64_t>& calls, const std::vector<std::string>& classes)
{
  int n = r.chance(0.7) ? 1 : r.chance(0.7) ? 2 : (int)r.range(3, 5);
  std::vector<Fault> v;
  for (int i = 0; i < n; i++) { Fault f = randomFault(r, calls, classes); if (!f.cls.empty()) v.push_back(f); }
  return v;
}
Fault crash(Rng& r, const std::map<std::string, int64_t>& calls)
{
  Fault f;
  auto at = [&](const char* c) { auto i = calls.find(c); return i == calls.end() ? 0l : (long)i->second; };
  int k = (int)r.below(10);
  if (k < 5 && at("write")) { f.cls = "write"; f.kind = r.chance(0.5) ? "torn" : "kill"; f.arg = (int64_t)r.below(101); f.nth = (int64_t)r.below((uint64_t)at("write")); }
  else if (k < 7 && at("open")) { f.cls = "open"; f.kind = "kill"; f.nth = (int64_t)r.below((uint64_t)at("open")); }
  else if (k < 8 && at("mkdir")) { f.cls = "mkdir"; f.kind = "kill"; f.nth = (int64_t)r.below((uint64_t)at("mkdir")); }
  else { f.cls = "sys"; f.kind = "kill"; f.nth = (int64_t)r.below((uint64_t)std::max(1l, at("sys"))); }
  if (r.chance(0.4)) f.kind = f.kind == "torn" ? "torn-power" : "power";
  return f;
}
void userFiles(Rng& r, Plan& p, const Opt& o, const std::string& cwd, double density)
{
  std::string root = o.root(cwd), d = lower(o.drv);
  auto add = [&](const std::string& f, double q, const std::string& data) { if (r.chance(q * density)) p.init.push_back({root + "/" + f, data, 'f', -1}); };
  add("README.txt", 0.5, "user notes\n");
  add("lib/user.c", 0.4, "int user;\n");
  add("lib/" + d + ".c.orig", 0.2, "saved\n");
  add("lib/" + d + ".h~", 0.2, "backup\n");
  add("usr/" + d + "-fmon.c", 0.5, "// edited by the user\n");
  add("usr/main.c", 0.3, "int main(void){return 0;}\n");
  add("conf/dbccodeconf.h", 0.5, "// user's own configuration, much longer than anything\n" + std::string((size_t)r.below(9000), 'x') + "\n");
  add("conf/" + d + "-config.h", 0.5, "// user's own driver configuration\n");
  add("inc/canmonitorutil.h", 0.5, "// user's own monitor\n");
  add("inc/other.h", 0.3, "#define OTHER\n");
  add("butl/other-binutil.c", 0.3, "// another driver\n");
  add("lib/other.h", 0.3, "// another driver\n");
  // other drivers whose names resemble this one
  for (auto& n : std::vector<std::string>{"truck9_" + d, d + "_2", d + "2", "x" + d})
  {
    add("butl/" + n + "-binutil.c", 0.15, "// another driver\n");
    add("butl/" + n + "-binutil.h", 0.1, "// another driver\n");
    add("lib/" + n + ".c", 0.1, "// another driver\n");
    add("lib/" + n + "-fmon.h", 0.1, "// another driver\n");
    add("conf/" + n + "-config.h", 0.1, "// another driver\n");
    add("usr/" + n + "-fmon.c", 0.1, "// another driver\n");
  }
  add("lib/" + d + ".h", 0.3, std::string((size_t)r.below(20000), 'y'));
  add("lib/" + d + ".c", 0.3, std::string((size_t)r.below(20000), 'z'));
}
std::string quote(const std::vector<std::string>& v) { std::string s; for (auto& e : v) s += (s.empty() ? "" : " ") + e; return s; }

// the matrix source behind a plan's first step
struct Gen : Check
{
  // -------------------------------------------------------------- case generation
  Plan base(Rng& r, const std::string& prop)
  {
    Plan p;
    p.prop = prop;
    Src s;
    s.m = smallMatrix(r);
    p.src.push_back(s);
    p.init.push_back({"/home/user/other/file.txt", "foreign\n", 'f', -1});
    Step st;
    st.opt.push_back(randomOpt(r, s.m));
    st.env.push_back(randomEnv(r));
    st.dbc = 0;
    p.steps.push_back(st);
    return p;
  }
  void prior(Rng& r, Plan& p)
  {
    // an earlier generation of another state of the network in the same place
    Src s;
    s.m = revise(r, p.src[0].m);
    p.src.push_back(s);
    Step st = p.steps.back();
    st.dbc = 1;
    st.env[0].chunk = st.env[0].wchunk = st.env[0].eintr = 0;
    if (r.chance(0.5)) st.opt[0].nodeutils = !st.opt[0].nodeutils;
    if (r.chance(0.5)) st.opt[0].noconfig = st.opt[0].noinc = st.opt[0].nofmon = false;
    p.steps.insert(p.steps.end() - 1, st);
  }
  void cases(uint64_t seed, uint64_t index, const std::string& prop, bool thorough, Stats& st, const std::function<bool(const Json&, const Outcome&)>& visit) override
  {
    Rng r(seed, prop, index);
    auto go = [&](Plan p) -> bool
    {
      st.plans++;
      if (prop == "G09" || prop == "G10")
        for (auto& s : p.steps) for (auto& o : s.opt) o.gendate = false;
      Outcome o = executePlan(p, st, false);
      addSample(st, p.json());
      return visit(p.json(), o);
    };
    // call counts of the last step when nothing goes wrong
    auto counts = [&](const Plan& p, StepOut* keep = nullptr) -> std::map<std::string, int64_t>
    {
      Exec ex(st, false);
      Vfs fs = initial(p);
      for (size_t i = 0; i + 1 < p.steps.size(); i++) { auto o = runStep(p, p.steps[i], fs, ex); fs = o.after; }
      Step q = p.steps.back();
      q.faults.clear();
      q.sched.clear();
      q.host.clear();
      g_recordSites = true;
      auto o = runStep(p, q, fs, ex);
      g_recordSites = false;
      g_sites = o.w.p[0].sites;
      if (keep) *keep = o;
      return o.w.p[0].calls;
    };
    g_sites.clear();
    const int variants = thorough ? 24 : 12;
    std::string cwd = "/home/user";
    if (prop == "G01" || prop == "G02" || prop == "G03")
    {
      Plan p = base(r, prop);
      if (prop == "G01") userFiles(r, p, p.steps[0].opt[0], cwd, r.chance(0.5) ? 1.0 : 0.0);
      if (r.chance(0.5)) prior(r, p);
      auto c = counts(p);
      if (!go(p)) return;
      std::vector<std::string> cl = prop == "G01" ? std::vector<std::string>{"open", "write", "write", "close", "mkdir", "stat", "alloc", "fsync", "rename", "read"}
        : prop == "G02" ? std::vector<std::string>{"read", "read", "seek", "open", "close", "alloc", "stat"}
        : std::vector<std::string>{"open", "write", "close", "mkdir", "stat", "alloc", "alloc", "read", "seek", "time", "localtime", "fsync", "rename"};
      for (int v = 0; v < variants; v++)
      {
        Plan q = p;
        Step& s = q.steps.back();
        s.faults = randomFaults(r, c, cl);
        if (prop == "G02" && r.chance(0.4)) s.env[0].chunk = r.chance(0.3) ? 1 : (int)r.range(2, 600);
        if (prop == "G02" && r.chance(0.2)) s.env[0].eintr = (int)r.range(1, 4);
        if (prop == "G02" && s.env[0].chunk)
        {
          // more reads, more places to fail
          auto c2 = counts(q);
          s.faults = randomFaults(r, c2, cl);
        }
        if (prop != "G02" && r.chance(0.12)) { s.capacity = (long)r.below(60000); if (r.chance(0.7)) s.faults.clear(); }
        if (prop == "G03" && r.chance(0.25))
        {
          // an environment that cannot work at all
          s.faults.clear();
          std::string root = s.opt[0].root(cwd), outp = normal(cwd, s.opt[0].out);
          switch (r.below(9))
          {
            case 0: s.opt[0].dbc = "/home/user/db/none.dbc"; s.dbc = -1; break;
            case 1: q.init.push_back({"/home/user/db/locked.dbc", "BO_ 1 A: 8 B\n", 'f', 0}); s.opt[0].dbc = "/home/user/db/locked.dbc"; s.dbc = -1; break;
            case 2: q.init.push_back({"/home/user/db/dir.dbc", "", 'd', -1}); s.opt[0].dbc = "/home/user/db/dir.dbc"; s.dbc = -1; break;
            case 3: s.opt[0].out = "/home/user/none/deeper/gen"; break;
            case 4: q.init.push_back({"/home/user/ro", "", 'd', 0555}); s.opt[0].out = "/home/user/ro"; break;
            case 5: q.init.push_back({"/home/user/plain", "file\n", 'f', -1}); s.opt[0].out = "/home/user/plain"; break;
            case 6: q.init.push_back({"/home/user/loop", "/home/user/loop", 'l', -1}); s.opt[0].out = "/home/user/loop"; break;
            case 7: { std::string dn = OUT_DIRS[r.below(5)]; s.opt[0].rw = true; s.opt[0].out = "/home/user/mix"; s.opt[0].driverdir = false; q.init.push_back({"/home/user/mix/" + dn, "in the way\n", 'f', -1}); break; }
            case 8: { s.opt[0].rw = true; s.opt[0].out = "/home/user/mix"; s.opt[0].driverdir = false; auto e = expectedFiles(q.src[0].m, s.opt[0]); q.init.push_back({"/home/user/mix/" + r.pick(e), "", r.chance(0.5) ? 'd' : 'f', r.chance(0.5) ? -1 : 0444}); break; }
          }
          if (q.steps.size() > 1) q.steps.erase(q.steps.begin());
        }
        if (!go(q)) return;
      }
    }
    else if (prop == "G04")
    {
      Plan p = base(r, prop);
      p.steps[0].env[0] = Env();
      Opt o = p.steps[0].opt[0];
      o.out = "/home/user/gen";
      o.dbc = "/home/user/db/net.dbc";
      o.ord = 0;
      o.gendate = false;
      p.steps[0].opt[0] = o;
      for (int v = 0; v < 6; v++)
      {
        Plan q = p;
        Step s = p.steps[0];
        s.env[0] = randomEnv(r);
        s.opt[0].ord = r.below(1000);
        s.opt[0].gendate = r.chance(0.4);
        if (r.chance(0.5)) { s.env[0].cwd = "/home/user/work"; s.opt[0].out = r.chance(0.5) ? "../gen2" : "/home/user/gen2/"; q.init.push_back({"/home/user/gen2", "", 'd', -1}); }
        if (r.chance(0.5)) s.opt[0].dbc = r.chance(0.5) ? "/tmp/x/net.dbc" : "/home/user/db/sub/../sub/net.dbc";
        if (r.chance(0.2))
        {
          // the same name, but the file itself has another one
          s.opt[0].dbc = "/home/user/db/current/net.dbc";
          q.init.push_back({s.opt[0].dbc, r.chance(0.5) ? "../net-2026.11.dbc" : "/home/user/store/Network 7.txt", 'l', -1});
        }
        if (r.chance(0.4)) userFiles(r, q, s.opt[0], s.env[0].cwd, 1.0);
        if (r.chance(0.3)) { auto c = p.steps[0]; Fault f; f.cls = r.chance(0.5) ? "time" : "localtime"; f.kind = f.cls == "time" ? "err" : "null"; f.arg = EIO; s.faults.push_back(f); }
        if (!s.opt[0].gendate && r.chance(0.3)) { Fault f; f.cls = "sys"; f.kind = "jump"; f.nth = (int64_t)r.below(30); f.arg = r.range(-1000000, 1000000) * 1000000000ll; s.faults.push_back(f); }
        q.steps.push_back(s);
        if (!go(q)) return;
      }
    }
    else if (prop == "G05")
    {
      Plan p = base(r, prop);
      p.steps[0].opt[0].rw = true;
      if (r.chance(0.15)) { p.steps[0].opt[0].out = "/home/user/fresh"; p.steps[0].opt[0].driverdir = false; }
      if (r.chance(0.6)) userFiles(r, p, p.steps[0].opt[0], cwd, 0.7);
      if (r.chance(0.6)) prior(r, p);
      p.x.set("crash", (int64_t)p.steps.size() - 1);
      auto c = counts(p);
      Step last = p.steps.back();
      for (int v = 0; v < variants; v++)
      {
        Plan q = p;
        int n = r.chance(0.75) ? 1 : (int)r.range(2, 4);
        q.steps.pop_back();
        for (int k = 0; k < n; k++)
        {
          Step s = last;
          if (k) s.dbc = -1;
          s.faults = {crash(r, c)};
          if (r.chance(0.2)) { Fault f = randomFault(r, c, {"write", "open", "close", "mkdir"}); if (!f.cls.empty()) s.faults.push_back(f); }
          s.powerSeed = r.below(1u << 30);
          s.power = r.chance(0.1);
          q.steps.push_back(s);
        }
        Step e = last;
        e.dbc = -1;
        e.env[0] = randomEnv(r);
        e.env[0].now = last.env[0].now;
        e.env[0].tzOffset = last.env[0].tzOffset;
        q.steps.push_back(e);
        if (!go(q)) return;
      }
    }
    else if (prop == "G06")
    {
      Plan p = base(r, prop);
      Opt& o = p.steps[0].opt[0];
      o.rw = false;
      std::string root = o.root(cwd);
      // the directory of the driver comes into being with the first generation
      bool fresh = o.driverdir && r.chance(0.3);
      p.init.push_back({fresh ? root.substr(0, root.rfind('/')) : root, "", 'd', -1});
      int n = fresh ? 0 : r.chance(0.1) ? 1000 : (int)r.below(6);
      bool gaps = r.chance(0.4);
      for (int k = 0; k < n; k++)
      {
        if (gaps && r.chance(0.4)) continue;
        std::string d = root + fmt("/%03d", k);
        if (n == 1000) { p.init.push_back({d, "", r.chance(0.05) ? 'f' : 'd', -1}); continue; }
        switch (r.below(8))
        {
          case 0: p.init.push_back({d, "a plain file\n", 'f', -1}); break;
          case 1: p.init.push_back({d, "/home/user/nowhere", 'l', -1}); break;
          case 2: p.init.push_back({d, "/home/user/other", 'l', -1}); break;
          case 3: p.init.push_back({d, "", 'd', 0555}); break;
          default:
            for (auto& f : expectedFiles(p.src[0].m, o)) if (r.chance(0.7)) p.init.push_back({d + "/" + f, r.chance(0.2) ? "" : "old " + f + std::string((size_t)r.below(3000), 'o'), 'f', -1});
            p.init.push_back({d + "/user.txt", "mine\n", 'f', -1});
            // what the user keeps beside the files of an earlier generation
            if (r.chance(0.5)) for (auto f : {"usr/checks.c", "usr/hooks/h.c", "conf/site.h", "lib/notes.md", "inc/more.h", "butl/CMakeLists.txt"}) if (r.chance(0.3)) p.init.push_back({d + "/" + f, "of the user\n", 'f', -1});
        }
      }
      if (n == 1000) { for (auto& f : p.init) (void)f; if (r.chance(0.5)) p.init.pop_back(); }
      userFiles(r, p, o, cwd, !fresh && r.chance(0.5) ? 0.8 : 0.0);
      int gens = (int)r.below(3);
      for (int k = 0; k < gens; k++) p.steps.push_back(p.steps[0]);
      auto c = counts(p);
      if (!go(p)) return;
      for (int v = 0; v < (n == 1000 ? 2 : variants); v++)
      {
        Plan q = p;
        for (size_t k = 0; k < q.steps.size(); k++)
        {
          Step& s = q.steps[k];
          if (k + 1 < q.steps.size() && r.chance(0.5)) continue;
          if (r.chance(0.5)) s.faults = {crash(r, c)};
          else s.faults = randomFaults(r, c, {"open", "write", "close", "mkdir", "mkdir", "stat", "stat", "alloc"});
          s.powerSeed = r.below(1u << 30);
        }
        if (!go(q)) return;
      }
    }
    else if (prop == "G07" || prop == "G13")
    {
      Plan p = base(r, prop);
      Step& s = p.steps[0];
      s.opt[0].rw = prop == "G13";
      if (prop == "G13" && r.chance(0.5)) { s.opt[0].out = "/home/user/fresh"; s.opt[0].driverdir = false; }
      std::string root = s.opt[0].root(cwd);
      if (prop == "G07") p.init.push_back({root, "", 'd', -1});
      int n = r.chance(0.6) ? 2 : (int)r.range(2, 4);
      if (prop == "G07")
        for (int k = 0; k < (int)r.below(4); k++) p.init.push_back({root + fmt("/%03d", k), "", 'd', -1});
      else if (r.chance(0.4)) userFiles(r, p, s.opt[0], cwd, 0.6);
      for (int k = 1; k < n; k++)
      {
        Opt o = s.opt[0];
        if (prop == "G07")
        {
          if (r.chance(0.5)) { o = randomOpt(r, p.src[0].m); o.rw = false; o.out = s.opt[0].out; o.driverdir = s.opt[0].driverdir; o.dbc = s.opt[0].dbc; }
          if (r.chance(0.3) && !o.driverdir) o.drv = "other";
        }
        s.opt.push_back(o);
        Env e = randomEnv(r);
        if (prop == "G13") { e.now = s.env[0].now; e.tzOffset = s.env[0].tzOffset; }
        e.pid = s.env[0].pid + k;
        s.env.push_back(e);
      }
      auto c = counts(p);
      int64_t sys = c["sys"], pre = std::max<int64_t>(1, sys - c["open"] * 3 - c["mkdir"] - 4);
      for (int v = 0; v < variants; v++)
      {
        Plan q = p;
        Step& t = q.steps[0];
        int64_t total = sys * n;
        if (r.chance(0.5))
        {
          // dense round robin with random bursts
          int64_t at = r.chance(0.6) ? (int64_t)r.below((uint64_t)pre + 3) : 0;
          int burst = (int)r.range(1, 6);
          while (at < total && t.sched.size() < 400) { t.sched.push_back({at, (int)r.below((uint64_t)n)}); at += (int64_t)r.range(1, burst); }
        }
        else
        {
          int k = (int)r.range(1, 8);
          for (int i = 0; i < k; i++) t.sched.push_back({(int64_t)r.below((uint64_t)total), (int)r.below((uint64_t)n)});
          std::sort(t.sched.begin(), t.sched.end(), [](const Switch& a, const Switch& b) { return a.step < b.step; });
        }
        if (prop == "G07" && r.chance(0.2)) { Fault f = r.chance(0.5) ? crash(r, c) : randomFault(r, c, {"open", "write", "mkdir", "stat", "close"}); if (f.kind == "power") f.kind = "kill"; if (f.kind == "torn-power") f.kind = "torn"; f.proc = (int)r.below((uint64_t)n); if (!f.cls.empty()) t.faults.push_back(f); }
        if (!go(q)) return;
      }
    }
    else if (prop == "G08")
    {
      Plan p = base(r, prop);
      if (r.chance(0.7)) { p.steps[0].opt[0].noconfig = r.chance(0.5); p.steps[0].opt[0].noinc = r.chance(0.5); p.steps[0].opt[0].nofmon = r.chance(0.5); }
      userFiles(r, p, p.steps[0].opt[0], cwd, 1.0);
      if (r.chance(0.3)) prior(r, p);
      auto c = counts(p);
      if (!go(p)) return;
      for (int v = 0; v < variants - 2; v++)
      {
        Plan q = p;
        Step& s = q.steps.back();
        if (r.chance(0.5)) s.faults = {crash(r, c)};
        else s.faults = randomFaults(r, c, {"open", "write", "close", "mkdir", "stat", "alloc", "read", "rename"});
        s.powerSeed = r.below(1u << 30);
        if (!go(q)) return;
      }
    }
    else if (prop == "G09")
    {
      Plan p = base(r, prop);
      Matrix& a = p.src[0].m;
      a.hasVer = true;
      if (r.chance(0.3)) { a.hi = (uint32_t)r.below(3); a.lo = (uint32_t)r.below(3); }
      Opt& o = p.steps[0].opt[0];
      o = Opt();
      o.drv = a.drv;
      o.nodeutils = r.chance(0.6);
      Src b;
      b.m = r.chance(0.5) ? a : revise(r, a);
      switch (r.below(10))
      {
        case 0: b.m.hi = a.lo; b.m.lo = a.hi; break;
        case 9:
        {
          // 1.1 and 1.10, 2.0 and 20.0
          uint32_t k = r.pick(std::vector<uint32_t>{10, 10, 100, 1000});
          a.lo = 1 + a.lo % 100;
          b.m.hi = a.hi; b.m.lo = a.lo * k;
          if (r.chance(0.3)) { std::swap(a.hi, a.lo); std::swap(b.m.hi, b.m.lo); }
          if (r.chance(0.5)) { std::swap(a.hi, b.m.hi); std::swap(a.lo, b.m.lo); }
          break;
        }
        case 1: b.m.hi = a.hi + 1; b.m.lo = a.lo; break;
        case 2: b.m.hi = a.hi; b.m.lo = a.lo + 1; break;
        case 3: b.m.hi = a.hi * 10 + 1; b.m.lo = a.lo; break;
        case 4: b.m.hi = (uint32_t)r.below(70000); b.m.lo = (uint32_t)r.below(70000); break;
        case 5: b.m = a; b.m.style = r.below(1000); break;
        // versions which a sloppy comparison takes for equal
        case 6:
        {
          uint32_t k = r.pick(std::vector<uint32_t>{10, 100, 1000, 16, 256, 65536, 1});
          a.hi = (uint32_t)r.range(0, 3); a.lo = k + (uint32_t)r.below(3);
          b.m.hi = a.hi + 1; b.m.lo = a.lo - k;
          break;
        }
        case 7:
        {
          uint32_t k = r.pick(std::vector<uint32_t>{256, 65536, 10, 100, 128, 1000, 1u << 24, 1u << 31});
          if (r.chance(0.5)) { b.m.hi = a.hi; b.m.lo = a.lo + k; } else { b.m.lo = a.lo; b.m.hi = a.hi + k; }
          if (r.chance(0.5)) { a.hi = 1; a.lo = 12; b.m.hi = 11; b.m.lo = 2; }
          break;
        }
        case 8: a.hi = r.chance(0.5) ? 0 : a.hi; a.lo = a.hi ? 0 : a.lo; b.m.hi = a.hi ? 0 : a.lo; b.m.lo = a.hi; break;
      }
      p.src.push_back(b);
      Step s2 = p.steps[0];
      s2.dbc = 1;
      p.steps.push_back(s2);
      auto c = counts(p);
      for (int v = 0; v < 3; v++)
      {
        Plan q = p;
        Step& s = q.steps.back();
        if (r.chance(0.5))
        {
          Fault f;
          f.cls = "open";
          f.kind = r.chance(0.8) ? "kill" : "err";
          f.arg = EACCES;
          f.sticky = f.kind == "err";
          f.nth = (int64_t)r.below((uint64_t)c["open"]);
          s.faults = {f};
        }
        else q.x.set("copy", r.below(1u << 30) + 1);   // an unfinished copy of the new files over the old ones
        if (!go(q)) return;
      }
    }
    else if (prop == "G10") damageCases(r, st, go, thorough);
    else if (prop == "G11")
    {
      Plan p = base(r, prop);
      Src b;
      b.m = r.chance(0.6) ? revise(r, p.src[0].m) : smallMatrix(r);
      p.src.push_back(b);
      for (int v = 0; v < variants; v++)
      {
        Plan q = p;
        Step& s = q.steps[0];
        if (r.chance(0.5)) s.env[0].chunk = (int)r.range(16, 800);
        auto c = v ? std::map<std::string, int64_t>{{"sys", 0}} : counts(q);
        int64_t total = c["sys"] ? c["sys"] : counts(q)["sys"];
        HostAct h;
        h.path = normal(cwd, s.opt[0].dbc);
        h.step = (int64_t)(r.chance(0.7) ? r.below((uint64_t)std::min<int64_t>(total, 14 + (s.env[0].chunk ? total / 2 : 0))) : r.below((uint64_t)total + 2));
        h.op = r.chance(0.75) ? "replace" : "remove";
        if (h.op == "replace") h.data = "@1";
        s.host.push_back(h);
        if (r.chance(0.25)) { HostAct g = h; g.step += (int64_t)r.range(1, 12); g.op = g.op == "replace" ? (r.chance(0.5) ? "remove" : "replace") : "replace"; g.data = g.op == "replace" ? (r.chance(0.5) ? "@0" : "@1") : ""; s.host.push_back(g); }
        if (!go(q)) return;
      }
    }
    else if (prop == "G12")
    {
      Plan p = base(r, prop);
      Step& s0 = p.steps[0];
      if (r.chance(0.4)) userFiles(r, p, s0.opt[0], cwd, 0.7);
      p.init.push_back({"/000", "", 'd', -1});
      auto c = counts(p);
      for (int v = 0; v < variants; v++)
      {
        Plan q = p;
        Step& s = q.steps[0];
        Opt& o = s.opt[0];
        auto argv = o.argv();
        argv.erase(argv.begin());
        std::string what;
        auto at = [&](const std::string& k) { return (size_t)(std::find(argv.begin(), argv.end(), k) - argv.begin()); };
        int kind = (int)r.below(10);
        std::string key = r.pick(std::vector<std::string>{"-dbc", "-out", "-drvname"});
        switch (kind)
        {
          case 0: { size_t i = at(key); argv.erase(argv.begin() + (long)i, argv.begin() + (long)i + 2); what = "no " + key; break; }
          case 1: { size_t i = at(key); argv.erase(argv.begin() + (long)i + 1); what = "no value after " + key; break; }
          case 2: { size_t i = at(key); argv[i + 1] = ""; what = "empty value after " + key; break; }
          case 3: argv.insert(argv.begin() + (long)r.below(argv.size() + 1), "-help"); what = "-help"; break;
          case 4: argv[at("-drvname") + 1] = r.pick(std::vector<std::string>{"!!!", "...", "123", "/"}); what = "unusable driver name"; break;
          case 5: argv[at("-dbc") + 1] = "/home/user/db/none.dbc"; what = "DBC does not exist"; break;
          case 6: q.init.push_back({"/home/user/db/locked.dbc", "BO_ 1 A: 8 B\n", 'f', 0}); argv[at("-dbc") + 1] = "/home/user/db/locked.dbc"; what = "DBC unreadable"; break;
          case 7: { Fault f; f.cls = r.chance(0.6) ? "open" : "stat"; f.kind = "err"; f.arg = r.pick(std::vector<int>{EACCES, EIO, EMFILE, ENOENT}); f.nth = 0; s.faults = {f}; what = "DBC cannot be opened"; break; }
          case 8: argv.clear(); if (r.chance(0.5)) argv = {"-help"}; if (r.chance(0.3)) argv = {"file.dbc"}; what = "no arguments"; break;
          case 9: q.init.push_back({"/home/user/db/far.dbc", "/home/user/db/gone", 'l', -1}); argv[at("-dbc") + 1] = "/home/user/db/far.dbc"; what = "dangling link"; break;
        }
        if (kind == 3)
        {
          // "-help" between an option and its value would take the value away, which is a refusal as well
        }
        o.useRaw = true;
        o.raw = argv;
        q.x.set("refusal", what);
        if (r.chance(0.3) && s.faults.empty()) s.faults = randomFaults(r, c, {"stat", "alloc", "read"});
        if (r.chance(0.3)) s.env[0].cwd = r.pick(std::vector<std::string>{"/", "/home/user/gen", "/home/user/work"});
        if (!go(q)) return;
      }
    }
  }
  // -------------------------------------------------------------- damaged DBC files
  static std::vector<std::string> split(const std::string& t)
  {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < t.size())
    {
      size_t e = t.find('\n', i);
      e = e == std::string::npos ? t.size() : e + 1;
      v.push_back(t.substr(i, e - i));
      i = e;
    }
    return v;
  }
  static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& e : v) s += e; return s; }
  static std::string junk(Rng& r, bool lineSafe)
  {
    static const std::vector<std::string> nums = {"-1", "0", "65", "255", "256", "4294967295", "4294967296", "99999999999999999999", "2147483648", "18446744073709551616", "1e9", "1e400", "nan", "inf", "0x10", "-0", "00000000000000000008", ".", "-", "1.2.3"};
    static const std::vector<std::string> toks = {"BO_", "SG_", "CM_", "BA_", "VAL_", "BO_TX_BU_", ":", "|", "@", "+", "-", "(", ")", "[", "]", "\"", ";", ",", "m0", "M", "m99999999999", "<RollingCounter>", "<Checksum:", "<Checksum:XOR8:3>", "<Checksum::>", "<Checksum:A:B:C>", "GenMsgCycleTime", "Vector__XXX", "%s%n%d", "\\", "/*", "*/", "//", "#error", "\t", "  "};
    switch (r.below(4))
    {
      case 0: return r.pick(nums);
      case 1: return r.pick(toks);
      case 2: { std::string s; int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) { char c = (char)r.below(256); if (lineSafe && (c == '\n' || c == '\r')) c = '?'; s += c; } return s; }
      default: { size_t n = r.chance(0.7) ? r.below(60) : r.below(3000); return std::string(n, (char)('a' + r.below(26))); }
    }
  }
  static std::string damage(Rng& r, const std::string& t, const std::string& other)
  {
    std::string s = t;
    int n = (int)r.range(1, r.chance(0.3) ? 12 : 3);
    for (int k = 0; k < n; k++)
    {
      auto v = split(s);
      size_t at = s.empty() ? 0 : r.below(s.size());
      switch (r.below(14))
      {
        case 0: s.resize(at); break;                                                            // torn
        case 1: if (!s.empty()) s[at] = (char)(s[at] ^ (1 << r.below(8))); break;               // bit flip
        case 2: { size_t e = std::min(s.size(), at + r.below(200)); std::fill(s.begin() + (long)at, s.begin() + (long)e, (char)0); break; }  // lost sector
        case 3: s.erase(at, r.below(80)); break;
        case 4: s.insert(at, junk(r, false)); break;
        case 5: if (!v.empty()) { v.insert(v.begin() + (long)r.below(v.size()), v[r.below(v.size())]); s = join(v); } break;
        case 6: if (!v.empty()) { v.erase(v.begin() + (long)r.below(v.size())); s = join(v); } break;
        case 7: if (v.size() > 1) { std::swap(v[r.below(v.size())], v[r.below(v.size())]); s = join(v); } break;
        case 8: { size_t o = other.empty() ? 0 : r.below(other.size()); s = s.substr(0, at) + other.substr(o); break; }     // interleaved writers
        case 9: { size_t o = other.empty() ? 0 : r.below(other.size()); s.insert(at, other.substr(o, r.below(400))); break; }
        case 10:
        case 11:
        {
          // replace one token (number or word) by something else
          size_t b = at;
          while (b < s.size() && !isalnum((unsigned char)s[b])) b++;
          size_t e = b;
          while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_' || s[e] == '.')) e++;
          s = s.substr(0, b) + junk(r, true) + s.substr(e);
          break;
        }
        case 12: { size_t b = s.find_first_of("0123456789", at); if (b != std::string::npos) { size_t e = b; while (e < s.size() && isdigit((unsigned char)s[e])) e++; s = s.substr(0, b) + std::to_string(r.chance(0.5) ? r.below(300) : r.next()) + s.substr(e); } break; }
        case 13: { std::string block = s.substr(at, r.below(300)); int q = (int)r.range(1, 8); for (int i = 0; i < q; i++) s.insert(std::min(at, s.size()), block); break; }
      }
      if (s.size() > 60000) s.resize(60000);
    }
    return s;
  }
  // damage confined to the lines of one message: never touches identifiers, names, line structure or keywords
  static std::string damageLocal(Rng& r, const std::string& t, std::string& victim)
  {
    auto v = split(t);
    std::vector<size_t> idx;
    for (size_t i = 0; i < v.size(); i++) { size_t c = v[i].find_first_not_of(" \t"); if (c != std::string::npos && v[i].compare(c, 3, "SG_") == 0) idx.push_back(i); }
    if (idx.empty()) return t;
    size_t i = r.pick(idx), b = i;
    while (b > 0 && v[b].compare(0, 4, "BO_ ")) b--;
    if (v[b].compare(0, 4, "BO_ ")) return t;
    size_t n0 = v[b].find_first_of("0123456789", 4);
    if (n0 != std::string::npos) n0 = v[b].find_first_not_of("0123456789", n0);
    if (n0 != std::string::npos) n0 = v[b].find_first_not_of(" \t", n0);
    size_t n1 = n0 == std::string::npos ? n0 : v[b].find_first_of(" \t:", n0);
    if (n1 == std::string::npos) return t;
    victim = v[b].substr(n0, n1 - n0);
    size_t colon = v[i].find(':');
    if (r.chance(0.4))
    {
      // not the signal itself, but a comment, value table or cycle time of that message
      std::string id;
      for (char c : v[b].substr(4)) { if (isdigit((unsigned char)c)) id += c; else if (!id.empty()) break; }
      std::vector<std::pair<size_t, size_t>> tail;
      for (size_t k = 0; k < v.size(); k++)
      {
        bool cm = !v[k].compare(0, 4, "CM_ "), val = !v[k].compare(0, 5, "VAL_ "), ba = !v[k].compare(0, 4, "BA_ ") && v[k].find("\"GenMsgCycleTime\"") != std::string::npos;
        if (!cm && !val && !ba) continue;
        // the words of the line: the damage starts after the names
        std::vector<std::pair<std::string, size_t>> w;
        for (size_t at = 0; at < v[k].size() && w.size() < 5;)
        {
          size_t e = std::min(v[k].find_first_of(" \t\r\n", at), v[k].size());
          w.push_back({v[k].substr(at, e - at), e});
          at = std::min(v[k].find_first_not_of(" \t\r\n", e), v[k].size());
        }
        size_t pos = val ? 1 : cm ? 2 : 3;
        if (w.size() <= pos || w[pos].first != id) continue;
        if (cm && w[1].first != "SG_" && w[1].first != "BO_") continue;
        if (ba && w[2].first != "BO_") continue;
        if (val || (cm && w[1].first == "SG_")) pos++;
        if (pos < w.size() && w[pos].second + 2 < v[k].size()) tail.push_back({k, w[pos].second});
      }
      if (!tail.empty()) { auto q = r.pick(tail); i = q.first; colon = q.second; }
    }
    bool crlf = v[i].size() > 1 && v[i][v[i].size() - 2] == '\r';
    std::string eol = crlf ? "\r\n" : "\n", body = v[i].substr(0, v[i].size() - eol.size());
    if (colon == std::string::npos || colon >= body.size()) return t;
    int n = (int)r.range(1, 3);
    for (int k = 0; k < n; k++)
    {
      size_t at = colon + 1 + r.below(body.size() > colon + 1 ? body.size() - colon - 1 : 1);
      switch (r.below(4))
      {
        case 0: body.resize(std::min(at, body.size())); break;
        case 1: if (at < body.size()) { char c = (char)r.range(33, 126); body[at] = c; } break;
        case 2: if (at <= body.size()) { std::string j = junk(r, true); for (auto& c : j) if ((unsigned char)c < 32) c = '?'; body.insert(std::min(at, body.size()), j); } break;
        case 3: { size_t p = body.find_first_of("0123456789", at); if (p != std::string::npos) { size_t e = p; while (e < body.size() && isdigit((unsigned char)body[e])) e++; body = body.substr(0, p) + std::to_string(r.chance(0.6) ? r.below(200) : r.next()) + body.substr(e); } break; }
      }
    }
    v[i] = body + eol;
    return join(v);
  }
  void damageCases(Rng& r, Stats& st, const std::function<bool(const Plan&)>& go, bool thorough)
  {
    Plan p = base(r, "G10");
    std::string good = p.src[0].m.dbc(), other = smallMatrix(r).dbc();
    if (r.chance(0.25) && !corpus.empty()) good = r.pick(corpus);
    for (int v = 0; v < (thorough ? 30 : 14); v++)
    {
      Plan q = p;
      q.steps[0].env[0] = r.chance(0.5) ? randomEnv(r) : Env();
      q.steps[0].opt[0].gendate = false;
      Src b;
      b.isText = true;
      std::string victim;
      bool local = r.chance(0.35);
      b.text = local ? damageLocal(r, good, victim) : damage(r, good, other);
      if (victim.empty()) local = false;
      if (!local && r.chance(0.03))
      {
        // pathological sizes
        switch (r.below(7))
        {
          case 4:
          {
            // a comment (or another statement) which is never closed in front of very many lines
            std::string l = r.pick(std::vector<std::string>{"some more text", "SG", "x", "\"", "a \"quoted text; goes on", "BO", " ", "; ;"});
            b.text = good + r.pick(std::vector<std::string>{"CM_ BO_ 100 \"never closed", "CM_ SG_ 1 A \"", "CM_ \"", "VAL_ 1 A 0 \"zero", "BA_ \"GenMsgCycleTime\" BO_ 1"}) + "\n";
            if (r.chance(0.4)) b.text = b.text.substr(good.size()) + good;
            for (int i = 0, n = (int)r.range(9000, 14000); i < n; i++) b.text += l + fmt(" %d\n", i);
            break;
          }
          case 5:
          {
            // very many statements about things that do not exist
            int k = (int)r.below(4);
            b.text = good;
            for (int i = 0, n = (int)r.range(500, 1500); i < n; i++)
              b.text += k == 0 ? fmt("CM_ SG_ %d S%d \"text %d\";\n", i, i, i) : k == 1 ? fmt("BA_ \"GenMsgCycleTime\" BO_ %d %d;\n", i, i) : k == 2 ? fmt("VAL_ %d S%d 0 \"off\" 1 \"on\" ;\n", i, i) : fmt("BO_TX_BU_ %d : A%d,B%d;\n", i, i, i);
            break;
          }
          case 6: b.text = good + std::string((size_t)r.range(20000, 300000), " \r \t;\"\\"[r.below(7)]) + "\n" + good; break;
          case 0: b.text = good + "CM_ \"" + std::string((size_t)r.range(20000, 400000), 'a') + "\";\n"; break;
          case 1: b.text = "BU_: " + std::string((size_t)r.range(20000, 200000), 'B') + "\n" + good; break;
          case 2: { std::string s = "BO_ 77 Big: 64 A\n"; for (int i = 0; i < 300; i++) s += fmt(" SG_ S%d : %d|%d@%d%c (1,0) [0|0] \"\" A\n", i, (int)r.below(600), (int)r.range(1, 64), (int)r.below(2), r.chance(0.5) ? '+' : '-'); b.text = good + s; break; }
          case 3: { std::string s; for (int i = 0; i < 200; i++) s += fmt("BO_ %d R%d: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] \"\" A\n", i, i); b.text = s; break; }
        }
      }
      if (local) { Src g; g.isText = true; g.text = good; q.src = {g, b}; q.steps[0].dbc = 1; q.x.set("victim", victim); }
      else { q.src = {b}; q.steps[0].dbc = 0; }
      if (!go(q)) return;
    }
  }
  std::vector<std::string> corpus;
  // -------------------------------------------------------------- execution and oracles
  static Vfs initial(const Plan& p)
  {
    Vfs fs;
    fs.mkdirs("/home/user/db");
    fs.mkdirs("/home/user/gen");
    fs.mkdirs("/home/user/work/a b/gen");
    fs.mkdirs("/tmp");
    for (auto& f : p.init) install(fs, f);
    return fs;
  }
  Outcome execute(const Json& j, Stats& st, bool log) override { g_refs.clear(); return executePlan(Plan::from(j), st, log); }
  Outcome executePlan(const Plan& p, Stats& st, bool log)
  {
    Exec ex(st, log);
    Vfs fs = initial(p);
    std::vector<StepOut> o;
    for (auto& s : p.steps)
    {
      o.push_back(runStep(p, s, fs, ex));
      fs = o.back().after;
    }
    judge(p, o, ex);
    ex.out.trace = ex.trace.h;
    return ex.out;
  }
  // a fault-free run must succeed and leave exactly the documented files
  bool sane(const Plan& p, const Step& s, const StepOut& ref, Exec& ex, const std::string& prop)
  {
    auto& r = ref.w.p[0];
    if (!r.memErrors.empty()) return ex.fail("memory-error", r.memErrors[0]);
    if (!r.success()) return ex.fail("fault-free-run-fails", why(r));
    if (s.opt[0].useRaw || s.dbc < 0 || p.src[(size_t)s.dbc].isText) return true;
    auto& m = p.src[(size_t)s.dbc].m;
    std::string dir = genDir(s.opt[0], s.env[0].cwd, ref.before, ref.after);
    if (dir.empty()) return ex.fail("fault-free-output", "no output directory");
    for (auto& f : expectedFiles(m, s.opt[0]))
    {
      auto d = ref.after.data(dir + "/" + f);
      if (!d) return ex.fail("fault-free-output", f + " is not generated");
      if (d->empty()) return ex.fail("fault-free-output", f + " is empty");
    }
    return true;
  }
  // does the core header mention everything the matrix contains
  bool reflects(const Matrix& m, const Opt& o, const std::string& dir, const Vfs& fs, Exec& ex)
  {
    auto h = fs.data(dir + "/lib/" + lower(o.drv) + ".h"), c = fs.data(dir + "/lib/" + lower(o.drv) + ".c");
    if (!h || !c) return ex.fail("dbc-not-reflected", "no core files");
    auto has = [&](const std::string& t, const std::string& s) { return t.find(s) != std::string::npos; };
    // the number a macro stands for, however it is written
    auto macro = [&](const std::string& t, const std::string& name) -> int64_t
    {
      for (size_t b = t.find(name); b != std::string::npos; b = t.find(name, b + 1))
      {
        if (b && (isalnum((unsigned char)t[b - 1]) || t[b - 1] == '_')) continue;
        size_t d = t.rfind("#define", b), e = b + name.size();
        if (d == std::string::npos || t.substr(d + 7, b - d - 7).find_first_not_of(" \t") != std::string::npos) continue;
        if (e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_')) continue;
        // casts and parentheses may surround it
        for (; e < t.size() && t[e] != '\n'; e++)
          if (isdigit((unsigned char)t[e]) && !isalnum((unsigned char)t[e - 1]) && t[e - 1] != '_') return (int64_t)strtoull(t.c_str() + e, nullptr, 0);
      }
      return -1;
    };
    std::string ver = "VER_" + upper(o.drv);
    if (m.hasVer && (macro(*h, ver + "_MAJ") != (int64_t)m.hi || macro(*h, ver + "_MIN") != (int64_t)m.lo)) return ex.fail("dbc-not-reflected", "version of the DBC missing");
    for (auto& q : m.msgs)
    {
      if (macro(*h, q.name + "_CANID") != (int64_t)q.id) return ex.fail("dbc-not-reflected", "message " + q.name + " missing in the header");
      if (macro(*h, q.name + "_DLC") != (int64_t)q.dlc) return ex.fail("dbc-not-reflected", "length of " + q.name);
      if (macro(*h, q.name + "_IDE") != (int64_t)q.ext) return ex.fail("dbc-not-reflected", "format of " + q.name);
      if (q.cycle > 0 && macro(*h, q.name + "_CYC") != (int64_t)q.cycle) return ex.fail("dbc-not-reflected", "cycle time of " + q.name);
      if (q.sigs.empty()) continue;
      size_t e = h->find("} " + q.name + "_t;"), b = e == std::string::npos ? e : h->rfind("struct", e);
      if (b == std::string::npos) return ex.fail("dbc-not-reflected", "struct of " + q.name);
      std::string body = h->substr(b, e - b);
      for (auto& s : q.sigs)
        if (!has(body, " " + s.field() + " ") && !has(body, " " + s.field() + ";")) return ex.fail("dbc-not-reflected", "signal " + s.name + " of " + q.name);
      if (!has(*c, "Unpack_" + q.name + "_" + o.drv + "(") || !has(*c, "Pack_" + q.name + "_" + o.drv + "(")) return ex.fail("dbc-not-reflected", "functions of " + q.name);
      if (q.byRole(1) && !has(body, q.byRole(1)->field() + "_expt")) return ex.fail("dbc-not-reflected", "rolling counter mark of " + q.name);
      if (auto k = q.byRole(2)) if (!has(*c, "GetFrameHash(") || !has(*c, k->method)) return ex.fail("dbc-not-reflected", "checksum mark of " + q.name);
    }
    return true;
  }
  static bool usefulMessage(const ProcResult& r)
  {
    std::string t = r.out + "\n" + r.err, line;
    for (size_t i = 0; i <= t.size(); i++)
    {
      if (i < t.size() && t[i] != '\n') { line += t[i]; continue; }
      auto st = [&](const char* p) { return line.compare(0, strlen(p), p) == 0; };
      bool alpha = false;
      for (char ch : line) if (isalpha((unsigned char)ch)) alpha = true;
      if (alpha && !st("coderdbc v") && !st("dbc file : ") && !st("gen path : ") && !st("drv name : ") && !st("Attention (!)") && !st("Source code generation completed")) return true;
      line.clear();
    }
    return false;
  }
  static bool below(const std::string& p, const std::string& dir) { return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'; }
  void judge(const Plan& p, const std::vector<StepOut>& o, Exec& ex)
  {
    const std::string& prop = p.prop;
    const Step& s = p.steps.back();
    const StepOut& l = o.back();
    const Opt& op = s.opt[0];
    const ProcResult& r0 = l.w.p[0];
    std::string cwd = s.env[0].cwd;
    for (size_t i = 0; i < o.size(); i++)
      for (auto& r : o[i].w.p)
        if (!r.memErrors.empty()) { ex.fail("memory-error", r.memErrors[0]); return; }
    if (prop == "G01" || prop == "G02")
    {
      auto ref = reference(p, s, l.before, ex);
      if (!sane(p, s, *ref, ex, prop)) return;
      std::string dir = genDir(op, cwd, ref->before, ref->after);
      if (prop == "G02" && !p.src[(size_t)s.dbc].isText && !reflects(p.src[(size_t)s.dbc].m, op, dir, ref->after, ex)) return;
      if (r0.success())
      {
        std::string d = incomplete(p, s, l, ex);
        if (!d.empty()) ex.fail("success-but-incomplete", "reported success, but " + d);
      }
      else if (s.faults.empty() && s.capacity < 0) ex.fail("fault-free-run-fails", why(r0));
      else
      {
        bool benign = s.capacity < 0;     // faults every program must cope with: nothing was lost
        for (auto& f : l.w.fired) if (f.first.find("short") == std::string::npos && f.first.find("EINTR") == std::string::npos) benign = false;
        for (auto& f : l.w.fired) if (f.first == "open:EINTR" || f.first == "close:EINTR") benign = false;
        if (benign) ex.fail("harmless-event-fails-run", "only short or interrupted transfers happened: " + why(r0));
      }
    }
    else if (prop == "G03")
    {
      auto ref = reference(p, s, l.before, ex);
      if (!r0.clean()) { ex.fail("unclean-end", why(r0)); return; }
      if (r0.completed())
      {
        if (r0.rc != 0) { ex.fail("claims-completion", fmt("completion printed with exit status %d", r0.rc)); return; }
        if (ref->w.p[0].success())
        {
          std::string d = incomplete(p, s, l, ex);
          if (!d.empty()) ex.fail("claims-completion", "completion claimed, but " + d);
        }
        else if (s.faults.empty()) { /* judged by the file check below */ }
        if (s.dbc >= 0 && !p.src[(size_t)s.dbc].isText)
        {
          std::string dir = genDir(op, cwd, l.before, l.after);
          for (auto& f : expectedFiles(p.src[(size_t)s.dbc].m, op))
            if (dir.empty() || !l.after.data(dir + "/" + f)) { ex.fail("claims-completion", "completion claimed without " + f); return; }
        }
        if (s.dbc < 0) ex.fail("claims-completion", "completion claimed without a usable DBC");
      }
      else if (!usefulMessage(r0)) ex.fail("silent-failure", "ended without a message: " + why(r0));
    }
    else if (prop == "G04")
    {
      if (!o[0].w.p[0].success()) { ex.fail("fault-free-run-fails", why(o[0].w.p[0])); return; }
      if (!r0.success()) { ex.fail("environment-fails-run", why(r0)); return; }
      const Opt& a = p.steps[0].opt[0];
      std::string da = genDir(a, p.steps[0].env[0].cwd, o[0].before, o[0].after), db = genDir(op, cwd, l.before, l.after);
      auto want = o[0].after.tree(da), got = l.after.tree(db);
      std::string date;
      bool clockFault = false;
      for (auto& f : l.w.fired) if (f.first.find("time:") != std::string::npos || f.first.find("localtime") != std::string::npos) clockFault = true;
      for (auto& f : expectedFiles(p.src[0].m, op))
      {
        if (!want.count(f)) { ex.fail("fault-free-output", f + " is not generated"); return; }
        if (!got.count(f)) { ex.fail("not-reproducible", f + " is missing"); return; }
        std::string g = got[f];
        if (op.gendate)
        {
          size_t b = g.find("// Generation time");
          if (b == std::string::npos) { if (!clockFault) { ex.fail("date-line", "no date in " + f); return; } }
          else
          {
            size_t e = g.find('\n', b);
            std::string ln = g.substr(b, e - b);
            if (date.empty()) date = ln;
            if (ln != date) { ex.fail("date-line", "different dates: " + date + " and " + ln); return; }
            g.erase(b, e + 1 - b);
          }
        }
        if (g != want[f])
        {
          size_t k = 0;
          while (k < g.size() && k < want[f].size() && g[k] == want[f][k]) k++;
          ex.fail("not-reproducible", fmt("%s differs at byte %zu", f.c_str(), k));
          return;
        }
      }
      if (!date.empty())
      {
        bool ok = false;
        for (int64_t t = s.env[0].now / 1000000000; t <= (s.env[0].now + l.w.simNs) / 1000000000 + 1 && !ok; t++)
        {
          time_t q = t + s.env[0].tzOffset * 60;
          struct tm tm;
          gmtime_r(&q, &tm);
          char b[64];
          strftime(b, sizeof b, "%Y.%m.%d %H:%M:%S", &tm);
          if (date == std::string("// Generation time   : ") + b) ok = true;
        }
        if (!ok && !clockFault) ex.fail("date-line", "wrong time: " + date);
        ex.st.probes["date lines checked"]++;
      }
    }
    else if (prop == "G05")
    {
      size_t k = (size_t)p.x.num("crash");
      if (k >= o.size()) return;
      Step un = p.steps[k];
      un.faults.clear();
      auto ref = reference(p, un, o[k].before, ex);
      if (!ref->w.p[0].success()) { ex.fail("fault-free-run-fails", why(ref->w.p[0])); return; }
      for (size_t i = k; i + 1 < o.size(); i++) if (o[i].w.p[0].how == Exit::Killed) ex.st.probes["interrupted runs"]++;
      if (!r0.success()) { ex.fail("cannot-recover", "run after the interruption: " + why(r0)); return; }
      std::string d = diffTrees(ref->after.tree("/"), l.after.tree("/"), true);
      if (!d.empty()) ex.fail("residue", "after recovery " + d);
      // directories as well
      if (ex.out.cls.empty()) { auto a = ref->after.tree("/", true), b = l.after.tree("/", true); for (auto& e : b) if (!a.count(e.first)) { ex.fail("residue", "after recovery " + e.first + " should not exist"); break; } }
    }
    else if (prop == "G06")
    {
      for (size_t i = 0; i < o.size(); i++)
      {
        const StepOut& q = o[i];
        const Opt& po = p.steps[i].opt[0];
        std::string root = po.root(p.steps[i].env[0].cwd);
        for (auto& e : q.before.n)
        {
          auto it = q.after.n.find(e.first);
          if (it == q.after.n.end()) { ex.fail("earlier-content-lost", e.first + " disappeared"); return; }
          if (it->second->type != e.second->type || it->second->data != e.second->data) { ex.fail("earlier-content-changed", e.first + " changed"); return; }
        }
        std::set<std::string> nnn;
        for (auto& m : q.w.muts)
        {
          if (q.before.n.count(m.path)) { ex.fail("earlier-content-touched", m.op + " of existing " + m.path); return; }
          if (m.path == root) continue;
          if (!below(m.path, root)) { ex.fail("outside-numbered-directory", m.op + " " + m.path); return; }
          std::string d = m.path.substr(root.size() + 1, m.path.find('/', root.size() + 1) - root.size() - 1);
          if (d.size() != 3 || !isdigit((unsigned char)d[0]) || !isdigit((unsigned char)d[1]) || !isdigit((unsigned char)d[2])) { ex.fail("outside-numbered-directory", m.op + " " + m.path); return; }
          if (q.before.n.count(root + "/" + d)) { ex.fail("earlier-content-touched", m.op + " " + m.path + " in an existing generation"); return; }
          nnn.insert(d);
        }
        auto& r = q.w.p[0];
        if (!r.clean() && r.how != Exit::Killed) { ex.fail("unclean-end", why(r)); return; }
        if (r.success())
        {
          if (nnn.size() != 1) { ex.fail("numbered-directory", fmt("a successful run used %zu numbered directories", nnn.size())); return; }
          std::string d = incomplete(p, p.steps[i], q, ex);
          if (!d.empty()) { ex.fail("success-but-incomplete", d); return; }
          if (!p.src[(size_t)p.steps[i].dbc].isText)
            for (auto& f : expectedFiles(p.src[(size_t)p.steps[i].dbc].m, po)) if (!q.after.data(root + "/" + *nnn.begin() + "/" + f)) { ex.fail("success-but-incomplete", f + " missing"); return; }
          ex.st.probes["new generations"]++;
        }
        else if (p.steps[i].faults.empty())
        {
          // no fault: it may only fail because no number is left
          bool free = false;
          for (int k = 0; k < 1000 && !free; k++) if (!q.before.n.count(root + fmt("/%03d", k))) free = true;
          if (free) { ex.fail("fault-free-run-fails", why(r)); return; }
          ex.st.probes["all numbers taken"]++;
        }
      }
    }
    else if (prop == "G07")
    {
      std::string root = op.root(cwd);
      std::map<std::string, int> owner;
      std::vector<std::set<std::string>> dirs(s.opt.size());
      for (auto& m : l.w.muts)
      {
        if (m.proc < 0) continue;
        if (l.before.n.count(m.path)) { ex.fail("earlier-content-touched", m.op + " of existing " + m.path); return; }
        if (!below(m.path, root)) { if (m.path == root) continue; ex.fail("outside-numbered-directory", m.op + " " + m.path); return; }
        std::string d = m.path.substr(root.size() + 1, m.path.find('/', root.size() + 1) - root.size() - 1);
        if (owner.count(d) && owner[d] != m.proc) { ex.fail("shared-generation", fmt("runs %d and %d both write below %s", owner[d], m.proc, d.c_str())); return; }
        owner[d] = m.proc;
        dirs[(size_t)m.proc].insert(d);
      }
      for (size_t k = 0; k < l.w.p.size(); k++)
      {
        auto& r = l.w.p[k];
        if (!r.clean() && r.how != Exit::Killed) { ex.fail("unclean-end", why(r)); return; }
        bool faulted = false;
        for (auto& f : s.faults) if (f.proc == (int)k) faulted = true;
        if (!r.success())
        {
          if (!faulted) { ex.fail("race-fails-run", fmt("run %zu: ", k) + why(r)); return; }
          continue;
        }
        auto ref = reference(p, s, l.before, ex, k);
        if (!ref->w.p[0].success()) continue;
        if (dirs[k].size() != 1) { ex.fail("numbered-directory", fmt("run %zu succeeded with %zu numbered directories", k, dirs[k].size())); return; }
        std::string dr = genDir(s.opt[k], cwd, ref->before, ref->after);
        std::string d = diffTrees(ref->after.tree(dr), l.after.tree(root + "/" + *dirs[k].begin()), true);
        if (!d.empty()) { ex.fail("success-but-incomplete", fmt("run %zu in %s: ", k, dirs[k].begin()->c_str()) + d); return; }
        ex.st.probes["concurrent successes"]++;
      }
    }
    else if (prop == "G13")
    {
      std::string root = op.root(cwd);
      size_t last = 0;
      for (size_t k = 0; k < l.w.p.size(); k++)
      {
        auto& r = l.w.p[k];
        if (!r.clean()) { ex.fail("unclean-end", fmt("run %zu: ", k) + why(r)); return; }
        if (!r.success() && (r.completed() || !usefulMessage(r))) { ex.fail("unclean-failure", fmt("run %zu: ", k) + why(r)); return; }
        if (!r.success() && !r.rc) { ex.fail("unclean-failure", fmt("run %zu failed with exit status 0: ", k) + why(r)); return; }
        if (r.finishedAt >= l.w.p[last].finishedAt) last = k;
      }
      auto ref = reference(p, s, l.before, ex);
      if (!ref->w.p[0].success()) { ex.fail("fault-free-run-fails", why(ref->w.p[0])); return; }
      // nothing but the race is in the way of any run
      for (size_t k = 0; k < l.w.p.size(); k++)
        if (!l.w.p[k].success() && s.faults.empty()) { ex.fail("loser-gives-up", fmt("run %zu: ", k) + why(l.w.p[k])); return; }
      if (l.w.p[last].success())
      {
        std::string d = diffTrees(ref->after.tree("/"), l.after.tree("/"), true);
        if (!d.empty()) ex.fail("not-converged", "the last run succeeded, but " + d);
        ex.st.probes["last run succeeded"]++;
      }
    }
    else if (prop == "G08") judgeOwned(p, o, ex);
    else if (prop == "G09") judgeMix(p, o, ex);
    else if (prop == "G10") judgeDamage(p, o, ex);
    else if (prop == "G11")
    {
      if (!r0.clean()) { ex.fail("unclean-end", why(r0)); return; }
      if (r0.success())
      {
        std::string why1;
        for (size_t k = 0; k < p.src.size(); k++)
        {
          Plan q = p;
          Vfs b = l.before.clone();
          b.put(normal(cwd, op.dbc), p.src[k].dbc());
          auto ref = reference(q, s, b, ex);
          if (!ref->w.p[0].success()) { ex.fail("fault-free-run-fails", why(ref->w.p[0])); return; }
          std::string dr = genDir(op, cwd, ref->before, ref->after), dg = genDir(op, cwd, l.before, l.after);
          std::string d = diffTrees(ref->after.tree(dr), l.after.tree(dg), true);
          if (d.empty()) { ex.st.probes[k ? "new content won" : "old content won"]++; return; }
          why1 += (k ? "; as new: " : "as old: ") + d;
        }
        ex.fail("mixture", why1);
      }
      else
      {
        bool removed = false;
        for (auto& h : s.host) if (h.op == "remove") removed = true;
        if (!removed) ex.fail("replacement-fails-run", why(r0));
      }
    }
    else if (prop == "G12")
    {
      if (!r0.clean()) { ex.fail("unclean-end", why(r0)); return; }
      if (r0.completed()) { ex.fail("claims-completion", p.x.str("refusal") + ": completion claimed for " + quote(op.argv())); return; }
      if (!l.w.muts.empty()) { ex.fail("refused-run-writes", p.x.str("refusal") + ": " + l.w.muts[0].op + " " + l.w.muts[0].path + " for " + quote(op.argv())); return; }
      if (l.after.hash() != l.before.hash()) ex.fail("refused-run-writes", p.x.str("refusal") + ": file system changed");
      ex.st.probes["refused: " + p.x.str("refusal")]++;
    }
  }
  void judgeOwned(const Plan& p, const std::vector<StepOut>& o, Exec& ex)
  {
    for (size_t i = 0; i < o.size(); i++)
    {
      const StepOut& q = o[i];
      const Opt& op = p.steps[i].opt[0];
      std::string root = op.root(p.steps[i].env[0].cwd);
      auto files = expectedFiles(p.src[(size_t)p.steps[i].dbc].m, op);
      if (op.nodeutils)      // the place holder for "nobody" may be treated as one more node
        for (auto e : {".h", ".c"}) files.push_back("butl/" + utilName("Vector__XXX", op.drv) + e);
      std::set<std::string> allowed(files.begin(), files.end());
      for (auto d : OUT_DIRS) allowed.insert(d);
      for (auto& m : q.w.muts)
      {
        if (m.path == root) { if (m.op == "mkdir" && !q.before.n.count(root)) continue; ex.fail("foreign-change", m.op + " " + m.path); return; }
        if (!below(m.path, root)) { ex.fail("foreign-change", m.op + " " + m.path); return; }
        std::string rel = m.path.substr(root.size() + 1);
        if (!op.rw)
        {
          bool num = rel.size() >= 3 && isdigit((unsigned char)rel[0]) && isdigit((unsigned char)rel[1]) && isdigit((unsigned char)rel[2]) && (rel.size() == 3 || rel[3] == '/');
          if (!num) { ex.fail("foreign-change", m.op + " " + m.path); return; }
          if (rel.size() == 3) continue;
          rel = rel.substr(4);
        }
        if (allowed.count(rel)) continue;
        bool temp = false;     // a working copy next to its file
        for (auto& f : files) if (rel.size() > f.size() && rel.compare(0, f.size(), f) == 0 && (rel[f.size()] == '.' || rel[f.size()] == '~') && !q.before.n.count(m.path)) temp = true;
        if (!temp) { ex.fail("foreign-change", m.op + " " + m.path); return; }
      }
      // everything else keeps its bytes
      for (auto& e : q.before.n)
      {
        std::string rel = below(e.first, root) ? e.first.substr(root.size() + 1) : "";
        if (op.rw && allowed.count(rel)) continue;
        auto it = q.after.n.find(e.first);
        if (it == q.after.n.end() || it->second->type != e.second->type || it->second->data != e.second->data) { ex.fail("foreign-change", e.first + " was changed or removed"); return; }
      }
    }
    // excluding files does not change the others
    const Step& s = p.steps.back();
    if (s.faults.empty() && (s.opt[0].noconfig || s.opt[0].noinc || s.opt[0].nofmon))
    {
      auto a = reference(p, s, o.back().before, ex);
      Step t = s;
      t.opt[0].noconfig = t.opt[0].noinc = t.opt[0].nofmon = false;
      auto b = reference(p, t, o.back().before, ex);
      if (!a->w.p[0].success() || !b->w.p[0].success()) { ex.fail("fault-free-run-fails", why(a->w.p[0])); return; }
      std::string da = genDir(s.opt[0], s.env[0].cwd, a->before, a->after), db = genDir(t.opt[0], s.env[0].cwd, b->before, b->after);
      for (auto& f : expectedFiles(p.src[(size_t)s.dbc].m, s.opt[0]))
      {
        auto x = a->after.data(da + "/" + f), y = b->after.data(db + "/" + f);
        if (!x || !y || undated(*x) != undated(*y)) { ex.fail("exclusion-changes-others", f); return; }
      }
      ex.st.probes["exclusions compared"]++;
    }
  }
  void judgeMix(const Plan& p, const std::vector<StepOut>& o, Exec& ex)
  {
    auto& A = p.src[0].m;
    auto& B = p.src[1].m;
    const Opt& op = p.steps[0].opt[0];
    if (!o[0].w.p[0].success()) { ex.fail("fault-free-run-fails", why(o[0].w.p[0])); return; }
    Step sb = p.steps[1];
    sb.faults.clear();
    Vfs clean = initial(p);
    clean.mkdirs(dirOf(normal(sb.env[0].cwd, sb.opt[0].dbc)));
    clean.put(normal(sb.env[0].cwd, sb.opt[0].dbc), p.src[(size_t)sb.dbc].dbc());
    auto rb = reference(p, sb, clean, ex);
    if (!rb->w.p[0].success()) { ex.fail("fault-free-run-fails", why(rb->w.p[0])); return; }
    std::string root = op.root("/home/user"), d = lower(op.drv);
    auto ta = o[0].after.tree(root), tb = rb->after.tree(root), mix = o[1].after.tree(root);
    if (uint64_t cs = (uint64_t)p.x.num("copy"))
    {
      Rng q(cs);
      mix = ta;
      double k = q.chance(0.5) ? 0.5 : 0.2;
      for (auto& e : tb) if (q.chance(k)) mix[e.first] = e.second;
    }
    // only complete files of either generation are a mixture (a torn file is another matter)
    for (auto& e : mix) if (!(ta.count(e.first) && ta[e.first] == e.second) && !(tb.count(e.first) && tb[e.first] == e.second)) { ex.st.probes["torn file, not judged"]++; return; }
    bool same = A.hi == B.hi && A.lo == B.lo;
    bool sameContent = A.json().dump() == B.json().dump() || (p.src[0].m.msgs.size() == p.src[1].m.msgs.size() && [&] { Matrix x = A, y = B; x.style = y.style = 0; x.hi = y.hi; x.lo = y.lo; return x.json().dump() == y.json().dump(); }());
    // which generation a file stems from: 1 A, 2 B, 3 identical in both
    auto from = [&](const std::string& f) { return (ta.count(f) && ta[f] == mix[f] ? 1 : 0) | (tb.count(f) && tb[f] == mix[f] ? 2 : 0); };
    std::vector<std::string> utils;
    for (auto& e : mix) if (e.first.compare(0, 5, "butl/") == 0 && e.first.size() > 2 && e.first.substr(e.first.size() - 2) == ".c") utils.push_back(e.first);
    std::string h = "lib/" + d + ".h", c = "lib/" + d + ".c";
    std::string dir = g_scratch + "/mix";
    removeTree(dir);
    for (auto& e : mix) putFile(dir + "/" + e.first, e.second);
    std::vector<std::string> inc{"-I" + dir + "/lib", "-I" + dir + "/conf", "-I" + dir + "/inc", "-I" + dir + "/butl"};
    auto compile = [&](const std::string& f, std::string& err)
    {
      std::vector<std::string> a{"gcc", "-std=c11", "-fsyntax-only", "-w"};
      a.insert(a.end(), inc.begin(), inc.end());
      a.push_back(dir + "/" + f);
      return runTool(a, dir, err) == 0;
    };
    auto check = [&](const std::string& f) -> bool
    {
      std::string err;
      int fh = from(h), ff = from(f);
      std::string uh = f.compare(0, 5, "butl/") == 0 ? f.substr(0, f.size() - 1) + "h" : "";
      if (!uh.empty() && !mix.count(uh)) return true;
      bool ok = compile(f, err);
      ex.trace.str(f);
      ex.trace.u64(ok);
      ex.st.probes["compilations"]++;
      bool differ = !same && (fh & ff) == 0;                 // header and this file of different versions
      if (differ)
      {
        ex.st.probes["mixtures compiled"]++;
        if (ok) return ex.fail("mixture-compiles", fmt("%s and %s of versions %u.%u / %u.%u compile", h.c_str(), f.c_str(), A.hi, A.lo, B.hi, B.lo));
        if (err.find("different versions") == std::string::npos && err.find("inconsistency") == std::string::npos && sameContent) return ex.fail("no-version-error", f + ": " + err.substr(0, 200));
        return true;
      }
      bool allOne = (fh & ff) != 0 && (uh.empty() || (fh & ff & from(uh)) != 0);
      if (!ok && (allOne || (same && sameContent))) return ex.fail("equal-version-refused", f + ": " + err.substr(0, 300));
      return true;
    };
    bool good = check(c);
    for (auto& u : utils) if (good) good = check(u);
    removeTree(dir);
  }
  static std::string section(const std::string& t, const std::string& from, const std::string& to)
  {
    size_t b = t.find(from);
    if (b == std::string::npos) return "";
    size_t e = t.find(to, b);
    return t.substr(b, e == std::string::npos ? std::string::npos : e - b + to.size());
  }
  // conversion macros replaced by what they mean
  static std::string expanded(const std::string& t, const std::string& header)
  {
    std::string r;
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
    for (size_t i = 0; i < t.size();)
    {
      size_t e = i;
      while (e < t.size() && word(t[e])) e++;
      if (e == i) { r += t[i++]; continue; }
      std::string w = t.substr(i, e - i);
      i = e;
      bool conv = (w.size() > 4 && w.compare(w.size() - 4, 4, "_toS") == 0) || (w.size() > 6 && w.compare(w.size() - 6, 6, "_fromS") == 0);
      size_t d = conv ? header.find("#define " + w + "(") : std::string::npos;
      if (d == std::string::npos) { r += w; continue; }
      size_t b = header.find(')', d), l = header.find('\n', d);
      r += "{" + header.substr(b + 1, l - b - 1) + "}";
    }
    return r;
  }
  void judgeDamage(const Plan& p, const std::vector<StepOut>& o, Exec& ex)
  {
    const Step& s = p.steps[0];
    const Opt& op = s.opt[0];
    auto& r = o[0].w.p[0];
    std::string root = op.root(s.env[0].cwd);
    if (!r.clean()) { ex.fail("unclean-end", why(r)); return; }
    for (auto& m : o[0].w.muts)
    {
      if (m.path == root) continue;
      bool ok = below(m.path, root);
      if (ok)
      {
        std::string rel = m.path.substr(root.size() + 1);
        if (!op.rw) { size_t e = rel.find('/'); if (e == std::string::npos) continue; rel = rel.substr(e + 1); }
        size_t e = rel.find('/');
        std::string top = rel.substr(0, e);
        ok = false;
        for (auto d : OUT_DIRS) if (top == d) ok = true;
      }
      if (!ok) { ex.fail("outside-output", m.op + " " + m.path); return; }
    }
    if (!p.x.has("victim")) return;
    // the other messages' code is what it was
    std::string victim = p.x.str("victim");
    Vfs b = o[0].before.clone();
    b.put(normal(s.env[0].cwd, op.dbc), p.src[0].dbc());
    auto ref = reference(p, s, b, ex);
    if (!ref->w.p[0].success()) { ex.fail("fault-free-run-fails", why(ref->w.p[0])); return; }
    if (!r.success()) { ex.st.probes["damaged file refused"]++; return; }
    std::string d = lower(op.drv), dr = genDir(op, s.env[0].cwd, ref->before, ref->after), dg = genDir(op, s.env[0].cwd, o[0].before, o[0].after);
    auto hr = ref->after.data(dr + "/lib/" + d + ".h"), cr = ref->after.data(dr + "/lib/" + d + ".c"), hg = o[0].after.data(dg + "/lib/" + d + ".h"), cg = o[0].after.data(dg + "/lib/" + d + ".c");
    if (!hr || !cr || !hg || !cg) { ex.fail("intact-message-damaged", "no core files"); return; }
    // every message of the reference header, however the macro is laid out
    std::vector<std::string> names;
    for (size_t at = 0; (at = hr->find("_CANID", at)) != std::string::npos; at++)
    {
      size_t ls = hr->rfind('\n', at) + 1, nb = hr->find_last_of(" \t", at) + 1;
      if (hr->compare(ls, 1, "#") || hr->compare(at + 6, 1, "_") == 0 || nb <= ls || hr->substr(ls, nb - ls).find("define") == std::string::npos) continue;
      names.push_back(hr->substr(nb, at - nb));
    }
    auto lineOf = [](const std::string& t, const std::string& macro) -> std::string
    {
      for (size_t at = 0; (at = t.find(macro, at)) != std::string::npos; at++)
      {
        size_t ls = t.rfind('\n', at) + 1;
        if (isspace((unsigned char)t[at - 1]) && isspace((unsigned char)t[at + macro.size()]) && t[ls] == '#') return t.substr(at, t.find('\n', at) - at);
      }
      return "";
    };
    for (auto& name : names)
    {
      if (name == victim) continue;
      for (auto& k : {"uint32_t Unpack_" + name + "_" + op.drv + "(", "uint32_t Pack_" + name + "_" + op.drv + "("})
      {
        std::string x = expanded(section(*cr, k, "\n}\n"), *hr), y = expanded(section(*cg, k, "\n}\n"), *hg);
        if (x != y) { ex.fail("intact-message-damaged", "damage to " + victim + " changes " + k.substr(9) + ")"); return; }
      }
      for (auto k : {"_IDE", "_DLC", "_CANID", "_CYC"})
        if (lineOf(*hr, name + k) != lineOf(*hg, name + k)) { ex.fail("intact-message-damaged", "damage to " + victim + " changes the constants of " + name + ": " + lineOf(*hg, name + k)); return; }
      // the struct: from the last typedef before its end
      auto body = [&](const std::string& t) -> std::string { size_t e = t.find("} " + name + "_t;"); if (e == std::string::npos) return ""; size_t q = t.rfind("typedef struct", e); return t.substr(q, e - q); };
      if (body(*hr) != body(*hg)) { ex.fail("intact-message-damaged", "damage to " + victim + " changes the struct of " + name); return; }
      ex.st.probes["intact messages compared"]++;
    }
  }
  // -------------------------------------------------------------- shrinking
  std::vector<Json> shrinks(const Json& plan) override
  {
    std::vector<Json> r;
    Plan p = Plan::from(plan);
    bool g05 = p.prop == "G05", g04 = p.prop == "G04", g09 = p.prop == "G09";
    // whole steps (not the last)
    if (!g04 && !g09)
      for (size_t i = 0; i + 1 < p.steps.size(); i++)
      {
        Plan q = p;
        bool had = q.steps[i].dbc >= 0 && q.steps[i + 1].dbc < 0;
        int d = q.steps[i].dbc;
        q.steps.erase(q.steps.begin() + (long)i);
        if (had) q.steps[i].dbc = d;
        if (g05)
        {
          int64_t c = p.x.num("crash");
          if ((int64_t)i < c) q.x.set("crash", c - 1);
          if ((int64_t)i >= c && p.steps.size() - (size_t)c <= 2) continue;
        }
        r.push_back(q.json());
      }
    // concurrent processes
    for (size_t i = 0; i < p.steps.size(); i++)
      for (size_t k = p.steps[i].opt.size(); k-- > 1 && p.steps[i].opt.size() > 2;)
      {
        Plan q = p;
        auto& s = q.steps[i];
        s.opt.erase(s.opt.begin() + (long)k);
        if (k < s.env.size()) s.env.erase(s.env.begin() + (long)k);
        std::vector<Switch> w;
        for (auto e : s.sched) { if (e.proc == (int)k) continue; if (e.proc > (int)k) e.proc--; w.push_back(e); }
        s.sched = w;
        std::vector<Fault> f;
        for (auto e : s.faults) { if (e.proc == (int)k) continue; if (e.proc > (int)k) e.proc--; f.push_back(e); }
        s.faults = f;
        r.push_back(q.json());
      }
    for (size_t i = 0; i < p.steps.size(); i++)
      for (auto k : {"faults", "schedule", "host"})
      {
        auto v = dropChunks(plan, {"steps", std::to_string(i), k});
        r.insert(r.end(), v.begin(), v.end());
      }
    { auto v = dropChunks(plan, {"files"}); r.insert(r.end(), v.begin(), v.end()); }
    for (size_t k = 0; k < p.src.size(); k++)
    {
      if (p.src[k].isText)
      {
        if (p.x.has("victim")) continue;
        auto lines = split(p.src[k].text);
        size_t n = lines.size();
        auto add = [&](const std::string& t) { Plan q = p; q.src[k].text = t; r.push_back(q.json()); };
        for (size_t ch = n; ch >= 1; ch /= 2)
          for (size_t at = 0; at < n; at += ch)
          {
            auto v = lines;
            v.erase(v.begin() + (long)at, v.begin() + (long)std::min(n, at + ch));
            add(join(v));
          }
        if (n <= 6)
        {
          const std::string& t = p.src[k].text;
          for (size_t ch = std::max<size_t>(1, t.size() / 2); ch >= 1; ch /= 2)
          {
            if (t.size() / ch > 400) break;
            for (size_t at = 0; at < t.size(); at += ch) add(t.substr(0, at) + t.substr(std::min(t.size(), at + ch)));
          }
        }
      }
      else
        for (auto& m : shrinkMatrix(p.src[k].m))
        {
          Plan q = p;
          q.src[k].m = m;
          r.push_back(q.json());
        }
    }
    // plain environment and options
    for (size_t i = 0; i < p.steps.size(); i++)
    {
      Plan q = p;
      bool ch = false;
      for (auto& e : q.steps[i].env)
      {
        Env d;
        d.cwd = e.cwd;
        d.now = e.now;
        d.tzOffset = e.tzOffset;
        if (d.json().dump() != e.json().dump()) { e = d; ch = true; }
      }
      if (ch) r.push_back(q.json());
      for (int k = 0; k < 8; k++)
      {
        Plan w = p;
        bool c2 = false;
        for (size_t n = 0; n < w.steps.size(); n++)
        for (auto& o : w.steps[n].opt)
        {
          if (p.prop != "G05" && n != i) continue;
          auto off = [&](bool& b) { if (b) { b = false; c2 = true; } };
          if (k == 0) off(o.gendate);
          if (k == 1) off(o.noconfig);
          if (k == 2) off(o.noinc);
          if (k == 3) off(o.nofmon);
          if (k == 4) off(o.nodeutils);
          if (k == 5) off(o.driverdir);
          if (k == 6 && o.ord) { o.ord = 0; c2 = true; }
          if (k == 7 && !o.useRaw && o.dbc != "/home/user/db/net.dbc" && p.prop != "G04") { o.dbc = "/home/user/db/net.dbc"; c2 = true; }
        }
        if (c2) r.push_back(w.json());
      }
      for (size_t f = 0; f < p.steps[i].faults.size(); f++)
        if (p.steps[i].faults[f].sticky) { Plan w = p; w.steps[i].faults[f].sticky = false; r.push_back(w.json()); }
    }
    return r;
  }
};
}  // namespace
Check* genCheck()
{
  static Gen g;
  if (g.corpus.empty())
  {
    bool ok = false;
    std::string dir = getenv("SIM_CORPUS") ? getenv("SIM_CORPUS") : "";
    if (!dir.empty()) { std::string t = readFile(dir + "/testdb.dbc", &ok); if (ok) g.corpus.push_back(t); }
  }
  return &g;
}
std::map<std::string, std::string> generateOnce(const std::string& dbc, const Opt& o, std::string& whyNot)
{
  Stats st;
  Vfs fs;
  fs.mkdirs("/home/user/gen");
  fs.put("/home/user/db/net.dbc", dbc);
  WorldSpec w;
  w.procs.push_back({o.argv(), Env()});
  auto res = simos::run(fs, w, false);
  if (!res.p[0].success() || !res.p[0].memErrors.empty()) { whyNot = res.p[0].memErrors.empty() ? why(res.p[0]) : res.p[0].memErrors[0]; return {}; }
  return fs.tree(o.root("/home/user"));
}
