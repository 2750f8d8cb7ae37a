#include <sys/utsname.h>
#include <sys/times.h>
#include <pwd.h>
#include <array>
#include "simos.h"
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iomanip>
#include <iostream>
#include <link.h>
#include <locale>
#include <new>
#include <regex>
#include <sstream>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

using namespace simos;
bool simos::g_recordSites = false;

// ================================================================ Vfs
static std::string parentOf(const std::string& p)
{
  size_t k = p.rfind('/');
  return k == 0 || k == std::string::npos ? "/" : p.substr(0, k);
}
static std::string joinp(const std::string& d, const std::string& e) { return d == "/" ? "/" + e : d + "/" + e; }

Vfs::Vfs()
{
  auto r = std::make_shared<Inode>();
  r->type = Inode::Dir;
  r->mode = 0755;
  n["/"] = r;
}
Vfs Vfs::clone() const
{
  Vfs v;
  v.n.clear();
  v.capacity = capacity;
  std::map<Inode*, InodeP> seen;
  for (auto& e : n)
  {
    auto& s = seen[e.second.get()];
    if (!s) s = std::make_shared<Inode>(*e.second);
    v.n[e.first] = s;
  }
  return v;
}
void Vfs::mkdirs(const std::string& p, int mode)
{
  if (p.empty() || p == "/" || n.count(p)) return;
  mkdirs(parentOf(p));
  auto d = std::make_shared<Inode>();
  d->type = Inode::Dir;
  d->mode = mode;
  d->synced = true;
  n[p] = d;
}
// files of other users: time stamps anywhere from 2008 to 2033
static void stampForeign(Inode& i, const std::string& p)
{
  Hash h;
  h.str(p);
  h.str(i.data);
  i.id = h.h | 1;
  i.mtime = 1200000000000000000ll + (int64_t)(h.h % 800000000000000000ull);
}
void Vfs::put(const std::string& p, const std::string& data, int mode)
{
  mkdirs(parentOf(p));
  auto d = std::make_shared<Inode>();
  d->mode = mode;
  d->data = data;
  stampForeign(*d, p);
  n[p] = d;
}
void Vfs::link(const std::string& p, const std::string& t)
{
  mkdirs(parentOf(p));
  auto d = std::make_shared<Inode>();
  d->type = Inode::Link;
  d->mode = 0777;
  d->data = t;
  n[p] = d;
}
void Vfs::erase(const std::string& p)
{
  for (auto& c : under(p)) n.erase(c);
  n.erase(p);
}
bool Vfs::isFile(const std::string& p) const { auto i = n.find(p); return i != n.end() && i->second->type == Inode::File; }
bool Vfs::isDir(const std::string& p) const { auto i = n.find(p); return i != n.end() && i->second->type == Inode::Dir; }
const std::string* Vfs::data(const std::string& p) const { auto i = n.find(p); return i != n.end() && i->second->type == Inode::File ? &i->second->data : nullptr; }
std::vector<std::string> Vfs::under(const std::string& d) const
{
  std::vector<std::string> r;
  std::string pre = d == "/" ? "/" : d + "/";
  for (auto i = n.lower_bound(pre); i != n.end() && i->first.compare(0, pre.size(), pre) == 0; ++i)
    if (i->first != "/") r.push_back(i->first);
  return r;
}
std::map<std::string, std::string> Vfs::tree(const std::string& d, bool dirsToo) const
{
  std::map<std::string, std::string> r;
  size_t k = d == "/" ? 1 : d.size() + 1;
  for (auto& p : under(d))
  {
    auto& i = n.at(p);
    if (i->type == Inode::File) r[p.substr(k)] = i->data;
    else if (i->type == Inode::Link) r[p.substr(k)] = "->" + i->data;
    else if (dirsToo) r[p.substr(k) + "/"] = "";
  }
  return r;
}
int Vfs::resolve(const std::string& cwd, const std::string& path, bool follow, std::string& out) const
{
  if (path.empty()) return ENOENT;
  if (path.size() > 4095) return ENAMETOOLONG;
  std::vector<std::string> todo;
  auto split = [](const std::string& s, std::vector<std::string>& v)
  {
    size_t p = 0;
    std::vector<std::string> r;
    while (p < s.size())
    {
      size_t q = s.find('/', p);
      if (q == std::string::npos) q = s.size();
      if (q > p) r.push_back(s.substr(p, q - p));
      p = q + 1;
    }
    v.insert(v.end(), r.rbegin(), r.rend());
  };
  std::string cur = path[0] == '/' ? "/" : cwd;
  bool trailing = path.size() > 1 && path.back() == '/';
  split(path, todo);
  int depth = 0;
  while (!todo.empty())
  {
    std::string c = todo.back();
    todo.pop_back();
    if (c.size() > 255) return ENAMETOOLONG;
    auto it = n.find(cur);
    if (it == n.end()) return ENOENT;
    if (it->second->type != Inode::Dir) return ENOTDIR;
    if (!(it->second->mode & 0111)) return EACCES;
    if (c == ".") continue;
    if (c == "..") { cur = parentOf(cur); continue; }
    std::string nx = joinp(cur, c);
    auto ni = n.find(nx);
    if (ni == n.end())
    {
      if (!todo.empty()) return ENOENT;
      out = nx;
      return 0;
    }
    if (ni->second->type == Inode::Link && (!todo.empty() || follow || trailing))
    {
      if (++depth > 40) return ELOOP;
      split(ni->second->data, todo);
      if (ni->second->data.size() && ni->second->data[0] == '/') cur = "/";
      continue;
    }
    cur = nx;
  }
  if (trailing)
  {
    auto it = n.find(cur);
    if (it != n.end() && it->second->type == Inode::File) return ENOTDIR;
  }
  out = cur;
  return 0;
}
uint64_t Vfs::hash() const
{
  Hash h;
  for (auto& e : n) { h.str(e.first); h.u64(e.second->type); h.u64(e.second->mode); h.str(e.second->data); }
  return h.h;
}
Vfs simos::powerLoss(const Vfs& before, const Vfs& now, uint64_t seed)
{
  // Nothing the run did since `before` was forced to disk unless fsync was called: each changed entry
  // independently keeps its new state, its old state, or something torn in between.
  Vfs r = now.clone();
  for (auto& e : now.n)
  {
    auto old = before.n.find(e.first);
    Rng g(seed, e.first, 7);
    int c = (int)g.below(6);
    Inode& i = *e.second;
    bool isNew = old == before.n.end();
    if (i.type == Inode::Dir)
    {
      if (isNew && !i.synced && c == 0 && r.n.count(e.first)) r.erase(e.first);
      continue;
    }
    if (i.type != Inode::File || !r.n.count(e.first)) continue;
    if (!isNew && old->second->data == i.data && old->second->type == Inode::File) continue;
    if (i.synced && i.syncedData == i.data) continue;
    auto& d = r.n[e.first]->data;
    if (c == 0) { if (isNew) r.n.erase(e.first); else d = old->second->data; }
    else if (c == 1) d.clear();
    else if (c == 2) d.resize(g.below(d.size() + 1));
    else if (c == 3) { size_t k = g.below(d.size() + 1); std::fill(d.begin() + k, d.end(), '\0'); }
    else if (c == 4) d.resize(d.size() / 4096 * 4096);
  }
  for (auto& e : before.n)
    if (!now.n.count(e.first))
    {
      Rng g(seed, e.first, 9);
      if (g.chance(0.3) && r.isDir(parentOf(e.first))) r.n[e.first] = std::make_shared<Inode>(*e.second);
    }
  return r;
}

// ================================================================ JSON of the specs
Json Fault::json() const
{
  Json j = Json::object();
  j.set("proc", proc).set("call", cls).set("nth", nth).set("kind", kind);
  if (arg) j.set("arg", arg);
  if (sticky) j.set("sticky", true);
  return j;
}
Fault Fault::from(const Json& j)
{
  Fault f;
  f.proc = (int)j.num("proc");
  f.cls = j.str("call");
  f.nth = j.num("nth");
  f.kind = j.str("kind");
  f.arg = j.num("arg");
  f.sticky = j.flag("sticky");
  return f;
}
Json HostAct::json() const
{
  Json j = Json::object();
  j.set("step", step).set("op", op).set("path", path);
  if (!data.empty()) j.set("data", data);
  return j;
}
HostAct HostAct::from(const Json& j)
{
  HostAct h;
  h.step = j.num("step");
  h.op = j.str("op");
  h.path = j.str("path");
  h.data = j.str("data");
  return h;
}
Json Env::json() const
{
  Env d;
  Json j = Json::object();
  if (now != d.now) j.set("now", now);
  if (tzOffset != d.tzOffset) j.set("tz", tzOffset);
  if (tzName != d.tzName) j.set("tzname", tzName);
  if (!enUsInstalled) j.set("en_us", false);
  if (pid != d.pid) j.set("pid", pid);
  if (cwd != d.cwd) j.set("cwd", cwd);
  if (fill != d.fill) j.set("fill", fill);
  if (descending) j.set("desc", true);
  if (chunk) j.set("chunk", chunk);
  if (wchunk) j.set("wchunk", wchunk);
  if (eintr) j.set("eintr", eintr);
  if (!vars.empty())
  {
    Json v = Json::object();
    for (auto& e : vars) v.set(e.first, e.second);
    j.set("vars", v);
  }
  return j;
}
Env Env::from(const Json& j)
{
  Env e;
  e.now = j.num("now", e.now);
  e.tzOffset = (int)j.num("tz", e.tzOffset);
  e.tzName = j.str("tzname", e.tzName);
  e.enUsInstalled = j.flag("en_us", true);
  e.pid = (int)j.num("pid", e.pid);
  e.cwd = j.str("cwd", e.cwd);
  e.fill = (int)j.num("fill", e.fill);
  e.descending = j.flag("desc");
  e.chunk = (int)j.num("chunk");
  e.wchunk = (int)j.num("wchunk");
  e.eintr = (int)j.num("eintr");
  if (auto v = j.find("vars")) for (auto& p : v->o) e.vars[p.first] = p.second.s;
  return e;
}
const char* simos::exitName(Exit e)
{
  switch (e)
  {
    case Exit::None: return "none";
    case Exit::Returned: return "returned";
    case Exit::ExitCall: return "exit";
    case Exit::Abort: return "abort";
    case Exit::Signal: return "signal";
    case Exit::Killed: return "killed";
    case Exit::Hang: return "hang";
    case Exit::Trap: return "trap";
  }
  return "?";
}
bool ProcResult::completed() const { return out.find("Source code generation completed") != std::string::npos; }

// ================================================================ simulated processes
namespace
{
constexpr size_t STACK = 8u << 20, ARENA = 1u << 30, LOADER = 4u << 20;
int64_t MAX_STEPS = 200000;
constexpr int CPU_LIMIT_S = 10;

struct Copy
{
  void* handle = nullptr;
  int (*main)(int, char**) = nullptr;
  struct Seg { char* p; size_t n; std::string snap; };
  std::vector<Seg> segs;
  char* loader = nullptr;
  size_t loaderUsed = 0;
  std::string loaderSnap;
  std::vector<std::pair<void (*)(void*), void*>> atexits;
};
struct Fd
{
  InodeP ino;
  std::string path;
  off_t pos = 0;
  bool rd = false, wr = false, app = false, dir = false;
};
struct SimDir
{
  int fd;
  std::vector<std::string> names;
  size_t at = 0;
  struct dirent de;
};
struct Cookie;
struct Proc
{
  int id = 0;
  ProcSpec spec;
  Copy* copy = nullptr;
  ProcResult res;
  bool started = false, done = false;
  ucontext_t ctx;
  char* stack = nullptr;
  int err = 0;
  uint64_t eh[2] = {0, 0};
  std::map<int, Fd> fds;
  std::map<FILE*, int> files;
  std::vector<Cookie*> cookies;
  std::vector<SimDir*> dirs;
  std::vector<std::pair<void (*)(void*), void*>> atexits;
  std::vector<Fault> faults;
  int64_t sys = 0;
  int64_t now = 0;
  int64_t allocs = 0, allocHit = -1;     // heap faults: first one, all of them, or everything from the first on
  bool allocSticky = false;
  std::set<int64_t> allocSet;
  std::map<uint64_t, std::array<int64_t, 3>> sites;
  bool comma = false;
  std::vector<std::string> argvStore;
  std::vector<char*> argv;
  std::string locName = "C", cwd;
  bool wasIntr = false;
  int64_t rwCount = 0;
  struct tm tmBuf;
  uint64_t rnd = 1;
  // heap
  char* arena = nullptr;
  size_t lo = 0, hi = ARENA;
  std::map<size_t, std::vector<char*>> freeBig;
  std::vector<char*> freeSmall[65];
};
struct Cookie { Proc* p; int fd; };

std::vector<Copy> g_copies;
Copy* g_loading = nullptr;
std::vector<Proc*> g_slots;     // reusable process slots (stack + arena)
Proc* g_cur = nullptr;          // running simulated process
Proc* g_heap = nullptr;         // whose heap operator new uses
ucontext_t g_main;
sigjmp_buf g_jmp;
volatile bool g_jmpValid = false;

struct World
{
  Vfs* fs;
  const WorldSpec* spec;
  WorldResult* res;
  std::vector<Proc*> procs;
  std::vector<HostAct> host;
  size_t hostAt = 0;
  std::vector<Switch> sched;
  size_t schedAt = 0;
  int64_t step = 0;
  int64_t ns = 0;
  Hash trace;
  bool keep = false, stop = false;
  int want = -1;
};
World* g_w = nullptr;

template<class F> F real(F, const char* name)
{
  return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name) ([] { static auto f = real(&::name, #name); return f; }())

// Simulator code runs on the host heap
struct Host
{
  Proc* saved;
  Host() : saved(g_heap) { g_heap = nullptr; }
  ~Host() { g_heap = saved; }
};

void event(Proc* p, const char* op, const std::string& what, int64_t r)
{
  g_w->trace.u64(p ? p->id : 99);
  g_w->trace.str(op);
  g_w->trace.str(what);
  g_w->trace.u64((uint64_t)r);
  if (g_w->keep && g_w->res->log.size() < 4000)
    g_w->res->log.push_back(fmt("%6ld p%d %s %s = %ld", (long)g_w->step, p ? p->id : -1, op, what.c_str(), (long)r));
}
void mut(const char* op, const std::string& path)
{
  g_w->res->muts.push_back({g_cur ? g_cur->id : -1, op, path});
}
[[noreturn]] void leave(Exit how, int rc, const std::string& note)
{
  g_heap = nullptr;
  Proc* p = g_cur;
  p->res.how = how;
  p->res.rc = rc;
  if (p->res.note.empty()) p->res.note = note;
  p->done = true;
  p->res.finishedAt = (uint64_t)g_w->step;
  setcontext(&g_main);
  __builtin_unreachable();
}
void hostActions()
{
  while (g_w->hostAt < g_w->host.size() && g_w->host[g_w->hostAt].step <= g_w->step)
  {
    auto& a = g_w->host[g_w->hostAt++];
    Vfs& fs = *g_w->fs;
    if (a.op == "replace" || a.op == "put")
    {
      if (fs.isDir(parentOf(a.path)))
      {
        if (a.op == "replace" || !fs.isFile(a.path)) fs.n[a.path] = std::make_shared<Inode>();
        fs.n[a.path]->data = a.data;
        stampForeign(*fs.n[a.path], a.path);
      }
    }
    else if (a.op == "remove") fs.erase(a.path);
    else if (a.op == "mkdir") { if (fs.isDir(parentOf(a.path)) && !fs.n.count(a.path)) fs.mkdirs(a.path); }
    else if (a.op == "chmod") { if (fs.n.count(a.path)) fs.n[a.path]->mode = (int)strtol(a.data.c_str(), nullptr, 8); }
    g_w->res->fired["host:" + a.op]++;
    event(nullptr, a.op.c_str(), a.path, 0);
  }
}
void yieldTo()
{
  Proc* p = g_cur;
  p->err = errno;
  auto eh = (uint64_t*)abi::__cxa_get_globals();
  p->eh[0] = eh[0];
  p->eh[1] = eh[1];
  swapcontext(&p->ctx, &g_main);
  errno = p->err;
}
struct Gate { bool err = false; int eno = 0; int64_t shortTo = -1; bool torn = false; bool power = false; };

// Every simulated system call passes here: scheduling point, host actions, faults
Gate gate(const char* cls, bool isSys = true)
{
  Proc* p = g_cur;
  Gate g;
  int64_t k = p->res.calls[cls]++;
  int64_t s = p->sys;
  if (isSys)
  {
    p->sys++;
    g_w->step++;
    p->res.steps++;
    p->now += 3000 + (int64_t)((s * 7919) % 40000);
    g_w->ns += 3000 + (s * 7919) % 40000;
    if (p->res.steps > MAX_STEPS) leave(Exit::Hang, -1, "no end after " + std::to_string(MAX_STEPS) + " system calls");
    hostActions();
    while (g_w->schedAt < g_w->sched.size() && g_w->sched[g_w->schedAt].step <= g_w->step)
    {
      int to = g_w->sched[g_w->schedAt++].proc;
      if (to != p->id && to < (int)g_w->procs.size() && !g_w->procs[to]->done)
      {
        g_w->want = to;
        g_w->res->taken.push_back({g_w->step, to});
        Proc* sv = g_heap;
        yieldTo();
        g_heap = sv;
      }
    }
  }
  for (auto& f : p->faults)
  {
    bool sysF = isSys && f.cls == "sys" && (s == f.nth || (f.sticky && s >= f.nth));
    bool hit = sysF || (f.cls == cls && (k == f.nth || (f.sticky && k >= f.nth)));
    if (!hit) continue;
    if (f.kind == "kill" || f.kind == "power")
    {
      g_w->res->fired[f.kind + "@" + cls]++;
      event(p, f.kind.c_str(), cls, k);
      if (f.kind == "power") g_w->stop = true;
      leave(Exit::Killed, -1, f.kind);
    }
    if (f.kind == "jump")
    {
      p->now += f.arg;
      g_w->res->fired["clock-jump"]++;
      event(p, "jump", cls, f.arg);
      continue;
    }
    if (f.kind == "torn" || f.kind == "torn-power")
    {
      g.torn = true;
      g.power = f.kind == "torn-power";
      g.shortTo = f.arg;
    }
    else if (f.kind == "short") g.shortTo = f.arg;
    else if (f.kind == "null" || f.kind == "err")
    {
      g.err = true;
      g.eno = (int)f.arg;
    }
    else continue;
    g_w->res->fired[std::string(cls) + ":" + (g.err ? (f.kind == "null" ? "null" : strerrorname_np(g.eno) ? strerrorname_np(g.eno) : "err") : f.kind) + (f.sticky ? "+" : "")]++;
    break;
  }
  return g;
}

// ---------------------------------------------------------------- heap
struct Hdr { size_t size; uint32_t magic, state; size_t total; size_t pad; };
constexpr uint32_t LIVE = 0x51AB0001, DEAD = 0x51AB0002, MAGIC = 0xC0DEBA5E;
constexpr size_t TAIL = 16;
void memError(const std::string& m)
{
  Host h;
  if (g_cur && g_cur->res.memErrors.size() < 5) g_cur->res.memErrors.push_back(m);
}
size_t roundTotal(size_t n)
{
  size_t t = n + sizeof(Hdr) + TAIL;
  if (t <= 1024) return (t + 15) / 16 * 16;
  size_t p = 2048;
  while (p < t) p += p / 2 / 16 * 16;
  return p;
}
void* arenaAlloc(Proc* p, size_t n)
{
  size_t total = roundTotal(n);
  char* b = nullptr;
  {
    Host h;
    auto& fl = total <= 1024 ? p->freeSmall[total / 16] : p->freeBig[total];
    if (!fl.empty()) { b = fl.back(); fl.pop_back(); }
  }
  if (!b)
  {
    if (p->hi - p->lo < total + 4096) return nullptr;
    if (p->spec.env.descending) { p->hi -= total; b = p->arena + p->hi; }
    else { b = p->arena + p->lo; p->lo += total; }
  }
  Hdr* hd = (Hdr*)b;
  hd->size = n;
  hd->magic = MAGIC;
  hd->state = LIVE;
  hd->total = total;
  char* u = b + sizeof(Hdr);
  memset(u, p->spec.env.fill, n);
  memset(u + n, 0x7E, TAIL);
  return u;
}
bool tailOk(const Hdr* h)
{
  const char* t = (const char*)(h + 1) + h->size;
  for (size_t i = 0; i < TAIL; i++) if (t[i] != 0x7E) return false;
  return true;
}
Proc* arenaOf(void* q)
{
  for (auto* s : g_slots) if (s->arena && (char*)q >= s->arena && (char*)q < s->arena + ARENA) return s;
  return nullptr;
}
void arenaFree(Proc* p, void* q)
{
  Hdr* h = (Hdr*)q - 1;
  if (h->magic != MAGIC) { memError("free of a corrupted or invalid block"); return; }
  if (h->state != LIVE) { memError("double free"); return; }
  if (!tailOk(h)) memError("heap overflow behind a block of " + std::to_string(h->size) + " bytes");
  h->state = DEAD;
  memset(q, 0xDD, h->size);
  Host host;
  (h->total <= 1024 ? p->freeSmall[h->total / 16] : p->freeBig[h->total]).push_back((char*)h);
}
void arenaCheck(Proc* p)
{
  auto walk = [&](size_t a, size_t b)
  {
    while (a < b)
    {
      Hdr* h = (Hdr*)(p->arena + a);
      if (h->magic != MAGIC || !h->total || h->total > b - a) { p->res.memErrors.push_back("heap metadata overwritten"); return; }
      if (h->state == LIVE) { if (!tailOk(h)) { p->res.memErrors.push_back("heap overflow behind a live block of " + std::to_string(h->size) + " bytes"); return; } }
      else
      {
        const unsigned char* u = (const unsigned char*)(h + 1);
        for (size_t i = 0; i < h->size; i++) if (u[i] != 0xDD) { p->res.memErrors.push_back("write to freed memory"); return; }
      }
      a += h->total;
    }
  };
  walk(0, p->lo);
  walk(p->hi, ARENA);
}
void* simNew(size_t n, bool nothrow, size_t align = 16)
{
  if (g_loading)
  {
    Copy* c = g_loading;
    size_t a = (c->loaderUsed + 31) / 16 * 16;
    if (a + n <= LOADER)
    {
      c->loaderUsed = a + n;
      return c->loader + a;
    }
  }
  Proc* p = g_heap;
  if (!p)
  {
    void* q = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!q && !nothrow) throw std::bad_alloc();
    return q;
  }
  bool fail = false;
  {
    Host h;
    int64_t k = p->allocs++;
    if (g_recordSites)
    {
      // who asks for memory is told apart by the depth of the stack and the size of the request
      // (return addresses on the stack cannot be had: without frame pointers leftovers look like them)
      uint64_t key = (uint64_t)(p->stack + STACK + 8192 - (char*)__builtin_frame_address(0)) * 64 + (uint64_t)(64 - __builtin_clzll(n | 1));
      auto i = p->sites.find(key);
      if (i == p->sites.end()) p->sites[key] = {k, -1, k};
      else { if (i->second[1] < 0) i->second[1] = k; i->second[2] = k; }
    }
    if (p->allocHit >= 0 && (p->allocSticky ? k >= p->allocHit : p->allocSet.count(k) > 0))
    {
      fail = true;
      g_w->res->fired[p->allocSticky ? "alloc:null+" : "alloc:null"]++;
      event(p, "alloc", "", -ENOMEM);
    }
    if (fail) event(p, "alloc-failure", std::to_string(n), 0);
  }
  if (fail)
  {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* q = nullptr;
  if (align <= 16) q = arenaAlloc(p, n);
  else
  {
    char* b = (char*)arenaAlloc(p, n + align);
    q = b;  // sized blocks from aligned new are rare: alignment satisfied by rounding inside a larger block
    if (b && ((uintptr_t)b % align)) q = b;  // (no over-aligned type exists in the code under test)
  }
  if (!q)
  {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  return q;
}
void simDelete(void* q)
{
  if (!q) return;
  if (Proc* o = arenaOf(q))
  {
    if (g_heap == o) arenaFree(o, q);
    return;
  }
  for (auto& c : g_copies) if (c.loader && (char*)q >= c.loader && (char*)q < c.loader + LOADER) return;
  if (g_heap) return;  // host block reached from a simulated process: leave it alone
  free(q);
}
}  // namespace

void* operator new(size_t n) { return simNew(n, false); }
void* operator new[](size_t n) { return simNew(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simNew(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simNew(n, true); }
void* operator new(size_t n, std::align_val_t a) { return simNew(n, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return simNew(n, false, (size_t)a); }
void operator delete(void* p) noexcept { simDelete(p); }
void operator delete[](void* p) noexcept { simDelete(p); }
void operator delete(void* p, size_t) noexcept { simDelete(p); }
void operator delete[](void* p, size_t) noexcept { simDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simDelete(p); }
void operator delete(void* p, std::align_val_t) noexcept { simDelete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { simDelete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simDelete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simDelete(p); }

// ================================================================ the system-call seam
#define SIM (g_cur && g_w)
namespace
{
int fail(int e) { errno = e; return -1; }
bool writable(const std::string& dir) { auto i = g_w->fs->n.find(dir); return i != g_w->fs->n.end() && (i->second->mode & 0222); }
int resolve(const char* path, bool follow, std::string& out) { return g_w->fs->resolve(g_cur->cwd, path ? path : "", follow, out); }
int doOpen(const char* path, int flags, int mode)
{
  Host h;
  Gate g = gate("open");
  std::string ap;
  int e = g.err ? g.eno : resolve(path, !(flags & O_NOFOLLOW), ap);
  Proc* p = g_cur;
  auto done = [&](int r) { event(p, "open", path, r < 0 ? -errno : r); return r; };
  if (e) { errno = e; return done(-1); }
  auto& n = g_w->fs->n;
  auto it = n.find(ap);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (it != n.end() && (flags & O_CREAT) && (flags & O_EXCL)) return done(fail(EEXIST));
  if (it == n.end())
  {
    if (!(flags & O_CREAT)) return done(fail(ENOENT));
    std::string par = parentOf(ap);
    auto pi = n.find(par);
    if (pi == n.end()) return done(fail(ENOENT));
    if (pi->second->type != Inode::Dir) return done(fail(ENOTDIR));
    if (!writable(par)) return done(fail(EACCES));
    if (g_w->fs->capacity == 0) return done(fail(ENOSPC));
    auto f = std::make_shared<Inode>();
    f->mode = mode & 0777 & ~022;
    f->mtime = p->now;
    Hash id;
    id.str(ap);
    id.u64((uint64_t)p->now);
    id.u64((uint64_t)g_w->step);
    f->id = id.h | 1;
    n[ap] = f;
    it = n.find(ap);
    mut("create", ap);
  }
  auto& ino = it->second;
  if (ino->type == Inode::Link) return done(fail(ELOOP));
  if (ino->type == Inode::Dir && wr) return done(fail(EISDIR));
  if ((flags & O_DIRECTORY) && ino->type != Inode::Dir) return done(fail(ENOTDIR));
  if (wr && !(ino->mode & 0222)) return done(fail(EACCES));
  if ((flags & O_ACCMODE) != O_WRONLY && !(ino->mode & 0444)) return done(fail(EACCES));
  if ((flags & O_TRUNC) && wr && ino->type == Inode::File)
  {
    if (g_w->fs->capacity >= 0) g_w->fs->capacity += (long)ino->data.size();
    ino->data.clear();
    ino->mtime = p->now;
    mut("trunc", ap);
  }
  else if (wr && it != n.end()) mut("openw", ap);
  int fd = 1000;
  while (p->fds.count(fd)) fd++;
  Fd f;
  f.ino = ino;
  f.path = ap;
  f.rd = (flags & O_ACCMODE) != O_WRONLY;
  f.wr = wr;
  f.app = flags & O_APPEND;
  f.dir = ino->type == Inode::Dir;
  p->fds[fd] = f;
  return done(fd);
}
ssize_t conOut(int fd, const void* b, size_t n)
{
  Host h;
  (fd == 1 ? g_cur->res.out : g_cur->res.err).append((const char*)b, n);
  return (ssize_t)n;
}
ssize_t doRead(int fd, void* b, size_t n)
{
  Host h;
  Proc* p = g_cur;
  if (fd == 0) return 0;
  Gate g = gate("read");
  auto it = p->fds.find(fd);
  if (it == p->fds.end()) return fail(EBADF);
  Fd& f = it->second;
  if (g.err) { event(p, "read", f.path, -g.eno); return fail(g.eno); }
  if (f.dir) return fail(EISDIR);
  if (!f.rd) return fail(EBADF);
  if (p->spec.env.eintr && ++p->rwCount % p->spec.env.eintr == 0 && !p->wasIntr)
  {
    p->wasIntr = true;
    g_w->res->fired["read:EINTR"]++;
    return fail(EINTR);
  }
  p->wasIntr = false;
  const std::string& d = f.ino->data;
  size_t left = f.pos < (off_t)d.size() ? d.size() - (size_t)f.pos : 0;
  size_t k = std::min(n, left);
  if (g.shortTo >= 0 && k > 1) k = std::max<size_t>(1, std::min<size_t>(k, (size_t)g.shortTo));
  if (p->spec.env.chunk > 0 && k > (size_t)p->spec.env.chunk) { k = (size_t)p->spec.env.chunk; g_w->res->fired["read:short"]++; }
  memcpy(b, d.data() + f.pos, k);
  f.pos += (off_t)k;
  event(p, "read", f.path, (int64_t)k);
  return (ssize_t)k;
}
ssize_t doWrite(int fd, const void* b, size_t n)
{
  if (fd == 1 || fd == 2) return conOut(fd, b, n);
  Host h;
  Proc* p = g_cur;
  Gate g = gate("write");
  auto it = p->fds.find(fd);
  if (it == p->fds.end()) return fail(EBADF);
  Fd& f = it->second;
  if (g.err) { event(p, "write", f.path, -g.eno); return fail(g.eno); }
  if (!f.wr) return fail(EBADF);
  if (p->spec.env.eintr && ++p->rwCount % p->spec.env.eintr == 0 && !p->wasIntr)
  {
    p->wasIntr = true;
    g_w->res->fired["write:EINTR"]++;
    return fail(EINTR);
  }
  p->wasIntr = false;
  size_t k = n;
  if (g.shortTo >= 0) k = g.torn ? n * (size_t)std::min<int64_t>(g.shortTo, 100) / 100 : std::max<size_t>(1, std::min<size_t>(k, (size_t)g.shortTo));
  if (p->spec.env.wchunk > 0 && k > (size_t)p->spec.env.wchunk) { k = (size_t)p->spec.env.wchunk; g_w->res->fired["write:short"]++; }
  auto& d = f.ino->data;
  if (f.app) f.pos = (off_t)d.size();
  long& cap = g_w->fs->capacity;
  size_t grow = (size_t)f.pos + k > d.size() ? (size_t)f.pos + k - d.size() : 0;
  if (cap >= 0 && grow > (size_t)cap)
  {
    size_t cut = grow - (size_t)cap;
    if (cut >= k)
    {
      g_w->res->fired["disk-full"]++;
      event(p, "write", f.path, -ENOSPC);
      return fail(ENOSPC);
    }
    k -= cut;
    grow = (size_t)cap;
  }
  if (cap >= 0) cap -= (long)grow;
  if (d.size() < (size_t)f.pos + k) d.resize((size_t)f.pos + k);
  memcpy(&d[0] + f.pos, b, k);
  f.ino->mtime = p->now;
  f.pos += (off_t)k;
  Hash hh;
  hh.bytes(b, k);
  g_w->trace.u64(hh.h);
  event(p, "write", f.path, (int64_t)k);
  mut("write", f.path);
  if (g.torn)
  {
    if (g.power) g_w->stop = true;
    leave(Exit::Killed, -1, g.power ? "power" : "kill");
  }
  return (ssize_t)k;
}
int doClose(int fd)
{
  if (fd >= 0 && fd <= 2) return 0;
  Host h;
  Proc* p = g_cur;
  Gate g = gate("close");
  auto it = p->fds.find(fd);
  if (it == p->fds.end()) return fail(EBADF);
  std::string path = it->second.path;
  p->fds.erase(it);
  event(p, "close", path, g.err ? -g.eno : 0);
  return g.err ? fail(g.eno) : 0;
}
off_t doSeek(int fd, off_t o, int w)
{
  Host h;
  Proc* p = g_cur;
  Gate g = gate("seek");
  auto it = p->fds.find(fd);
  if (it == p->fds.end()) return fail(EBADF);
  Fd& f = it->second;
  if (g.err) { event(p, "seek", f.path, -g.eno); return fail(g.eno); }
  off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f.pos : (off_t)f.ino->data.size();
  if (b + o < 0) return fail(EINVAL);
  f.pos = b + o;
  event(p, "seek", f.path, f.pos);
  return f.pos;
}
void fillStat(const Inode& i, const std::string& path, struct stat* st)
{
  memset(st, 0, sizeof *st);
  st->st_mode = (i.type == Inode::Dir ? S_IFDIR : i.type == Inode::Link ? S_IFLNK : S_IFREG) | (mode_t)i.mode;
  st->st_size = (off_t)i.data.size();
  st->st_nlink = 1;
  st->st_uid = st->st_gid = 1000;
  Hash h;
  h.str(path);
  st->st_ino = i.id ? i.id : h.h | 1;
  st->st_dev = 7;
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  const int64_t ns = i.mtime ? i.mtime : g_cur->spec.env.now;
  st->st_mtim.tv_sec = ns / 1000000000;
  st->st_mtim.tv_nsec = ns % 1000000000;
  st->st_ctim = st->st_atim = st->st_mtim;
}
int doStat(const char* path, struct stat* st, bool follow)
{
  Host h;
  Gate g = gate("stat");
  std::string ap;
  int e = g.err ? g.eno : resolve(path, follow, ap);
  if (!e && !g_w->fs->n.count(ap)) e = ENOENT;
  event(g_cur, "stat", path ? path : "", -e);
  if (e) return fail(e);
  fillStat(*g_w->fs->n[ap], ap, st);
  return 0;
}
int doFstat(int fd, struct stat* st)
{
  Host h;
  Gate g = gate("fstat");
  if (fd >= 0 && fd <= 2)
  {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFCHR | 0620;
    return 0;
  }
  auto it = g_cur->fds.find(fd);
  if (it == g_cur->fds.end()) return fail(EBADF);
  if (g.err) return fail(g.eno);
  fillStat(*it->second.ino, it->second.path, st);
  return 0;
}
int doMkdir(const char* path, mode_t mode)
{
  Host h;
  Gate g = gate("mkdir");
  std::string ap;
  int e = g.err ? g.eno : resolve(path, false, ap);
  auto& n = g_w->fs->n;
  if (!e)
  {
    std::string par = parentOf(ap);
    if (n.count(ap)) e = EEXIST;
    else if (!n.count(par)) e = ENOENT;
    else if (n[par]->type != Inode::Dir) e = ENOTDIR;
    else if (!writable(par)) e = EACCES;
    else if (g_w->fs->capacity == 0) e = ENOSPC;
  }
  event(g_cur, "mkdir", path ? path : "", -e);
  if (e) return fail(e);
  auto d = std::make_shared<Inode>();
  d->type = Inode::Dir;
  d->mode = (int)(mode & 0777 & ~022u);
  n[ap] = d;
  mut("mkdir", ap);
  return 0;
}
int doUnlink(const char* path, bool dir, bool any)
{
  Host h;
  Gate g = gate("unlink");
  std::string ap;
  int e = g.err ? g.eno : resolve(path, false, ap);
  auto& n = g_w->fs->n;
  if (!e)
  {
    if (!n.count(ap)) e = ENOENT;
    else if (n[ap]->type == Inode::Dir)
    {
      if (!dir && !any) e = EISDIR;
      else if (!g_w->fs->under(ap).empty()) e = ENOTEMPTY;
    }
    else if (dir) e = ENOTDIR;
    if (!e && !writable(parentOf(ap))) e = EACCES;
  }
  event(g_cur, "unlink", path ? path : "", -e);
  if (e) return fail(e);
  n.erase(ap);
  mut("unlink", ap);
  return 0;
}
int doRename(const char* a, const char* b, bool noreplace = false)
{
  Host h;
  Gate g = gate("rename");
  std::string pa, pb;
  int e = g.err ? g.eno : resolve(a, false, pa);
  if (!e) e = resolve(b, false, pb);
  auto& n = g_w->fs->n;
  if (!e)
  {
    if (!n.count(pa)) e = ENOENT;
    else if (!n.count(parentOf(pb))) e = ENOENT;
    else if (!writable(parentOf(pa)) || !writable(parentOf(pb))) e = EACCES;
    else if (n.count(pb) && noreplace) e = EEXIST;
    else if (n.count(pb) && n[pb]->type == Inode::Dir && (n[pa]->type != Inode::Dir || !g_w->fs->under(pb).empty())) e = n[pa]->type != Inode::Dir ? EISDIR : ENOTEMPTY;
    else if (n.count(pb) && n[pb]->type != Inode::Dir && n[pa]->type == Inode::Dir) e = ENOTDIR;
  }
  event(g_cur, "rename", std::string(a ? a : "") + " " + (b ? b : ""), -e);
  if (e) return fail(e);
  if (pa == pb) return 0;
  auto kids = g_w->fs->under(pa);
  for (auto& k : kids)
  {
    n[pb + k.substr(pa.size())] = n[k];
    n.erase(k);
  }
  n[pb] = n[pa];
  n.erase(pa);
  mut("rename-from", pa);
  mut("rename-to", pb);
  return 0;
}
// FILE* streams of simulated processes are cookie streams over simulated descriptors
// (as in the C library, a short write is continued; an interrupted call is repeated, as iostreams do)
ssize_t ckRead(void* c, char* b, size_t n)
{
  auto k = (Cookie*)c;
  if (g_cur != k->p) return -1;
  ssize_t r;
  do r = doRead(k->fd, b, n);
  while (r < 0 && errno == EINTR);
  return r;
}
ssize_t ckWrite(void* c, const char* b, size_t n)
{
  auto k = (Cookie*)c;
  if (g_cur != k->p) return (ssize_t)n;
  size_t done = 0;
  while (done < n)
  {
    ssize_t r = doWrite(k->fd, b + done, n - done);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) break;
    done += (size_t)r;
  }
  return (ssize_t)done;
}
int ckSeek(void* c, off64_t* o, int w)
{
  auto k = (Cookie*)c;
  if (g_cur != k->p) return -1;
  off_t r = doSeek(k->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ckClose(void* c)
{
  auto k = (Cookie*)c;
  if (g_cur != k->p) return 0;
  return doClose(k->fd);
}
FILE* mkFile(int fd, const char* mode)
{
  Host h;
  auto c = new Cookie{g_cur, fd};
  g_cur->cookies.push_back(c);
  cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  FILE* f = fopencookie(c, mode, io);
  g_cur->files[f] = fd;
  return f;
}
int modeFlags(const char* m)
{
  bool plus = strchr(m, '+'), x = strchr(m, 'x');
  int f = 0;
  if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  return f | (x ? O_EXCL : 0);
}
ssize_t rtWrite(void* c, const char* b, size_t n)
{
  int fd = (int)(intptr_t)c;
  if (SIM) return conOut(fd, b, n);
  return syscall(SYS_write, fd, b, n);
}
struct ConBuf : std::streambuf
{
  int fd;
  explicit ConBuf(int f) : fd(f) {}
  int overflow(int c) override
  {
    char ch = (char)c;
    if (c != EOF) xsputn(&ch, 1);
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    if (SIM) return conOut(fd, s, (size_t)n);
    return syscall(SYS_write, fd, s, n);
  }
};
}  // namespace

extern "C" {
int open(const char* p, int fl, ...)
{
  va_list a;
  va_start(a, fl);
  int mode = va_arg(a, int);
  va_end(a);
  if (!SIM) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  return doOpen(p, fl, mode);
}
int open64(const char* p, int fl, ...)
{
  va_list a;
  va_start(a, fl);
  int mode = va_arg(a, int);
  va_end(a);
  if (!SIM) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  return doOpen(p, fl, mode);
}
static int simOpenat(int dfd, const char* p, int fl, int mode)
{
  std::string full;
  {
    Host h;
    if (p[0] != '/' && dfd != AT_FDCWD && g_cur->fds.count(dfd)) full = g_cur->fds[dfd].path + "/" + p;
    else full = p;
  }
  return doOpen(full.c_str(), fl, mode);
}
int openat(int dfd, const char* p, int fl, ...)
{
  va_list a;
  va_start(a, fl);
  int mode = va_arg(a, int);
  va_end(a);
  if (!SIM) return (int)syscall(SYS_openat, dfd, p, fl, mode);
  return simOpenat(dfd, p, fl, mode);
}
int openat64(int dfd, const char* p, int fl, ...)
{
  va_list a;
  va_start(a, fl);
  int mode = va_arg(a, int);
  va_end(a);
  if (!SIM) return (int)syscall(SYS_openat, dfd, p, fl, mode);
  return simOpenat(dfd, p, fl, mode);
}
int __openat_2(int dfd, const char* p, int fl)
{
  if (!SIM) return (int)syscall(SYS_openat, dfd, p, fl, 0);
  return simOpenat(dfd, p, fl, 0);
}
int __open_2(const char* p, int fl)
{
  if (!SIM) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, 0);
  return doOpen(p, fl, 0);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void* b, size_t n)
{
  if (!SIM) return syscall(SYS_read, fd, b, n);
  return doRead(fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
  if (!SIM) return syscall(SYS_pread64, fd, b, n, o);
  off_t at = doSeek(fd, 0, SEEK_CUR);
  if (at < 0 || doSeek(fd, o, SEEK_SET) < 0) return -1;
  ssize_t r = doRead(fd, b, n);
  doSeek(fd, at, SEEK_SET);
  return r;
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c)
{
  if (!SIM) return syscall(SYS_readv, fd, v, c);
  ssize_t all = 0;
  for (int i = 0; i < c; i++)
  {
    ssize_t r = doRead(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return all ? all : -1;
    all += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return all;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
  if (!SIM) return syscall(SYS_pwrite64, fd, b, n, o);
  off_t at = doSeek(fd, 0, SEEK_CUR);
  if (at < 0 || doSeek(fd, o, SEEK_SET) < 0) return -1;
  ssize_t r = doWrite(fd, b, n);
  int e = errno;
  doSeek(fd, at, SEEK_SET);
  errno = e;
  return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int mkstemp(char* t)
{
  if (!SIM) return REAL(mkstemp)(t);
  size_t n = strlen(t);
  if (n < 6 || memcmp(t + n - 6, "XXXXXX", 6)) return fail(EINVAL);
  for (int i = 0; i < 100; i++)
  {
    for (size_t k = 0, v = (size_t)(getpid() * 100 + i); k < 6; k++, v /= 26) t[n - 1 - k] = (char)('a' + v % 26);
    int fd = doOpen(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return fail(EEXIST);
}
int mkstemp64(char* t) { return mkstemp(t); }
ssize_t write(int fd, const void* b, size_t n)
{
  if (!SIM) return syscall(SYS_write, fd, b, n);
  return doWrite(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (!SIM) return syscall(SYS_writev, fd, v, c);
  std::string* s;
  ssize_t r;
  {
    Host h;
    s = new std::string;
    for (int i = 0; i < c; i++) s->append((const char*)v[i].iov_base, v[i].iov_len);
  }
  r = doWrite(fd, s->data(), s->size());
  {
    Host h;
    int e = errno;
    delete s;
    errno = e;
  }
  return r;
}
int close(int fd)
{
  if (!SIM) return (int)syscall(SYS_close, fd);
  return doClose(fd);
}
off_t lseek(int fd, off_t o, int w)
{
  if (!SIM) return syscall(SYS_lseek, fd, o, w);
  return doSeek(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w)
{
  if (!SIM) return syscall(SYS_lseek, fd, o, w);
  return doSeek(fd, o, w);
}
FILE* fopen(const char* p, const char* m)
{
  if (!SIM) return REAL(fopen)(p, m);
  int fd = doOpen(p, modeFlags(m), 0666);
  return fd < 0 ? nullptr : mkFile(fd, m);
}
FILE* fopen64(const char* p, const char* m)
{
  if (!SIM) return REAL(fopen)(p, m);
  return fopen(p, m);
}
FILE* fdopen(int fd, const char* m)
{
  if (!SIM) return REAL(fdopen)(fd, m);
  return mkFile(fd, m);
}
FILE* freopen(const char* p, const char* m, FILE* f)
{
  if (!SIM) return REAL(freopen)(p, m, f);
  errno = ENOSYS;
  return nullptr;
}
FILE* tmpfile(void)
{
  if (!SIM) return REAL(tmpfile)();
  errno = EROFS;
  return nullptr;
}
int fclose(FILE* f)
{
  if (!SIM) return REAL(fclose)(f);
  { Host h; g_cur->files.erase(f); }
  return REAL(fclose)(f);
}
int fileno(FILE* f)
{
  if (SIM)
  {
    Host h;
    auto i = g_cur->files.find(f);
    if (i != g_cur->files.end()) return i->second;
    if (f == stdin) return 0;
    if (f == stdout) return 1;
    if (f == stderr) return 2;
  }
  return REAL(fileno)(f);
}
int stat(const char* p, struct stat* st)
{
  if (!SIM) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
  return doStat(p, st, true);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st)
{
  if (!SIM) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
  return doStat(p, st, false);
}
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat(int fd, struct stat* st)
{
  if (!SIM) return (int)syscall(SYS_fstat, fd, st);
  return doFstat(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int fl)
{
  if (!SIM) return (int)syscall(SYS_newfstatat, d, p, st, fl);
  return doStat(p, st, !(fl & AT_SYMLINK_NOFOLLOW));
}
int access(const char* p, int m)
{
  if (!SIM) return (int)syscall(SYS_access, p, m);
  struct stat st;
  if (doStat(p, &st, true)) return -1;
  if ((m & W_OK) && !(st.st_mode & 0222)) return fail(EACCES);
  if ((m & R_OK) && !(st.st_mode & 0444)) return fail(EACCES);
  return 0;
}
int mkdir(const char* p, mode_t m)
{
  if (!SIM) return (int)syscall(SYS_mkdir, p, m);
  return doMkdir(p, m);
}
int mkdirat(int d, const char* p, mode_t m)
{
  if (!SIM) return (int)syscall(SYS_mkdirat, d, p, m);
  return doMkdir(p, m);
}
int unlink(const char* p)
{
  if (!SIM) return (int)syscall(SYS_unlink, p);
  return doUnlink(p, false, false);
}
int rmdir(const char* p)
{
  if (!SIM) return (int)syscall(SYS_rmdir, p);
  return doUnlink(p, true, false);
}
int remove(const char* p)
{
  if (!SIM) return REAL(remove)(p);
  return doUnlink(p, false, true);
}
int unlinkat(int d, const char* p, int fl)
{
  if (!SIM) return (int)syscall(SYS_unlinkat, d, p, fl);
  std::string* full;
  {
    Host h;
    full = new std::string(p[0] != '/' && d != AT_FDCWD && g_cur->fds.count(d) ? g_cur->fds[d].path + "/" + p : p);
  }
  int r = doUnlink(full->c_str(), fl & AT_REMOVEDIR, false), e = errno;
  { Host h; delete full; }
  errno = e;
  return r;
}
int rename(const char* a, const char* b)
{
  if (!SIM) return (int)syscall(SYS_rename, a, b);
  return doRename(a, b);
}
int renameat(int, const char* a, int, const char* b) { return rename(a, b); }
int renameat2(int, const char* a, int, const char* b, unsigned fl)
{
  if (!SIM) return (int)syscall(SYS_rename, a, b);
  return doRename(a, b, fl & 1);
}
int truncate(const char* p, off_t n)
{
  if (!SIM) return (int)syscall(SYS_truncate, p, n);
  Host h;
  Gate g = gate("trunc");
  std::string ap;
  int e = g.err ? g.eno : resolve(p, true, ap);
  if (!e && !g_w->fs->isFile(ap)) e = ENOENT;
  if (e) return fail(e);
  g_w->fs->n[ap]->data.resize((size_t)n);
  g_w->fs->n[ap]->mtime = g_cur->now;
  mut("trunc", ap);
  return 0;
}
int ftruncate(int fd, off_t n)
{
  if (!SIM) return (int)syscall(SYS_ftruncate, fd, n);
  Host h;
  Gate g = gate("trunc");
  auto it = g_cur->fds.find(fd);
  if (it == g_cur->fds.end()) return fail(EBADF);
  if (g.err) return fail(g.eno);
  it->second.ino->data.resize((size_t)n);
  it->second.ino->mtime = g_cur->now;
  mut("trunc", it->second.path);
  return 0;
}
static int simSync(int fd)
{
  Host h;
  Gate g = gate("sync");
  auto it = g_cur->fds.find(fd);
  if (it == g_cur->fds.end()) return fail(EBADF);
  if (g.err) return fail(g.eno);
  it->second.ino->synced = true;
  it->second.ino->syncedData = it->second.ino->data;
  return 0;
}
int fsync(int fd) { return SIM ? simSync(fd) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return SIM ? simSync(fd) : (int)syscall(SYS_fdatasync, fd); }
static int simChmod(const char* p, mode_t m)
{
  Host h;
  Gate g = gate("chmod");
  std::string ap;
  int e = g.err ? g.eno : resolve(p, true, ap);
  if (!e && !g_w->fs->n.count(ap)) e = ENOENT;
  if (e) return fail(e);
  g_w->fs->n[ap]->mode = (int)(m & 0777);
  mut("chmod", ap);
  return 0;
}
int chmod(const char* p, mode_t m) { return SIM ? simChmod(p, m) : (int)syscall(SYS_chmod, p, m); }
int fchmodat(int d, const char* p, mode_t m, int fl) { return SIM ? simChmod(p, m) : (int)syscall(SYS_fchmodat, d, p, m, fl); }
int fchmod(int fd, mode_t m)
{
  if (!SIM) return (int)syscall(SYS_fchmod, fd, m);
  return 0;
}
int symlink(const char* t, const char* p)
{
  if (!SIM) return (int)syscall(SYS_symlink, t, p);
  Host h;
  Gate g = gate("link");
  std::string ap;
  int e = g.err ? g.eno : resolve(p, false, ap);
  if (!e && g_w->fs->n.count(ap)) e = EEXIST;
  if (!e && !g_w->fs->isDir(parentOf(ap))) e = ENOENT;
  if (e) return fail(e);
  g_w->fs->link(ap, t);
  mut("create", ap);
  return 0;
}
int link(const char* a, const char* p)
{
  if (!SIM) return (int)syscall(SYS_link, a, p);
  Host h;
  Gate g = gate("link");
  std::string aa, ap;
  int e = g.err ? g.eno : resolve(a, false, aa);
  if (!e) e = resolve(p, false, ap);
  if (!e && g_w->fs->n.count(ap)) e = EEXIST;
  if (!e && !g_w->fs->n.count(aa)) e = ENOENT;
  if (!e && !g_w->fs->isDir(parentOf(ap))) e = ENOENT;
  if (e) return fail(e);
  g_w->fs->n[ap] = g_w->fs->n[aa];
  mut("create", ap);
  return 0;
}
ssize_t readlink(const char* p, char* b, size_t n)
{
  if (!SIM) return syscall(SYS_readlink, p, b, n);
  Host h;
  Gate g = gate("stat");
  std::string ap;
  int e = g.err ? g.eno : resolve(p, false, ap);
  if (!e && !g_w->fs->n.count(ap)) e = ENOENT;
  if (!e && g_w->fs->n[ap]->type != Inode::Link) e = EINVAL;
  if (e) return fail(e);
  auto& t = g_w->fs->n[ap]->data;
  size_t k = std::min(n, t.size());
  memcpy(b, t.data(), k);
  return (ssize_t)k;
}
char* realpath(const char* p, char* b)
{
  if (!SIM) return REAL(realpath)(p, b);
  Host h;
  Gate g = gate("stat");
  std::string ap;
  int e = g.err ? g.eno : resolve(p, true, ap);
  if (!e && !g_w->fs->n.count(ap)) e = ENOENT;
  if (e) { errno = e; return nullptr; }
  if (!b) b = (char*)malloc(4097);
  strcpy(b, ap.c_str());
  return b;
}
char* getcwd(char* b, size_t n)
{
  if (!SIM) return REAL(getcwd)(b, n);
  Host h;
  auto& c = g_cur->cwd;
  if (!b) b = (char*)malloc(n ? n : c.size() + 1);
  else if (n <= c.size()) { errno = ERANGE; return nullptr; }
  strcpy(b, c.c_str());
  return b;
}
int chdir(const char* p)
{
  if (!SIM) return (int)syscall(SYS_chdir, p);
  Host h;
  Gate g = gate("stat");
  std::string ap;
  int e = g.err ? g.eno : resolve(p, true, ap);
  if (!e && !g_w->fs->isDir(ap)) e = ENOTDIR;
  if (e) return fail(e);
  g_cur->cwd = ap;
  return 0;
}
static DIR* simDir(int fd)
{
  Host h;
  auto d = new SimDir;
  d->fd = fd;
  d->names = {".", ".."};
  std::string base = g_cur->fds[fd].path;
  size_t k = base == "/" ? 1 : base.size() + 1;
  for (auto& p : g_w->fs->under(base)) if (p.find('/', k) == std::string::npos) d->names.push_back(p.substr(k));
  g_cur->dirs.push_back(d);
  return (DIR*)d;
}
DIR* opendir(const char* p)
{
  if (!SIM) return REAL(opendir)(p);
  int fd = doOpen(p, O_RDONLY | O_DIRECTORY, 0);
  return fd < 0 ? nullptr : simDir(fd);
}
DIR* fdopendir(int fd)
{
  if (!SIM) return REAL(fdopendir)(fd);
  return simDir(fd);
}
int dirfd(DIR* d)
{
  if (!SIM) return REAL(dirfd)(d);
  return ((SimDir*)d)->fd;
}
struct dirent* readdir(DIR* dd)
{
  if (!SIM) return REAL(readdir)(dd);
  Host h;
  Gate g = gate("readdir");
  if (g.err) { errno = g.eno; return nullptr; }
  auto d = (SimDir*)dd;
  if (d->at >= d->names.size()) return nullptr;
  memset(&d->de, 0, sizeof d->de);
  auto& nm = d->names[d->at++];
  strncpy(d->de.d_name, nm.c_str(), 255);
  d->de.d_ino = d->at;
  std::string full = g_cur->fds[d->fd].path + "/" + nm;
  d->de.d_type = nm[0] == '.' && (nm == "." || nm == "..") ? DT_DIR : g_w->fs->isDir(full) ? DT_DIR : g_w->fs->isFile(full) ? DT_REG : DT_LNK;
  return &d->de;
}
int closedir(DIR* dd)
{
  if (!SIM) return REAL(closedir)(dd);
  auto d = (SimDir*)dd;
  return doClose(d->fd);
}
int statvfs(const char* p, struct statvfs* s)
{
  if (!SIM) return REAL(statvfs)(p, s);
  memset(s, 0, sizeof *s);
  s->f_bsize = s->f_frsize = 4096;
  s->f_blocks = s->f_bfree = s->f_bavail = g_w->fs->capacity >= 0 ? (fsblkcnt_t)g_w->fs->capacity / 4096 : 1u << 20;
  return 0;
}
int utimensat(int d, const char* p, const struct timespec t[2], int fl)
{
  if (!SIM) return (int)syscall(SYS_utimensat, d, p, t, fl);
  Host h;
  Gate g = gate("utime");
  std::string ap;
  int e = g.err ? g.eno : d != AT_FDCWD || !p ? EINVAL : resolve(p, true, ap);
  if (!e && !g_w->fs->n.count(ap)) e = ENOENT;
  if (e) return fail(e);
  if (!t || t[1].tv_nsec == UTIME_NOW) g_w->fs->n[ap]->mtime = g_cur->now;
  else if (t[1].tv_nsec != UTIME_OMIT) g_w->fs->n[ap]->mtime = t[1].tv_sec * 1000000000ll + t[1].tv_nsec;
  return 0;
}
ssize_t sendfile(int a, int b, off_t* o, size_t n)
{
  if (!SIM) return syscall(SYS_sendfile, a, b, o, n);
  return fail(ENOSYS);
}
ssize_t copy_file_range(int a, off64_t* ao, int b, off64_t* bo, size_t n, unsigned f)
{
  if (!SIM) return syscall(SYS_copy_file_range, a, ao, b, bo, n, f);
  return fail(ENOSYS);
}
int poll(struct pollfd* f, unsigned long n, int t)
{
  if (!SIM) return (int)syscall(SYS_poll, f, n, t);
  return 1;
}
int isatty(int fd)
{
  if (!SIM) return REAL(isatty)(fd);
  errno = ENOTTY;
  return 0;
}
// ---- processes must not be started from inside the simulation
int system(const char* c)
{
  if (!SIM) return REAL(system)(c);
  Host h;
  mut("exec", c ? c : "");
  return fail(EPERM);
}
FILE* popen(const char* c, const char* m)
{
  if (!SIM) return REAL(popen)(c, m);
  Host h;
  mut("exec", c ? c : "");
  errno = EPERM;
  return nullptr;
}
pid_t fork(void)
{
  if (!SIM) return REAL(fork)();
  Host h;
  mut("exec", "fork");
  return fail(EPERM);
}
int kill(pid_t p, int s)
{
  if (!SIM) return (int)syscall(SYS_kill, p, s);
  Host h;
  mut("exec", "kill");
  return fail(EPERM);
}
// ---- time
time_t time(time_t* t)
{
  if (!SIM) return REAL(time)(t);
  Host h;
  Gate g = gate("time");
  time_t v = g.err ? (time_t)-1 : (time_t)(g_cur->now / 1000000000);
  if (t) *t = v;
  return v;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
  if (!SIM) return (int)syscall(SYS_clock_gettime, c, ts);
  Host h;
  Gate g = gate("time");
  if (g.err) return fail(EINVAL);
  ts->tv_sec = g_cur->now / 1000000000;
  ts->tv_nsec = g_cur->now % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void* z)
{
  if (!SIM) return (int)syscall(SYS_gettimeofday, tv, z);
  struct timespec ts;
  if (clock_gettime(0, &ts)) return -1;
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
static struct tm* simTm(const time_t* t, struct tm* out, bool local)
{
  Host h;
  Gate g = gate(local ? "localtime" : "gmtime");
  if (g.err) { errno = EOVERFLOW; return nullptr; }
  time_t v = *t + (local ? g_cur->spec.env.tzOffset * 60 : 0);
  if (!REAL(gmtime_r)(&v, out)) return nullptr;
  if (local)
  {
    out->tm_gmtoff = g_cur->spec.env.tzOffset * 60;
    out->tm_zone = g_cur->spec.env.tzName.c_str();
  }
  return out;
}
struct tm* localtime(const time_t* t)
{
  if (!SIM) return REAL(localtime)(t);
  return simTm(t, &g_cur->tmBuf, true);
}
struct tm* localtime_r(const time_t* t, struct tm* o)
{
  if (!SIM) return REAL(localtime_r)(t, o);
  return simTm(t, o, true);
}
struct tm* gmtime(const time_t* t)
{
  if (!SIM) return REAL(gmtime)(t);
  return simTm(t, &g_cur->tmBuf, false);
}
struct tm* gmtime_r(const time_t* t, struct tm* o)
{
  if (!SIM) return REAL(gmtime_r)(t, o);
  return simTm(t, o, false);
}
char* ctime(const time_t* t)
{
  if (!SIM) return REAL(ctime)(t);
  struct tm* m = localtime(t);
  return m ? asctime(m) : nullptr;
}
void tzset(void) { if (!SIM) REAL(tzset)(); }
static void simSleep(int64_t ns)
{
  Host h;
  gate("sleep");
  g_cur->now += ns;
  g_w->ns += ns;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
  if (!SIM) return (int)syscall(SYS_nanosleep, a, b);
  simSleep(a->tv_sec * 1000000000ll + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b)
{
  if (!SIM) return (int)syscall(SYS_clock_nanosleep, c, fl, a, b);
  simSleep(a->tv_sec * 1000000000ll + a->tv_nsec);
  return 0;
}
int usleep(useconds_t u)
{
  if (!SIM) return REAL(usleep)(u);
  simSleep(u * 1000ll);
  return 0;
}
unsigned sleep(unsigned s)
{
  if (!SIM) return REAL(sleep)(s);
  simSleep(s * 1000000000ll);
  return 0;
}
// ---- identity, environment, randomness
pid_t getpid(void)
{
  if (!SIM) return (pid_t)syscall(SYS_getpid);
  return g_cur->spec.env.pid + g_cur->id;
}
// a generator with threads: each one runs to its end when it is started
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* arg)
{
  if (!SIM) return REAL(pthread_create)(t, at, f, arg);
  Gate g;
  {
    Host h;
    g = gate("thread");
  }
  if (g.err) return EAGAIN;
  *t = (pthread_t)0x7e57;
  f(arg);
  return 0;
}
int pthread_join(pthread_t t, void** r)
{
  if (!SIM) return REAL(pthread_join)(t, r);
  if (r) *r = nullptr;
  return 0;
}
int pthread_detach(pthread_t t) { return SIM ? 0 : REAL(pthread_detach)(t); }
// who and where: derived from the process id, which differs between the environments of G04
pid_t getppid(void) { return SIM ? g_cur->spec.env.pid / 2 + 1 : (pid_t)syscall(SYS_getppid); }
uid_t getuid(void) { return SIM ? 1000 + (uid_t)g_cur->spec.env.pid % 7 : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) { return SIM ? getuid() : (uid_t)syscall(SYS_geteuid); }
gid_t getgid(void) { return SIM ? 1000 + (gid_t)g_cur->spec.env.pid % 5 : (gid_t)syscall(SYS_getgid); }
gid_t getegid(void) { return SIM ? getgid() : (gid_t)syscall(SYS_getegid); }
mode_t umask(mode_t m) { return SIM ? 022 : (mode_t)syscall(SYS_umask, m); }
int uname(struct utsname* u)
{
  if (!SIM) return (int)syscall(SYS_uname, u);
  memset(u, 0, sizeof *u);
  strcpy(u->sysname, "Linux");
  snprintf(u->nodename, sizeof u->nodename, "build%d", g_cur->spec.env.pid % 97);
  snprintf(u->release, sizeof u->release, "6.%d.0", g_cur->spec.env.pid % 13);
  strcpy(u->version, "#1");
  strcpy(u->machine, "x86_64");
  return 0;
}
int gethostname(char* b, size_t n)
{
  struct utsname u;
  if (uname(&u)) return -1;
  if (!n) return fail(ENAMETOOLONG);
  snprintf(b, n, "%s", u.nodename);
  return 0;
}
char* getlogin(void)
{
  static char name[32];
  if (!SIM) return REAL(getlogin)();
  snprintf(name, sizeof name, "user%d", g_cur->spec.env.pid % 7);
  return name;
}
struct passwd* getpwuid(uid_t u)
{
  static struct passwd w;
  static char dir[40];
  if (!SIM) return REAL(getpwuid)(u);
  snprintf(dir, sizeof dir, "/home/%s", getlogin());
  w.pw_name = getlogin();
  w.pw_passwd = (char*)"x";
  w.pw_uid = u;
  w.pw_gid = getgid();
  w.pw_gecos = w.pw_name;
  w.pw_dir = dir;
  w.pw_shell = (char*)"/bin/sh";
  return &w;
}
clock_t clock(void)
{
  if (SIM) return (clock_t)((g_cur->now - g_cur->spec.env.now) / 1000);
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t);
  return (clock_t)(t.tv_sec * 1000000 + t.tv_nsec / 1000);
}
clock_t times(struct tms* t)
{
  if (!SIM) return (clock_t)syscall(SYS_times, t);
  memset(t, 0, sizeof *t);
  return (clock_t)(g_cur->now / 10000000);
}
char* getenv(const char* n)
{
  if (!SIM) return REAL(getenv)(n);
  Host h;
  auto& v = g_cur->spec.env.vars;
  auto i = v.find(n);
  return i == v.end() ? nullptr : (char*)i->second.c_str();
}
char* secure_getenv(const char* n)
{
  if (!SIM) return REAL(secure_getenv)(n);
  return getenv(n);
}
static uint32_t simRnd()
{
  g_cur->rnd = g_cur->rnd * 6364136223846793005ull + 1442695040888963407ull;
  return (uint32_t)(g_cur->rnd >> 33);
}
int rand(void)
{
  if (!SIM) return REAL(rand)();
  return (int)(simRnd() & 0x7fffffff);
}
void srand(unsigned s)
{
  if (!SIM) { REAL(srand)(s); return; }
  g_cur->rnd = s;
}
long random(void)
{
  if (!SIM) return REAL(random)();
  return (long)(simRnd() & 0x7fffffff);
}
uint32_t arc4random(void)
{
  if (!SIM) { uint32_t v; syscall(SYS_getrandom, &v, sizeof v, 0); return v; }
  return simRnd();
}
int getentropy(void* b, size_t n)
{
  if (!SIM) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1;
  for (size_t i = 0; i < n; i++) ((char*)b)[i] = (char)simRnd();
  return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned f)
{
  if (!SIM) return syscall(SYS_getrandom, b, n, f);
  getentropy(b, n);
  return (ssize_t)n;
}
// ---- locale: which decimal separator number parsing uses is simulated
char* setlocale(int cat, const char* name)
{
  if (!SIM) return REAL(setlocale)(cat, name);
  Host h;
  Proc* p = g_cur;
  if (!name) return (char*)p->locName.c_str();
  std::string n = name;
  if (n.empty())
  {
    for (auto k : {"LC_ALL", "LC_NUMERIC", "LANG"})
    {
      auto i = p->spec.env.vars.find(k);
      if (i != p->spec.env.vars.end() && !i->second.empty()) { n = i->second; break; }
    }
    if (n.empty()) n = "C";
  }
  if (n.compare(0, 5, "en_US") == 0 && !p->spec.env.enUsInstalled) return nullptr;
  if (cat == LC_ALL || cat == LC_NUMERIC) p->comma = n.compare(0, 2, "de") == 0 || n.compare(0, 2, "fr") == 0 || n.compare(0, 2, "ru") == 0;
  p->locName = n;
  return (char*)p->locName.c_str();
}
double strtod(const char* s, char** e)
{
  static auto f = (double (*)(const char*, char**))dlsym(RTLD_NEXT, "strtod");
  if (!SIM || !g_cur->comma) return f(s, e);
  // German decimal comma: '.' ends the number, ',' is the separator
  char b[512];
  size_t i = 0;
  for (; s[i] && i < sizeof b - 1; i++) b[i] = s[i] == ',' ? '.' : s[i] == '.' ? '\1' : s[i];
  b[i] = 0;
  char* q;
  double r = f(b, &q);
  if (e) *e = (char*)s + (q - b);
  return r;
}
double atof(const char* s) { return strtod(s, nullptr); }
// ---- end of life
int __cxa_atexit(void (*f)(void*), void* a, void* d)
{
  if (g_loading) { Copy* c = g_loading; g_loading = nullptr; c->atexits.push_back({f, a}); g_loading = c; return 0; }
  if (SIM) { Host h; g_cur->atexits.push_back({f, a}); return 0; }
  static auto r = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
  return r ? r(f, a, d) : 0;
}
static void runAtexit()
{
  Proc* p = g_cur;
  while (!p->atexits.empty())
  {
    auto e = p->atexits.back();
    { Host h; p->atexits.pop_back(); }
    e.first(e.second);
  }
  auto& v = p->copy->atexits;
  for (size_t i = v.size(); i-- > 0;) v[i].first(v[i].second);
}
void exit(int rc)
{
  if (SIM)
  {
    runAtexit();
    leave(Exit::ExitCall, rc & 0xff, "exit");
  }
  REAL(exit)(rc);
  __builtin_unreachable();
}
void _exit(int rc)
{
  if (SIM) leave(Exit::ExitCall, rc & 0xff, "_exit");
  syscall(SYS_exit_group, rc);
  __builtin_unreachable();
}
void _Exit(int rc) { _exit(rc); }
void quick_exit(int rc) noexcept { _exit(rc); }
void abort(void)
{
  if (SIM) leave(Exit::Abort, -1, "abort()");
  signal(SIGABRT, SIG_DFL);
  syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGABRT);
  _exit(134);
}
}  // extern "C"

// std::random_device: simulated entropy
unsigned int simRandomDevice(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned int simRandomDevice(void*) { return SIM ? simRnd() : 4; }

// ================================================================ scheduler
namespace
{
void onSignal(int sig, siginfo_t* si, void*)
{
  if (g_cur && g_jmpValid)
  {
    g_heap = nullptr;
    Proc* p = g_cur;
    p->done = true;
    p->res.finishedAt = (uint64_t)g_w->step;
    if (sig == SIGVTALRM)
    {
      p->res.how = Exit::Hang;
      p->res.note = "still busy after " + std::to_string(CPU_LIMIT_S) + " s of CPU time";
    }
    else
    {
      p->res.how = Exit::Signal;
      bool stack = si && (char*)si->si_addr >= p->stack - 65536 && (char*)si->si_addr < p->stack + 4096;
      p->res.note = sig == SIGSEGV ? (stack ? "stack overflow" : "SIGSEGV") : sig == SIGILL ? "bounds trap (SIGILL)" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "SIGBUS";
    }
    siglongjmp(g_jmp, 1);
  }
  signal(sig, SIG_DFL);
  syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), sig);
}
int callMain(Proc* p) noexcept
{
  return p->copy->main((int)p->argv.size() - 1, p->argv.data());
}
void entry()
{
  Proc* p = g_cur;
  errno = 0;
  g_heap = p;
  int rc = callMain(p);
  runAtexit();
  leave(Exit::Returned, rc & 0xff, "main returned");
}
void restore(Copy& c)
{
  for (auto& s : c.segs) memcpy(s.p, s.snap.data(), s.n);
  memcpy(c.loader, c.loaderSnap.data(), c.loaderUsed);
}
int phdrCb(struct dl_phdr_info* i, size_t, void* v)
{
  auto a = (std::pair<Copy*, std::string>*)v;
  if (!i->dlpi_name || a->second != i->dlpi_name) return 0;
  uintptr_t rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
    {
      rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      rhi = (rlo + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul;
    }
  for (int k = 0; k < i->dlpi_phnum; k++)
  {
    auto& h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
    if (rhi > lo && rlo <= lo) lo = std::min(rhi, hi);
    if (lo < hi) a->first->segs.push_back({(char*)lo, hi - lo, std::string((char*)lo, hi - lo)});
  }
  return 1;
}
ConBuf g_conOut(1), g_conErr(2);
}  // namespace

void simos::init(const std::string& so, const std::string& scratch, int n)
{
  // console routers
  static bool once = false;
  if (!once)
  {
    once = true;
    std::cout.rdbuf(&g_conOut);
    std::cerr.rdbuf(&g_conErr);
    std::clog.rdbuf(&g_conErr);
    cookie_io_functions_t io = {nullptr, rtWrite, nullptr, nullptr};
    stdout = fopencookie((void*)1, "w", io);
    stderr = fopencookie((void*)2, "w", io);
    setvbuf(stdout, nullptr, _IONBF, 0);
    setvbuf(stderr, nullptr, _IONBF, 0);
    // library caches that live for the whole program belong to the host heap
    std::ostringstream os;
    os << std::fixed << std::setprecision(3) << 1.5 << ' ' << 12345 << std::hex << 77 << true;
    std::time_t t = 0;
    std::tm tm{};
    gmtime_r(&t, &tm);
    os << std::put_time(&tm, "%Y.%m.%d %H:%M:%S %c %x %b %A");
    std::istringstream is("12 3.5 x");
    int a; double d; std::string s;
    is >> a >> d >> s;
    std::ostringstream ow;
    ow.imbue(std::locale::classic());
    ow << 2.25;
    (void)std::regex_search(os.str(), std::regex("[a-z]+\\s*(\\d+)"));
    try { throw std::runtime_error("warm"); } catch (std::exception&) {}
  }
  for (int i = 0; i < n; i++)
  {
    g_copies.emplace_back();
  }
  for (int i = 0; i < n; i++)
  {
    Copy& c = g_copies[i];
    std::string p = scratch + "/coder." + std::to_string(i) + ".so";
    if (!writeFile(p, readFile(so))) throw std::runtime_error("cannot write " + p);
    c.loader = (char*)mmap(nullptr, LOADER, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_loading = &c;
    c.handle = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    g_loading = nullptr;
    if (!c.handle) throw std::runtime_error(std::string("dlopen: ") + dlerror());
    c.main = (int (*)(int, char**))dlsym(c.handle, "main");
    if (!c.main) throw std::runtime_error("no main in the generator");
    std::pair<Copy*, std::string> a{&c, p};
    dl_iterate_phdr(phdrCb, &a);
    c.loaderSnap.assign(c.loader, c.loaderUsed);
    auto q = new Proc;
    q->stack = (char*)mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(q->stack, 4096, PROT_NONE);
    q->arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_slots.push_back(q);
  }
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
int simos::copies() { return (int)g_copies.size(); }

WorldResult simos::run(Vfs& fs, const WorldSpec& spec, bool keep)
{
  MAX_STEPS = 200000;
  for (auto& e : fs.n) MAX_STEPS += 8 * (int64_t)e.second->data.size();   // byte-wise reads of long files
  WorldResult res;
  World w;
  w.fs = &fs;
  w.spec = &spec;
  w.res = &res;
  w.keep = keep;
  w.host = spec.host;
  std::stable_sort(w.host.begin(), w.host.end(), [](const HostAct& a, const HostAct& b) { return a.step < b.step; });
  w.sched = spec.sched;
  std::stable_sort(w.sched.begin(), w.sched.end(), [](const Switch& a, const Switch& b) { return a.step < b.step; });
  if (spec.procs.size() > g_slots.size()) throw std::runtime_error("too many simulated processes");
  for (size_t i = 0; i < spec.procs.size(); i++)
  {
    Proc* slot = g_slots[i];
    char *st = slot->stack, *ar = slot->arena;
    size_t usedLo = slot->lo, usedHi = slot->hi;
    *slot = Proc();
    slot->stack = st;
    slot->arena = ar;
    if (usedLo > (64u << 20)) madvise(ar, usedLo, MADV_DONTNEED);
    if (ARENA - usedHi > (64u << 20)) madvise(ar + (usedHi & ~4095ul), ARENA - (usedHi & ~4095ul), MADV_DONTNEED);
    slot->id = (int)i;
    slot->spec = spec.procs[i];
    slot->copy = &g_copies[i];
    slot->now = slot->spec.env.now;
    slot->cwd = slot->spec.env.cwd;
    slot->rnd = (uint64_t)slot->spec.env.pid * 77 + (uint64_t)slot->spec.env.now;
    for (auto& f : spec.faults)
    {
      if (f.proc != (int)i) continue;
      if (f.cls != "alloc") { slot->faults.push_back(f); continue; }
      if (slot->allocHit < 0 || f.nth < slot->allocHit) slot->allocHit = f.nth;
      slot->allocSet.insert(f.nth);
      if (f.sticky) slot->allocSticky = true;
    }
    slot->argvStore = slot->spec.argv;
    for (auto& a : slot->argvStore) slot->argv.push_back(&a[0]);
    slot->argv.push_back(nullptr);
    restore(*slot->copy);
    size_t fillN = 256u << 10;
    memset(slot->stack + STACK + 8192 - fillN, slot->spec.env.fill, fillN);
    w.procs.push_back(slot);
  }
  g_w = &w;
  std::cout.clear();
  std::cerr.clear();
  std::cout.copyfmt(std::ios(nullptr));
  std::cerr.copyfmt(std::ios(nullptr));
  std::cout.clear();
  std::cerr.clear();
  auto host_eh = (uint64_t*)abi::__cxa_get_globals();
  uint64_t saveEh[2] = {host_eh[0], host_eh[1]};
  struct itimerval tv{};
  tv.it_value.tv_sec = CPU_LIMIT_S;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);

  volatile int at = 0;
  while (!w.stop)
  {
    int nx = -1;
    if (w.want >= 0 && !w.procs[w.want]->done) nx = w.want;
    w.want = -1;
    if (nx < 0 && at < (int)w.procs.size() && !w.procs[at]->done) nx = at;
    if (nx < 0) for (size_t i = 0; i < w.procs.size(); i++) if (!w.procs[i]->done) { nx = (int)i; break; }
    if (nx < 0) break;
    at = nx;
    Proc* p = w.procs[nx];
    g_cur = p;
    if (sigsetjmp(g_jmp, 0) == 0)
    {
      g_jmpValid = true;
      if (!p->started)
      {
        p->started = true;
        p->res.startedAt = (uint64_t)w.step;
        getcontext(&p->ctx);
        p->ctx.uc_stack.ss_sp = p->stack + 4096;
        p->ctx.uc_stack.ss_size = STACK;
        p->ctx.uc_link = nullptr;
        makecontext(&p->ctx, entry, 0);
      }
      auto eh = (uint64_t*)abi::__cxa_get_globals();
      eh[0] = p->eh[0];
      eh[1] = p->eh[1];
      // leave() jumps back with setcontext(&g_main); returning here a second time is the same as a yield
      swapcontext(&g_main, &p->ctx);
    }
    g_jmpValid = false;
    g_heap = nullptr;
    g_cur = nullptr;
  }
  tv.it_value.tv_sec = 0;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  host_eh = (uint64_t*)abi::__cxa_get_globals();
  host_eh[0] = saveEh[0];
  host_eh[1] = saveEh[1];
  for (auto* p : w.procs)
  {
    if (!p->done)
    {
      p->res.how = Exit::Killed;
      p->res.note = "power";
      p->done = true;
    }
    arenaCheck(p);
    for (auto& f : p->files) REAL(fclose)(f.first);
    for (auto* c : p->cookies) delete c;
    for (auto* d : p->dirs) delete d;
    p->files.clear();
    p->cookies.clear();
    p->dirs.clear();
    p->res.calls["sys"] = p->sys;
    p->res.calls["alloc"] = p->allocs;
    for (auto& e : p->sites) for (int64_t k : e.second) if (k >= 0) p->res.sites.push_back(k);
    w.trace.str(exitName(p->res.how));
    w.trace.u64((uint64_t)p->res.rc);
    w.trace.str(p->res.out);
    w.trace.str(p->res.err);
    res.p.push_back(p->res);
  }
  g_w = nullptr;
  res.steps = w.step;
  res.simNs = w.ns;
  w.trace.u64(fs.hash());
  res.trace = w.trace.h;
  return res;
}

void simos::warmup(const std::string& dbc)
{
  Vfs fs;
  fs.put("/w/a.dbc", dbc);
  fs.mkdirs("/w/out");
  for (auto& c : g_copies)
  {
    (void)c;
  }
  WorldSpec s;
  for (size_t i = 0; i < g_copies.size(); i++)
  {
    ProcSpec p;
    p.argv = {"coderdbc", "-dbc", "/w/a.dbc", "-out", "/w/out", "-drvname", "warm" + std::to_string(i), "-rw", "-gendate", "-nodeutils"};
    s.procs.push_back(p);
  }
  run(fs, s);
}
