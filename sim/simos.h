// SimOS: the operating system seen by a simulated coderdbc process.
// Real code: everything under /repo/src (except tests), libstdc++.  Simulated: file system, clock, time zone,
// locale, environment, heap, process life cycle and scheduling.
#pragma once
#include "util.h"
#include <functional>
#include <set>

namespace simos
{
struct Inode
{
  enum T { File, Dir, Link } type = File;
  int mode = 0644;
  std::string data;   // file bytes or link target
  int64_t mtime = 0;  // ns since epoch
  uint64_t id = 0;    // inode number
  bool synced = false;
  std::string syncedData;
};
using InodeP = std::shared_ptr<Inode>;

// Flat in-memory file system: absolute normalised path -> inode
struct Vfs
{
  std::map<std::string, InodeP> n;
  long capacity = -1;         // bytes left on the device, -1: unlimited
  Vfs();
  Vfs clone() const;
  void mkdirs(const std::string& p, int mode = 0755);
  void put(const std::string& p, const std::string& data, int mode = 0644);
  void link(const std::string& p, const std::string& target);
  void erase(const std::string& p);             // recursively
  bool isFile(const std::string& p) const;
  bool isDir(const std::string& p) const;
  const std::string* data(const std::string& p) const;
  std::vector<std::string> under(const std::string& dir) const;  // everything strictly below
  // regular files below dir: relative path -> bytes
  std::map<std::string, std::string> tree(const std::string& dir, bool dirsToo = false) const;
  // path resolution; returns 0 or errno, `out` the final absolute path (may not exist), follows links unless last && !follow
  int resolve(const std::string& cwd, const std::string& p, bool follow, std::string& out) const;
  uint64_t hash() const;
};

// One fault: applied at the nth call (0-based) of a class by a process
struct Fault
{
  int proc = 0;
  std::string cls;            // stat open read write close seek mkdir alloc time localtime sys ...
  int64_t nth = 0;
  std::string kind;           // err short eintr kill torn power jump null
  int64_t arg = 0;            // errno, byte count, seed or delta (ns)
  bool sticky = false;        // applies to every call from nth on
  Json json() const;
  static Fault from(const Json& j);
};
// Something other users of the machine do, at a global step
struct HostAct
{
  int64_t step = 0;
  std::string op;             // replace remove put mkdir chmod
  std::string path, data;
  Json json() const;
  static HostAct from(const Json& j);
};
struct Switch { int64_t step; int proc; };

struct Env
{
  int64_t now = 1700000000000000000ll;  // ns since epoch
  int tzOffset = 0;                     // minutes
  std::string tzName = "UTC";
  std::map<std::string, std::string> vars;
  bool enUsInstalled = true;            // whether en_US.UTF-8 exists on the simulated machine
  int pid = 4242;
  std::string cwd = "/home/user";
  int fill = 0xA5;                      // heap / stack fill
  bool descending = false;              // heap growth direction
  int chunk = 0;                        // >0: every read returns at most this many bytes
  int wchunk = 0;                       // >0: every write takes at most this many bytes
  int eintr = 0;                        // >0: every k-th read/write is interrupted first
  Json json() const;
  static Env from(const Json& j);
};

extern bool g_recordSites;
enum class Exit { None, Returned, ExitCall, Abort, Signal, Killed, Hang, Trap };
const char* exitName(Exit e);

struct ProcSpec
{
  std::vector<std::string> argv;
  Env env;
};
struct Mut { int proc; std::string op, path; };

struct ProcResult
{
  Exit how = Exit::None;
  int rc = -1;
  std::string out, err, note;           // note: what ended it, memory errors
  std::map<std::string, int64_t> calls; // calls per class
  std::vector<int64_t> sites;           // numbers of the first, second and last allocation of every call site (on request)
  int64_t steps = 0;
  std::vector<std::string> memErrors;
  uint64_t finishedAt = 0;              // global step of the end
  uint64_t startedAt = 0;
  bool completed() const;               // completion line printed
  bool success() const { return how == Exit::Returned || how == Exit::ExitCall ? rc == 0 && completed() : false; }
  bool clean() const { return how == Exit::Returned || how == Exit::ExitCall; }
};
struct WorldSpec
{
  std::vector<ProcSpec> procs;
  std::vector<Fault> faults;
  std::vector<HostAct> host;
  std::vector<Switch> sched;
  bool stopOnKill = false;              // power loss ends the world for everybody
};
struct WorldResult
{
  std::vector<ProcResult> p;
  std::vector<Mut> muts;
  std::vector<Switch> taken;            // context switches that happened
  std::map<std::string, int64_t> fired; // fault kind -> times it took effect
  int64_t steps = 0;
  int64_t simNs = 0;
  uint64_t trace = 0;                   // hash of the full event trace
  std::vector<std::string> log;         // readable event log (only when asked for)
};

void init(const std::string& coderSo, const std::string& scratch, int copies);
int copies();
WorldResult run(Vfs& fs, const WorldSpec& w, bool keepLog = false);
// what a power loss leaves of `now`, given the durable state `before`
Vfs powerLoss(const Vfs& before, const Vfs& now, uint64_t seed);
void warmup(const std::string& dbc);
}
