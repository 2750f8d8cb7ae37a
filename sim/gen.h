// Plans for the generator side: what runs, on which file system, under which faults and schedule.
#pragma once
#include "harness.h"

struct Opt
{
  std::string dbc = "/home/user/db/net.dbc", out = "/home/user/gen", drv = "drv";
  bool rw = true, nodeutils = false, gendate = false, noconfig = false, noinc = false, nofmon = false, driverdir = false;
  uint64_t ord = 0;                       // argument order
  bool useRaw = false;
  std::vector<std::string> raw;           // complete argument list instead
  std::vector<std::string> argv() const;
  Json json() const;
  static Opt from(const Json& j);
  std::string root(const std::string& cwd) const;   // absolute output root (without NNN)
};
struct Src                                // a DBC: from a matrix or as text
{
  bool isText = false;
  Matrix m;
  std::string text;
  std::string dbc() const { return isText ? text : m.dbc(); }
  Json json() const;
  static Src from(const Json& j);
};
struct FsItem { std::string path, data; char kind = 'f'; int mode = -1; };   // f d l
struct Step
{
  std::vector<Opt> opt;
  std::vector<simos::Env> env;
  std::vector<simos::Fault> faults;
  std::vector<simos::HostAct> host;       // op "replace" with data "@k": the text of source k
  std::vector<simos::Switch> sched;
  int dbc = -1;                           // source installed at every opt.dbc before the run
  long capacity = -1;
  bool power = false;                     // power fails at the end of this step
  uint64_t powerSeed = 0;
};
struct Plan
{
  std::string prop;
  std::vector<Src> src;
  std::vector<FsItem> init;
  std::vector<Step> steps;
  Json x = Json::object();
  Json json() const;
  static Plan from(const Json& j);
};
struct StepOut
{
  simos::Vfs before, after;
  simos::WorldResult w;
};
// files (relative to the output root) the options call for
std::vector<std::string> expectedFiles(const Matrix& m, const Opt& o);
// run the real generator once on this matrix, no faults; returns files relative to the output root, empty when it failed
std::map<std::string, std::string> generateOnce(const std::string& dbc, const Opt& o, std::string& why);
std::string utilName(const std::string& node, const std::string& drv);
