// Driver of the simulator: seeded search, replay and minimisation.
#include "cc.h"
#include "harness.h"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>

static std::map<std::string, std::string> g_arg;
static std::string arg(const std::string& k, const std::string& d = "") { auto i = g_arg.find(k); return i == g_arg.end() ? d : i->second; }
static Check* checkFor(const std::string& prop) { return prop[0] == 'G' ? genCheck() : busCheck(); }
static Json verdict(const Outcome& o, bool log)
{
  Json j = Json::object();
  j.set("class", o.cls).set("detail", o.detail).set("trace", hex64(o.trace));
  if (log) j.set("log", Json::from(o.log));
  return j;
}
static int doRun()
{
  std::string prop = arg("prop");
  uint64_t seed = strtoull(arg("seed", "1").c_str(), nullptr, 10);
  uint64_t shard = strtoull(arg("shard", "0").c_str(), nullptr, 10), shards = strtoull(arg("shards", "1").c_str(), nullptr, 10);
  uint64_t n = strtoull(arg("cases", "8").c_str(), nullptr, 10), from = strtoull(arg("from", "0").c_str(), nullptr, 10);
  uint64_t least = strtoull(arg("least", "0").c_str(), nullptr, 10);
  double deadline = atof(arg("deadline", "60").c_str());
  bool thorough = arg("thorough") == "1", roundtrip = arg("roundtrip") == "1";
  int pf = (int)syscall(SYS_openat, AT_FDCWD, (arg("out") + ".progress").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  std::string skip = arg("skip-classes");
  Stats st;
  Check* c = checkFor(prop);
  double t0 = monotonic();
  Json viol;
  bool found = false;
  uint64_t done = 0, last = 0;
  std::vector<uint64_t> idx;
  if (!arg("only").empty())
  {
    for (const char* q = arg("only").c_str(); *q;) { char* e; idx.push_back(strtoull(q, &e, 10)); q = *e ? e + 1 : e; }
  }
  else for (uint64_t i = from + shard; i < n; i += shards) idx.push_back(i);
  std::string digest;
  Json known = Json::array();
  if (!arg("known").empty()) known = Json::parse(readFile(arg("known")));
  for (uint64_t i : idx)
  {
    if (found) break;
    // a loaded machine gets more time for a minimum of work
    double el = monotonic() - t0;
    if (el > deadline && (done >= least || el > deadline * 6)) break;
    std::string s = std::to_string(i) + "\n";
    syscall(SYS_pwrite64, pf, s.data(), s.size(), 0);
    last = i;
    Hash dg;
    c->cases(seed, i, prop, thorough, st, [&](const Json& plan, const Outcome& first)
    {
      // recheck: the plan as it would be read from a replay file
      const Outcome o = roundtrip ? c->execute(Json::parse(plan.dump()), st, false) : first;
      dg.u64(o.trace);
      dg.str(o.cls);
      if (!o.bad()) return true;
      for (auto& k : known.a)
        if (k.str("class") == o.cls && o.detail.find(k.str("match")) != std::string::npos) { st.outcomes["known: " + k.str("text")]++; return true; }
      if (!skip.empty() && ("," + skip + ",").find("," + o.cls + ",") != std::string::npos) { st.outcomes["skipped " + o.cls]++; return true; }
      found = true;
      viol = Json::object();
      viol.set("index", i).set("class", o.cls).set("detail", o.detail).set("trace", hex64(o.trace)).set("plan", plan);
      return false;
    });
    done++;
    digest += std::to_string(i) + " " + hex64(dg.h) + "\n";
  }
  Json r = Json::object();
  r.set("cases", done).set("lastIndex", last).set("seconds", fmt("%.2f", monotonic() - t0)).set("stats", st.json());
  std::string tb;
  for (auto* set : {&st.traces, &st.nontrivial})
  {
    uint64_t k = set->size();
    tb.append((char*)&k, 8);
    for (uint64_t v : *set) tb.append((char*)&v, 8);
  }
  writeFile(arg("out") + ".traces", tb);
  writeFile(arg("out") + ".digest", digest);
  if (found) r.set("violation", viol);
  if (!writeFile(arg("out"), r.dump())) return 3;
  return found ? 1 : 0;
}
static int doReplay()
{
  bool ok = false;
  std::string t = readFile(arg("file"), &ok);
  if (!ok) { fprintf(stderr, "cannot read %s\n", arg("file").c_str()); return 3; }
  Json j = Json::parse(t);
  const Json& plan = j.has("plan") ? j.at("plan") : j;
  Stats st;
  bool log = arg("log") == "1";
  Outcome o = checkFor(plan.str("prop"))->execute(plan, st, log);
  std::string s = verdict(o, log).dump() + "\n";
  if (!arg("out").empty()) writeFile(arg("out"), s); else syscall(SYS_write, 1, s.data(), s.size());
  return o.bad() ? 1 : 0;
}
static int doShrink()
{
  Json j = Json::parse(readFile(arg("file")));
  Json plan = j.has("plan") ? j.at("plan") : j;
  Check* c = checkFor(plan.str("prop"));
  Stats st;
  double t0 = monotonic(), lim = atof(arg("deadline", "60").c_str());
  Outcome o = c->execute(plan, st, false);
  int tried = 0, kept = 0;
  if (o.bad())
  {
    bool again = true;
    while (again && monotonic() - t0 < lim)
    {
      again = false;
      for (auto& q : c->shrinks(plan))
      {
        if (monotonic() - t0 > lim) break;
        tried++;
        Outcome p;
        try { p = c->execute(q, st, false); } catch (std::exception&) { continue; }
        if (p.bad() && p.cls == o.cls) { plan = q; o = p; again = true; kept++; break; }
      }
    }
  }
  Outcome f = c->execute(plan, st, true);
  Json r = Json::object();
  r.set("class", f.cls).set("detail", f.detail).set("trace", hex64(f.trace)).set("tried", tried).set("kept", kept).set("plan", plan).set("log", Json::from(f.log));
  writeFile(arg("outfile"), r.dump(1));
  return f.bad() ? 1 : 0;
}
int main(int argc, char** argv)
{
  // addresses must not differ between processes
  if (argc > 1 && !getenv("SIM_NOASLR"))
  {
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0)
    {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) g_arg[std::string(argv[i]).substr(2)] = argv[i + 1];
  g_scratch = arg("scratch", "/tmp");
  try
  {
    simos::init(arg("coder"), g_scratch, 4);
    simos::warmup("VERSION \"1.2\"\nBU_: A B\nBO_ 100 M1: 8 A\n SG_ S1 : 0|8@1+ (0.1,0) [0|25] \"x\" B\n SG_ S2 : 8|16@0- (1,0) [0|25] \"x\" B\n");
    // no static destructors: the copies of the generator stay as they are
    if (mode == "run") syscall(SYS_exit_group, doRun());
    if (mode == "replay") syscall(SYS_exit_group, doReplay());
    if (mode == "shrink") syscall(SYS_exit_group, doShrink());
  }
  catch (std::exception& e)
  {
    std::string s = std::string("simulator error: ") + e.what() + "\n";
    syscall(SYS_write, 2, s.data(), s.size());
    return 3;
  }
  return 3;
}
