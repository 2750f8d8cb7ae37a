// Driver side: fleets of nodes built from generated drivers on a simulated CAN bus.
#pragma once
#include "harness.h"
#include <csetjmp>

// ---- what every compiled driver exposes to the simulator (see glueText)
struct SimHost
{
  uint32_t (*tick)();
  uint32_t (*hash)(const uint8_t* d, int len, uint32_t id, int method, int op);
  void (*mon)(void* mon, uint32_t id, int drv, int which);    // which: message index, -1 for the shared function
  void (*access)(const void* p, int write);
};
struct SimMsg
{
  long canid, dlc, ide, cyc;                                  // cyc -1: no such constant
  unsigned size;                                              // 0: message without signals
  long mon;                                                   // offset of mon1, -1: none
  long long (*get)(const void*, int);
  void (*set)(void*, int, long long);
  long double (*getp)(const void*, int);
  void (*setp)(void*, int, long double);
  long long (*expt)(const void*);
  int (*named)(void*, int sig, int entry, int what);           // value table constants: 0 there?, 1 store, 2 compare
  int (*conv)(void*, int sig, int what, long double v, long double* r);  // conversion macros: 0 stored raw to physical, 1 physical to stored raw; size of the result's type, 0: no such macro
  uint32_t (*pack)(void* m, uint8_t* box, uint8_t** data, uint8_t* len, uint8_t* ide, uint32_t* id);
  uint32_t (*unpack)(void* m, const uint8_t* d, uint8_t dlc);
};
struct SimUtil
{
  const char* name;
  unsigned rxSize, txSize;
  const long* rxOff;                                          // per message, -1: not a member
  const long* txOff;
  uint32_t (*receive)(void* rx, const uint8_t* d, uint32_t id, uint8_t dlc);
  void* rxGlobal;
  void* txGlobal;
};
struct SimDrv
{
  int nmsg, nutil;
  const SimMsg* msg;
  const SimUtil* util;
  void (*monGet)(const void* mon, unsigned* v);                // last_cycle timeout_cycle frame_cnt roll csm cycle dlc
  void (*monSet)(void* mon, const unsigned* v);
};

struct DrvOpt { bool bits = false, mon = false, mono = false, flt = false, str = false, roll = false, csm = false; int init = -1; bool f32 = false, maxdlc = false; };
struct Cfg
{
  int opt = 0;                        // compiler optimisation level
  bool ext64 = true, def = false, tsan = false, stubs = false;
  bool notick = false, nohash = false;     // the user provides no tick or no hash: the documented defaults of the driver (0) are used
  bool own = false;                   // dbccodeconf.h is the generated one with the user's lines added
  bool cross = false;                 // the drivers' headers meet in one compilation unit
  std::string lang = "gnu11";         // dialect of C
  bool clang = false;                 // compiler: gcc or clang
  bool trap = false;                  // undefined behaviour traps
  std::vector<DrvOpt> per;            // one per driver
};
struct DrvSrc { Matrix m; bool nodeutils = true; };
struct NodeCfg { int d = 0, c = 0; std::string name; };
struct BusPlan
{
  std::string prop;
  std::vector<DrvSrc> drv;
  std::vector<Cfg> cfg;
  std::vector<NodeCfg> node;
  Json ops = Json::array();
  Json json() const;
  static BusPlan from(const Json& j);
};
struct Fleet
{
  uint64_t key = 0;
  std::string cls, detail;            // build failure
  std::vector<void*> handles;
  std::vector<std::vector<const SimDrv*>> api;   // [cfg][drv]
  std::vector<void (*)(const SimHost*)> init;
  ~Fleet();
};
