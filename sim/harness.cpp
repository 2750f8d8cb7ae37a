#include "harness.h"

std::string g_scratch;

Json Stats::json() const
{
  Json j = Json::object();
  j.set("plans", plans).set("runs", runs).set("simNs", simNs).set("steps", steps).set("distinct", (int64_t)traces.size()).set("nontrivial", (int64_t)nontrivial.size());
  auto mp = [](const std::map<std::string, int64_t>& m) { Json o = Json::object(); for (auto& e : m) o.set(e.first, e.second); return o; };
  j.set("fired", mp(fired)).set("outcomes", mp(outcomes)).set("probes", mp(probes));
  Json s = Json::array();
  for (auto& e : samples) s.push(e);
  return j.set("samples", s);
}
Json* walk(Json& j, const std::vector<std::string>& path)
{
  Json* p = &j;
  for (auto& k : path)
  {
    Json* q = nullptr;
    if (p->kind == Json::Arr) { size_t i = (size_t)atol(k.c_str()); if (i < p->a.size()) q = &p->a[i]; }
    else for (auto& e : p->o) if (e.first == k) q = &e.second;
    if (!q) return nullptr;
    p = q;
  }
  return p;
}
std::vector<Json> dropChunks(const Json& plan, const std::vector<std::string>& path)
{
  std::vector<Json> r;
  Json base = plan;
  Json* a = walk(base, path);
  if (!a || a->kind != Json::Arr || a->a.empty()) return r;
  size_t n = a->a.size();
  for (size_t chunk = n; chunk >= 1; chunk /= 2)
  {
    for (size_t at = 0; at < n; at += chunk)
    {
      Json c = plan;
      Json* b = walk(c, path);
      b->a.erase(b->a.begin() + (long)at, b->a.begin() + (long)std::min(n, at + chunk));
      r.push_back(c);
    }
    if (r.size() > 600) break;
  }
  return r;
}
void addSample(Stats& st, const Json& plan)
{
  if (st.samples.size() >= 2 || (st.plans != 1 && st.plans % 37 != 5)) return;
  std::string t = plan.dump();
  if (t.size() < 4000) st.samples.push_back(plan);
  else st.samples.push_back(Json(t.substr(0, 2500) + " ... (" + std::to_string(t.size()) + " bytes)"));
}
