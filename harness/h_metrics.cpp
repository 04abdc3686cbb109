// C14: the metrics page is well-formed text with every sample once.
#include "kse.h"
#include <string>
#include <map>
#include <vector>
#include <memory>
#include <cstring>
#include <kio/metrics/registry.h>
#include <kio/metrics/serializer.h>
using namespace kio;
extern "C" uint64_t kse_parse_double(const char* p, size_t n);
struct Label { std::string key, val; };
struct Sample { std::vector<Label> labels; uint64_t value; bool seen = false; };
struct Family { std::string name, help; MetricType type; std::vector<Sample> samples; bool seen = false; };
static std::vector<Family> want;
static bool eq(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
static bool keyChar(char c, bool first) { return (unsigned)((c | 32) - 'a') < 26 || c == '_' || (!first && (unsigned)(c - '0') < 10); }
static bool validKey(const std::string& k) { for (size_t i = 0; i < k.size(); i++) if (!keyChar(k[i], i == 0)) return false; return !k.empty(); }
static bool isNan(uint64_t v) { return (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
// Reads the page as a scraper would, by the text format's own rules.
static void judge(const std::string& page) {
  size_t p = 0, n = page.size(); int cur = -1; bool help = false, type = false;
  auto at = [&](const char* w) { size_t l = strlen(w); if (n - p < l) return false; for (size_t i = 0; i < l; i++) if (page[p + i] != w[i]) return false; return true; };
  auto name = [&](const char* stops) { std::string r; while (p < n && !strchr(stops, page[p])) { kse_assert(keyChar(page[p], r.empty()) || page[p] == ':', "a metric name"); r += page[p++]; } kse_assert(p < n, "the line goes on after the name"); return r; };
  auto find = [&](const std::string& f) { for (size_t i = 0; i < want.size(); i++) if (want[i].name == f) return (int)i; return -1; };
  kse_assert(n == 0 || page[n - 1] == '\n', "the page ends with a line feed");
  while (p < n) {
    if (page[p] == '\n') { p++; continue; }
    if (at("# HELP ")) { p += 7; int f = find(name(" \n")); kse_assert(f >= 0 && !want[f].seen, "each family has one help line"); want[f].seen = true; cur = f; help = true; type = false; std::string t; kse_assert(page[p] == ' ', "help text follows"); p++;
      while (page[p] != '\n') { if (page[p] == '\\') { p++; kse_assert(page[p] == '\\' || page[p] == 'n', "a known escape in the help text"); t += page[p] == 'n' ? '\n' : '\\'; p++; } else t += page[p++]; }
      p++; kse_assert(eq(t, want[f].help), "the help text is the family's"); kse_reach("help"); continue; }
    if (at("# TYPE ")) { p += 7; int f = find(name(" \n")); kse_assert(f >= 0 && f == cur && help && !type, "the type follows the family's help"); type = true; kse_assert(page[p] == ' ', "a type follows"); p++; const char* w = want[f].type == MetricType::Counter ? "counter\n" : "gauge\n"; kse_assert(at(w), "the type is the family's"); p += strlen(w); continue; }
    kse_assert(page[p] != '#', "no other comments");
    int f = find(name("{ \n")); kse_assert(f >= 0 && f == cur && type, "samples follow their family's help and type");
    std::vector<Label> ls;
    if (page[p] == '{') { p++; while (page[p] != '}') {
      Label l; while (page[p] != '=') { kse_assert(keyChar(page[p], l.key.empty()), "a label name"); l.key += page[p++]; } p++; kse_assert(!l.key.empty() && page[p] == '"', "a quoted label value"); p++;
      while (page[p] != '"') { kse_assert(page[p] != '\n', "a label value does not end the line"); if (page[p] == '\\') { p++; kse_assert(page[p] == '\\' || page[p] == '"' || page[p] == 'n', "a known escape in a label value"); l.val += page[p] == 'n' ? '\n' : page[p]; p++; } else l.val += page[p++]; }
      p++; ls.push_back(std::move(l)); if (page[p] == ',') { p++; kse_assert(page[p] != '}', "a label follows the comma"); } else kse_assert(page[p] == '}', "labels are separated by commas"); } p++; }
    kse_assert(page[p] == ' ', "a value follows"); p++; size_t b = p; while (page[p] != '\n') p++; uint64_t v = kse_parse_double(page.data() + b, p - b); p++;
    Sample* s = nullptr; for (auto& x : want[f].samples) if (!x.seen && (x.value == v || (isNan(x.value) && isNan(v)))) { s = &x; break; }
    kse_assert(s != nullptr, "each line is one of the family's samples, with its exact value"); s->seen = true;
    kse_assert(ls.size() == s->labels.size(), "the sample has its labels"); kse_reach("sample");
    for (auto& l : ls) { Label* m = nullptr; for (auto& e : s->labels) { bool same = validKey(e.key) ? e.key == l.key : e.key.size() == l.key.size(); if (same) { m = &e; break; } } kse_assert(m != nullptr, "a label is the sample's"); kse_assert(eq(l.val, m->val), "the label value is the sample's"); kse_reach("label"); } }
  for (auto& f : want) { kse_assert(f.seen, "every family is on the page"); for (auto& s : f.samples) kse_assert(s.seen, "every sample is on the page"); } }
static std::string sym(size_t n, const char* what) { std::string r(n, 0); for (auto& c : r) c = (char)kse_u8(what); return r; }
static uint64_t bitsOf(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static Family& wanted(const char* n, const std::string& h, MetricType t) { for (auto& f : want) if (f.name == n) return f; want.push_back({n, h, t, {}, false}); return want.back(); }
static void add(MetricFamily& f, Family& w, std::vector<Label> ls, double v, bool kept = true) { std::map<std::string, std::string> m; for (auto& l : ls) m[l.key] = l.val; f.Add(std::move(m), v); if (kept) w.samples.push_back({std::move(ls), bitsOf(v), false}); }
struct Src final : IMetricsCollector { int id; std::string val; int calls = 0; Src(int i, std::string v) : id(i), val(std::move(v)) {}
  void Collect(MetricSnapshot& s) override { calls++; auto& a = s.BuildFamily("kio_a_total", "A", MetricType::Counter); auto& b = s.BuildFamily("kio_b", "B", MetricType::Gauge); a.Add({{"worker_id", std::to_string(id)}, {"x", val}}, id + 0.5); b.Add({{"worker_id", std::to_string(id)}}, 1000000.0 + id); } };
static const double LIST[] = {0.0, -0.0, 1.0, -1.5, 0.1, 1e21, 123456789.0, 9007199254740993.0, 1e-300, 1.0 / 3.0, 16777217.0, 1234567.25, 4294967296.5, 1.7976931348623157e308, 5e-324};
void harness() {
  int mode = kse_param("mode", 0); size_t len = kse_param("len", 2); want.clear(); want.reserve(4); PrometheusTextSerializer ser;
  if (mode == 4) {
    int n = (int)kse_choose(1, 2, "collectors"); auto& reg = MetricsRegistry<>::Instance(); std::string v = sym(kse_choose(0, len, "len"), "label"); std::shared_ptr<Src> src[2];
    for (int i = 0; i < n; i++) { src[i] = std::make_shared<Src>(i, v); reg.Register(src[i]); auto& a = wanted("kio_a_total", "A", MetricType::Counter); a.samples.push_back({{{"worker_id", std::to_string(i)}, {"x", v}}, bitsOf(i + 0.5), false}); auto& b = wanted("kio_b", "B", MetricType::Gauge); b.samples.push_back({{{"worker_id", std::to_string(i)}}, bitsOf(1000000.0 + i), false}); }
    std::string one = reg.Scrape(), two = reg.Scrape(); for (int i = 0; i < n; i++) kse_assert(src[i]->calls == 2, "every collector is asked once per page"); kse_assert(eq(one, two), "the same sources give the same page"); judge(one); kse_reach("end"); return; }
  MetricSnapshot snap;
  if (mode == 0) {
    std::string h = sym(kse_choose(0, len, "help len"), "help"); auto& w = wanted("kio_x_total", h, MetricType::Counter); auto& f = snap.BuildFamily("kio_x_total", h, MetricType::Counter);
    add(f, w, {{"a", sym(kse_choose(0, len, "a len"), "a")}, {"b", sym(kse_choose(0, 1, "b len"), "b")}}, 1); add(f, w, {}, 2); }
  else if (mode == 1) {
    MetricFamily* f[3]; Family* w[3]; int n = (int)kse_choose(1, 3, "families"); const char* names[] = {"kio_x_total", "kio_y", "kio_z"}; int nm[3];
    for (int i = 0; i < n; i++) { nm[i] = (int)kse_choose(0, i, "name"); MetricType t = nm[i] & 1 ? MetricType::Gauge : MetricType::Counter; std::string h = std::string("about ") + names[nm[i]]; w[i] = &wanted(names[nm[i]], h, t); f[i] = &snap.BuildFamily(names[nm[i]], h, t); }
    for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) if (kse_choose(0, 1, "sample")) { std::vector<Label> ls; if (kse_choose(0, 1, "labelled")) ls.push_back({"id", i == 0 && r == 0 ? sym(1, "label") : "plain"}); add(*f[i], *w[i], std::move(ls), 10 * r + i); } }
  else if (mode == 2) {
    auto& w = wanted("kio_x", "x", MetricType::Gauge); auto& f = snap.BuildFamily("kio_x", "x", MetricType::Gauge); double d; int k = (int)kse_choose(0, 17, "value");
    if (k == 0) { uint64_t v = kse_u64("value bits"); kse_assume((v & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); memcpy(&d, &v, 8); } else d = k == 1 ? __builtin_inf() : k == 2 ? -__builtin_inf() : LIST[k - 3];
    add(f, w, {{"id", sym(1, "label")}}, d); }
  else if (mode == 3) {
    auto& w = wanted("kio_x", "x", MetricType::Gauge); auto& f = snap.BuildFamily("kio_x", "x", MetricType::Gauge); add(f, w, {{sym(kse_choose(1, len, "key len"), "key"), sym(1, "value")}}, 3); }
  else {
    int max = (int)kse_choose(1, 3, "max"), n = (int)kse_choose(0, 4, "samples"); auto& w = wanted("kio_x", "x", MetricType::Gauge); auto& f = snap.BuildFamily("kio_x", "x", MetricType::Gauge, max); for (int i = 0; i < n; i++) add(f, w, {{"id", sym(1, "label")}}, i, i < max); }
  std::string a = ser.Serialize(snap), b = ser.Serialize(snap); kse_assert(eq(a, b), "the same snapshot gives the same page"); judge(a); kse_reach("end"); }
