// G01: environment configuration loaded from cascaded property files and type specifications with failing disk reads.
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>
#include <algorithm>
#include <map>
#include <set>
#include "../sim/hlib.h"

using namespace Balau;
using sim::Quiet;

namespace {

enum Type { INT, LONG, SHORT, BYTE, BOOLEAN, DOUBLE, STRING, URI, TYPES, NONE };
const char * const typeNames[] = { "int", "long", "short", "byte", "boolean", "double", "string", "uri" };

// One property: a leaf (value) or a composite.
struct Node {
  std::string name; bool comp = false; std::vector<Node> kids;
  int type = NONE; bool hasDefault = false; std::string text; // value or default value as written
  bool fromDefault = false;
};
Node * find(std::vector<Node> & v, const std::string & n) { for (auto & x : v) if (x.name == n) return &x; return nullptr; }
const Node * find(const std::vector<Node> & v, const std::string & n) { for (auto & x : v) if (x.name == n) return &x; return nullptr; }

int g_serial;
std::string someValue(int type) {
  char b[64]; int k = ++g_serial;
  switch (type) {
    case INT: snprintf(b, sizeof b, "%d", (int) sim::rndRange(-1000000, 1000000) * 1000 + k); return b;
    case LONG: snprintf(b, sizeof b, "%lld", (long long) sim::rndRange(-4000000000000ll, 4000000000000ll) * 1000 + k); return b;
    case SHORT: snprintf(b, sizeof b, "%d", (int) sim::rndRange(-30000, 30000)); return b;
    case BYTE: snprintf(b, sizeof b, "%d", (int) sim::rndRange(-128, 127)); return b;
    case BOOLEAN: return sim::chance(0.5) ? "true" : "false";
    case DOUBLE: snprintf(b, sizeof b, "%d.%d", (int) sim::rndRange(-1000, 1000), k * 25 % 1000); return b;
    case URI: snprintf(b, sizeof b, "file:some/dir/f%d.txt", k); return b;
    default: {
      static const char * const shapes[] = { "word%d", "two words %d", "a=b%d", "http://host:80%d/x?y=z&u=v", "#%d", "x!y#%d", "%d,%d = c", "\xc3\xa9t\xc3\xa9%d", "v%d=" };
      snprintf(b, sizeof b, shapes[sim::rnd(9)], k, k); return b;
    }
  }
}

// ---- writing property files --------------------------------------------------------------------------
std::string g_root; int g_inc;
void put(const std::string & path, const std::string & text) {
  Quiet q; sim::IoFaults old = sim::ioFaults(); sim::ioFaults() = sim::IoFaults();
  for (size_t i = g_root.size() + 1; (i = path.find('/', i)) != std::string::npos; ++i) mkdir(path.substr(0, i).c_str(), 0777);
  if (getenv("ENV_DUMP")) fprintf(stderr, "---- %s\n%s", path.c_str() + g_root.size(), text.c_str());
  FILE * f = fopen(path.c_str(), "w"); if (!f) sim::invalid("%s", path.c_str()); fwrite(text.data(), 1, text.size(), f); fclose(f);
  sim::ioFaults() = old;
}
struct Gen { bool includes, spec, big; int depth; std::vector<std::string> * files; };
std::string padding(const Gen & g) { std::string s; if (g.big && sim::chance(0.1)) { int n = (int) sim::rndRange(60, 130); for (int i = 0; i < n; ++i) s += "# padding that makes the file longer than a read buffer can be ......\n"; } else if (sim::chance(0.2)) s += sim::chance(0.5) ? "\n" : "  ! comment\n"; return s; }
std::string emit(std::vector<Node> v, const std::string & dir, Gen g, const std::string & indent) {
  std::string s;
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[sim::rnd(i)]);
  size_t from = v.size(), to = v.size();
  if (g.includes && g.depth < 3 && !v.empty() && sim::chance(0.45)) { from = (size_t) sim::rnd(v.size()); to = from + 1 + (size_t) sim::rnd(v.size() - from); }
  for (size_t i = 0; i < v.size(); ++i) {
    s += padding(g);
    if (i == from) {
      static const char * const dirs[] = { "", "sub/", "sub/deep/", "../" };
      const char * d = dirs[sim::rnd(dir.size() > g_root.size() + 2 ? 4 : 3)];
      std::string rel = d + ("inc" + std::to_string(++g_inc) + ".hconf");
      Gen h = g; ++h.depth; std::vector<Node> part(v.begin() + (long) from, v.begin() + (long) to);
      std::string abs = dir + "/" + rel; if (!strcmp(d, "../")) abs = dir.substr(0, dir.rfind('/')) + "/" + rel.substr(3);
      std::string text = emit(part, abs.substr(0, abs.rfind('/')), h, "");
      put(abs, text); g.files->push_back(abs);
      int how = (int) sim::rnd(4);
      s += indent + "@" + (how == 0 ? abs : how == 1 ? "file:" + rel : rel) + "\n";
      i = to - 1; continue;
    }
    const Node & n = v[i];
    static const char * const seps[] = { " = ", ":", " : ", "=", " " };
    std::string sep = seps[sim::rnd(5)];
    if (n.comp) { s += indent + n.name + (sep == ":" || sep == "=" ? " " : sep) + "{\n" + emit(n.kids, dir, g, indent + (sim::chance(0.5) ? "\t" : "  ")) + indent + "}\n"; continue; }
    std::string value = n.text;
    if (g.spec) { value = typeNames[n.type]; if (n.hasDefault) value += std::string(sim::chance(0.5) ? " = " : "=") + n.text; if (sep == " ") sep = " : "; }
    if (!value.empty() && (value[0] == '=' || value[0] == ':') && sep == " ") sep = " = ";
    s += indent + n.name + sep + value + "\n";
  }
  return s;
}

// ---- type specifications ------------------------------------------------------------------------------
void mergeSpec(std::vector<Node> & dst, const std::vector<Node> & src) {
  for (auto & n : src) { Node * d = find(dst, n.name); if (!d) dst.push_back(n); else if (n.comp) mergeSpec(d->kids, n.kids); else *d = n; }
}
void mergeValues(std::vector<Node> & dst, const std::vector<Node> & src) {
  for (auto & n : src) { Node * d = find(dst, n.name); if (!d) dst.push_back(n); else if (n.comp) mergeValues(d->kids, n.kids); else d->text = n.text; }
}
// The bindings that result: typed values, strings for untyped values, defaults for missing ones.
std::vector<Node> combine(const std::vector<Node> & values, const std::vector<Node> & specs) {
  std::vector<Node> r;
  for (auto & n : values) { Node m = n; const Node * s = find(specs, n.name); if (n.comp) m.kids = combine(n.kids, s ? s->kids : std::vector<Node>()); else m.type = s ? s->type : STRING; r.push_back(m); }
  for (auto & s : specs) {
    if (find(values, s.name)) continue;
    if (s.comp) { Node m = s; m.kids = combine({}, s.kids); if (!m.kids.empty()) r.push_back(m); }
    else if (s.hasDefault) { Node m = s; m.fromDefault = true; r.push_back(m); }
  }
  return r;
}

struct Universe { std::string name; bool comp; std::vector<Universe> kids; int type; bool hasDefault; bool conflict = false; };
std::vector<Universe> universe(int depth) {
  std::vector<Universe> v; int nv = (int) sim::rndRange(depth ? 1 : 0, 4), nc = depth < 2 ? (int) sim::rnd(3) : 0;
  for (int i = 0; i < nv; ++i) { static const char * const names[] = { "v", "some.value", "http.worker-count", "x" }; v.push_back({ names[sim::rnd(4)] + std::to_string(i), false, {}, (int) sim::rnd(TYPES), sim::chance(0.5) }); }
  for (int i = 0; i < nc; ++i) v.push_back({ "group" + std::to_string(i), true, universe(depth + 1), (int) sim::rnd(TYPES), false, sim::chance(0.06) }); // conflict: a value type is specified for the composite property
  return v;
}
std::vector<Node> someSpec(const std::vector<Universe> & u, double keep, const std::vector<Node> & lastOnes, bool hard) {
  std::vector<Node> v;
  for (auto & x : u) {
    Node n; n.name = x.name; n.comp = x.comp;
    const Node * last = find(lastOnes, x.name); // a later specification of the same property
    if (x.comp && x.conflict) { bool in = sim::chance(keep); if (!sim::keepOp() || !in) continue; n.comp = false; n.type = x.type; n.hasDefault = false; }
    else if (x.comp) { n.kids = someSpec(x.kids, keep, last ? last->kids : std::vector<Node>(), hard); if (n.kids.empty() || !sim::chance(0.9)) continue; }
    else { bool in = sim::chance(keep); if (!sim::keepOp() || !in) continue; n.type = last && sim::chance(0.3) ? (int) sim::rnd(TYPES) : x.type; n.hasDefault = x.hasDefault; n.text = someValue(n.type); }
    v.push_back(n);
  }
  return v;
}
std::vector<Node> someValues(const std::vector<Universe> & u, double keep, const std::vector<Node> & specs, bool * bad) {
  std::vector<Node> v;
  for (auto & x : u) {
    Node n; n.name = x.name; n.comp = x.comp;
    const Node * s = find(specs, x.name);
    bool in = sim::chance(keep); if (!sim::keepOp() || !in) continue;
    if (x.comp) n.kids = someValues(x.kids, keep, s ? s->kids : std::vector<Node>(), bad);
    else {
      n.text = someValue(s ? s->type : (int) STRING);
      if (s && s->type != STRING && s->type != URI && !*bad && sim::chance(0.02)) { n.text = sim::chance(0.5) ? "wrong" : "99999999999999999999999"; if (s->type == DOUBLE) n.text = "wrong"; *bad = true; }
    }
    v.push_back(n);
  }
  return v;
}

// A configuration class with hard wired specifications.
struct HardWired : public EnvironmentConfiguration {
  const std::vector<Node> * specs = nullptr;
  using EnvironmentConfiguration::EnvironmentConfiguration;
  typedef Impl::PropertyBindingBuilderFactoryPtr P;
  P leaf(const Node & n) const {
    switch (n.type) {
      case INT: return n.hasDefault ? value<int>(n.name, std::stoi(n.text)) : value<int>(n.name);
      case LONG: return n.hasDefault ? value<long long>(n.name, std::stoll(n.text)) : value<long long>(n.name);
      case SHORT: return n.hasDefault ? value<short>(n.name, (short) std::stoi(n.text)) : value<short>(n.name);
      case BYTE: return n.hasDefault ? value<signed char>(n.name, (signed char) std::stoi(n.text)) : value<signed char>(n.name);
      case BOOLEAN: return n.hasDefault ? value<bool>(n.name, n.text == "true") : value<bool>(n.name);
      case DOUBLE: return n.hasDefault ? value<double>(n.name, std::stod(n.text)) : value<double>(n.name);
      case STRING: return n.hasDefault ? value<std::string>(n.name, n.text) : value(n.name);
      default: return n.hasDefault ? unique<Resource::Uri>(n.name, cloner(), std::unique_ptr<Resource::Uri>(new Resource::File(n.text.substr(5)))) : unique<Resource::Uri>(n.name);
    }
  }
  static UniquePropertyCloner<Resource::Uri> cloner() { return [] (const std::unique_ptr<const Resource::Uri> & u) { return u->clone(); }; }
  P make(const Node & n) const {
    if (!n.comp) return leaf(n);
    std::vector<P> k; for (auto & x : n.kids) k.push_back(make(x));
    switch (k.size()) {
      case 1: return group(n.name, k[0]);
      case 2: return group(n.name, k[0], k[1]);
      case 3: return group(n.name, k[0], k[1], k[2]);
      case 4: return group(n.name, k[0], k[1], k[2], k[3]);
      case 5: return group(n.name, k[0], k[1], k[2], k[3], k[4]);
      case 6: return group(n.name, k[0], k[1], k[2], k[3], k[4], k[5]);
      default: sim::invalid("group of %d", (int) k.size());
    }
  }
  static void dump(const std::vector<Node> & v, int d) { for (auto & n : v) { fprintf(stderr, "%*s%s: %s%s%s\n", d * 2, "", n.name.c_str(), n.comp ? "{}" : typeNames[n.type], n.hasDefault ? " = " : "", n.text.c_str()); dump(n.kids, d + 1); } }
  void configure() const override { if (getenv("ENV_DUMP") && specs) { Quiet q; fprintf(stderr, "---- hard wired\n"); dump(*specs, 1); } if (specs) for (auto & n : *specs) make(n); }
};

// ---- checks -------------------------------------------------------------------------------------------
std::string showType(int t) { return t < TYPES ? typeNames[t] : "?"; }
template <typename Has, typename Get> void checkLeaf(const std::string & path, const Node & n, const char * want, Has has, Get get) {
  bool present = has(); if (!present) sim::fail("missing-property", "%s of type %s is missing (%s '%s')", path.c_str(), showType(n.type).c_str(), n.fromDefault ? "default" : "value", n.text.c_str());
  std::string got = get(); Quiet q; if (got != want) sim::fail("wrong-value", "%s of type %s is '%s' instead of '%s' (%s)", path.c_str(), showType(n.type).c_str(), got.c_str(), want, n.fromDefault ? "default" : "value");
}
std::string num(long long v) { Quiet q; return std::to_string(v); }
std::string dbl(double v) { Quiet q; char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
std::string uriPath(const std::unique_ptr<Resource::Uri> & u) { if (!u) return "(null)"; auto * f = dynamic_cast<Resource::File *>(u.get()); return f ? "file:" + f->toRawString() : "(not a file)"; }
struct InRoot {
  const std::shared_ptr<Injector> & i;
  template <typename T> bool hasV(const std::string & n) const { return i->hasBinding<T>(n); }
  template <typename T> T v(const std::string & n) const { return i->getValue<T>(std::string_view(n)); } // a std::string would be taken for a default value
  bool hasU(const std::string & n) const { return i->hasBinding<std::unique_ptr<Resource::Uri>>(n); }
  std::unique_ptr<Resource::Uri> u(const std::string & n) const { return i->getUnique<Resource::Uri>(n); }
  bool hasC(const std::string & n) const { return i->hasBinding<std::shared_ptr<EnvironmentProperties>>(n); }
  std::shared_ptr<EnvironmentProperties> c(const std::string & n) const { return i->getShared<EnvironmentProperties>(n); }
};
struct InProps {
  const EnvironmentProperties & p;
  template <typename T> bool hasV(const std::string & n) const { return p.hasValue<T>(n); }
  template <typename T> T v(const std::string & n) const { return p.getValue<T>(n); }
  bool hasU(const std::string & n) const { return p.hasUnique<Resource::Uri>(n); }
  std::unique_ptr<Resource::Uri> u(const std::string & n) const { return p.getUnique<Resource::Uri>(n); }
  bool hasC(const std::string & n) const { return p.hasComposite(n); }
  std::shared_ptr<EnvironmentProperties> c(const std::string & n) const { return p.getComposite(n); }
};
void checkProps(const EnvironmentProperties & p, const std::vector<Node> & model, const std::string & path);
template <typename In> void checkLevel(const In & in, const std::vector<Node> & model, const std::string & path) {
  for (auto & n : model) {
    std::string full = path + n.name;
    if (n.comp) { if (!in.hasC(n.name)) sim::fail("missing-property", "composite %s is missing", full.c_str()); checkProps(*in.c(n.name), n.kids, full + "/"); continue; }
    const std::string & nm = n.name; std::string want = n.text;
    switch (n.type) {
      case INT: checkLeaf(full, n, num(std::stoi(want)).c_str(), [&] { return in.template hasV<int>(nm); }, [&] { return num(in.template v<int>(nm)); }); break;
      case LONG: checkLeaf(full, n, num(std::stoll(want)).c_str(), [&] { return in.template hasV<long long>(nm); }, [&] { return num(in.template v<long long>(nm)); }); break;
      case SHORT: checkLeaf(full, n, num(std::stoi(want)).c_str(), [&] { return in.template hasV<short>(nm); }, [&] { return num(in.template v<short>(nm)); }); break;
      case BYTE: checkLeaf(full, n, num(std::stoi(want)).c_str(), [&] { return in.template hasV<signed char>(nm); }, [&] { return num(in.template v<signed char>(nm)); }); break;
      case BOOLEAN: checkLeaf(full, n, want.c_str(), [&] { return in.template hasV<bool>(nm); }, [&] { return std::string(in.template v<bool>(nm) ? "true" : "false"); }); break;
      case DOUBLE: checkLeaf(full, n, dbl(std::stod(want)).c_str(), [&] { return in.template hasV<double>(nm); }, [&] { return dbl(in.template v<double>(nm)); }); break;
      case STRING: checkLeaf(full, n, want.c_str(), [&] { return in.template hasV<std::string>(nm); }, [&] { return in.template v<std::string>(nm); }); break;
      default: checkLeaf(full, n, want.c_str(), [&] { return in.hasU(nm); }, [&] { return uriPath(in.u(nm)); });
    }
  }
}
void checkProps(const EnvironmentProperties & p, const std::vector<Node> & model, const std::string & path) {
  size_t k = 0; for (auto it = p.begin(); it != p.end(); ++it) { ++k; auto item = *it; std::string n(item.getName()); const Node * m = find(model, n); if (!m) sim::fail("unexpected-property", "%s%s was never specified", path.c_str(), n.c_str()); if (item.isComposite() != m->comp) sim::fail("unexpected-property", "%s%s is of the wrong kind", path.c_str(), n.c_str()); }
  if (k != model.size()) sim::fail("unexpected-property", "%s has %d properties instead of %d", path.c_str(), (int) k, (int) model.size());
  checkLevel(InProps { p }, model, path);
}
void checkAbsent(const std::shared_ptr<Injector> & i, const std::vector<Universe> & u, const std::vector<Node> & model) {
  for (auto & x : u) {
    const Node * m = find(model, x.name);
    bool comp = i->hasBinding<std::shared_ptr<EnvironmentProperties>>(x.name), str = i->hasBinding<std::string>(x.name), integer = i->hasBinding<int>(x.name), uri = i->hasBinding<std::unique_ptr<Resource::Uri>>(x.name);
    if (comp != (m && m->comp) || str != (m && !m->comp && m->type == STRING) || integer != (m && !m->comp && m->type == INT) || uri != (m && !m->comp && m->type == URI)) sim::fail("unexpected-property", "%s is bound to another type than specified (%s)", x.name.c_str(), m ? showType(m->type).c_str() : "nothing specified");
  }
}

struct Config {
  std::vector<Universe> u;
  std::vector<std::vector<Node>> inputs, specs; std::vector<Node> hard; bool hasHard = false;
  std::vector<std::string> inputPaths, specPaths, files; std::vector<std::string> inputTexts, specTexts;
  bool invalid = false, missing = false; std::string victim, kept; int how = 0; bool twice = false; bool texts = false, fixable = true;
  std::vector<Node> model;
};

void build(Config & c, int id) {
  std::string root = g_root + "/c" + std::to_string(id);
  c.u = universe(0);
  int ni = (int) sim::rndRange(1, 3), ns = (int) sim::rnd(3); c.hasHard = sim::chance(0.4); c.texts = sim::chance(0.12);
  if (c.texts) { ni = 1; ns = ns > 1 ? 1 : ns; }
  double ks = sim::chance(0.5) ? 0.9 : 0.5, kv = sim::chance(0.5) ? 0.9 : 0.5;
  // the last specification first, so that earlier ones know what overrides them
  std::vector<Node> later; if (c.hasHard) { c.hard = someSpec(c.u, ks, {}, true); later = c.hard; }
  c.specs.resize((size_t) ns);
  for (int i = ns; i-- > 0;) { c.specs[(size_t) i] = someSpec(c.u, ks, later, false); std::vector<Node> m = c.specs[(size_t) i]; mergeSpec(m, later); later = m; }
  std::vector<Node> specs; for (auto & s : c.specs) mergeSpec(specs, s); mergeSpec(specs, c.hard);
  std::vector<Node> values; bool bad = false;
  for (int i = 0; i < ni; ++i) { bool b = bad || i + 1 < ni; bool was = b; c.inputs.push_back(someValues(c.u, kv, specs, &b)); if (b != was) bad = true; mergeValues(values, c.inputs.back()); }
  c.invalid = bad; c.fixable = !bad;
  c.model = combine(values, specs);
  Gen g; g.includes = !c.texts && sim::chance(0.7); g.spec = false; g.big = sim::chance(0.15); g.depth = 0; g.files = &c.files;
  for (int i = 0; i < ni; ++i) { std::string d = root + "/i" + std::to_string(i), p = d + "/env.hconf"; std::string t = emit(c.inputs[(size_t) i], d, g, ""); c.inputTexts.push_back(t); c.inputPaths.push_back(p); c.files.push_back(p); put(p, t); }
  g.spec = true;
  for (int i = 0; i < ns; ++i) { std::string d = root + "/s" + std::to_string(i), p = d + "/types.thconf"; std::string t = emit(c.specs[(size_t) i], d, g, ""); c.specTexts.push_back(t); c.specPaths.push_back(p); c.files.push_back(p); put(p, t); }
  if (!c.texts && sim::chance(0.06)) { c.missing = true; c.victim = c.files[sim::rnd(c.files.size())]; }
  c.how = (int) sim::rnd(4); c.twice = sim::chance(0.15);
}

std::shared_ptr<Injector> load(const Config & c) {
  const std::vector<Node> * hard = c.hasHard ? &c.hard : nullptr;
  auto create = [&] (HardWired & h) { h.specs = hard; auto r = Injector::create(h); if (c.twice) r = Injector::create(h); return r; }; // a configuration can be used again
  if (c.texts) {
    if (c.specTexts.empty()) { HardWired h(c.inputTexts[0]); return create(h); }
    HardWired h(c.inputTexts[0], c.specTexts[0]); return create(h);
  }
  typedef std::shared_ptr<Resource::Uri> U;
  if (c.how == 0 && c.inputPaths.size() == 1) {
    Resource::File in(c.inputPaths[0]);
    if (c.specPaths.empty()) { HardWired h(in); return create(h); }
    Resource::File s(c.specPaths[0]);
    if (c.specPaths.size() == 1) { HardWired h(in, s); return create(h); }
    Resource::File t(c.specPaths[1]); HardWired h(in, s, t); return create(h);
  }
  if (c.how == 1 && c.inputPaths.size() == 1) {
    U in(new Resource::File(c.inputPaths[0]));
    if (c.specPaths.empty()) { HardWired h(in); return create(h); }
    U s(new Resource::File(c.specPaths[0]));
    if (c.specPaths.size() == 1) { HardWired h(in, s); return create(h); }
    U t(new Resource::File(c.specPaths[1])); HardWired h(in, s, t); return create(h);
  }
  if (c.how == 2) {
    std::vector<U> in, sp; for (auto & p : c.inputPaths) in.push_back(U(new Resource::File(p))); for (auto & p : c.specPaths) sp.push_back(U(new Resource::File(p)));
    HardWired h(in, sp); return create(h);
  }
  std::vector<Resource::File> in, sp; for (auto & p : c.inputPaths) in.push_back(Resource::File(p)); for (auto & p : c.specPaths) sp.push_back(Resource::File(p));
  HardWired h(in, sp); return create(h);
}

} // namespace

SIM_SCENARIO(G01, environment, 1, "1-3 threads load environment configurations (1-3 cascaded property files with nested includes, 0-2 type specification files, hard wired specifications with defaults) while opens and reads fail, are short or interrupted, files are missing or values invalid; then all threads read all of them; non-trivial: at least 3 properties") {
  sim::swarm(); sim::tuning().maxSteps = 60000000; g_serial = g_inc = 0; { Quiet q; g_root = std::string(sim::scratch()); while (g_root.back() == '/') g_root.pop_back(); char b[4096]; if (realpath(g_root.c_str(), b)) g_root = b; }
  int n = (int) sim::rndRange(1, 3); std::vector<Config> configs((size_t) n);
  for (int i = 0; i < n; ++i) build(configs[(size_t) i], i);
  bool shareOne = n > 1 && sim::chance(0.3);                 // all threads load the same files
  if (shareOne) for (size_t i = 1; i < configs.size(); ++i) configs[i] = configs[0];
  for (auto & c : configs) if (c.missing) unlink(c.victim.c_str());
  { size_t k = 0; for (auto & c : configs) for (auto & m : c.model) k += 1 + m.kids.size(); if (k >= 3) sim::nontrivial(); }
  double of = 0, re = 0;
  if (sim::chance(0.5)) { switch (sim::rnd(3)) { case 0: of = 0.1; break; case 1: re = 0.1; break; default: of = 0.03; re = 0.05; } }
  double sr = sim::chance(0.4) ? 0.3 : 0, ei = sim::chance(0.4) ? 0.2 : 0;
  std::vector<std::shared_ptr<Injector>> done((size_t) n); std::vector<std::string> errors((size_t) n);
  auto faults = [] { return sim::fired(sim::F_OPENFAIL) + sim::fired(sim::F_READERR); };
  std::vector<std::function<void ()>> bodies;
  sim::ioFaults().openFail = of; sim::ioFaults().readErr = re; sim::ioFaults().shortRead = sr; sim::ioFaults().eintr = ei;
  for (int i = 0; i < n; ++i) bodies.push_back([&, i] {
    const Config & c = configs[(size_t) i];
    uint64_t before; { Quiet q; before = faults(); }
    std::shared_ptr<Injector> inj; bool threw = false; std::string err;
    try { inj = load(c); } catch (const std::exception & e) { threw = true; Quiet q; err = e.what(); }
    Quiet q;
    bool faulted = faults() != before; // in this or another thread
    if (threw) { if (!faulted && !c.invalid && !c.missing) sim::fail("spurious-failure", "loading a valid configuration failed: %.300s", err.c_str()); sim::probe("load failed"); }
    else {
      if (c.invalid) sim::fail("accepted-invalid", "a configuration with an invalid value was loaded");
      if (c.missing) sim::fail("accepted-invalid", "a configuration with a missing file was loaded (%s)", c.victim.c_str() + g_root.size());
      if (faulted) sim::probe("loaded although faults were injected");
      done[(size_t) i] = inj;
    }
  });
  hl::runThreads(bodies);
  sim::ioFaults() = sim::IoFaults();
  // Failed loads have left nothing behind: they succeed once the disk works again.
  for (int i = 0; i < n; ++i) { const Config & c = configs[(size_t) i]; if (done[(size_t) i] || c.invalid || c.missing) continue; HL_TRY(done[(size_t) i] = load(c), "loading again"); }
  bodies.clear(); int readers = (int) sim::rndRange(1, 3);
  for (int r = 0; r < readers; ++r) bodies.push_back([&] {
    for (int i = 0; i < n; ++i) if (done[(size_t) i]) { HL_TRY(checkLevel(InRoot { done[(size_t) i] }, configs[(size_t) i].model, ""); checkAbsent(done[(size_t) i], configs[(size_t) i].u, configs[(size_t) i].model), "reading a property"); }
  });
  hl::runThreads(bodies);
}
