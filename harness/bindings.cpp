// I04 bindings: validation of generated (valid and invalid) binding configurations of up to three injector levels, and
// resolution of every form of request against a small reference model, by several threads and with failing constructors.
#include <boost/thread/tss.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>
#include "../sim/hlib.h"
#include <algorithm>
#include <map>
#include <optional>
#include <set>

using namespace Balau;
using sim::Quiet;

namespace {
constexpr int NI = 3, NN = 2, NL = 3;
const char * const names[NN] = { "", "alternative binding name" };

enum Meta { Val, Uni, UniD, Ref, CRef, Sha, CSha, NMETA };
enum Flavour { fVal, fUni, fUniD, fRef, fCRef, fSha, fCSha, fWeak, fCWeak, fShInj, fCShInj, fWInj, fCWInj, NF };
enum Kind { Inst, Proto, Fn, Class, Instance, TheRef, Lazy, LazyDel, Eager, EagerDel, TL, TLDel, Provided, Raw, RawDel };
const char * const metaNames[NMETA] = { "value", "unique", "unique with deleter", "reference", "const reference", "shared", "const shared" };
constexpr int NK = NMETA * NI * NN;
int keyOf(int meta, int i, int n) { return (meta * NI + i) * NN + n; }
bool takesDeps(int kind) { return kind == Inst || kind == Class || (kind >= Lazy && kind <= TLDel); }
bool hasDeleter(int meta, int kind) { return meta == UniD || kind == LazyDel || kind == EagerDel || kind == TLDel || kind == RawDel; }
bool isTL(int kind) { return kind == TL || kind == TLDel; }

struct CtorError : std::runtime_error { CtorError() : std::runtime_error("construction failed") {} };
struct Dep { int f, i, n; };
struct Bnd { bool present = false; int kind = 0, conf = 0; std::vector<Dep> deps; };
struct Obj { int slot; bool alive = true, byInjector = false, expectDel = false, deleted = false, tl = false; };
struct Call { int level, attempt; int runs = 0; };

struct World {
  int levels = 1; Bnd b[NL][NK]; int rank[NK] = {};
  std::vector<Obj> objs; std::map<int, const void *> identity; std::map<const Injector *, int> levelOf;
  int creating[sim::MAXT]; bool validating = false; int threw[sim::MAXT] = {};
  std::set<long> throwAt; long ctors = 0;
  std::map<int, std::vector<Dep>> extraDeps; std::vector<std::pair<int, int>> dups; // defects of the attempt (key -> deps), (key, conf)
  bool extra[NL] = {}, nested[NL] = {}; int regs[NL][4] = {};
  int attempt = 0; std::vector<Call> post, pre; bool postAllowed = false; std::vector<int> created; // attempts that were successful
  std::vector<std::shared_ptr<void>> keep;
};
World * W;

int slotOf(int level, int key) { return level * 64 + key; }
Bnd & bindOf(int slot) { return W->b[slot / 64][slot % 64]; }

std::vector<Dep> depsOf(int level, int key) {
  std::vector<Dep> d = W->b[level][key].deps;
  if (W->creating[sim::self()] == level) { auto it = W->extraDeps.find(key); if (it != W->extraDeps.end()) d.insert(d.end(), it->second.begin(), it->second.end()); }
  return d;
}

// ---- the reference model
int nearest(int level, int meta, int i, int n) { for (int l = level; l >= 0; --l) if (W->b[l][keyOf(meta, i, n)].present) return slotOf(l, keyOf(meta, i, n)); return -1; }
int resolve(int level, int f, int i, int n) {
  switch (f) {
    case fWeak: return nearest(level, Sha, i, n);
    case fCSha: case fCWeak: { int s = nearest(level, CSha, i, n); return s >= 0 ? s : nearest(level, Sha, i, n); }
    case fCRef: { int s = nearest(level, CRef, i, n); return s >= 0 ? s : nearest(level, Ref, i, n); }
    default: return f < fWeak ? nearest(level, f, i, n) : -1;
  }
}
struct Expect { bool dup = false, missing = false, shared = false, cycle = false; bool ok() const { return !dup && !missing && !shared && !cycle; } };
Expect expectation(int level) { // needs creating[self] == level
  Expect e; e.dup = !W->dups.empty();
  std::map<int, std::set<int>> edges;
  for (int k = 0; k < NK; ++k) {
    Bnd & b = W->b[level][k]; if (!b.present || !takesDeps(b.kind)) continue;
    int meta = k / NN / NI;
    for (auto & d : depsOf(level, k)) {
      if (d.f >= fShInj) { if ((d.f == fShInj || d.f == fCShInj) && (meta == Sha || meta == CSha)) e.shared = true; continue; }
      int s = resolve(level, d.f, d.i, d.n);
      if (s < 0) e.missing = true; else if (s / 64 == level) edges[k].insert(s % 64);
    }
  }
  std::map<int, int> colour; std::function<bool (int)> cyc = [&] (int k) { colour[k] = 1; for (int t : edges[k]) if (colour[t] == 1 || (!colour[t] && cyc(t))) return true; colour[k] = 2; return false; };
  for (int k = 0; k < NK; ++k) if (!colour[k] && cyc(k)) { e.cycle = true; break; }
  return e;
}

int levelOfInjector(const Injector * inj) {
  Quiet q; auto it = W->levelOf.find(inj);
  if (it != W->levelOf.end()) return it->second;
  int c = W->creating[sim::self()];
  if (c < 0) sim::fail("wrong-injector", "an object is being constructed with an injector that was never created");
  return W->levelOf[inj] = c;
}

// ---- the objects
struct Core {
  long obj = -1; int slot = -1;
  void init(int slot_, bool byInjector, bool expectDel, bool tl = false) {
    Quiet q; slot = slot_; Obj o; o.slot = slot_; o.byInjector = byInjector; o.expectDel = expectDel; o.tl = tl; obj = (long) W->objs.size(); W->objs.push_back(o);
  }
  void dead() {
    if (!sim::active() || obj < 0) return;
    Quiet q; Obj & o = W->objs[(size_t) obj];
    if (!o.alive) sim::fail("double-destruction", "object %ld was destroyed twice", obj);
    o.alive = false;
    if (o.expectDel != o.deleted) sim::fail("deleter", "an object of a %s binding was destroyed %s", slot >= 0 ? metaNames[slot % 64 / NN / NI] : "default", o.deleted ? "by a deleter that is not its own" : "without its deleter");
  }
};
template <int I> struct A { Core c; virtual ~A() { c.dead(); } };
template <int I> struct Del { void operator () (const A<I> * p) const { { Quiet q; if (p->c.obj >= 0) W->objs[(size_t) p->c.obj].deleted = true; } delete p; } };

void injectorConstructs() {
  Quiet q;
  if (W->validating) sim::fail("constructed-by-validation", "the validation of a configuration constructs an object");
  if (W->throwAt.count(++W->ctors)) { W->threw[sim::self()] = 1; sim::count(sim::F_USEREXC); sim::note("construction fails"); throw CtorError(); }
}
struct InstOps { Impl::BindingKey (*key)(int f, int n); void (*fetch)(int f, int n, const Injector & inj, int level); };
extern InstOps iops[NI];
std::vector<Impl::BindingKey> depKeys(int key) { // only used while an injector is being created or validated
  std::vector<Impl::BindingKey> r; int l = W->creating[sim::self()]; if (l < 0) return r;
  for (auto & d : depsOf(l, key)) r.push_back(iops[d.i].key(d.f, d.n));
  return r;
}
void fetchAll(int level, int key, const Injector & inj) { auto deps = depsOf(level, key); for (auto & d : deps) iops[d.i].fetch(d.f, d.n, inj, level); }

template <int M, int I, int N> struct Made : A<I> {
  static constexpr int key = (M * NI + I) * NN + N;
  explicit Made(int level) { injectorConstructs(); sim::yield(); Quiet q; int k = W->b[level][key].kind; this->c.init(slotOf(level, key), true, hasDeleter(M, k), isTL(k)); }
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return depKeys(key); }
  static Made * BALAU_newHeapInstance(const Injector & inj) { int l = levelOfInjector(&inj); fetchAll(l, key, inj); return new Made(l); }
};
template <int I> struct Plain : A<I> { Plain(int slot, bool del = false, bool byInjector = false) { this->c.init(slot, byInjector, del); } };
template <int I> struct V {
  Core c; int slot = -9;
  explicit V(int s) : slot(s) {}
  static int instKey(int l) { Quiet q; for (int n = 0; n < NN; ++n) { auto & b = W->b[l][keyOf(Val, I, n)]; if (b.present && b.kind == Inst) return keyOf(Val, I, n); } return -1; }
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { int l = W->creating[sim::self()]; if (l < 0) return {}; int k = instKey(l); return k < 0 ? std::vector<Impl::BindingKey>() : depKeys(k); }
  static V BALAU_newStackInstance(const Injector & inj) { int l = levelOfInjector(&inj); int k = instKey(l); if (k < 0) sim::fail("wrong-binding", "a value without an instantiating binding was instantiated"); fetchAll(l, k, inj); injectorConstructs(); return V(-100 - l); }
};
template <int M, int I, int N, typename R> struct Prov { // provider classes
  static constexpr int key = (M * NI + I) * NN + N; int slot = -1;
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return depKeys(key); }
  static Prov * BALAU_newHeapInstance(const Injector & inj) { int l = levelOfInjector(&inj); fetchAll(l, key, inj); if (W->validating) sim::fail("constructed-by-validation", "the validation of a configuration constructs a provider"); auto * p = new Prov(); p->slot = slotOf(l, key); return p; }
  R operator () () const {
    injectorConstructs();
    if constexpr (M == Val) return R(slot); else return R(new Plain<I>(slot, M == UniD, true));
  }
};

// ---- dependencies and requests
#define FLAVOURS(X) \
  X(fVal, V<I>) X(fUni, std::unique_ptr<A<I>>) X(fRef, A<I> &) X(fCRef, const A<I> &) X(fSha, std::shared_ptr<A<I>>) \
  X(fCSha, std::shared_ptr<const A<I>>) X(fWeak, std::weak_ptr<A<I>>) X(fCWeak, std::weak_ptr<const A<I>>) \
  X(fShInj, std::shared_ptr<Injector>) X(fCShInj, std::shared_ptr<const Injector>) X(fWInj, std::weak_ptr<Injector>) X(fCWInj, std::weak_ptr<const Injector>)
template <int I> using UD = std::unique_ptr<A<I>, Del<I>>;
template <int I> Impl::BindingKey keyFn(int f, int n) {
  switch (f) {
#define X(F, T) case F: return ::Balau::Impl::CreateBindingKey<T>()(names[n]);
    FLAVOURS(X)
#undef X
    default: return ::Balau::Impl::CreateBindingKey<UD<I>>()(names[n]);
  }
}
void checkObj(int want, const Core & c, const void * addr, const char * how) {
  Quiet q;
  if (want < 0) sim::fail("unexpected-binding", "%s was satisfied although there is no binding for it", how);
  int meta = want % 64 / NN / NI;
  if (c.slot != want) sim::fail("wrong-binding", "%s: the object of level %d's %s binding %d was expected, the one of level %d's %s binding %d was given", how, want / 64, metaNames[meta], want % 64 % (NI * NN), c.slot / 64, c.slot < 0 ? "default" : metaNames[c.slot % 64 / NN / NI], c.slot % 64 % (NI * NN));
  if (!W->objs[(size_t) c.obj].alive) sim::fail("dead-object", "%s gave a destroyed object", how);
  if (meta >= Ref && !isTL(bindOf(want).kind)) { auto & id = W->identity[want]; if (id && id != addr) sim::fail("wrong-instance", "%s gave another instance of the %s binding", how, metaNames[meta]); id = addr; }
}
void checkVal(int want, int slot, int level, const char * how) {
  (void) level; Quiet q;
  if (want < 0) sim::fail("unexpected-binding", "%s was satisfied although there is no binding for it", how);
  int s = bindOf(want).kind == Inst ? -100 - want / 64 : want;
  if (slot != s) sim::fail("wrong-binding", "%s gave a value of the wrong binding (%d instead of %d)", how, slot, s);
}
template <int I> void fetchFn(int f, int n, const Injector & inj, int level) {
  int want; { Quiet q; want = resolve(level, f, I, n); } const char * nm = names[n]; const char * how = "a dependency";
  switch (f) {
    case fVal: { auto v = inj.getInstance<V<I>>(nm); checkVal(want, v.slot, level, how); break; }
    case fUni: { auto p = inj.getInstance<std::unique_ptr<A<I>>>(nm); if (!p) sim::fail("null-instance", "a dependency is null"); checkObj(want, p->c, p.get(), how); break; }
    case fUniD: { auto p = inj.getInstance<UD<I>>(nm); if (!p) sim::fail("null-instance", "a dependency is null"); checkObj(want, p->c, p.get(), how); break; }
    case fRef: { auto & r = inj.getInstance<A<I> &>(nm); checkObj(want, r.c, &r, how); break; }
    case fCRef: { auto & r = inj.getInstance<const A<I> &>(nm); checkObj(want, r.c, &r, how); break; }
    case fSha: { auto p = inj.getInstance<std::shared_ptr<A<I>>>(nm); if (!p) sim::fail("null-instance", "a dependency is null"); checkObj(want, p->c, p.get(), how); break; }
    case fCSha: { auto p = inj.getInstance<std::shared_ptr<const A<I>>>(nm); if (!p) sim::fail("null-instance", "a dependency is null"); checkObj(want, p->c, p.get(), how); break; }
    case fWeak: { auto p = inj.getInstance<std::weak_ptr<A<I>>>(nm).lock(); if (!p) sim::fail("null-instance", "a weak dependency is null"); checkObj(want, p->c, p.get(), how); break; }
    case fCWeak: { auto p = inj.getInstance<std::weak_ptr<const A<I>>>(nm).lock(); if (!p) sim::fail("null-instance", "a weak dependency is null"); checkObj(want, p->c, p.get(), how); break; }
    case fShInj: { auto p = inj.getInstance<std::shared_ptr<Injector>>(nm); if (p.get() != &inj) sim::fail("wrong-injector", "a wrong injector was injected"); break; }
    case fCShInj: { auto p = inj.getInstance<std::shared_ptr<const Injector>>(nm); if (p.get() != &inj) sim::fail("wrong-injector", "a wrong injector was injected"); break; }
    case fWInj: { auto p = inj.getInstance<std::weak_ptr<Injector>>(nm).lock(); if (p.get() != &inj) sim::fail("wrong-injector", "a wrong injector was injected"); break; }
    default: { auto p = inj.getInstance<std::weak_ptr<const Injector>>(nm).lock(); if (p.get() != &inj) sim::fail("wrong-injector", "a wrong injector was injected"); }
  }
}
InstOps iops[NI] = { { &keyFn<0>, &fetchFn<0> }, { &keyFn<1>, &fetchFn<1> }, { &keyFn<2>, &fetchFn<2> } };

// ---- configurations: 0 and 1 are given to the injector, 0 adds 2, 2 adds 3.
struct Conf : ApplicationConfiguration {
  int level, idx; const Conf * more = nullptr;
  Conf(int l, int i) : level(l), idx(i) {}
  template <int M, int I, int N> void one() const {
    int key = keyOf(M, I, N); Bnd & b = W->b[level][key]; if (!b.present) return;
    int times = b.conf == idx;
    for (auto & d : W->dups) times += d.first == key && d.second == idx;
    const char * nm = names[N]; int slot = slotOf(level, key);
    for (int t = 0; t < times; ++t) {
      if constexpr (M == Val) {
        auto & x = bind<V<I>>(nm); using P = Prov<Val, I, N, V<I>>;
        switch (b.kind) {
          case Inst: x.toValue(); break;
          case Proto: x.toValue(V<I>(slot)); break;
          case Fn: x.toValueProvider([slot] { injectorConstructs(); return V<I>(slot); }); break;
          case Class: x.template toValueProvider<P>(); break;
          default: { auto p = std::make_shared<P>(); p->slot = slot; x.toValueProvider(p); }
        }
      } else if constexpr (M == Uni) {
        auto & x = bind<A<I>>(nm); using P = Prov<M, I, N, std::unique_ptr<A<I>>>;
        switch (b.kind) {
          case Inst: x.template toUnique<Made<M, I, N>>(); break;
          case Fn: x.toUniqueProvider([slot] { injectorConstructs(); return std::unique_ptr<A<I>>(new Plain<I>(slot, false, true)); }); break;
          case Class: x.template toUniqueProvider<P>(); break;
          default: { auto p = std::make_shared<P>(); p->slot = slot; x.toUniqueProvider(p); }
        }
      } else if constexpr (M == UniD) {
        auto & x = bind<A<I>, Del<I>>(nm); using P = Prov<M, I, N, UD<I>>;
        switch (b.kind) {
          case Inst: x.template toUnique<Made<M, I, N>>(); break;
          case Class: x.template toUniqueProvider<P>(); break;
          default: { auto p = std::make_shared<P>(); p->slot = slot; x.toUniqueProvider(p); }
        }
      } else if constexpr (M == Ref || M == CRef) {
        A<I> * p; { Quiet q; auto it = W->identity.find(slot); if (it == W->identity.end()) { auto s = std::make_shared<Plain<I>>(slot); W->keep.push_back(s); it = W->identity.emplace(slot, static_cast<A<I> *>(s.get())).first; } p = (A<I> *) it->second; }
        if constexpr (M == Ref) bind<A<I>>(nm).toReference(*p); else bind<const A<I>>(nm).toReference(*p);
      } else {
        using T = std::conditional_t<M == Sha, A<I>, const A<I>>; using D = Made<M, I, N>; using P = Prov<M, I, N, std::shared_ptr<T>>;
        auto & x = bind<T>(nm);
        switch (b.kind) {
          case Lazy: x.template toSingleton<D>(); break;
          case LazyDel: x.template toSingleton<D, Del<I>>(); break;
          case Eager: x.template toEagerSingleton<D>(); break;
          case EagerDel: x.template toEagerSingleton<D, Del<I>>(); break;
          case TL: x.template toThreadLocal<D>(); break;
          case TLDel: x.template toThreadLocal<D, Del<I>>(); break;
          case Provided: x.toSingleton(std::shared_ptr<T>(new Plain<I>(slot))); break;
          case Raw: x.toSingleton(static_cast<T *>(new Plain<I>(slot))); break;
          case RawDel: x.template toSingleton<Del<I>>(static_cast<T *>(new Plain<I>(slot, true))); break;
          case Fn: x.toSingletonProvider(std::function<std::shared_ptr<T> ()>([slot] { injectorConstructs(); return std::shared_ptr<T>(new Plain<I>(slot, false, true)); })); break;
          case Class: x.template toSingletonProvider<P>(); break;
          default: { auto p = std::make_shared<P>(); p->slot = slot; x.toSingletonProvider(p); }
        }
      }
    }
  }
  template <int M, int I> void two() const { one<M, I, 0>(); one<M, I, 1>(); }
  template <int M> void all() const { two<M, 0>(); two<M, 1>(); two<M, 2>(); }
  void configure() const override {
    if (more) addConfiguration(*more);
    for (int r = 0; r < W->regs[level][idx]; ++r) {
      size_t a, b; { Quiet q; a = W->post.size(); W->post.push_back({ level, W->attempt }); b = W->pre.size(); W->pre.push_back({ level, W->attempt }); }
      registerPostConstructionCall([a] (const Injector &) { Quiet q; Call & c = W->post[a]; if (c.attempt != W->attempt || !W->postAllowed) sim::fail("stray-callback", "a post-construction call of another injector or of a configuration that is not valid was run"); if (++c.runs > 1) sim::fail("stray-callback", "a post-construction call was run twice"); });
      registerPreDestructionCall([b] { Quiet q; if (++W->pre[b].runs > 1) sim::fail("stray-callback", "a pre-destruction call was run twice"); });
    }
    all<Val>(); all<Uni>(); all<UniD>(); all<Ref>(); all<CRef>(); all<Sha>(); all<CSha>();
  }
};

int pickKind(int meta) {
  static const std::vector<int> k[NMETA] = { { Inst, Proto, Fn, Class, Instance }, { Inst, Fn, Class, Instance }, { Inst, Class, Instance }, { TheRef }, { TheRef },
    { Lazy, Lazy, LazyDel, Eager, EagerDel, TL, TLDel, Provided, Raw, RawDel, Fn, Class, Instance }, { Lazy, Lazy, LazyDel, Eager, EagerDel, TL, TLDel, Provided, Raw, RawDel, Fn, Class, Instance } };
  return k[meta][sim::rnd(k[meta].size())];
}

struct ConfSet { std::shared_ptr<Conf> c[4]; };
ConfSet makeConfs(int l) {
  ConfSet s; for (int i = 0; i < 4; ++i) s.c[i] = std::make_shared<Conf>(l, i);
  if (W->extra[l]) s.c[0]->more = s.c[2].get();
  if (W->nested[l]) s.c[2]->more = s.c[3].get();
  return s;
}

// Requests.
template <int I> void request(const Injector & inj, int level, int f, int n, int how, bool noName) {
  int me = sim::self(), want; { Quiet q; want = resolve(level, f, I, n); W->threw[me] = 0; sim::note("requests flavour %d of type %d (name %d) from level %d, form %d", f, I, n, level, how); }
  std::string_view nm = names[n]; noName = noName && n == 0;
  if (f == fRef || f == fCRef) how = how == 4 ? 1 : how == 3 ? 2 : how;
  if (f == fVal && how == 4) how = 2;
  if (f >= fWeak) how = 0;
  int supplied = 0; bool isDefault = false, isNull = false; const char * what = "a request";
  constexpr int DEF = -7;
  auto obj = [&] (const auto & p) { if (!p) { isNull = true; return; } if (p->c.slot == DEF) { isDefault = true; return; } checkObj(want, p->c, p.get(), what); };
  auto ref = [&] (const auto & r) { if (r.c.slot == DEF) { isDefault = true; return; } checkObj(want, r.c, &r, what); };
  auto val = [&] (const auto & v) { if (v.slot == DEF) { isDefault = true; return; } checkVal(want, v.slot, level, what); };
  bool thrown = false, none = false;
  try {
    switch (f) {
      case fVal: switch (how) {
        case 0: val(noName ? inj.getInstance<V<I>>() : inj.getInstance<V<I>>(nm)); break;
        case 1: val(noName ? inj.getValue<V<I>>() : inj.getValue<V<I>>(nm)); break;
        case 2: case 4: { V<I> d(DEF); val(noName ? inj.getValue<V<I>>(d) : inj.getValue<V<I>>(nm, d)); break; }
        default: { std::function<V<I> ()> s = [&] { ++supplied; return V<I>(DEF); }; val(noName ? inj.getValue<V<I>>(s) : inj.getValue<V<I>>(nm, s)); } } break;
      case fUni: { using T = std::unique_ptr<A<I>>; switch (how) {
        case 0: obj(noName ? inj.getInstance<T>() : inj.getInstance<T>(nm)); break;
        case 1: obj(noName ? inj.getUnique<A<I>>() : inj.getUnique<A<I>>(nm)); break;
        case 2: { T d(new Plain<I>(DEF)); obj(noName ? inj.getUnique<A<I>>(std::move(d)) : inj.getUnique<A<I>>(nm, std::move(d))); break; }
        case 3: { std::function<T ()> s = [&] { ++supplied; return T(new Plain<I>(DEF)); }; obj(noName ? inj.getUnique<A<I>>(s) : inj.getUnique<A<I>>(nm, s)); break; }
        default: obj(noName ? inj.getUniqueOrNull<A<I>>() : inj.getUniqueOrNull<A<I>>(nm)); } break; }
      case fUniD: { using T = UD<I>; switch (how) {
        case 0: obj(inj.getInstance<T>(nm)); break;
        case 1: obj(noName ? inj.getUnique<A<I>, Del<I>>() : inj.getUnique<A<I>, Del<I>>(nm)); break;
        case 2: { T d(new Plain<I>(DEF, true)); obj(noName ? inj.getUnique<A<I>, Del<I>>(std::move(d)) : inj.getUnique<A<I>, Del<I>>(nm, std::move(d))); break; }
        case 3: { std::function<T ()> s = [&] { ++supplied; return T(new Plain<I>(DEF, true)); }; obj(noName ? inj.getUnique<A<I>, Del<I>>(s) : inj.getUnique<A<I>, Del<I>>(nm, s)); break; }
        default: obj(noName ? inj.getUniqueOrNull<A<I>, Del<I>>() : inj.getUniqueOrNull<A<I>, Del<I>>(nm)); } break; }
      case fRef: switch (how) {
        case 0: ref(inj.getInstance<A<I> &>(nm)); break;
        case 1: case 4: ref(noName ? inj.getReference<A<I>>() : inj.getReference<A<I>>(nm)); break;
        default: { Plain<I> d(DEF); A<I> & db = d; ref(noName ? inj.getReference<A<I>>(db) : inj.getReference<A<I>>(nm, db)); } } break;
      case fCRef: switch (how) {
        case 0: ref(inj.getInstance<const A<I> &>(nm)); break;
        case 1: case 4: ref(noName ? inj.getReference<const A<I>>() : inj.getReference<const A<I>>(nm)); break;
        default: { Plain<I> d(DEF); const A<I> & db = d; ref(noName ? inj.getReference<const A<I>>(db) : inj.getReference<const A<I>>(nm, db)); } } break;
      case fSha: { using B = A<I>; using T = std::shared_ptr<B>; switch (how) {
        case 0: obj(noName ? inj.getInstance<T>() : inj.getInstance<T>(nm)); break;
        case 1: obj(noName ? inj.getShared<B>() : inj.getShared<B>(nm)); break;
        case 2: { T d(new Plain<I>(DEF)); obj(noName ? inj.getShared<B>(d) : inj.getShared<B>(nm, d)); break; }
        case 3: { std::function<T ()> s = [&] { ++supplied; return T(new Plain<I>(DEF)); }; obj(noName ? inj.getShared<B>(s) : inj.getShared<B>(nm, s)); break; }
        default: obj(noName ? inj.getSharedOrNull<B>() : inj.getSharedOrNull<B>(nm)); } break; }
      case fCSha: { using B = const A<I>; using T = std::shared_ptr<B>; switch (how) {
        case 0: obj(noName ? inj.getInstance<T>() : inj.getInstance<T>(nm)); break;
        case 1: obj(noName ? inj.getShared<B>() : inj.getShared<B>(nm)); break;
        case 2: { T d(new Plain<I>(DEF)); obj(noName ? inj.getShared<B>(d) : inj.getShared<B>(nm, d)); break; }
        case 3: { std::function<T ()> s = [&] { ++supplied; return T(new Plain<I>(DEF)); }; obj(noName ? inj.getShared<B>(s) : inj.getShared<B>(nm, s)); break; }
        default: obj(noName ? inj.getSharedOrNull<B>() : inj.getSharedOrNull<B>(nm)); } break; }
      case fWeak: obj(inj.getInstance<std::weak_ptr<A<I>>>(nm).lock()); break;
      case fCWeak: obj(inj.getInstance<std::weak_ptr<const A<I>>>(nm).lock()); break;
      default: { // hasBinding
        bool got[5] = { inj.hasBinding<V<I>>(nm), inj.hasBinding<std::unique_ptr<A<I>>>(nm), inj.hasBinding<UD<I>>(nm), inj.hasBinding<A<I> &>(nm), inj.hasBinding<std::shared_ptr<A<I>>>(nm) };
        static const int fs[5] = { fVal, fUni, fUniD, fRef, fSha };
        Quiet q; for (int k = 0; k < 5; ++k) if (got[k] != (resolve(level, fs[k], I, n) >= 0)) sim::fail("has-binding", "hasBinding gave %d for a %s binding", got[k], metaNames[fs[k]]);
        return; }
    }
  }
  catch (const CtorError &) { thrown = true; }
  catch (const Exception::NoBindingException &) { none = true; }
  catch (const std::exception & e) { sim::fail("unexpected-exception", "a request threw %.200s", e.what()); }
  Quiet q;
  if (thrown != (W->threw[me] != 0)) sim::fail(thrown ? "foreign-exception" : "swallowed-exception", "a request %s", thrown ? "was given the construction error of another request" : "did not report a construction error");
  if (thrown) return;
  bool bound = want >= 0;
  if (none != (!bound && how <= 1)) sim::fail("no-binding", "form %d of a request for a %s binding %s", how, f < NMETA ? metaNames[f] : "weak", none ? "reported that there is none" : "did not report that there is none");
  if (isDefault != (!bound && (how == 2 || how == 3))) sim::fail("default-value", "form %d of a request for a %s binding that is %sbound %s the default", how, f < NMETA ? metaNames[f] : "weak", bound ? "" : "not ", isDefault ? "gave" : "did not give");
  if (supplied != (!bound && how == 3)) sim::fail("default-value", "the supplier of the default was called %d times", supplied);
  if (isNull != (!bound && how == 4)) sim::fail("null-instance", "form %d of a request gave %snull", how, isNull ? "" : "no ");
}
void request(int i, const Injector & inj, int level, int f, int n, int how, bool noName) {
  switch (i) { case 0: request<0>(inj, level, f, n, how, noName); break; case 1: request<1>(inj, level, f, n, how, noName); break; default: request<2>(inj, level, f, n, how, noName); }
}

void runBindings() {
  sim::swarm();
  W = new World(); World & w = *W; for (int & c : w.creating) c = -1;
  w.levels = (int) sim::rndRange(1, NL);
  // ---- generated bindings
  std::vector<int> perm; for (int p = 0; p < NMETA * NI; ++p) perm.push_back(p);
  for (size_t p = perm.size(); p > 1; --p) std::swap(perm[p - 1], perm[sim::rnd(p)]);
  for (int p = 0; p < NMETA * NI; ++p) for (int n = 0; n < NN; ++n) w.rank[p * NN + n] = perm[(size_t) p] * NN + n;
  double density = sim::chance(0.5) ? 0.25 : 0.6; int types = (int) sim::rndRange(1, NI);
  double depP = sim::chance(0.5) ? 0.3 : 0.6;
  for (int l = 0; l < w.levels; ++l) {
    w.extra[l] = sim::chance(0.5); w.nested[l] = w.extra[l] && sim::chance(0.5);
    int confs = w.nested[l] ? 4 : w.extra[l] ? 3 : 2;
    for (int c = 0; c < confs; ++c) w.regs[l][c] = (int) sim::rnd(2);
    for (int m = 0; m < NMETA; ++m) for (int i = 0; i < types; ++i) for (int n = 0; n < NN; ++n) if (sim::chance(density)) { Bnd & b = w.b[l][keyOf(m, i, n)]; b.present = true; b.kind = pickKind(m); b.conf = (int) sim::rnd((uint64_t) confs); }
    for (int k = 0; k < NK; ++k) { Bnd & b = w.b[l][k]; if (!b.present || !takesDeps(b.kind)) continue;
      int limit = k < NI * NN && b.kind == Inst ? w.rank[k] / NN * NN : w.rank[k];
      if (k < NI * NN && b.kind == Inst && k % NN == 1 && w.b[l][k - 1].present && w.b[l][k - 1].kind == Inst) { b.deps = w.b[l][k - 1].deps; continue; }
      for (int d = 0; d < 3; ++d) if (sim::chance(depP)) { Dep x { (int) sim::rnd(NF), (int) sim::rnd((uint64_t) types), (int) sim::rnd(NN) };
        if (x.f >= fShInj) { x.n = 0; if ((x.f == fShInj || x.f == fCShInj) && k / NN / NI >= Sha) x.f = fWInj; b.deps.push_back(x); continue; }
        int s = resolve(l, x.f, x.i, x.n); if (s >= 0 && (s / 64 < l || w.rank[s % 64] < limit)) b.deps.push_back(x); } }
  }
  // ---- plan of the creation attempts
  struct Attempt { int level; bool validate, vector, reuse; std::map<int, std::vector<Dep>> extra; std::vector<std::pair<int, int>> dups; };
  std::vector<Attempt> attempts;
  for (int l = 0; l < w.levels; ++l) {
    int n = (int) sim::rnd(4);
    for (int a = 0; a <= n; ++a) {
      Attempt x; x.level = l; x.validate = a < n && sim::chance(0.5); x.vector = sim::chance(0.4); x.reuse = sim::chance(0.7);
      std::vector<int> cand, any; for (int k = 0; k < NK; ++k) if (w.b[l][k].present) { any.push_back(k); if (takesDeps(w.b[l][k].kind)) cand.push_back(k); }
      bool defective = a < n && sim::chance(0.8); int kinds = defective ? (int) sim::rndRange(1, 2) : 0;
      for (int d = 0; d < kinds; ++d) {
        int what = (int) sim::rnd(4);
        if (what == 0 && !any.empty()) { int k = any[sim::rnd(any.size())]; x.dups.push_back({ k, (int) sim::rnd(w.nested[l] ? 4 : w.extra[l] ? 3 : 2) }); }
        else if (!cand.empty()) {
          int k = cand[sim::rnd(cand.size())]; Dep e { (int) sim::rnd(fShInj), (int) sim::rnd(NI), (int) sim::rnd(NN) };
          if (what == 1) e = { sim::chance(0.5) ? fShInj : fCShInj, 0, 0 };
          else if (what == 2) { // a dependency on a binding of the same level, which often closes a cycle
            std::vector<int> users; for (int u : cand) for (auto & dd : w.b[l][u].deps) { int s = resolve(l, dd.f, dd.i, dd.n); if (s >= 0 && s / 64 == l && takesDeps(w.b[l][s % 64].kind)) users.push_back(u * 64 + s % 64); }
            int t = k; if (!users.empty()) { int p = users[sim::rnd(users.size())]; k = p % 64; t = p / 64; }
            int m = t / NN / NI; e = { m == Sha && sim::chance(0.3) ? (int) fWeak : m == CSha && sim::chance(0.3) ? (int) fCWeak : m, t / NN % NI, t % NN }; }
          x.extra[k].push_back(e);
          if (k < NI * NN && w.b[l][k].kind == Inst) { int o = k ^ 1; if (w.b[l][o].present && w.b[l][o].kind == Inst) x.extra[o] = x.extra[k]; }
        }
      }
      if (a == n || sim::keepOp()) attempts.push_back(x);
    }
  }
  if (sim::chance(0.3)) for (int k = 0; k < 3; ++k) w.throwAt.insert((long) sim::rndRange(1, 25));
  int nt = (int) sim::rndRange(1, 3);
  struct Op { int i, level, f, n, how; bool noName, keep; };
  std::vector<std::vector<Op>> plan((size_t) nt);
  for (auto & p : plan) { int n = (int) sim::rndRange(4, 24); for (int o = 0; o < n; ++o) { Op x { (int) sim::rnd((uint64_t) std::min(NI, types + 1)), (int) sim::rnd((uint64_t) w.levels), (int) sim::rnd(fShInj + 1), (int) sim::rnd(NN), (int) sim::rnd(5), sim::chance(0.5), false }; x.keep = sim::keepOp(); p.push_back(x); } }
  bool useProto = sim::chance(0.3), dropRoot = sim::chance(0.5);

  // ---- creation
  std::vector<std::shared_ptr<Injector>> inj((size_t) w.levels); std::optional<Injector::ValidationParent> vp[NL];
  ConfSet confs[NL]; int me = sim::self();
  for (auto & at : attempts) {
    int l = at.level; if (l > 0 && !inj[(size_t) l - 1]) break;
    if (at.validate && l > 0 && !vp[l - 1]) continue;
    if (!confs[l].c[0] || !at.reuse) { if (confs[l].c[0]) for (auto & c : confs[l].c) w.keep.push_back(c); confs[l] = makeConfs(l); }
    auto forget = [&] { Quiet q;
      for (auto it = w.levelOf.begin(); it != w.levelOf.end(); ) { if (it->second == l) it = w.levelOf.erase(it); else ++it; }
      for (auto it = w.identity.begin(); it != w.identity.end(); ) { if (it->first / 64 == l && it->first % 64 / NN / NI >= Sha) it = w.identity.erase(it); else ++it; } };
    if (!at.validate && inj[(size_t) l]) { inj[(size_t) l].reset(); forget(); }
    for (int retry = 0; retry < 8; ++retry) {
      Expect e; size_t before; bool ok = false, ctorFailed = false; std::string got;
      { Quiet q; w.creating[me] = l; w.extraDeps = at.extra; w.dups = at.dups; w.validating = at.validate; ++w.attempt; w.threw[me] = 0; before = w.objs.size();
        e = expectation(l); w.postAllowed = e.ok() && !at.validate; if (!e.ok()) w.validating = true; // nothing may be constructed
        sim::note("%s level %d%s%s%s%s", at.validate ? "validates" : "creates", l, e.dup ? " (duplicate)" : "", e.missing ? " (missing)" : "", e.shared ? " (shared injector)" : "", e.cycle ? " (cycle)" : "");
        if (e.dup) sim::probe("duplicate binding"); else if (e.missing || e.shared) sim::probe(e.missing ? "missing dependency" : "shared injector dependency"); else if (e.cycle) sim::probe("cyclic dependency"); else if (at.validate) sim::probe("valid configuration validated"); }
      auto & c = confs[l].c;
      try {
        std::vector<std::shared_ptr<InjectorConfiguration>> v { c[0], c[1] };
        if (at.validate) {
          auto r = l == 0 ? (at.vector ? Injector::validate(v) : Injector::validate(*c[0], *c[1]))
                          : (at.vector ? Injector::validateChild(*vp[l - 1], v) : Injector::validateChild(*vp[l - 1], *c[0], *c[1]));
          vp[l] = r;
        } else {
          auto r = l == 0 ? (at.vector ? Injector::create(v) : Injector::create(*c[0], *c[1]))
                          : (at.vector ? inj[(size_t) l - 1]->createChild(v) : inj[(size_t) l - 1]->createChild(*c[0], *c[1]));
          if (e.ok()) inj[(size_t) l] = r;
        }
        ok = true;
      }
      catch (const CtorError &) { ctorFailed = true; }
      catch (const Exception::DuplicateBindingException &) { got = "DuplicateBindingException"; }
      catch (const Exception::MissingDependencyException &) { got = "MissingDependencyException"; }
      catch (const Exception::SharedInjectorException &) { got = "SharedInjectorException"; }
      catch (const Exception::CyclicDependencyException &) { got = "CyclicDependencyException"; }
      catch (const std::exception & x) { sim::fail("unexpected-exception", "injector creation or validation threw %.300s", x.what()); }
      Quiet q;
      w.creating[me] = -1; w.validating = false; w.postAllowed = false; w.extraDeps.clear(); w.dups.clear();
      if (ctorFailed) {
        if (!w.threw[me]) sim::fail("foreign-exception", "creation threw although nothing failed");
        for (size_t o = before; o < w.objs.size(); ++o) if (w.objs[o].alive && !w.objs[o].tl && w.objs[o].slot / 64 == l && w.objs[o].slot % 64 / NN / NI >= Sha) sim::fail("leak", "an object of a failed injector creation was not destroyed");
        forget();
        sim::probe("a constructor failed during injector creation");
        continue;
      }
      if (w.threw[me]) sim::fail("swallowed-exception", "a construction error was not reported");
      if (ok != e.ok()) sim::fail(ok ? "invalid-accepted" : "valid-rejected", ok ? "a configuration with%.0s%s was accepted" : "a configuration was rejected with %s although it is valid%s", got.c_str(), ok ? (e.dup ? " a duplicate binding" : e.missing ? " a missing dependency" : e.shared ? " a shared injector dependency" : " a cycle") : "");
      if (!ok) {
        bool match = (e.dup && got[0] == 'D') || (e.missing && got[0] == 'M') || (e.shared && got[0] == 'S') || (e.cycle && got[0] == 'C');
        if (!match) sim::fail("wrong-exception", "%s was thrown for a configuration with%s%s%s%s", got.c_str(), e.dup ? " a duplicate" : "", e.missing ? " a missing dependency" : "", e.shared ? " a shared injector dependency" : "", e.cycle ? " a cycle" : "");
      } else if (!at.validate) {
        w.levelOf[inj[(size_t) l].get()] = l; w.created.push_back(w.attempt);
        for (auto & p : w.post) if (p.attempt == w.attempt && p.runs != 1) sim::fail("callback-missing", "a post-construction call was not run");
        for (int k = 0; k < NK; ++k) { Bnd & b = w.b[l][k]; if (b.present && (b.kind == Eager || b.kind == EagerDel)) { bool have = false; for (auto & o : w.objs) have |= o.slot == slotOf(l, k) && o.alive; if (!have) sim::fail("eager-missing", "an eager singleton does not exist after injector creation"); } }
      }
      break;
    }
  }
  int levels = 0; while (levels < w.levels && inj[(size_t) levels]) ++levels;
  if (levels == 0) return;
  std::shared_ptr<Injector> proto;
  if (useProto && levels > 1) { proto = inj[(size_t) levels - 2]->createChild(inj[(size_t) levels - 1]); Quiet q; w.levelOf[proto.get()] = levels - 1; }
  std::vector<std::function<void ()>> bodies; std::vector<std::vector<std::shared_ptr<Injector>>> mine((size_t) nt, inj);
  for (int t = 0; t < nt; ++t) { if (proto && t == 0) mine[0][(size_t) levels - 1] = proto;
    bodies.push_back([&, t] { auto my = std::move(mine[(size_t) t]); for (auto & o : plan[(size_t) t]) if (o.keep && o.level < levels) { int l = o.level; if (dropRoot && t == 0) { l = levels - 1; for (int d = 0; d < l; ++d) my[(size_t) d].reset(); } request(o.i, *my[(size_t) l], l, o.f, o.n, o.how, o.noName); } }); }
  proto.reset(); for (auto & v : vp) v.reset();
  if (dropRoot) for (auto & i : inj) i.reset();
  hl::runThreads(bodies);
  for (auto it = inj.rbegin(); it != inj.rend(); ++it) it->reset();
  for (auto & c : confs) for (auto & x : c.c) x.reset();
  w.keep.clear();
  Quiet q;
  for (auto & p : w.pre) if (std::find(w.created.begin(), w.created.end(), p.attempt) != w.created.end() && p.runs != 1) sim::fail("callback-missing", "a pre-destruction call was not run");
  for (auto & o : w.objs) if (o.alive && !o.tl) sim::fail("leak", "an object of a %s binding was never destroyed", o.slot >= 0 ? metaNames[o.slot % 64 / NN / NI] : "default");
  sim::nontrivial();
}
}

SIM_SCENARIO(I04, bindings, 1, "1-3 generated injector levels (up to 42 bindings each: every meta-type and binding kind, dependencies of 13 forms, added and nested configurations, reused configuration objects) are validated and created in valid and defective variants, then 1-3 threads issue requests of every form; constructors fail in 30% of the runs; non-trivial: an injector was created and used") { runBindings(); }
