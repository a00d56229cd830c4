// I01 singletons, I02 thread-local singletons, I03 lifecycle callbacks: one simulated application built from
// a generated binding configuration (root, child and grandchild injectors, every binding kind), used by several threads.
#include <boost/thread/tss.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>
#include "../sim/hlib.h"
#include <algorithm>
#include <map>
#include <set>

using namespace Balau;
using sim::Quiet;

namespace {
constexpr int NT = 6;         // node types
constexpr int NL = 3;         // injector levels
constexpr int NAMES = 2;      // binding names
const char * const names[NAMES] = { "", "alternative binding name" };

enum Group { Shared, Unique, Value, Reference };
enum Kind { Lazy, Eager, ThreadLocal, Provided, ProvidedFn, ProviderClass, ProviderInstance, LazySelf, EagerDeleter,
            UniqueInst, UniqueFn, UniqueClass, UniqueInstance, ValueInst, ValueFn, ValueClass, ValueInstance, Prototype, Ref };
bool isSingleton(int k) { return k == Lazy || k == LazySelf || k == Eager || k == EagerDeleter || k == Provided || k == ProvidedFn || k == ProviderClass || k == ProviderInstance; }
bool isEager(int k) { return k == Eager || k == EagerDeleter || k == ProvidedFn || k == ProviderClass || k == ProviderInstance; }

struct CtorError : std::runtime_error { long n; explicit CtorError(long n_) : std::runtime_error("construction failed"), n(n_) {} };

struct Obj { int type = -1, level = -1, thread = -1; bool alive = true, provided = false; const void * addr = nullptr; uint64_t born = 0, died = 0; };

struct BindingInfo {
  bool present = false; int kind = 0;
  const void * identity = nullptr; // singletons
  std::map<int, const void *> perThread; // thread-local
};

struct PreReg { int id; uint64_t inv = 0, ret = 0; int runs = 0; uint64_t ranAt = 0; uint64_t seq = 0; };

struct World {
  int group[NT] = {}; std::vector<int> deps[NT];
  BindingInfo b[NL][NT][NAMES];
  int levels = 1;
  bool viaVector = false;
  std::vector<Obj> objs;
  int creating[sim::MAXT]; // level being created by the thread, -1 none
  std::map<const void *, int> levelOf;
  bool dead[NL] = {}; uint64_t destroyStart[NL] = {}, destroyEnd[NL] = {}; bool built[NL] = {};
  std::set<int> throwAt[NT]; int attempts[NT] = {};
  int threwInCall[sim::MAXT] = {};
  // callbacks
  std::map<int, PreReg> pre[NL]; std::vector<int> preRan[NL]; int nextReg = 0;
  std::map<int, PreReg> post[NL]; std::vector<int> postRan[NL];
  std::map<int, int> regsPerType; bool regFromCtor[NT] = {}; bool slowCtor[NT] = {}; int cfgPre[NL] = {}, cfgPost[NL] = {};
  bool statics[NL] = {}, staticViaInjector = false; int staticName[NL] = {};
  int liveDuringDestroy = 0;
  long regsFromThreads = 0, concurrentLazy = 0; std::map<std::pair<int,int>, int> inCtor; int singletonReqThreads[NL][NT][NAMES] = {};
} * W;

uint64_t g_seq; int g_epoch; // simulated thread numbers are reused after a thread has ended
int tid() { return sim::self() + g_epoch; }

bool unreachableDeadlock() { return false; }

// An object made by the injector or by a provider.
struct Base { virtual ~Base() = default; virtual const struct NodeCore & core() const = 0; };
struct NodeCore {
  long obj = -1; int type = 0; uint64_t magic = 0; int createdBy = -1;
  std::vector<std::pair<int, const void *>> deps; // (type, address) of the shared dependencies it was given
  std::vector<std::shared_ptr<void>> hold;
};
constexpr uint64_t MAGIC = 0xC0FFEE5EED5EEDull;

int levelOfInjector(const Injector * inj) {
  Quiet q; int me = sim::self();
  auto it = W->levelOf.find(inj);
  if (it != W->levelOf.end()) return it->second;
  if (W->creating[me] < 0) sim::fail("wrong-injector", "an object is being constructed with an injector that was never created");
  W->levelOf[inj] = W->creating[me];
  return W->creating[me];
}

template <int I> struct IBase : Base {};

template <int I> struct Node : IBase<I> {
  NodeCore c;
  const NodeCore & core() const override { return c; }
  Node(int level, bool provided, std::vector<std::pair<int, const void *>> deps = {}, std::vector<std::shared_ptr<void>> hold = {}) {
    {
      Quiet q;
      int me = sim::self();
      int n = ++W->attempts[I];
      sim::note("constructs a node %d for level %d (attempt %d)", I, level, n);
      if (W->inCtor[{level, I}]++) sim::probe("two constructions of one type overlap");
    }
    if (W->slowCtor[I]) sim::yield();
    {
      Quiet q;
      int me = sim::self();
      W->inCtor[{level, I}]--;
      if (W->throwAt[I].count(W->attempts[I])) {
        ++W->threwInCall[me]; sim::count(sim::F_USEREXC); sim::note("construction of node %d throws", I);
        throw CtorError(I);
      }
      Obj o; o.type = I; o.level = level; o.thread = me; o.addr = this; o.born = ++g_seq; o.provided = provided;
      c.obj = (long) W->objs.size(); W->objs.push_back(o);
      c.type = I; c.createdBy = tid(); c.deps = std::move(deps); c.hold = std::move(hold);
    }
    sim::payloadWrite(&c.magic);
    c.magic = MAGIC + (uint64_t) c.obj;
  }
  Node(const Node & o) : c() { // copies (value bindings)
    Quiet q; Obj x; x.type = I; x.level = -2; x.thread = sim::self(); x.addr = this; x.born = ++g_seq;
    c.obj = (long) W->objs.size(); W->objs.push_back(x); c.type = I; c.createdBy = tid(); c.deps = o.c.deps; c.hold = o.c.hold; c.magic = MAGIC + (uint64_t) c.obj;
  }
  ~Node() override {
    if (!sim::active()) return;
    Quiet q;
    if (c.obj < 0 || c.magic != MAGIC + (uint64_t) c.obj) sim::fail("bad-destruction", "a node %d that was never completely constructed is destroyed", I);
    Obj & o = W->objs[(size_t) c.obj];
    if (!o.alive) sim::fail("double-destruction", "node %d (object %ld) destroyed twice", I, c.obj);
    o.alive = false; o.died = ++g_seq; sim::note("destroys node %d (object %ld)", I, c.obj);
    c.magic = 0; c.hold.clear();
  }
  static Impl::BindingKey keyOf();
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys();
  static Node * BALAU_newHeapInstance(const Injector & inj);
  static Node BALAU_newStackInstance(const Injector & inj);
};

void checkShared(int level, int type, int name, const void * addr, const NodeCore & c, int me, const char * how);

// Type index dispatch.
struct TypeOps {
  Impl::BindingKey (*key)();
  void (*fetch)(const Injector & inj, int level, std::vector<std::pair<int, const void *>> & deps, std::vector<std::shared_ptr<void>> & hold);
};
extern TypeOps ops[NT];

std::vector<Impl::BindingKey> depKeys(int type) {
  std::vector<Impl::BindingKey> r;
  for (int d : W->deps[type]) r.push_back(ops[d].key());
  return r;
}

template <int I> Impl::BindingKey keyFn() {
  switch (W->group[I]) {
    case Shared: return Impl::CreateBindingKey<std::shared_ptr<IBase<I>>>()("");
    case Unique: return Impl::CreateBindingKey<std::unique_ptr<IBase<I>>>()("");
    case Value: return Impl::CreateBindingKey<Node<I>>()("");
    default: return Impl::CreateBindingKey<Node<I> &>()("");
  }
}

int resolve(int level, int type, int name) { for (int l = level; l >= 0; --l) if (W->b[l][type][name].present) return l; return -1; }

void checkFresh(int type, const NodeCore & c, const void * addr, int me) {
  Quiet q;
  if (c.type != type || c.magic != MAGIC + (uint64_t) c.obj) sim::fail("incomplete-object", "request for type %d gave an incompletely constructed or wrong object", type);
  (void) addr; (void) me;
}

template <int I> void fetchFn(const Injector & inj, int level, std::vector<std::pair<int, const void *>> & deps, std::vector<std::shared_ptr<void>> & hold) {
  switch (W->group[I]) {
    case Shared: { auto p = inj.getInstance<std::shared_ptr<IBase<I>>>(""); if (!p) sim::fail("null-instance", "the dependency of type %d is null", I);
      int rl; { Quiet q; rl = resolve(level, I, 0); }
      checkShared(rl, I, 0, static_cast<Node<I> *>(p.get()), p->core(), sim::self(), "dependency"); deps.push_back({ I, static_cast<Node<I> *>(p.get()) });
      int k = W->b[rl][I][0].kind; if (k != ThreadLocal) hold.push_back(p); break; }
    case Unique: { auto p = inj.getInstance<std::unique_ptr<IBase<I>>>(""); if (!p) sim::fail("null-instance", "the dependency of type %d is null", I); checkFresh(I, p->core(), p.get(), sim::self()); break; }
    case Value: { Node<I> v = inj.getInstance<Node<I>>(""); checkFresh(I, v.core(), &v, sim::self()); break; }
    default: { Node<I> & v = inj.getInstance<Node<I> &>(""); checkFresh(I, v.core(), &v, sim::self()); }
  }
}

TypeOps ops[NT] = {
  { &keyFn<0>, &fetchFn<0> }, { &keyFn<1>, &fetchFn<1> }, { &keyFn<2>, &fetchFn<2> },
  { &keyFn<3>, &fetchFn<3> }, { &keyFn<4>, &fetchFn<4> }, { &keyFn<5>, &fetchFn<5> } };

template <int I> std::vector<Impl::BindingKey> Node<I>::BALAU_getDependencyKeys() { return depKeys(I); }

void registerCalls(const Injector & inj, int level, bool fromCtor);

template <int I> Node<I> * Node<I>::BALAU_newHeapInstance(const Injector & inj) {
  int level = levelOfInjector(&inj);
  std::vector<std::pair<int, const void *>> deps; std::vector<std::shared_ptr<void>> hold;
  for (int d : W->deps[I]) ops[d].fetch(inj, level, deps, hold);
  if (W->regFromCtor[I]) registerCalls(inj, level, true);
  return new Node<I>(level, false, std::move(deps), std::move(hold));
}
template <int I> Node<I> Node<I>::BALAU_newStackInstance(const Injector & inj) {
  int level = levelOfInjector(&inj);
  std::vector<std::pair<int, const void *>> deps; std::vector<std::shared_ptr<void>> hold;
  for (int d : W->deps[I]) ops[d].fetch(inj, level, deps, hold);
  return Node<I>(level, false, std::move(deps), std::move(hold));
}

// Providers (class form). Its dependencies are those of the type.
template <int I, typename R> struct Provider {
  int level; std::vector<std::pair<int, const void *>> deps; std::vector<std::shared_ptr<void>> hold;
  static Provider * BALAU_newHeapInstance(const Injector & inj) {
    auto p = std::unique_ptr<Provider>(new Provider()); p->level = levelOfInjector(&inj);
    for (int d : W->deps[I]) ops[d].fetch(inj, p->level, p->deps, p->hold);
    return p.release();
  }
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return depKeys(I); }
  R operator () () const { return R(new Node<I>(level, false, deps, hold)); }
};
template <int I> struct ValueProvider {
  int level; std::vector<std::pair<int, const void *>> deps; std::vector<std::shared_ptr<void>> hold;
  static ValueProvider * BALAU_newHeapInstance(const Injector & inj) {
    auto p = std::unique_ptr<ValueProvider>(new ValueProvider()); p->level = levelOfInjector(&inj);
    for (int d : W->deps[I]) ops[d].fetch(inj, p->level, p->deps, p->hold);
    return p.release();
  }
  static std::vector<Impl::BindingKey> BALAU_getDependencyKeys() { return depKeys(I); }
  Node<I> operator () () const { return Node<I>(level, false, deps, hold); }
};
template <int I> struct Del { void operator () (IBase<I> * p) const { delete p; } };

// The identity of a shared instance.
void checkShared(int level, int type, int name, const void * addr, const NodeCore & c, int me, const char * how) {
  sim::payloadRead(&c.magic);
  Quiet q;
  BindingInfo & b = W->b[level][type][name];
  if (c.type != type || c.obj < 0 || c.magic != MAGIC + (uint64_t) c.obj) sim::fail("incomplete-object", "%s of type %d: an incompletely constructed or wrong object was given out", how, type);
  if (!W->objs[(size_t) c.obj].alive) sim::fail("dead-object", "%s of type %d: a destroyed object was given out", how, type);
  for (int l = 0; l < W->levels; ++l) for (int n = 0; n < NAMES; ++n) { BindingInfo & o = W->b[l][type][n];
    if (&o == &b || !o.present) continue;
    bool shared = o.identity == addr; for (auto & e : o.perThread) shared |= e.second == addr;
    if (shared) sim::fail("wrong-binding", "%s of type %d name \"%s\" at level %d gave the instance of another binding", how, type, names[name], level); }
  if (b.kind == ThreadLocal) {
    const void *& mine = b.perThread[tid()];
    if (mine && mine != addr) sim::fail("second-thread-local", "%s of thread-local type %d: this thread was given two different instances", how, type);
    for (auto & e : b.perThread) if (e.first != tid() && e.second == addr) sim::fail("shared-thread-local", "%s of thread-local type %d: the instance of another thread was given out", how, type);
    if (c.createdBy != tid()) sim::fail("shared-thread-local", "%s of thread-local type %d: the instance was created by another thread", how, type);
    if (!mine && b.perThread.size() > 1) sim::probe("thread-local used by several threads");
    mine = addr;
  } else {
    if (b.identity && b.identity != addr) sim::fail("second-singleton", "%s of singleton type %d: two different instances were given out", how, type);
    b.identity = addr;
  }
  for (auto & d : c.deps) { // its own dependencies are the binding's instances
    int ol = W->objs[(size_t) c.obj].level; if (ol < 0) continue;
    int rl = resolve(ol, d.first, 0); if (rl < 0) continue;
    BindingInfo & db = W->b[rl][d.first][0];
    if (db.kind == ThreadLocal ? (db.perThread.count(c.createdBy) && db.perThread[c.createdBy] != d.second) : db.identity != d.second)
      sim::fail("wrong-dependency", "%s of type %d holds a wrong instance of its dependency %d", how, type, d.first);
  }
}

// ---------------------------------------------------------------- callbacks
void preRun(int level, int id) {
  Quiet q;
  PreReg & r = W->pre[level][id];
  sim::note("pre-destruction call %d of level %d", id, level);
  if (!W->destroyStart[level]) sim::fail("early-callback", "a pre-destruction call of level %d was run before the injector's destruction", level);
  if (++r.runs > 1) sim::fail("callback-twice", "pre-destruction call %d was run twice", id);
  r.ranAt = ++g_seq;
  for (int o : W->preRan[level]) { PreReg & x = W->pre[level][o]; if (r.ret && r.ret < x.inv) sim::fail("callback-order", "pre-destruction call %d was registered before %d but run after it", id, o); }
  W->preRan[level].push_back(id);
  // no singleton of this injector is destroyed yet
  for (int t = 0; t < NT; ++t) for (int n = 0; n < NAMES; ++n) { BindingInfo & b = W->b[level][t][n];
    if (b.present && b.kind != ThreadLocal && b.identity) for (auto & o : W->objs) if (o.addr == b.identity && !o.alive) sim::fail("late-callback", "pre-destruction call %d was run after the singleton of type %d had been destroyed", id, t); }
}
void postRun(int level, int id, const Injector & inj) {
  Quiet q;
  PreReg & r = W->post[level][id];
  sim::note("post-construction call %d of level %d", id, level);
  auto it = W->levelOf.find(&inj);
  if (it != W->levelOf.end() && it->second != level) sim::fail("wrong-injector", "post-construction call %d of level %d was given another injector", id, level);
  if (W->built[level]) sim::fail("late-callback", "a post-construction call was run after the injector's creation had returned");
  if (++r.runs > 1) sim::fail("callback-twice", "post-construction call %d was run twice", id);
  for (int o : W->postRan[level]) { PreReg & x = W->post[level][o]; if (r.ret && r.ret < x.inv) sim::fail("callback-order", "post-construction call %d was registered before %d but run after it", id, o); }
  W->postRan[level].push_back(id);
  for (int t = 0; t < NT; ++t) { int eager = 0, have = 0; for (int n = 0; n < NAMES; ++n) eager += W->b[level][t][n].present && isEager(W->b[level][t][n].kind);
    for (auto & o : W->objs) have += o.type == t && o.level == level && o.alive;
    if (have < eager) sim::fail("early-callback", "post-construction call %d was run before the eager singleton of type %d existed", id, t); }
}
int newReg(std::map<int, PreReg> & m) { Quiet q; int id = W->nextReg++; m[id].id = id; m[id].inv = ++g_seq; return id; }
void registerPre(const Injector & inj, int level) {
  int id = newReg(W->pre[level]);
  inj.registerPreDestructionCall([level, id] { preRun(level, id); });
  Quiet q; W->pre[level][id].ret = ++g_seq; sim::note("registered pre-destruction call %d", id);
}
void registerPost(const Injector & inj, int level) {
  int id = newReg(W->post[level]);
  inj.registerPostConstructionCall([level, id] (const Injector & i) { postRun(level, id, i); });
  Quiet q; W->post[level][id].ret = ++g_seq;
}
void registerCalls(const Injector & inj, int level, bool) {
  bool building; { Quiet q; building = !W->built[level]; }
  registerPre(inj, level);
  if (building) registerPost(inj, level);
}

// ---------------------------------------------------------------- configuration
struct Statics { std::shared_ptr<IBase<0>> p[NL]; } * g_statics;

template <int I> struct BindOne;
struct Conf : ApplicationConfiguration {
  int level; bool second; // the second configuration holds the other half of the bindings
  explicit Conf(int l, bool s = false) : level(l), second(s) {}
  template <int I> void one() const {
    for (int n = 0; n < NAMES; ++n) {
      BindingInfo & bi = W->b[level][I][n];
      if (!bi.present || second != (((I + n) & 1) != 0)) continue;
      int l = level; const char * nm = names[n];
      switch (bi.kind) {
        case Lazy: bind<IBase<I>>(nm).template toSingleton<Node<I>>(); break;
        case LazySelf: bind<IBase<I>>(nm).template toSingleton<Node<I>, Del<I>>(); break;
        case Eager: bind<IBase<I>>(nm).template toEagerSingleton<Node<I>>(); break;
        case EagerDeleter: bind<IBase<I>>(nm).template toEagerSingleton<Node<I>, Del<I>>(); break;
        case ThreadLocal: bind<IBase<I>>(nm).template toThreadLocal<Node<I>>(); break;
        case Provided: bind<IBase<I>>(nm).toSingleton(std::shared_ptr<IBase<I>>(new Node<I>(l, true))); break;
        case ProvidedFn: bind<IBase<I>>(nm).toSingletonProvider([l] { return std::shared_ptr<IBase<I>>(new Node<I>(l, false)); }); break;
        case ProviderClass: bind<IBase<I>>(nm).template toSingletonProvider<Provider<I, std::shared_ptr<IBase<I>>>>(); break;
        case ProviderInstance: { using P = Provider<I, std::shared_ptr<IBase<I>>>; auto p = std::make_shared<P>(); p->level = l; bind<IBase<I>>(nm).toSingletonProvider(p); break; }
        case UniqueInst: bind<IBase<I>>(nm).template toUnique<Node<I>>(); break;
        case UniqueFn: bind<IBase<I>>(nm).toUniqueProvider([l] { return std::unique_ptr<IBase<I>>(new Node<I>(l, false)); }); break;
        case UniqueClass: bind<IBase<I>>(nm).template toUniqueProvider<Provider<I, std::unique_ptr<IBase<I>>>>(); break;
        case UniqueInstance: { using P = Provider<I, std::unique_ptr<IBase<I>>>; auto p = std::make_shared<P>(); p->level = l; bind<IBase<I>>(nm).toUniqueProvider(p); break; }
        case ValueInst: bind<Node<I>>(nm).toValue(); break;
        case ValueFn: bind<Node<I>>(nm).toValueProvider([l] { return Node<I>(l, false); }); break;
        case ValueClass: bind<Node<I>>(nm).template toValueProvider<ValueProvider<I>>(); break;
        case ValueInstance: { auto p = std::make_shared<ValueProvider<I>>(); p->level = l; bind<Node<I>>(nm).toValueProvider(p); break; }
        case Prototype: bind<Node<I>>(nm).toValue(Node<I>(l, true)); break;
        case Ref: { auto * p = new Node<I>(l, true); { Quiet q; bi.identity = p; } refs->push_back(std::shared_ptr<void>(p, [] (void * x) { delete (Node<I> *) x; })); bind<Node<I>>(nm).toReference(*p); break; }
      }
    }
  }
  std::vector<std::shared_ptr<void>> * refs = nullptr;
  void configure() const override {
    one<0>(); one<1>(); one<2>(); one<3>(); one<4>(); one<5>();
    int l = level;
    if (second) return;
    for (int i = 0; i < W->cfgPre[level]; ++i) { int id = newReg(W->pre[level]); registerPreDestructionCall([l, id] { preRun(l, id); }); Quiet q; W->pre[level][id].ret = ++g_seq; }
    for (int i = 0; i < W->cfgPost[level]; ++i) { int id = newReg(W->post[level]); registerPostConstructionCall([l, id] (const Injector & i2) { postRun(l, id, i2); }); Quiet q; W->post[level][id].ret = ++g_seq; }
    if (W->statics[level] && !W->staticViaInjector) registerStaticSingleton<IBase<0>>(&g_statics->p[level], std::string(names[W->staticName[level]]));
    if (W->statics[level] && W->staticViaInjector) registerPostConstructionCall([l] (const Injector & i2) { i2.registerStaticSingleton<IBase<0>>(&g_statics->p[l], std::string(names[W->staticName[l]])); });
  }
};

int pickKind(int group, bool hasDeps) {
  switch (group) {
    case Shared: { static const int k[] = { Lazy, Lazy, Lazy, LazySelf, Eager, EagerDeleter, ThreadLocal, ThreadLocal, Provided, ProvidedFn, ProviderClass, ProviderInstance };
      for (;;) { int x = k[sim::rnd(12)]; if (hasDeps && (x == Provided || x == ProvidedFn || x == ProviderInstance)) continue; return x; } }
    case Unique: { static const int k[] = { UniqueInst, UniqueInst, UniqueFn, UniqueClass, UniqueInstance }; for (;;) { int x = k[sim::rnd(5)]; if (hasDeps && (x == UniqueFn || x == UniqueInstance)) continue; return x; } }
    case Value: { static const int k[] = { ValueInst, ValueInst, ValueFn, ValueClass, ValueInstance, Prototype }; for (;;) { int x = k[sim::rnd(6)]; if (hasDeps && x != ValueInst && x != ValueClass) continue; return x; } }
    default: return Ref;
  }
}

// One direct request by a thread. Returns true when it failed with a construction error.
template <int I> bool request(const Injector & inj, int level, int name, int how) {
  int me = sim::self(); int rl; { Quiet q; rl = resolve(level, I, name); W->threwInCall[me] = 0; sim::note("requests type %d name \"%s\" from level %d", I, names[name], level); }
  std::string nm = names[name];
  bool threw = false;
  try {
    switch (W->group[I]) {
      case Shared: {
        std::shared_ptr<IBase<I>> p;
        if (how == 0 || rl < 0) p = inj.getSharedOrNull<IBase<I>>(nm);
        else if (how == 1) p = inj.getInstance<std::shared_ptr<IBase<I>>>(nm);
        else if (how == 2) { auto w = inj.getInstance<std::weak_ptr<IBase<I>>>(nm); p = w.lock(); if (!p) sim::fail("null-instance", "the weak pointer to a bound singleton of type %d has expired", I); }
        else if (how == 3) { auto cp = inj.getShared<const IBase<I>>(nm); p = std::const_pointer_cast<IBase<I>>(cp); }
        else if (how == 4) p = inj.getShared<IBase<I>>(nm, std::function<std::shared_ptr<IBase<I>> ()>([] { return std::shared_ptr<IBase<I>>(); }));
        else p = inj.getShared<IBase<I>>(nm);
        if (rl < 0) { if (p) sim::fail("unbound-instance", "a request for an unbound name gave an instance"); return false; }
        if (!p) sim::fail("null-instance", "request for bound type %d gave null", I);
        if (W->b[rl][I][name].kind != ThreadLocal) { Quiet q; W->singletonReqThreads[rl][I][name] |= 1 << me; }
        checkShared(rl, I, name, static_cast<Node<I> *>(p.get()), p->core(), me, "request");
        break; }
      case Unique: {
        if (rl < 0) return false;
        auto p = how == 1 ? inj.getInstance<std::unique_ptr<IBase<I>>>(nm) : inj.getUnique<IBase<I>>(nm);
        if (!p) sim::fail("null-instance", "request for bound type %d gave null", I);
        checkFresh(I, p->core(), p.get(), me);
        if (p->core().createdBy != tid()) sim::fail("not-fresh", "a unique pointer request was given an object created by another thread's request");
        Quiet q; if (W->objs[(size_t) p->core().obj].level != rl) sim::fail("wrong-binding", "unique pointer of type %d comes from the wrong binding", I);
        break; }
      case Value: {
        if (rl < 0) return false;
        Node<I> v = how == 1 ? inj.getInstance<Node<I>>(nm) : inj.getValue<Node<I>>(nm);
        checkFresh(I, v.core(), &v, me);
        if (v.core().createdBy != tid()) sim::fail("not-fresh", "a value request was given an object created by another thread's request");
        break; }
      default: {
        if (rl < 0) return false;
        Node<I> & v = how == 1 ? inj.getInstance<Node<I> &>(nm) : inj.getReference<Node<I>>(nm);
        Quiet q; if (&v != W->b[rl][I][name].identity) sim::fail("wrong-binding", "the reference of type %d is not the bound one", I); }
    }
  } catch (const CtorError & e) { threw = true; Quiet q; sim::note("request failed"); if (!W->threwInCall[me]) sim::fail("foreign-exception", "a request was given the construction error of another request"); }
  catch (const std::exception & e) { sim::fail("unexpected-exception", "request for type %d threw %.200s", I, e.what()); }
  Quiet q;
  if (!threw && W->threwInCall[me]) sim::fail("swallowed-exception", "a construction error was not reported to the requester");
  return threw;
}
bool request(int type, const Injector & inj, int level, int name, int how) {
  switch (type) { case 0: return request<0>(inj, level, name, how); case 1: return request<1>(inj, level, name, how); case 2: return request<2>(inj, level, name, how);
    case 3: return request<3>(inj, level, name, how); case 4: return request<4>(inj, level, name, how); default: return request<5>(inj, level, name, how); }
}
template <int I> void iterateType(const Injector & inj, int level, bool tl) {
  if (W->group[I] != Shared) return;
  int me = sim::self(); std::vector<std::pair<const void *, const NodeCore *>> seen;
  { Quiet q; W->threwInCall[me] = 0; }
  try { inj.iterate<IBase<I>>(std::function<void (std::shared_ptr<IBase<I>>)>([&] (std::shared_ptr<IBase<I>> p) { if (!p) sim::fail("null-instance", "iteration gave null"); sim::payloadRead(&p->core().magic); Quiet q; seen.push_back({ static_cast<Node<I> *>(p.get()), &p->core() }); }), tl); }
  catch (const CtorError &) { Quiet q; if (!W->threwInCall[me]) sim::fail("foreign-exception", "an iteration was given the construction error of another request"); return; }
  Quiet q; size_t expect = 0;
  for (int n = 0; n < NAMES; ++n) { BindingInfo & b = W->b[level][I][n]; if (b.present && (tl || b.kind != ThreadLocal)) { ++expect;
    const void * id = b.kind == ThreadLocal ? (b.perThread.count(tid()) ? b.perThread[tid()] : nullptr) : b.identity;
    if (id) { bool f = false; for (auto & s : seen) f |= s.first == id; if (!f) sim::fail("second-singleton", "iteration over type %d does not give the binding's instance", I); } } }
  if (seen.size() != expect) sim::fail("iteration", "iteration over type %d gave %zu instances for %zu bindings", I, seen.size(), expect);
}

long countObjs(int level, int type) { long n = 0; for (auto & o : W->objs) n += o.type == type && o.level == level; return n; }

void expectedAtCreation(int level) {
  Quiet q;
  // types needed transitively by the eager bindings
  bool need[NT] = {};
  std::function<void (int)> mark = [&] (int t) { for (int d : W->deps[t]) if (!need[d]) { need[d] = true; mark(d); } };
  if (W->statics[level]) mark(0);
  for (int t = 0; t < NT; ++t) for (int n = 0; n < NAMES; ++n) { BindingInfo & b = W->b[level][t][n];
    if (b.present && (b.kind == Eager || b.kind == EagerDeleter || b.kind == ProviderClass || b.kind == UniqueClass || b.kind == ValueClass)) mark(t); }
  for (int t = 0; t < NT; ++t) {
    if (W->group[t] != Shared) continue;
    long lo = 0, hi = 0;
    for (int n = 0; n < NAMES; ++n) { BindingInfo & b = W->b[level][t][n]; if (!b.present) continue;
      if (isEager(b.kind) || b.kind == Provided || (t == 0 && n == W->staticName[level] && W->statics[level])) { ++lo; ++hi; }
      else if (n == 0 && need[t]) { ++lo; ++hi; } }
    long have = countObjs(level, t);
    if (have < lo) sim::fail("eager-missing", "after the creation of level %d there are %ld instances of type %d instead of %ld", level, have, t, lo);
    if (have > hi) sim::fail("lazy-early", "after the creation of level %d there are %ld instances of type %d instead of %ld", level, have, t, hi);
  }
}

void runApp(bool focusTL, bool focusCallbacks) {
  sim::swarm();
  World w; W = &w; g_seq = 0; g_epoch = 0; for (int & c : w.creating) c = -1;
  Statics st; g_statics = &st;
  std::vector<std::shared_ptr<void>> refs;
  // ---- generated configuration
  w.levels = (int) sim::rndRange(1, NL);
  int nTypes = (int) sim::rndRange(2, NT);
  bool faulty = sim::chance(0.4);
  for (int t = 0; t < NT; ++t) {
    w.group[t] = sim::chance(0.72) ? Shared : sim::chance(0.4) ? Unique : sim::chance(0.7) ? Value : Reference;
    if (t == 0) w.group[t] = Shared;
    if (t < nTypes && w.group[t] != Reference) for (int d = 0; d < t; ++d) if (sim::chance(0.35)) w.deps[t].push_back(d);
    if (faulty) for (int k = 1; k <= 4; ++k) if (sim::chance(0.25)) w.throwAt[t].insert(k);
    w.slowCtor[t] = sim::chance(0.3);
    w.regFromCtor[t] = sim::chance(focusCallbacks ? 0.6 : 0.15);
  }
  for (int l = 0; l < w.levels; ++l) {
    for (int t = 0; t < nTypes; ++t) if (l == 0 || sim::chance(0.5)) w.b[l][t][0].present = true;
    for (int t = nTypes - 1; t >= 0; --t) if (w.b[l][t][0].present) for (int d : w.deps[t]) w.b[l][d][0].present = true;
    for (int t = 0; t < nTypes; ++t) if (w.b[l][t][0].present && sim::chance(0.25)) w.b[l][t][1].present = true;
    for (int t = 0; t < nTypes; ++t) for (int n = 0; n < NAMES; ++n) if (w.b[l][t][n].present) { int k = pickKind(w.group[t], !w.deps[t].empty()); if (focusTL && w.group[t] == Shared && sim::chance(0.6)) k = ThreadLocal; w.b[l][t][n].kind = k; }
    w.cfgPre[l] = (int) sim::rnd(3); w.cfgPost[l] = (int) sim::rnd(3);
    w.staticName[l] = w.b[l][0][1].present && sim::chance(0.5) ? 1 : 0;
    w.statics[l] = sim::chance(0.4) && w.b[l][0][0].present && w.b[l][0][w.staticName[l]].kind != ThreadLocal;
  }
  w.viaVector = sim::chance(0.3); w.staticViaInjector = sim::chance(0.5);
  bool prototypeChild = sim::chance(0.3);
  int nt = (int) sim::rndRange(2, 5);
  struct Op { int what, type, name, level, how; bool keep; };
  std::vector<std::vector<Op>> plan((size_t) nt);
  int maxOps = (int) sim::rndRange(2, 7);
  int hot = (int) sim::rnd((uint64_t) nTypes); bool useHot = sim::chance(0.5);
  for (auto & p : plan) { int n = (int) sim::rndRange(1, maxOps); for (int i = 0; i < n; ++i) {
    Op o; o.what = sim::chance(focusCallbacks ? 0.5 : 0.1) ? 1 : sim::chance(0.08) ? 2 : sim::chance(0.05) ? 3 : 0;
    o.type = useHot && sim::chance(0.6) ? hot : (int) sim::rnd((uint64_t) nTypes); o.name = sim::chance(0.8) ? 0 : 1; o.level = (int) sim::rnd((uint64_t) w.levels); o.how = (int) sim::rnd(6); o.keep = sim::keepOp(); p.push_back(o); } }
  bool lastOwnerThread = sim::chance(0.4);

  // ---- creation (retried when a constructor throws)
  std::vector<std::shared_ptr<Injector>> inj((size_t) w.levels);
  auto create = [&] (int l) {
    auto mk = [&] {
      Conf a(l), b(l, true); a.refs = b.refs = &refs;
      if (w.viaVector) {
        std::vector<std::shared_ptr<InjectorConfiguration>> v; auto pa = std::make_shared<Conf>(l), pb = std::make_shared<Conf>(l, true); pa->refs = pb->refs = &refs; v.push_back(pa); v.push_back(pb);
        return l == 0 ? Injector::create(v) : inj[(size_t) l - 1]->createChild(v);
      }
      return l == 0 ? Injector::create(a, b) : inj[(size_t) l - 1]->createChild(a, b);
    };
    for (int attempt = 0; attempt < 40; ++attempt) {
      int me = sim::self();
      { Quiet q; w.creating[me] = l; w.threwInCall[me] = 0; sim::note("creates the injector of level %d", l); w.destroyStart[l] = ++g_seq; w.pre[l].clear(); w.post[l].clear(); w.preRan[l].clear(); w.postRan[l].clear(); }
      size_t before = w.objs.size();
      try {
        inj[(size_t) l] = mk();
        Quiet q;
        w.creating[me] = -1; w.built[l] = true; w.destroyStart[l] = 0; w.levelOf[inj[(size_t) l].get()] = l;
        if (w.threwInCall[me]) sim::fail("swallowed-exception", "the injector was created although a construction failed");
        for (auto & p : w.post[l]) if (p.second.runs != 1) sim::fail("callback-missing", "post-construction call %d of level %d was not run", p.first, l);
        if (!w.preRan[l].empty()) sim::fail("early-callback", "a pre-destruction call was run during injector creation");
        for (size_t i = 0; i < before; ++i) if (w.objs[i].level == l && w.objs[i].alive) sim::fail("leak", "an object of a failed injector creation was not destroyed");
        for (size_t i = 0; i < before; ++i) if (w.objs[i].level == l) w.objs[i].level = -3;
        expectedAtCreation(l);
        if (w.statics[l]) { auto & b = w.b[l][0][w.staticName[l]]; const void * s = st.p[l] ? static_cast<Node<0> *>(st.p[l].get()) : nullptr;
          if (!s) sim::fail("static-singleton", "the static singleton pointer is not set after injector creation");
          if (b.identity && b.identity != s) sim::fail("static-singleton", "the static singleton pointer is not the binding's instance"); b.identity = s; }
        return true;
      } catch (const CtorError &) {
        Quiet q; w.creating[me] = -1; sim::probe("injector creation failed");
        if (!w.threwInCall[me]) sim::fail("foreign-exception", "injector creation threw although nothing failed");
        if (!w.postRan[l].empty()) { bool viaPost = w.statics[l]; if (!viaPost) sim::fail("callback-on-failure", "post-construction call %d was run although injector creation failed", w.postRan[l][0]); }
        for (auto & p : w.pre[l]) if (p.second.runs > 1) sim::fail("callback-twice", "pre-destruction call run twice");
        for (auto it = w.levelOf.begin(); it != w.levelOf.end(); ) { if (it->second == l) it = w.levelOf.erase(it); else ++it; }
        for (int t = 0; t < NT; ++t) for (int n = 0; n < NAMES; ++n) { w.b[l][t][n].identity = nullptr; w.b[l][t][n].perThread.clear(); }
        st.p[l].reset();
        refs.clear();
        // objects of earlier levels live on; those of this level have to be gone (thread-local ones may live until their thread ends)
      } catch (const std::exception & e) { sim::fail("unexpected-exception", "injector creation threw %.300s", e.what()); }
    }
    return false;
  };
  std::vector<std::vector<std::shared_ptr<void>>> refsOf((size_t) NL);
  auto createAll = [&] { for (int l = 0; l < w.levels; ++l) { refs.clear(); if (!create(l)) { w.levels = l; break; } refsOf[(size_t) l] = refs; } };
  // a thread that outlives the injector keeps its thread-local instances until it ends, thus creation is done by a thread that ends
  if (lastOwnerThread) { hl::runThreads({ createAll }); g_epoch = 100; } else createAll();
  inj.resize((size_t) w.levels);
  if (w.levels == 0) return;
  std::shared_ptr<Injector> proto;
  if (prototypeChild && w.levels > 1) { proto = inj[0]->createChild(inj[(size_t) w.levels - 1]); }
  // ---- use
  auto root = inj;
  std::vector<std::shared_ptr<Injector>> release(1);
  auto body = [&] (int t, std::vector<std::shared_ptr<Injector>> my) {
    for (auto & o : plan[(size_t) t]) {
      if (!o.keep) continue;
      int l = o.level >= w.levels ? 0 : o.level;
      if (o.what == 0) request(o.type, *my[(size_t) l], l, o.name, o.how);
      else if (o.what == 1) { { Quiet q; ++w.regsFromThreads; } registerPre(*my[(size_t) l], l); }
      else if (o.what == 2) { switch (o.type % 3) { case 0: iterateType<0>(*my[(size_t) l], l, o.how & 1); break; case 1: iterateType<1>(*my[(size_t) l], l, o.how & 1); break; default: iterateType<2>(*my[(size_t) l], l, o.how & 1); } }
      else { bool hb; switch (o.type % 2) { case 0: hb = w.group[0] == Shared && my[(size_t) l]->hasBinding<std::shared_ptr<IBase<0>>>(names[o.name]); if (w.group[0] == Shared && hb != (resolve(l, 0, o.name) >= 0)) sim::fail("has-binding", "hasBinding disagrees with the configuration"); break;
          default: hb = w.group[1] == Shared && my[(size_t) l]->hasBinding<std::shared_ptr<IBase<1>>>(names[o.name]); if (w.group[1] == Shared && hb != (resolve(l, 1, o.name) >= 0)) sim::fail("has-binding", "hasBinding disagrees with the configuration"); } }
    }
    if (lastOwnerThread) { // the last thread to get here destroys the hierarchy
      for (int l = w.levels - 1; l >= 0; --l) {
        bool last; { Quiet q; last = my[(size_t) l].use_count() == 1; if (last) w.destroyStart[l] = ++g_seq; }
        my[(size_t) l].reset();
      }
    }
  };
  {
    std::vector<std::function<void ()>> bodies;
    std::vector<std::vector<std::shared_ptr<Injector>>> copies((size_t) nt, inj);
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { auto mine = std::move(copies[(size_t) t]); body(t, std::move(mine)); });
    if (proto) { // the prototype's injector shares the bindings
      int l = w.levels - 1;
      for (int t = 0; t < NT; ++t) if (w.b[l][t][0].present && isSingleton(w.b[l][t][0].kind) && w.b[l][t][0].kind != Lazy && w.b[l][t][0].kind != LazySelf) request(t, *proto, l, 0, 1);
      proto.reset();
    }
    if (lastOwnerThread) { for (int l = 0; l < w.levels; ++l) { Quiet q; w.destroyStart[l] = ++g_seq; } root.clear(); inj.assign((size_t) w.levels, nullptr); sim::probe("destroyed by a worker thread"); }
    hl::runThreads(bodies);
  }
  root.clear();
  // ---- destruction, children first
  for (int l = w.levels - 1; l >= 0; --l) {
    { Quiet q; w.destroyStart[l] = ++g_seq; sim::note("destroys level %d", l); }
    inj[(size_t) l].reset();
  }
  Quiet q;
  int multi = 0;
  for (int l = 0; l < w.levels; ++l) {
    for (auto & p : w.pre[l]) if (p.second.runs != 1) sim::fail("callback-missing", "pre-destruction call %d of level %d was not run by the injector's destruction", p.first, l);
    if (w.statics[l] && st.p[l]) sim::fail("static-singleton", "the static singleton pointer is still set after the injector's destruction");
    refsOf[(size_t) l].clear();
    for (int t = 0; t < NT; ++t) {
      if (w.group[t] != Shared) continue;
      long maxN = 0;
      for (int n = 0; n < NAMES; ++n) { BindingInfo & b = w.b[l][t][n]; if (!b.present) continue; if (b.kind == ThreadLocal) maxN += nt + 1; else ++maxN;
        if (__builtin_popcount((unsigned) w.singletonReqThreads[l][t][n]) > 1) { ++multi; if (b.kind == Lazy || b.kind == LazySelf) sim::probe("lazy singleton requested by several threads"); } }
      long have = countObjs(l, t);
      if (have > maxN) sim::fail("second-singleton", "%ld instances of type %d were constructed at level %d for %ld", have, t, l, maxN);
    }
  }
  refs.clear();
  for (auto & o : w.objs) if (o.alive) sim::fail("leak", "an instance of type %d (level %d) was never destroyed", o.type, o.level);
  if (multi || w.regsFromThreads > 1) sim::nontrivial();
}
}

#define RULE "2-5 threads request, iterate and register on 1-3 generated injector levels (2-6 types, every binding kind, failing constructors in 40% of the runs), destroyed by the main or the last thread; non-trivial: several threads requested one singleton or registered calls"
SIM_SCENARIO(I01, singletons, 3, RULE) { runApp(false, false); }
SIM_SCENARIO(I02, threadlocals, 2, RULE) { runApp(true, false); }
SIM_SCENARIO(I03, callbacks, 2, RULE) { runApp(false, true); }
