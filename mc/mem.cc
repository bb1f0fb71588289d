// C14: operation cache; C15: hash and unique tables; C16: temporary memory.
#include <algorithm>
#include <list>
#include <memory>

#include "mc.hh"
#include "sdd/mem/cache.hh"
#include "sdd/mem/hash_table.hh"
#include "sdd/mem/linear_alloc.hh"
#include "sdd/mem/unique.hh"
#include "sdd/mem/unique_table.hh"
#include "sdd/mem/ptr.hh"
#include "sdd/util/next_power.hh"

using namespace mc;

namespace {

std::size_t
hash_of(unsigned v, unsigned kind)
{
  switch (kind)
  {
    case 0: return v;                                   // no collision in large tables
    case 1: return 0;                                   // everything collides
    case 2: return v % 2;                               // two groups
    case 3: return std::size_t(v) << 62;                // differ by the highest bits only
    default: return ~std::size_t(0) - 3 * v;
  }
}
unsigned hash_kind = 0;

/*------------------------------------------------------------------------------------------------*/
// Cache

int live_ops = 0, live_results = 0;

struct result
{
  unsigned v; std::unique_ptr<unsigned> p;
  result(unsigned x) : v(x), p(new unsigned(x)) { ++live_results; }
  result(const result& o) : v(o.v), p(new unsigned(*o.p)) { ++live_results; }
  result(result&& o) : v(o.v), p(std::move(o.p)) { ++live_results; }
  ~result() { --live_results; }
};

struct operation;
struct fault {};

struct filter { bool operator()(const operation&) const; };

struct context
{
  std::vector<unsigned> evaluated;
  std::set<unsigned> failing;
  unsigned nested_at = ~0u, nested_op = 0; // evaluating nested_at looks nested_op up
  sdd::mem::cache<context, operation, filter>* c = nullptr;
};

struct operation
{
  unsigned id; std::unique_ptr<unsigned> p;
  operation(unsigned i) : id(i), p(new unsigned(i)) { ++live_ops; }
  operation(operation&& o) : id(o.id), p(std::move(o.p)) { ++live_ops; }
  ~operation() { --live_ops; }
  result operator()(context& c) const;
  friend bool operator==(const operation& l, const operation& r) { return *l.p == *r.p; }
};

constexpr unsigned filtered_id = 1 << 20;
bool filter::operator()(const operation& o) const { return o.id < filtered_id; }

} // namespace

namespace std {
template <> struct hash<operation> { std::size_t operator()(const operation& o) const noexcept { return hash_of(o.id, hash_kind); } };
}

namespace {

unsigned value_of_op(unsigned id) { return 1000 + 7 * id; }

result
operation::operator()(context& c) const
{
  c.evaluated.push_back(id);
  if (id == c.nested_at)
  {
    const result r = (*c.c)(operation(c.nested_op));
    MC_CHECK(r.v == value_of_op(c.nested_op) && *r.p == r.v, "nested lookup of " << c.nested_op);
  }
  if (c.failing.count(id)) throw fault{};
  return result(value_of_op(*p));
}

struct cache_model
{
  std::size_t cap;
  std::list<unsigned> lru; // front: oldest
  std::size_t hits = 0, misses = 0, filtered = 0, discarded = 0;
  std::vector<unsigned> evaluated;

  bool // false: fault
  lookup(unsigned id, const context& c)
  {
    if (id >= filtered_id) { ++filtered; evaluated.push_back(id); return evaluate(id, c); }
    const auto it = std::find(lru.begin(), lru.end(), id);
    if (it != lru.end()) { ++hits; lru.splice(lru.end(), lru, it); return true; }
    ++misses;
    evaluated.push_back(id);
    if (!evaluate(id, c)) return false;
    if (lru.size() == cap) { lru.pop_front(); ++discarded; }
    lru.push_back(id);
    return true;
  }
  bool
  evaluate(unsigned id, const context& c)
  {
    if (id == c.nested_at && !lookup(c.nested_op, c)) return false;
    return !c.failing.count(id);
  }
};

using cache_t = sdd::mem::cache<context, operation, filter>;

std::size_t
capacity(std::size_t size)
{
  context cxt; cache_t c(cxt, size); cxt.c = &c;
  unsigned i = 0;
  for (; i < 4 * size + 8; ++i)
  {
    c(operation(i));
    if (c.statistics().discarded) break;
  }
  MC_CHECK(c.statistics().discarded == 1, "a cache of " << size << " entries never discards");
  return i;
}

// Every sequence over: lookups of n operations, failing lookups, a filtered operation, clear.
void
caches(std::size_t size, unsigned n, unsigned depth, unsigned hk, bool with_faults, bool nested, unsigned part = 0, unsigned parts = 1)
{
  hash_kind = hk;
  const std::size_t cap = capacity(size);
  MC_CHECK(cap >= 1 && cap <= 2 * size + 1, "capacity " << cap << " of a cache of " << size);
  st().extra["capacity_max"] = cap;
  const auto b0 = live_bytes();
  const unsigned alpha = n + (with_faults ? n + 2 : 0) + 2;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  std::vector<unsigned> last;
  for (std::uint64_t code = part; code < total; code += parts)
  {
    {
      context cxt; cache_t c(cxt, size); cxt.c = &c;
      if (nested) { cxt.nested_at = 0; cxt.nested_op = 1; }
      cache_model m{cap, {}};
      std::uint64_t x = code; last.clear();
      where() = "cache(" + std::to_string(size) + ") hash " + std::to_string(hk) + " sequence";
      for (unsigned d = 0; d < depth; ++d, x /= alpha)
      {
        unsigned op = x % alpha;
        last.push_back(op);
        where() += " " + std::to_string(op);
        cxt.evaluated.clear(); m.evaluated.clear(); cxt.failing.clear();
        if (op == 0) { c.clear(); m.lru.clear(); }
        else
        {
          unsigned id;
          if (op == 1) id = filtered_id;
          else if (op < n + 2) id = op - 2;
          else if (op < 2 * n + 2) { id = op - n - 2; cxt.failing.insert(id); }
          else if (op == 2 * n + 2) { id = filtered_id; cxt.failing.insert(id); }
          else { id = 0; cxt.failing.insert(1); } // the nested lookup fails
          bool thrown = false, ok = m.lookup(id, cxt);
          try
          {
            const result r = c(operation(id));
            MC_CHECK(r.v == value_of_op(id) && *r.p == r.v, "lookup of " << id << " gives " << r.v);
          }
          catch (const fault&) { thrown = true; }
          MC_CHECK(thrown == !ok, "exception");
          MC_CHECK(cxt.evaluated == m.evaluated, "evaluations: " << cxt.evaluated.size() << " instead of " << m.evaluated.size());
        }
        MC_CHECK(c.size() == m.lru.size(), "size " << c.size() << " instead of " << m.lru.size());
        MC_CHECK(live_ops == int(m.lru.size()) && live_results == int(m.lru.size()), "stored " << live_ops << " operations, " << live_results << " results");
        const auto& s = c.statistics();
        MC_CHECK(s.size == m.lru.size() && s.hits == m.hits && s.misses == m.misses && s.filtered == m.filtered && s.discarded == m.discarded, "statistics");
        MC_CHECK(s.collisions + s.alone + s.empty == s.buckets && s.alone + 2 * s.collisions <= s.size && s.load_factor * s.buckets == double(s.size), "statistics of the table");
        ++st().transitions; ++st().validated;
      }
    }
    MC_CHECK(live_ops == 0 && live_results == 0, "entries not destroyed with the cache");
    ++st().states;
  }
  where().clear(); where().shrink_to_fit();
  std::vector<unsigned>().swap(last);
  MC_CHECK(live_bytes() <= b0 + 512, "memory not given back");
  sample("all " + std::to_string(total) + " sequences of " + std::to_string(depth) + " operations, capacity " + std::to_string(cap));
}

// Long runs: n operations in cycles, forwards and backwards, with strides; capacities up to hundreds.
void
cache_cycles(std::size_t size, unsigned hk)
{
  hash_kind = hk;
  const std::size_t cap = capacity(size);
  for (std::size_t n = cap > 3 ? cap - 2 : 1; n <= cap + 3; ++n) for (unsigned stride = 1; stride < 4; ++stride)
  {
    context cxt; cache_t c(cxt, size); cxt.c = &c;
    cache_model m{cap, {}};
    for (unsigned k = 0; k < 6 * n; ++k)
    {
      unsigned id = k * stride % n;
      if (k / n % 2) id = n - 1 - id;
      cxt.evaluated.clear(); m.evaluated.clear();
      where() = "cycle of " + std::to_string(n) + " stride " + std::to_string(stride) + " step " + std::to_string(k);
      m.lookup(id, cxt);
      const result r = c(operation(id));
      MC_CHECK(r.v == value_of_op(id), "lookup of " << id << " gives " << r.v);
      MC_CHECK(cxt.evaluated == m.evaluated && c.size() == m.lru.size(), "evaluations");
      if (k == 3 * n) { c.clear(); m.lru.clear(); }
      ++st().transitions; ++st().validated;
    }
    ++st().states;
  }
  sample("cycles around a capacity of " + std::to_string(cap));
}

/*------------------------------------------------------------------------------------------------*/
// Hash table

struct elem
{
  sdd::mem::intrusive_member_hook<elem> hook;
  unsigned value; unsigned serial;
  friend bool operator==(const elem& l, const elem& r) { return l.value == r.value; }
};

} // namespace
namespace std {
template <> struct hash<elem> { std::size_t operator()(const elem& e) const noexcept { return hash_of(e.value, hash_kind); } };
}
namespace {

template <typename Table>
void
check_stats(const Table& t, std::size_t n)
{
  MC_CHECK(t.size() == n, "size " << t.size() << " instead of " << n);
  std::size_t col, alone, empty;
  std::tie(col, alone, empty) = t.collisions();
  MC_CHECK(col + alone + empty == t.bucket_count(), "buckets");
  MC_CHECK(alone + 2 * col <= n && (col != 0 || alone == n), "collisions");
  MC_CHECK(t.load_factor() * t.bucket_count() == double(n), "load factor");
  MC_CHECK((t.bucket_count() & (t.bucket_count() - 1)) == 0, "number of buckets");
}

// n values, each with two equal elements. Operations: insert one of the two, erase, clear.
void
hash_tables(std::size_t size, unsigned n, unsigned depth, unsigned hk, bool all_loads)
{
  hash_kind = hk;
  using table = sdd::mem::hash_table<elem>;
  const unsigned alpha = 3 * n + 1;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  const std::vector<double> loads = all_loads ? std::vector<double>{0.5, 0.75, 1, 3} : std::vector<double>{0.75};
  for (double load : loads) for (std::uint64_t code = 0; code < total; ++code)
  {
    std::vector<elem> es(2 * n);
    for (unsigned i = 0; i < 2 * n; ++i) es[i].value = i / 2, es[i].serial = i;
    table t(size, load);
    std::map<unsigned, elem*> m;
    std::uint64_t x = code;
    where() = "hash_table(" + std::to_string(size) + ") load " + std::to_string(load) + " hash " + std::to_string(hk);
    for (unsigned d = 0; d < depth; ++d, x /= alpha)
    {
      const unsigned op = x % alpha;
      where() += " " + std::to_string(op);
      if (op == 0)
      {
        std::multiset<elem*> got, want;
        t.clear_and_dispose([&](elem* e){ got.insert(e); e->hook.next = nullptr; });
        for (auto& kv : m) want.insert(kv.second);
        MC_CHECK(got == want, "content: " << got.size() << " elements disposed, " << want.size() << " expected");
        m.clear();
      }
      else if (op <= 2 * n)
      {
        elem* e = &es[op - 1];
        const auto r = t.insert(e);
        const auto w = m.insert({e->value, e});
        MC_CHECK(r.second == w.second && r.first == w.first->second, "insertion of " << e->serial);
      }
      else
      {
        const unsigned v = op - 2 * n - 1;
        if (m.count(v))
        {
          elem* in = m[v];
          const elem key{{}, v, 99}; // an equal one
          t.erase(d % 2 ? &key : in);
          in->hook.next = nullptr;
          m.erase(v);
        }
      }
      check_stats(t, m.size());
      ++st().transitions;
    }
    // content, through insertion of equal elements and disposal
    for (unsigned v = 0; v < n; ++v) if (m.count(v))
    {
      elem probe{{}, v, 77};
      const auto r = t.insert(&probe);
      MC_CHECK(!r.second && r.first == m[v], "element " << v << " is lost");
    }
    std::multiset<elem*> got, want;
    for (auto& kv : m) want.insert(kv.second);
    t.clear_and_dispose([&](elem* e){ got.insert(e); });
    MC_CHECK(got == want, "content at the end");
    check_stats(t, 0);
    ++st().states; ++st().validated;
  }
  sample("all " + std::to_string(total) + " sequences of " + std::to_string(depth) + " operations on " + std::to_string(n) + " values");
}

// Growth through many rehashes.
void
hash_growth(std::size_t size, unsigned n, unsigned hk)
{
  hash_kind = hk;
  sdd::mem::hash_table<elem> t(size);
  std::vector<elem> es(n);
  for (unsigned i = 0; i < n; ++i)
  {
    es[i].value = i * 5; es[i].serial = i;
    where() = "growth " + std::to_string(i);
    const auto r = t.insert(&es[i]);
    MC_CHECK(r.second && r.first == &es[i], "insertion of " << i);
    check_stats(t, i + 1);
    for (unsigned k = 0; k <= i; ++k) { elem p{{}, k * 5, 0}; const auto q = t.insert(&p); MC_CHECK(!q.second && q.first == &es[k], "lost " << k); ++st().transitions; }
    ++st().states; ++st().validated;
  }
  for (unsigned i = 0; i < n; i += 2) t.erase(&es[i]);
  check_stats(t, n / 2);
  for (unsigned i = 1; i < n; i += 2) t.erase(&es[i]);
  check_stats(t, 0);
  sample("growth to " + std::to_string(n) + " elements from " + std::to_string(size));
}

// Thousands of elements come, go and come back; everything is looked up around each doubling.
void
hash_turnover(std::size_t size, unsigned n, unsigned hk)
{
  hash_kind = hk;
  for (unsigned stride : {1u, 2u, 3u, 7u}) for (bool backwards : {false, true})
  {
    sdd::mem::hash_table<elem> t(size);
    std::vector<elem> es(n);
    std::vector<char> in(n, 0);
    std::size_t count = 0;
    const auto all = [&]
    {
      for (unsigned k = 0; k < n; ++k) if (in[k])
      {
        elem p{{}, k * 5, 0}; const auto q = t.insert(&p);
        MC_CHECK(!q.second && q.first == &es[k], "lost " << k);
      }
      check_stats(t, count);
      ++st().transitions;
    };
    for (unsigned round = 0; round < 3; ++round)
    {
      for (unsigned i = 0; i < n; ++i)
      {
        if (in[i]) continue;
        es[i] = elem{{}, i * 5, i};
        where() = "turnover of " + std::to_string(n) + " stride " + std::to_string(stride) + " round " + std::to_string(round) + " insertion " + std::to_string(i);
        const auto r = t.insert(&es[i]);
        MC_CHECK(r.second && r.first == &es[i], "insertion");
        in[i] = 1; ++count;
        if (((i - 1) & i) == 0 || ((i + 1) & i) == 0 || i + 1 == n) all();
      }
      for (unsigned j = 0; j < n; j += stride)
      {
        const unsigned i = backwards ? n - 1 - j : j;
        where() = "turnover of " + std::to_string(n) + " stride " + std::to_string(stride) + " round " + std::to_string(round) + " erasure " + std::to_string(i);
        t.erase(&es[i]);
        in[i] = 0; --count;
      }
      all();
      ++st().states; ++st().validated;
    }
    std::set<elem*> got;
    t.clear_and_dispose([&](elem* e){ MC_CHECK(got.insert(e).second, "disposed twice"); });
    MC_CHECK(got.size() == count, "content at the end");
  }
  sample("turnover of " + std::to_string(n) + " elements from " + std::to_string(size));
}

// The fixed-size variant, used by caches.
void
fixed_tables(std::size_t size, unsigned n, unsigned depth, unsigned hk)
{
  hash_kind = hk;
  using table = sdd::mem::hash_table<elem, false>;
  const unsigned alpha = 2 * n + 1;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  for (std::uint64_t code = 0; code < total; ++code)
  {
    std::vector<elem> es(n);
    table t(size, 0.85);
    std::set<unsigned> m;
    std::uint64_t x = code;
    where() = "fixed hash_table(" + std::to_string(size) + ") hash " + std::to_string(hk);
    const auto eq = [](const elem& a, const elem& b){ return a == b; };
    for (unsigned d = 0; d < depth; ++d, x /= alpha)
    {
      const unsigned op = x % alpha;
      where() += " " + std::to_string(op);
      if (op == 0) { std::size_t k = 0; t.clear_and_dispose([&](elem*){ ++k; }); MC_CHECK(k == m.size(), "clear"); m.clear(); }
      else if (op <= n)
      {
        const unsigned v = op - 1;
        const elem key{{}, v, 0};
        typename table::insert_commit_data cd;
        const auto r = t.insert_check(key, eq, cd);
        MC_CHECK(r.second == !m.count(v), "check of " << v);
        if (r.second) { es[v] = elem{{}, v, v}; t.insert_commit(&es[v], cd); m.insert(v); }
        else MC_CHECK(r.first == &es[v], "found another element");
      }
      else if (m.erase(op - n - 1)) t.erase(&es[op - n - 1]);
      check_stats(t, m.size());
      MC_CHECK(t.nb_rehash() == 0, "rehashed");
      ++st().transitions;
    }
    for (unsigned v = 0; v < n; ++v)
    {
      const elem key{{}, v, 0}; typename table::insert_commit_data cd;
      const auto r = t.insert_check(key, eq, cd);
      MC_CHECK(r.second == !m.count(v) && (r.second || r.first == &es[v]), "content");
    }
    ++st().states; ++st().validated;
  }
  sample("all " + std::to_string(total) + " sequences of " + std::to_string(depth) + " operations, fixed table");
}

/*------------------------------------------------------------------------------------------------*/
// Unique table: elements with extra bytes.

int live_uniques = 0;
struct payload
{
  unsigned value; std::size_t extra;
  payload(unsigned v, std::size_t e) : value(v), extra(e)
  {
    ++live_uniques;
    auto p = bytes();
    for (std::size_t i = 0; i < extra; ++i) p[i] = static_cast<unsigned char>(value * 31 + i);
  }
  ~payload() { --live_uniques; check(); }
  unsigned char* bytes() const { return reinterpret_cast<unsigned char*>(const_cast<payload*>(this)) + sizeof(payload); }
  void check() const
  {
    for (std::size_t i = 0; i < extra; ++i) MC_CHECK(bytes()[i] == static_cast<unsigned char>(value * 31 + i), "content of element " << value << " changed");
  }
  friend bool operator==(const payload& l, const payload& r) { return l.value == r.value; }
};

} // namespace
namespace std {
template <> struct hash<payload> { std::size_t operator()(const payload& e) const noexcept { return hash_of(e.value, hash_kind); } };
}
namespace {

// n values, of different sizes; operations: unify, drop the only reference, start an element before another
// one is unified.
void
unique_tables(std::size_t size, unsigned n, unsigned depth, unsigned hk)
{
  hash_kind = hk;
  using U = sdd::mem::unique<payload>;
  const unsigned alpha = 2 * n + n * n;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  const auto b0 = live_bytes();
  const auto extra = [&](unsigned v){ return std::size_t(v * 24 % 56); };
  for (std::uint64_t code = 0; code < total; ++code)
  {
    {
      sdd::mem::unique_table<U> t(size);
      std::map<unsigned, U*> m;
      std::size_t access = 0, hits = 0, misses = 0, peak = 0;
      std::uint64_t x = code;
      where() = "unique_table(" + std::to_string(size) + ") hash " + std::to_string(hk);
      const auto alloc = [&](unsigned v){ return new (t.allocate(extra(v))) U(v, extra(v)); };
      const auto unify = [&](U* u, unsigned v)
      {
        U& r = t(u, extra(v));
        ++access;
        const auto w = m.insert({v, &r});
        if (w.second) { MC_CHECK(&r == u, "a new element isn't kept"); ++misses; peak = std::max(peak, m.size()); }
        else { MC_CHECK(&r == w.first->second, "not the stored element"); ++hits; }
        MC_CHECK(r.data().value == v, "wrong element");
      };
      for (unsigned d = 0; d < depth; ++d, x /= alpha)
      {
        const unsigned op = x % alpha;
        where() += " " + std::to_string(op);
        if (op < n) unify(alloc(op), op);
        else if (op < 2 * n)
        {
          if (m.count(op - n)) { U* u = m[op - n]; m.erase(op - n); t.erase(u); }
        }
        else
        {
          const unsigned a = (op - 2 * n) / n, b = (op - 2 * n) % n;
          U* ua = alloc(a); U* ub = alloc(b);
          MC_CHECK(ua != ub, "the same memory twice");
          unify(ua, a); unify(ub, b);
        }
        for (auto& kv : m) { MC_CHECK(kv.second->data().value == kv.first, "element changed"); kv.second->data().check(); }
        MC_CHECK(live_uniques == int(m.size()), live_uniques << " elements alive instead of " << m.size());
        const auto& s = t.stats();
        MC_CHECK(s.size == m.size() && s.access == access && s.hits == hits && s.misses == misses && s.peak == peak, "statistics");
        MC_CHECK(s.collisions + s.alone + s.empty == s.buckets && s.load_factor * s.buckets == double(s.size), "statistics of the table");
        ++st().transitions;
      }
      for (auto& kv : m) t.erase(kv.second);
      MC_CHECK(live_uniques == 0, "elements alive at the end");
    }
    ++st().states; ++st().validated;
  }
  where().clear(); where().shrink_to_fit();
  MC_CHECK(live_bytes() <= b0 + 256, "memory not given back: " << live_bytes() - b0);
  sample("all " + std::to_string(total) + " sequences of " + std::to_string(depth) + " operations on " + std::to_string(n) + " elements");
}

// Blocks of a duplicate are used again: every sequence of three sizes, each of them unified twice or once.
void
unique_blocks(unsigned max, unsigned hk)
{
  hash_kind = hk;
  using U = sdd::mem::unique<payload>;
  const auto b0 = live_bytes();
  std::uint64_t seqs = 0;
  for (unsigned a = 0; a <= max; ++a) for (unsigned b = 0; b <= max; ++b) for (unsigned c = 0; c <= max; ++c) for (unsigned twice = 0; twice < 8; ++twice)
  {
    {
      where() = "unique elements of " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c) + " extra bytes, duplicates " + std::to_string(twice);
      sdd::mem::unique_table<U> t(4);
      const unsigned sizes[] = {a, b, c};
      std::vector<U*> m;
      for (unsigned k = 0; k < 3; ++k)
      {
        U* u = new (t.allocate(sizes[k])) U(k, sizes[k]);
        MC_CHECK(&t(u, sizes[k]) == u, "a new element isn't kept");
        m.push_back(u);
        if (twice >> k & 1) MC_CHECK(&t(new (t.allocate(sizes[k])) U(k, sizes[k]), sizes[k]) == u, "not the stored element");
        for (const auto e : m) e->data().check();
        MC_CHECK(live_uniques == int(m.size()), live_uniques << " elements alive instead of " << m.size());
        ++st().transitions;
      }
      for (auto u : m) t.erase(u);
    }
    ++seqs; ++st().states; ++st().validated;
  }
  where().clear(); where().shrink_to_fit();
  MC_CHECK(live_bytes() <= b0 + 256, "memory not given back: " << live_bytes() - b0);
  sample("all " + std::to_string(seqs) + " sequences of three sizes up to " + std::to_string(max));
}

// Many elements of many sizes, through several growths, with erasures and duplicates in between.
void
unique_turnover(std::size_t size, unsigned n, unsigned hk)
{
  hash_kind = hk;
  using U = sdd::mem::unique<payload>;
  const auto extra = [&](unsigned v){ return std::size_t(v * 24 % 1000); };
  const auto b0 = live_bytes();
  {
    sdd::mem::unique_table<U> t(size);
    std::vector<U*> m(n, nullptr);
    std::size_t count = 0, peak = 0, access = 0;
    for (unsigned step : {1u, 3u, 2u, 5u})
    {
      for (unsigned v = 0; v < n; ++v)
      {
        where() = "unique elements, step " + std::to_string(step) + ", element " + std::to_string(v);
        U* u = new (t.allocate(extra(v))) U(v, extra(v));
        U& r = t(u, extra(v));
        if (m[v]) MC_CHECK(&r == m[v], "not the stored element");
        else { MC_CHECK(&r == u, "a new element isn't kept"); m[v] = u; ++count; peak = std::max(peak, count); }
        ++access;
        if (v % 3 == 0)
        {
          const unsigned d = v - v / 3; // again one which is there
          U& r2 = t(new (t.allocate(extra(d))) U(d, extra(d)), extra(d));
          MC_CHECK(&r2 == m[d], "not the stored element"); ++access;
        }
        if (v % 64 == 0 || v < 40) MC_CHECK(t.stats().peak == peak && t.stats().size == count && t.stats().access == access, "statistics");
        MC_CHECK(live_uniques == int(count), live_uniques << " elements alive instead of " << count);
        ++st().transitions;
      }
      for (unsigned v = 0; v < n; ++v) { MC_CHECK(m[v]->data().value == v, "element changed"); m[v]->data().check(); }
      for (unsigned v = 0; v < n; v += step) { t.erase(m[v]); m[v] = nullptr; --count; }
      MC_CHECK(live_uniques == int(count) && t.stats().size == count && t.stats().peak == peak, "count");
      ++st().states; ++st().validated;
    }
    for (auto u : m) if (u) t.erase(u);
    MC_CHECK(live_uniques == 0, "elements alive at the end");
  }
  where().clear(); where().shrink_to_fit();
  MC_CHECK(live_bytes() <= b0 + 256, "memory not given back: " << live_bytes() - b0);
  sample("turnover of " + std::to_string(n) + " unique elements");
}

void
powers()
{
  for (unsigned k = 0; k < 64; ++k) for (long d = -3; d <= 3; ++d)
  {
    const std::uint64_t x = (std::uint64_t(1) << k) + d;
    if (x == 0 || x > (std::uint64_t(1) << 63)) continue;
    where() = "next power of " + std::to_string(x);
    std::uint64_t want = 1; while (want < x) want *= 2;
    MC_CHECK(sdd::util::next_power_of_2(x) == want, "gives " << sdd::util::next_power_of_2(x));
    if (x <= (std::uint64_t(1) << 31)) MC_CHECK(sdd::util::next_power_of_2(std::uint32_t(x)) == want, "32 bits: gives " << sdd::util::next_power_of_2(std::uint32_t(x)));
    ++st().states; ++st().transitions; ++st().validated;
  }
  for (std::uint64_t x = 1; x < 70000; ++x)
  {
    std::uint64_t want = 1; while (want < x) want *= 2;
    MC_CHECK(sdd::util::next_power_of_2(x) == want && sdd::util::next_power_of_2(std::uint32_t(x)) == want, "next power of " << x);
    ++st().states; ++st().transitions; ++st().validated;
  }
  sample("all integers up to 70000 and around every power of two");
}

/*------------------------------------------------------------------------------------------------*/
// Arena

struct block { char* p; std::size_t n; unsigned char fill; std::size_t scope; bool inside; };

// Operations: allocate one of the sizes, release the k-th youngest live block, open a scope, close it.
void
arenas(std::size_t size, const std::vector<std::size_t>& sizes, unsigned depth, bool tight = false)
{
  const unsigned releases = 3;
  const unsigned alpha = sizes.size() + releases + 2;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  const auto b0 = live_bytes();
  std::vector<std::unique_ptr<sdd::mem::rewinder>> scopes; scopes.reserve(depth);
  std::vector<sdd::mem::arena::position_type> marks; marks.reserve(depth);
  std::vector<block> live; live.reserve(depth);
  where().reserve(200);
  const auto n0 = live_blocks();
  for (std::uint64_t code = 0; code < total; ++code)
  {
    {
      if (tight) tight_blocks(true);
      sdd::mem::arena a(size);
      unsigned char fill = 1;
      std::uint64_t x = code;
      where() = "arena(" + std::to_string(size) + ")";
      const auto verify = [&]
      {
        for (const auto& b : live) for (std::size_t i = 0; i < b.n; ++i) MC_CHECK(static_cast<unsigned char>(b.p[i]) == b.fill, "content of a block changed");
      };
      const auto close = [&]
      {
        // blocks of the scope: in the buffer, they die with it; outside, they are released by their owner
        for (std::size_t i = live.size(); i-- > 0;)
        {
          if (live[i].scope != scopes.size()) continue;
          a.deallocate(live[i].p, live[i].n);
          live.erase(live.begin() + i);
        }
        scopes.pop_back();
        MC_CHECK(a.position() == marks.back(), "the scope is not given back");
        marks.pop_back();
        verify();
      };
      for (unsigned d = 0; d < depth; ++d, x /= alpha)
      {
        const unsigned op = x % alpha;
        where() += " " + std::to_string(op);
        if (op < sizes.size())
        {
          const std::size_t n = sizes[op];
          char* p = a.allocate(n);
          MC_CHECK(p != nullptr, "no memory");
          for (const auto& b : live) MC_CHECK(n == 0 || b.n == 0 || p + n <= b.p || b.p + b.n <= p, "overlapping blocks");
          memset(p, fill, n);
          live.push_back({p, n, fill++, scopes.size(), false});
        }
        else if (op < sizes.size() + releases)
        {
          const unsigned k = op - sizes.size(); // youngest, second youngest, oldest
          if (k < live.size())
          {
            const std::size_t i = k == 2 ? 0 : live.size() - 1 - k;
            // a scope never releases what was taken outside it
            if (live[i].scope == scopes.size())
            {
              a.deallocate(live[i].p, live[i].n);
              live.erase(live.begin() + i);
            }
          }
        }
        else if (op == sizes.size() + releases)
        {
          if (scopes.size() < 3) { marks.push_back(a.position()); scopes.emplace_back(new sdd::mem::rewinder(a)); }
        }
        else if (!scopes.empty()) close();
        verify();
        ++st().transitions;
      }
      while (!scopes.empty()) close();
      for (std::size_t i = live.size(); i-- > 0;) a.deallocate(live[i].p, live[i].n);
      live.clear();
    }
    if (tight) { tight_blocks(false); }
    MC_CHECK(live_blocks() == n0, "a block is not given back");
    ++st().states; ++st().validated;
  }
  where().clear(); where().shrink_to_fit();
  MC_CHECK(live_bytes() <= b0 + 1024, "memory not given back: " << live_bytes() - b0);
  sample("all " + std::to_string(total) + " sequences of " + std::to_string(depth) + " operations, buffer of " + std::to_string(size));
}

// A buffer is used before the general allocator: the first blocks of a scope that fit are in the buffer, and
// the buffer is available again once the scope is closed.
void
arena_reuse()
{
  for (std::size_t size = 0; size <= 128; ++size) for (std::size_t n = 8; n <= 40; n += 8)
  {
    where() = "arena(" + std::to_string(size) + ") blocks of " + std::to_string(n);
    sdd::mem::arena a(size);
    char* first = nullptr;
    for (int round = 0; round < 4; ++round)
    {
      const auto before = total_allocations();
      sdd::mem::rewinder r(a);
      std::vector<char*> ps; ps.reserve(size / n + 1);
      const auto t0 = total_allocations();
      for (std::size_t k = 0; k < size / n; ++k)
      {
        char* p = a.allocate(n);
        memset(p, int(k), n);
        if (k == 0 && round == 0) first = p;
        if (k == 0) MC_CHECK(p == first, "the buffer isn't reused");
        ps.push_back(p);
      }
      MC_CHECK(total_allocations() == t0, "a block that fits isn't taken from the buffer");
      for (std::size_t k = 0; k < ps.size(); ++k) for (std::size_t i = 0; i < n; ++i) MC_CHECK(ps[k][i] == char(k), "content");
      char* q = a.allocate(n); // does not fit
      MC_CHECK(total_allocations() == t0 + 1, "a block beyond the buffer");
      memset(q, 1, n);
      a.deallocate(q, n);
      ++st().transitions; (void)before;
    }
    ++st().states; ++st().validated;
  }
  sample("all buffer sizes 0..128");
}

// Containers using the arena, growing in turns, in nested scopes.
void
arena_containers(std::size_t size, unsigned depth)
{
  using alloc = sdd::mem::linear_alloc<std::uint64_t>;
  using vec = std::vector<std::uint64_t, alloc>;
  const unsigned alpha = 5;
  std::uint64_t total = 1; for (unsigned d = 0; d < depth; ++d) total *= alpha;
  const auto b0 = live_bytes();
  struct run
  {
    sdd::mem::arena& a; std::uint64_t x; unsigned left; std::uint64_t next = 1;
    static void check(const vec& v, const std::vector<std::uint64_t>& m)
    { MC_CHECK(std::vector<std::uint64_t>(v.begin(), v.end()) == m, "content of a container"); }
    // one scope, with two containers
    void operator()(unsigned nesting)
    {
      sdd::mem::rewinder r(a);
      vec v{alloc(a)}, w{alloc(a)};
      std::vector<std::uint64_t> mv, mw;
      while (left > 0)
      {
        const unsigned op = x % 5; x /= 5; --left; ++st().transitions;
        where() += " " + std::to_string(op);
        if (op == 0) { v.push_back(next); mv.push_back(next++); }
        else if (op == 1) { w.push_back(next); mw.push_back(next++); }
        else if (op == 2) { v.clear(); v.shrink_to_fit(); mv.clear(); }
        else if (op == 3) { if (nesting < 3) (*this)(nesting + 1); }
        else if (nesting > 0) break;
        else { w.swap(v); mw.swap(mv); }
        check(v, mv); check(w, mw);
      }
      check(v, mv); check(w, mw);
    }
  };
  for (std::uint64_t code = 0; code < total; ++code)
  {
    sdd::mem::arena a(size);
    where() = "containers in arena(" + std::to_string(size) + ")";
    run r{a, code, depth};
    const auto p = a.position();
    r(0);
    MC_CHECK(a.position() == p, "not given back");
    ++st().states; ++st().validated;
  }
  where().clear(); where().shrink_to_fit();
  MC_CHECK(live_bytes() <= b0 + 256, "memory not given back: " << live_bytes() - b0);
  sample("all " + std::to_string(total) + " sequences of " + std::to_string(depth) + " operations on nested containers");
}

/*------------------------------------------------------------------------------------------------*/

void
cells_()
{
  for (unsigned hk = 0; hk < 5; ++hk)
  {
    const std::string h = "/hash" + std::to_string(hk);
    add_cell("cache/0-1" + h, [=]{ for (std::size_t s : {0, 1}) caches(s, 3, 5, hk, true, true); });
    add_cell("cache/2" + h, [=]{ caches(2, 3, 5, hk, true, true); });
    add_cell("cache/3" + h, [=]{ caches(3, 4, 5, hk, true, true); }, hk > 2);
    add_cell("cache/4" + h, [=]{ caches(4, 5, 7, hk, false, false); });
    add_cell("cache/4n" + h, [=]{ caches(4, 4, 7, hk, false, true); });
    add_cell("cache/7" + h, [=]{ caches(7, 8, 6, hk, false, false); }, true);
    for (unsigned q = 0; q < 4; ++q)
      add_cell("cache/4deep" + h + "/" + std::to_string(q), [=]{ caches(4, 4, 9, hk, false, true, q, 4); }, true);
    add_cell("cache/cycles" + h, [=]{ for (std::size_t s : {0, 1, 2, 3, 4, 5, 8, 16, 31, 64}) cache_cycles(s, hk); });
    for (std::size_t s : {100, 129, 257})
      add_cell("cache/cycles" + h + "/" + std::to_string(s), [=]{ cache_cycles(s, hk); });
    if (hk == 0 || hk == 4) add_cell("cache/cycles" + h + "/1000", [=]{ cache_cycles(1000, hk); });
    add_cell("table/turnover" + h, [=]{ for (std::size_t s : {0, 1, 100}) hash_turnover(s, hk == 0 || hk == 4 ? 5000 : 500, hk); });
    if (hk == 0 || hk == 4)
    {
      add_cell("table/turnover" + h + "/70000", [=]{ hash_turnover(3, 70000, hk); });
      add_cell("table/uniqueblocks" + h, [=]{ unique_blocks(26, hk); });
      add_cell("table/uniqueturnover" + h + "/70000", [=]{ unique_turnover(5, 70000, hk); });
    }
    add_cell("table/uniqueturnover" + h, [=]{ for (std::size_t s : {0, 1, 100}) unique_turnover(s, hk == 0 || hk == 4 ? 3000 : 400, hk); });

    for (std::size_t s : {0, 1, 2, 4})
    {
      const std::string n = "/" + std::to_string(s) + h;
      add_cell("table/hash" + n, [=]{ hash_tables(s, 3, 5, hk, true); });
      add_cell("table/hash4" + n, [=]{ hash_tables(s, 4, 6, hk, false); }, true);
      add_cell("table/fixed" + n, [=]{ fixed_tables(s, 4, 6, hk); });
      add_cell("table/unique" + n, [=]{ unique_tables(s, 3, 4, hk); });
      add_cell("table/unique5" + n, [=]{ unique_tables(s, 3, 5, hk); }, true);
    }
    add_cell("table/growth" + h, [=]{ for (std::size_t s : {0, 1, 2, 3, 64}) hash_growth(s, 200, hk); });
  }
  add_cell("table/powers", powers);
  for (std::size_t s : {0, 8, 16, 24, 32, 40, 64})
  {
    add_cell("arena/sequences/" + std::to_string(s), [=]{ arenas(s, {8, 24}, 7); });
    add_cell("arena/sequences-deep/" + std::to_string(s), [=]{ arenas(s, {1, 8, 16}, 8); }, true);
    add_cell("arena/containers/" + std::to_string(s), [=]{ arena_containers(s, 8); });
  }
  // no gap between the buffer and the blocks of the general allocator
  for (std::size_t s : {0, 16, 32, 48, 64}) add_cell("arena/tight/" + std::to_string(s), [=]{ arenas(s, {16, 32}, 6, true); arenas(s, {0, 16}, 5, true); });
  // sizes which aren't multiples of anything, every buffer size
  for (std::size_t s = 0; s <= 40; s += 4)
    add_cell("arena/odd/" + std::to_string(s), [=]{ for (std::size_t k = s; k < s + 4; ++k) { arenas(k, {1, 5, 8}, 5); arenas(k, {3, 7, 17}, 5); arenas(k, {0, 6, 9}, 4); } });
  for (std::size_t s : {127, 128, 129, 255, 256, 1000, 4096}) add_cell("arena/large/" + std::to_string(s), [=]{ arenas(s, {s / 2, s / 3 + 1, s + 1}, 5); arenas(s, {s - 1, 1, s}, 5); });
  for (std::size_t s : {100, 200}) add_cell("arena/containers/" + std::to_string(s), [=]{ arena_containers(s, 8); });
  add_cell("arena/reuse", arena_reuse);
}
const registrar reg(cells_);

} // namespace
