// C11: orders and their strategies; C17: the FORCE ordering heuristic.
#include "model.hh"
#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/force.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using Id = C::Identifier;
using OB = sdd::order_builder<C>;
using O = sdd::order<C>;
using H = sdd::homomorphism<C>;

namespace {

template <typename T> T make_id(unsigned k);
template <> std::string make_id(unsigned k) { return (k % 2 ? "identifier_with_a_long_name_" : "") + std::to_string(k); }
template <> unsigned make_id(unsigned k) { return k * 7 + 1; }

/*------------------------------------------------------------------------------------------------*/
// Forests: the hierarchy of an order.

struct tree;
using forest = std::vector<tree>;
struct tree { unsigned id; forest nested; };

// all forests with n nodes (without identifiers)
const std::vector<forest>&
forests(unsigned n)
{
  static std::map<unsigned, std::vector<forest>> memo;
  const auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  std::vector<forest> r;
  if (n == 0) r.push_back({});
  for (unsigned k = 1; k <= n; ++k) // the first tree has k nodes
    for (const auto& in : std::vector<forest>(forests(k - 1))) for (const auto& rest : std::vector<forest>(forests(n - k)))
    {
      forest f{tree{0, in}};
      f.insert(f.end(), rest.begin(), rest.end());
      r.push_back(f);
    }
  return memo[n] = r;
}

void
number(forest& f, unsigned& next, unsigned step, unsigned mod)
{
  for (auto& t : f) { t.id = next * step % mod; ++next; number(t.nested, next, step, mod); }
}
forest named(forest f, unsigned n, bool reversed) { unsigned k = 0; number(f, k, reversed ? n : 1, n + 1); return f; }

std::string
text(const forest& f)
{
  std::string r;
  for (const auto& t : f) r += (r.empty() ? "" : " ") + std::to_string(t.id) + (t.nested.empty() ? "" : "(" + text(t.nested) + ")");
  return r;
}

// several ways to write the same builder
OB
builder(const forest& f, unsigned how)
{
  OB ob;
  if (how == 0)
  {
    for (std::size_t i = f.size(); i-- > 0;)
      if (f[i].nested.empty()) ob.push(make_id<Id>(f[i].id)); else ob.push(make_id<Id>(f[i].id), builder(f[i].nested, how));
  }
  else if (how == 1)
  {
    for (const auto& t : f) ob << OB(make_id<Id>(t.id), builder(t.nested, how));
  }
  else if (how == 2)
  {
    for (const auto& t : f)
      ob = ob << (t.nested.empty() ? OB(make_id<Id>(t.id)) : OB(sdd::order_identifier<C>(make_id<Id>(t.id)), builder(t.nested, how)));
  }
  else
  {
    bool flat = true; std::vector<Id> ids;
    for (const auto& t : f) { flat = flat && t.nested.empty(); ids.push_back(make_id<Id>(t.id)); }
    if (flat) return OB(ids.begin(), ids.end());
    // halves
    const std::size_t h = f.size() / 2;
    if (h == 0) return OB(make_id<Id>(f[0].id), builder(f[0].nested, how));
    OB l = builder(forest(f.begin(), f.begin() + h), how), r = builder(forest(f.begin() + h, f.end()), how);
    const OB keep = l;
    ob = l << r;
    MC_CHECK(keep.size() + r.size() == ob.size(), "concatenation changed its operands");
  }
  return ob;
}

unsigned nodes_of(const forest& f) { unsigned n = 0; for (const auto& t : f) n += 1 + nodes_of(t.nested); return n; }

struct place { unsigned id, var, pos; std::vector<unsigned> path; bool nested; };

void
places(const forest& f, std::vector<unsigned> path, unsigned& pos, std::vector<place>& out)
{
  for (std::size_t i = 0; i < f.size(); ++i)
  {
    const unsigned p = pos++;
    out.push_back({f[i].id, unsigned(f.size() - 1 - i), p, path, !f[i].nested.empty()});
    auto np = path; np.push_back(p);
    places(f[i].nested, np, pos, out);
  }
}

void
leaves(const forest& f, std::vector<Id>& out)
{
  for (const auto& t : f) if (t.nested.empty()) out.push_back(make_id<Id>(t.id)); else leaves(t.nested, out);
}

void
walk(const O& o, const forest& f, std::size_t i, unsigned& pos)
{
  if (i == f.size()) { MC_CHECK(o.empty(), "order too long"); return; }
  MC_CHECK(!o.empty(), "order too short");
  MC_CHECK(o.variable() == f.size() - 1 - i, "variable of " << f[i].id);
  MC_CHECK(o.position() == pos, "position of " << f[i].id);
  MC_CHECK(!o.identifier().artificial() && o.identifier().user() == make_id<Id>(f[i].id), "identifier");
  ++pos;
  walk(o.nested(), f[i].nested, 0, pos);
  walk(o.next(), f, i + 1, pos);
}

template <typename E, typename F>
void
throws(F f, const char* what)
{
  try { f(); } catch (const E&) { return; } catch (const std::exception& e) { MC_FAIL(what << ": another exception: " << e.what()); }
  MC_FAIL(what << ": no exception");
}

/*------------------------------------------------------------------------------------------------*/

// Values given to leaves, by the model.
struct init
{
  std::map<Id, mask> v;
  bridge<C> b;
  C::Values operator()(const Id& id) const
  {
    const auto it = v.find(id);
    MC_CHECK(it != v.end(), "initializer called for a level without values");
    return b.values(it->second);
  }
};

SDD
model_sdd(const forest& f, std::size_t i, const init& in)
{
  if (i == f.size()) return sdd::one<C>();
  const unsigned var = f.size() - 1 - i;
  const SDD succ = model_sdd(f, i + 1, in);
  return f[i].nested.empty() ? SDD(var, in(make_id<Id>(f[i].id)), succ) : SDD(var, model_sdd(f[i].nested, 0, in), succ);
}

struct rotate_up // {0}->{1}, {1}->{2}...
{
  C::Values operator()(const C::Values& v) const
  { bridge<C> b; mask m = b.unvalues(v, 8); return b.values(((m << 1) | (m >> 7)) & 255); }
  friend bool operator==(const rotate_up&, const rotate_up&) noexcept { return true; }
};
struct keep_low
{
  C::Values operator()(const C::Values& v) const { bridge<C> b; return b.values(b.unvalues(v, 8) & 7); }
  bool selector() const noexcept { return true; }
  friend bool operator==(const keep_low&, const keep_low&) noexcept { return true; }
};

} // namespace
namespace std {
template <> struct hash<rotate_up> { std::size_t operator()(const rotate_up&) const noexcept { return 1; } };
template <> struct hash<keep_low> { std::size_t operator()(const keep_low&) const noexcept { return 2; } };
}
namespace {

void
check_structure(const forest& f)
{
  const unsigned n = nodes_of(f);
  for (unsigned how = 0; how < 4; ++how)
  {
    where() = "order " + text(f) + " built by " + std::to_string(how);
    const OB ob = builder(f, how);
    MC_CHECK(ob.size() == n && ob.empty() == (n == 0), "size of the builder");
    if (n) MC_CHECK(ob.height() == f.size(), "height of the builder");
    const O o(ob);
    unsigned pos = 0;
    walk(o, f, 0, pos);
    std::vector<place> ps; pos = 0;
    places(f, {}, pos, ps);
    if (n) MC_CHECK(o.nodes().size() == n, "number of nodes");
    for (const auto& p : ps)
    {
      const auto& nd = o.node(make_id<Id>(p.id));
      MC_CHECK(nd.variable() == p.var && nd.position() == p.pos, "place of " << p.id);
      MC_CHECK(nd.identifier().user() == make_id<Id>(p.id), "identifier of " << p.id);
      MC_CHECK(std::vector<unsigned>(nd.path().begin(), nd.path().end()) == p.path, "path of " << p.id);
      MC_CHECK((nd.nested() != nullptr) == p.nested, "nested of " << p.id);
      MC_CHECK(&o.node_from_position(p.pos) == &nd && &o.nodes()[p.pos] == &nd, "position of " << p.id);
      for (const auto& q : ps)
        MC_CHECK(o.contains(q.pos, p.pos) == (std::find(p.path.begin(), p.path.end(), q.pos) != p.path.end()), "contains(" << q.pos << ", " << p.pos << ")");
    }
    std::vector<Id> want, got; leaves(f, want);
    o.flat(std::back_inserter(got));
    MC_CHECK(got == want, "flat()");
    std::vector<Id> raw(want.size());
    o.flat(raw.begin());
    MC_CHECK(raw == want, "flat() in a fixed range");
    // copies share what they need
    std::unique_ptr<O> tmp(new O(ob)); const O sub = n ? tmp->next() : *tmp; const O cp = *tmp; tmp.reset();
    unsigned z = 0; walk(cp, f, 0, z);
    MC_CHECK(cp == o && std::hash<O>()(cp) == std::hash<O>()(o), "equality of copies");
    if (n) MC_CHECK(sub == o.next() && std::hash<O>()(sub) == std::hash<O>()(o.next()), "equality of sub-orders");
    throws<sdd::identifier_not_found_error<C>>([&]{ o.node(make_id<Id>(n + 1)); }, "unknown identifier");
    ++st().states; st().transitions += 2 + n; ++st().validated;
  }
}

void
structure(unsigned n, bool reversed)
{
  for (const auto& f0 : forests(n)) check_structure(named(f0, n, reversed));
  sample("all orders of " + std::to_string(n) + " levels; last " + where());
}

void
equality(unsigned nmax)
{
  struct item { forest f; O o; };
  std::vector<item> os;
  for (unsigned n = 0; n <= nmax; ++n) for (const auto& f0 : forests(n)) for (bool rev : {false, true})
  {
    if (rev && n < 2) continue;
    const forest f = named(f0, n, rev);
    os.push_back({f, O(builder(f, 0))});
  }
  for (const auto& a : os) for (const auto& b : os)
  {
    const O c(builder(a.f, 1));
    where() = text(a.f) + " == " + text(b.f);
    const bool same = text(a.f) == text(b.f);
    MC_CHECK((a.o == b.o) == same && (c == b.o) == same, "equality");
    if (same) MC_CHECK(std::hash<O>()(c) == std::hash<O>()(b.o), "hash of equal orders");
    ++st().states; st().transitions += 2; ++st().validated;
  }
  sample("all pairs of " + std::to_string(os.size()) + " orders");
}

// Views of orders: after a few next() and nested(). Equal views list the same levels and hash equally.
struct view { forest f; unsigned pos; O o; };

void
views(const O& o, const forest& f, std::size_t i, unsigned& pos, std::vector<view>& out)
{
  out.push_back({forest(f.begin() + i, f.end()), pos, o});
  if (i == f.size()) return;
  ++pos;
  views(o.nested(), f[i].nested, 0, pos, out);
  views(o.next(), f, i + 1, pos, out);
}

void
suborders(unsigned nmax)
{
  std::vector<view> vs;
  for (unsigned n = 0; n <= nmax; ++n) for (const auto& f0 : forests(n)) for (bool rev : {false, true})
  {
    if (rev && n < 2) continue;
    const forest f = named(f0, n, rev);
    unsigned pos = 0;
    views(O(builder(f, 0)), f, 0, pos, vs);
  }
  for (const auto& a : vs) for (const auto& b : vs)
  {
    where() = text(a.f) + " at " + std::to_string(a.pos) + " == " + text(b.f) + " at " + std::to_string(b.pos);
    const bool same = text(a.f) == text(b.f), eq = a.o == b.o;
    MC_CHECK(eq == (b.o == a.o), "symmetry of equality");
    if (!same) MC_CHECK(!eq, "views of different levels are equal");
    if (same && (a.pos == b.pos || a.f.empty())) MC_CHECK(eq, "views of the same levels at the same place are different");
    if (eq) MC_CHECK(std::hash<O>()(a.o) == std::hash<O>()(b.o), "hash of equal views");
    ++st().states; st().transitions += 2; ++st().validated;
  }
  sample("all pairs of " + std::to_string(vs.size()) + " views of orders of at most " + std::to_string(nmax) + " levels");
}

void
duplicates(unsigned n)
{
  for (const auto& f0 : forests(n))
  {
    const forest f = named(f0, n, false);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j)
    {
      forest g = f;
      std::function<void(forest&)> rename = [&](forest& x){ for (auto& t : x) { if (t.id == i) t.id = j; rename(t.nested); } };
      rename(g);
      where() = "order " + text(g);
      throws<sdd::duplicate_identifier_error<C>>([&]{ O o(builder(g, i % 4)); }, "duplicate identifier");
      ++st().states; ++st().transitions; ++st().validated;
    }
  }
  sample("all duplicates in all orders of " + std::to_string(n) + " levels");
}

/*------------------------------------------------------------------------------------------------*/

std::vector<Id> user_ids(const OB& ob, unsigned k, bool top)
{
  std::vector<Id> r;
  MC_CHECK(k == 0 || ob.empty() || ob.height() <= k || !top, "more than " << k << " levels in a hierarchy");
  for (OB x = ob; !x.empty(); x = x.next())
  {
    if (!x.identifier().artificial()) r.push_back(x.identifier().user());
    const bool packet = x.identifier().artificial();
    if (packet) MC_CHECK(!x.nested().empty(), "an artificial level without nested levels");
    for (auto& i : user_ids(x.nested(), k, packet)) r.push_back(i);
  }
  return r;
}

void
check_strategies(const forest& f, const std::vector<unsigned>& sizes)
{
  const OB ob = builder(f, 0);
  where() = "flatten " + text(f);
  std::vector<Id> want, got, ids; leaves(f, want);
  const O o(ob);
  const OB fl = sdd::flatten<C>()(ob);
  MC_CHECK(fl.size() == want.size(), "size");
  for (OB x = fl; !x.empty(); x = x.next()) { MC_CHECK(x.nested().empty(), "not flat"); got.push_back(x.identifier().user()); }
  MC_CHECK(got == want, "identifiers");
  MC_CHECK(O(sdd::flatten<C>()(fl)) == O(fl), "flatten is idempotent");
  ids = user_ids(ob, 0, false);
  for (unsigned k : sizes)
  {
    where() = "identifiers_per_hierarchy(" + std::to_string(k) + ") " + text(f);
    const OB g = sdd::identifiers_per_hierarchy<C>(k)(ob);
    MC_CHECK(user_ids(g, k == 1 ? 0 : k, true) == ids, "identifiers");
    const O go(g);
    got.clear(); go.flat(std::back_inserter(got));
    MC_CHECK(got == want, "flat identifiers");
    for (const auto& i : ids) MC_CHECK(go.node(i).identifier().user() == i, "lookup");
    MC_CHECK(O(ob) == o, "operand changed");
    if (k > 1) MC_CHECK(O(sdd::flatten<C>()(g)) == O(fl), "flatten after grouping");
    st().transitions += 3;
  }
  ++st().states; ++st().validated;
}

// The structure of a builder, artificial levels included.
std::string
shown(const OB& ob)
{
  std::string r;
  for (OB x = ob; !x.empty(); x = x.next())
  {
    std::ostringstream os;
    if (x.identifier().artificial()) os << "*"; else os << x.identifier().user();
    r += " " + os.str() + (x.nested().empty() ? "" : "(" + shown(x.nested()) + " )");
  }
  return r;
}

// Concatenation of builders, regrouped or not.
void
concatenations(unsigned n)
{
  for (unsigned a = 0; a <= n; ++a) for (const auto& fa : forests(a)) for (const auto& fb : forests(n - a))
  {
    unsigned k = 0; forest x = fa, y = fb;
    number(x, k, 1, 1000); number(y, k, 1, 1000);
    for (unsigned g = 1; g <= 3; ++g) for (unsigned h = 1; h <= 3; ++h)
    {
      const sdd::identifiers_per_hierarchy<C> sg(g), sh(h);
      OB l = sg(builder(x, 0)); const OB r = sh(builder(y, 0));
      const OB keep = l;
      const std::string sl = shown(l), sr = shown(r);
      where() = "[" + sl + " ] << [" + sr + " ]";
      const OB c = l << r;
      MC_CHECK(shown(c) == sl + sr && shown(l) == sl + sr, "gives [" << shown(c) << " ]");
      MC_CHECK(shown(keep) == sl && shown(r) == sr, "operands changed");
      MC_CHECK(c.size() == keep.size() + r.size() && c.empty() == (n == 0), "size");
      if (n) MC_CHECK(c.height() == (keep.empty() ? 0 : keep.height()) + (r.empty() ? 0 : r.height()), "height");
      const O o(c);
      std::vector<Id> want, got; leaves(x, want); leaves(y, want);
      o.flat(std::back_inserter(got));
      MC_CHECK(got == want, "flat identifiers");
      for (const auto& i : user_ids(c, 0, false)) MC_CHECK(o.node(i).identifier().user() == i, "lookup");
      OB p = r; if (!r.empty() && !x.empty()) { p.push(make_id<Id>(500), l); MC_CHECK(shown(p.nested()) == sl + sr && shown(p.next()) == sr, "pushing a level on top"); }
      ++st().states; st().transitions += 3; ++st().validated;
    }
  }
  sample("all concatenations of regrouped builders of " + std::to_string(n) + " levels");
}

void
strategies(unsigned n)
{
  std::vector<unsigned> sizes;
  for (unsigned k = 1; k <= n + 1; ++k) sizes.push_back(k);
  for (const auto& f0 : forests(n)) check_strategies(named(f0, n, true), sizes);
  sample("strategies on all orders of " + std::to_string(n) + " levels");
}

void
groups(unsigned nmax)
{
  auto m = sdd::init<C>(make_conf<C>(res("page")));
  for (unsigned n = 1; n <= nmax; ++n) for (unsigned k = 1; k <= n + 1; ++k)
  {
    std::vector<Id> ids, got;
    for (unsigned i = 0; i < n; ++i) ids.push_back(make_id<Id>(i));
    where() = "groups of " + std::to_string(k) + " among " + std::to_string(n);
    const OB g = sdd::identifiers_per_hierarchy<C>(k)(OB(ids.begin(), ids.end()));
    MC_CHECK(user_ids(g, k == 1 ? 0 : k, true) == ids, "identifiers");
    const O o(g);
    o.flat(std::back_inserter(got));
    MC_CHECK(got == ids, "flat()");
    // a diagram over this order: one assignment; a function on each identifier
    bridge<C> b;
    std::map<Id, mask> at; for (unsigned i = 0; i < n; ++i) at[ids[i]] = mask(1) << (i % 8);
    const SDD x(o, [&](const Id& i){ return b.values(at.at(i)); });
    MC_CHECK(x.size() == 1, "one assignment");
    if (n <= 12) for (const auto& i : ids)
    {
      auto to = at; to[i] = ((to[i] << 1) | (to[i] >> 7)) & 255;
      const SDD y(o, [&](const Id& j){ return b.values(to.at(j)); });
      MC_CHECK(sdd::function<C>(o, i, rotate_up{})(o, x) == y, "function on " << i);
      ++st().transitions;
    }
    ++st().states; ++st().validated; st().transitions += 2;
  }
  sample("groups of k among n identifiers, n <= " + std::to_string(nmax));
}

// Diagrams and functions built with an order.
void
check_action(const forest& f)
{
  const unsigned n = nodes_of(f);
  const O o(builder(f, 1));
  std::vector<Id> ls; leaves(f, ls);
  init in;
  for (unsigned i = 0; i < ls.size(); ++i) in.v[ls[i]] = (mask(1) << (i % 8)) | (mask(1) << ((i + 3) % 8));
  where() = "diagram over " + text(f);
  const SDD x(o, in), want = model_sdd(f, 0, in);
  MC_CHECK(x == want, "SDD(order, initializer): " << x << " instead of " << want);
  MC_CHECK(x.size() == (decltype(x.size())(1) << unsigned(ls.size())), "size");
  std::vector<place> ps; unsigned pos = 0; places(f, {}, pos, ps);
  for (const auto& p : ps)
  {
    const Id id = make_id<Id>(p.id);
    where() = "function on " + std::to_string(p.id) + " over " + text(f);
    if (!p.nested)
    {
      init to = in;
      to.v[id] = ((in.v[id] << 1) | (in.v[id] >> 7)) & 255;
      const H h = sdd::function<C>(o, id, rotate_up{});
      MC_CHECK(h(o, x) == model_sdd(f, 0, to), "function");
      MC_CHECK(sdd::rewrite<C>(o, h)(o, x) == model_sdd(f, 0, to), "rewritten function");
      init low = in;
      low.v[id] = in.v[id] & 7;
      const SDD y = sdd::function<C>(o, id, keep_low{})(o, x);
      if (low.v[id] == 0) MC_CHECK(y == sdd::zero<C>(), "selector"); else MC_CHECK(y == model_sdd(f, 0, low), "selector");
      st().transitions += 3;
    }
    // carried to the hierarchy of the target: replaces the whole hierarchy
    {
      // the forest which contains the target
      const forest* in_f = &f;
      for (auto up : p.path)
      {
        for (const auto& t : *in_f) if (t.id == ps[up].id) { in_f = &t.nested; break; }
      }
      init to = in;
      std::vector<Id> sub; leaves(*in_f, sub);
      for (const auto& s : sub) to.v[s] = 128;
      const H h = sdd::carrier<C>(o, id, sdd::constant<C>(model_sdd(*in_f, 0, to)));
      MC_CHECK(h(o, x) == model_sdd(f, 0, to), "carrier");
      ++st().transitions;
    }
    if (p.nested && p.path.empty())
    {
      const forest* in_f = nullptr;
      for (const auto& t : f) if (t.id == p.id) in_f = &t.nested;
      init to = in; std::vector<Id> sub; leaves(*in_f, sub);
      for (const auto& s : sub) to.v[s] = 129;
      MC_CHECK(sdd::local<C>(id, o, sdd::constant<C>(model_sdd(*in_f, 0, to)))(o, x) == model_sdd(f, 0, to), "local");
      ++st().transitions;
    }
  }
  const Id unknown = make_id<Id>(n + 1);
  throws<sdd::identifier_not_found_error<C>>([&]{ sdd::function<C>(o, unknown, rotate_up{}); }, "function on an unknown identifier");
  throws<sdd::identifier_not_found_error<C>>([&]{ sdd::local<C>(unknown, o, sdd::constant<C>(x)); }, "local on an unknown identifier");
  throws<sdd::identifier_not_found_error<C>>([&]{ sdd::carrier<C>(o, unknown, sdd::constant<C>(x)); }, "carrier to an unknown identifier");
  ++st().states; ++st().validated;
}

void
action(unsigned n)
{
  auto m = sdd::init<C>(make_conf<C>(res("page")));
  for (const auto& f0 : forests(n)) check_action(named(f0, n, false));
  sample("diagrams and functions over all orders of " + std::to_string(n) + " levels");
}

/*------------------------------------------------------------------------------------------------*/
// Large orders: n levels in several arrangements.

forest
arranged(unsigned n, unsigned arrangement)
{
  forest f;
  if (n == 0) return f;
  switch (arrangement)
  {
    case 0: f.resize(n); return f;                                                      // flat
    case 1: f.push_back({0, arranged(n - 1, 1)}); return f;                             // a chain downwards
    case 2: if (n == 1) return arranged(1, 0); f.push_back({0, arranged(n - 2, 2)}); f.push_back({0, {}}); return f;
    case 3: if (n == 1) return arranged(1, 0); f.push_back({0, {}}); f.push_back({0, arranged(n - 2, 3)}); return f;
    case 4: { const unsigned l = (n - 1) / 2; f.push_back({0, arranged(l, 4)}); for (auto& t : arranged(n - 1 - l, 4)) f.push_back(t); return f; }
    case 5: for (unsigned left = n; left > 0;) { const unsigned k = std::min(left, 10u); f.push_back({0, arranged(k - 1, 0)}); left -= k; } return f;
    default: for (unsigned left = n; left > 0;) { const unsigned k = std::min(left, 17u); f.push_back({0, arranged(k - 1, 1)}); left -= k; } return f;
  }
}
constexpr unsigned arrangements = 7;

const std::vector<unsigned>&
many()
{
  static const std::vector<unsigned> v = []{ std::vector<unsigned> r; for (unsigned n = 9; n <= 40; ++n) r.push_back(n);
    for (unsigned n : {63, 64, 65, 66, 100, 127, 128, 129, 130}) r.push_back(n); return r; }();
  return v;
}

void
large(unsigned arrangement, unsigned what)
{
  auto m = sdd::init<C>(make_conf<C>(res("page")));
  auto ns = many();
  if (what == 0) for (unsigned n : {255, 256, 257, 258}) ns.push_back(n);
  for (unsigned n : ns)
  {
    if (what == 0) for (bool reversed : {false, true}) check_structure(named(arranged(n, arrangement), n, reversed));
    if (what == 1) check_strategies(named(arranged(n, arrangement), n, true), {1, 2, 3, 7, 8, 9, n / 2, n - 1, n, n + 1});
    if (what == 2) check_action(named(arranged(n, arrangement), n, false));
  }
  sample("arrangement " + std::to_string(arrangement) + " of up to " + std::to_string(ns.back()) + " levels");
}

/*------------------------------------------------------------------------------------------------*/
// FORCE

using edges = std::vector<mask>;

struct outcome_t { std::vector<Id> ids; std::vector<double> spans; };

outcome_t
run_force(unsigned n, const edges& es, unsigned iterations, bool reverse, double weight = 1)
{
  std::vector<Id> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(make_id<Id>(i));
  sdd::force::hypergraph<C> g(ids.begin(), ids.end());
  for (mask e : es)
  {
    std::vector<Id> v; for (unsigned i = 0; i < n; ++i) if (e >> i & 1) v.push_back(ids[i]);
    g.add_hyperedge(v.begin(), v.end(), weight);
  }
  sdd::force::worker<C> w(g, reverse);
  const OB ob = w(iterations);
  outcome_t r;
  for (OB x = ob; !x.empty(); x = x.next()) { MC_CHECK(x.nested().empty(), "nested levels"); r.ids.push_back(x.identifier().user()); }
  r.spans.assign(w.spans().begin(), w.spans().end());
  return r;
}

double
span(unsigned n, const edges& es, const std::vector<Id>& order)
{
  double total = 0;
  for (mask e : es)
  {
    long lo = 1000, hi = -1;
    for (unsigned p = 0; p < order.size(); ++p) for (unsigned i = 0; i < n; ++i)
      if (e >> i & 1 && order[p] == make_id<Id>(i)) { lo = std::min<long>(lo, p); hi = std::max<long>(hi, p); }
    if (hi >= 0) total += hi - lo;
  }
  return total;
}

void
check_force(unsigned n, const edges& es, const std::vector<unsigned>& iterations)
{
  where() = "FORCE on " + std::to_string(n) + " identifiers, edges";
  for (mask e : es) where() += " " + hex(e);
  std::vector<Id> ids; for (unsigned i = 0; i < n; ++i) ids.push_back(make_id<Id>(i));
  auto sorted = ids; std::sort(sorted.begin(), sorted.end());
  double previous = 1e9;
  for (unsigned it : iterations)
  {
    const auto r = run_force(n, es, it, false);
    auto s = r.ids; std::sort(s.begin(), s.end());
    MC_CHECK(s == sorted, "not the identifiers of the hypergraph, " << it << " iterations");
    MC_CHECK(r.spans.size() == it, "one span per iteration");
    const double got = span(n, es, r.ids);
    if (it == 0) MC_CHECK(got == span(n, es, ids), "no iteration: initial order");
    else
    {
      MC_CHECK(got == *std::min_element(r.spans.begin(), r.spans.end()), "span " << got << " of the result isn't the smallest, " << it << " iterations");
      MC_CHECK(got <= previous, "more iterations give a worse order");
      previous = got;
    }
    const auto v = run_force(n, es, it, true);
    MC_CHECK(v.ids == std::vector<Id>(r.ids.rbegin(), r.ids.rend()) && v.spans == r.spans, "reverse order");
    run_force(n + 1, {full(n + 1), 3}, 2, false);
    const auto again = run_force(n, es, it, false);
    MC_CHECK(again.ids == r.ids && again.spans == r.spans, "depends on other hypergraphs");
    ++st().validated; st().transitions += 4;
  }
  ++st().states;
}

void
force_cell(unsigned n, unsigned k, const std::vector<unsigned>& iterations, unsigned part = 0, unsigned parts = 1)
{
  // all multisets of at most k edges, given in all orders when k <= 2
  const mask m = full(n);
  std::uint64_t idx = 0;
  std::function<void(edges&, mask)> rec = [&](edges& es, mask from)
  {
    if (idx++ % parts == part) check_force(n, es, iterations);
    if (es.size() == k) return;
    for (mask e = k <= 2 ? 1 : from; e <= m; ++e) { es.push_back(e); rec(es, e); es.pop_back(); }
  };
  edges es; rec(es, 1);
  sample("all hypergraphs of at most " + std::to_string(k) + " edges over " + std::to_string(n) + " identifiers");
}

// chains, rings, stars and grids of n identifiers
void
force_families(unsigned nmax)
{
  for (unsigned n = 2; n <= nmax; ++n)
  {
    edges chain, ring, star, comb;
    for (unsigned i = 0; i + 1 < n; ++i) chain.push_back(mask(3) << i);
    ring = chain; ring.push_back(mask(1) | mask(1) << (n - 1));
    for (unsigned i = 1; i < n; ++i) star.push_back(mask(1) | mask(1) << i);
    for (unsigned i = 0; i < n; ++i) comb.push_back(mask(1) << i | mask(1) << (i * 5 % n) | mask(1) << (i * 3 % n));
    for (const auto& es : {chain, ring, star, comb}) check_force(n, es, {0, 1, 2, 5, 20});
  }
  bool thrown = false;
  try { std::vector<Id> d{make_id<Id>(1), make_id<Id>(2), make_id<Id>(1)}; sdd::force::hypergraph<C> g(d.begin(), d.end()); }
  catch (const std::runtime_error&) { thrown = true; }
  MC_CHECK(thrown, "duplicate identifiers accepted");
  sample("chains, rings, stars of 2.." + std::to_string(nmax) + " identifiers");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  for (unsigned n = 0; n <= 10; ++n)
  {
    add_cell(c + "order/structure/" + std::to_string(n), [=]{ structure(n, false); structure(n, true); }, n > 8);
    if (n >= 2) add_cell(c + "order/duplicates/" + std::to_string(n), [=]{ duplicates(n); }, n > 8);
    if (n >= 1) add_cell(c + "order/strategies/" + std::to_string(n), [=]{ strategies(n); }, n > 8);
    add_cell(c + "order/action/" + std::to_string(n), [=]{ action(n); }, n > 8);
  }
  for (unsigned a = 0; a < arrangements; ++a)
  {
    add_cell(c + "order/large/structure/" + std::to_string(a), [=]{ large(a, 0); });
    add_cell(c + "order/large/strategies/" + std::to_string(a), [=]{ large(a, 1); });
    add_cell(c + "order/large/action/" + std::to_string(a), [=]{ large(a, 2); });
  }
  add_cell(c + "order/equality", []{ equality(5); });
  add_cell(c + "order/equality6", []{ equality(6); }, true);
  add_cell(c + "order/suborders", []{ suborders(4); });
  add_cell(c + "order/suborders5", []{ suborders(5); }, true);
  for (unsigned n = 0; n <= 8; ++n) add_cell(c + "order/concatenations/" + std::to_string(n), [=]{ concatenations(n); }, n > 7);
  add_cell(c + "order/groups", []{ groups(40); });
  add_cell(c + "force/2", []{ force_cell(2, 4, {0, 1, 2, 3, 7}); });
  add_cell(c + "force/3", []{ force_cell(3, 4, {0, 1, 2, 3, 7}); });
  add_cell(c + "force/4", []{ force_cell(4, 3, {0, 1, 2, 3, 4, 10}); });
  add_cell(c + "force/4pairs", []{ force_cell(4, 2, {0, 1, 2, 3, 4, 10}); });
  add_cell(c + "force/5", []{ force_cell(5, 2, {1, 3, 10}); });
  for (unsigned q = 0; q < 4; ++q)
  {
    add_cell(c + "force/5triples/" + std::to_string(q), [=]{ force_cell(5, 3, {1, 2, 4}, q, 4); });
    add_cell(c + "force/6/" + std::to_string(q), [=]{ force_cell(6, 3, {1, 2, 4, 8}, q, 4); }, true);
    add_cell(c + "force/5quads/" + std::to_string(q), [=]{ force_cell(5, 4, {1, 2, 4, 8}, q, 4); }, true);
  }
  add_cell(c + "force/families", []{ force_families(63); });
}
const registrar reg(cells_);

} // namespace
