// C18: outputs of homomorphisms, serialization of statistics, orders written and read back.
#include <iostream>
#include <sstream>

#include <boost/optional.hpp>

#include "model.hh"
#include "sdd/tools/dot/homomorphism.hh"
#include "sdd/tools/js.hh"
#ifdef WITH_FLAT_SET
#include "sdd/tools/manager_statistics.hh"
#include "sdd/tools/serialization.hh"
#endif
#include "sdd/tools/order.hh"

using namespace mc;
using C = sdd::CONF;
using SDD = sdd::SDD<C>;
using Id = C::Identifier;
using OB = sdd::order_builder<C>;
using O = sdd::order<C>;
using H = sdd::homomorphism<C>;

namespace {

Id name(unsigned k);

/*------------------------------------------------------------------------------------------------*/
// A user function with a text.

struct ufun
{
  unsigned k; bool sel;
  C::Values operator()(const C::Values& v) const { return v; }
  bool selector() const noexcept { return sel; }
  friend bool operator==(const ufun& l, const ufun& r) noexcept { return l.k == r.k && l.sel == r.sel; }
  friend std::ostream& operator<<(std::ostream& os, const ufun& f) { return os << "user" << f.k; }
};

} // namespace
namespace std {
template <> struct hash<ufun> { std::size_t operator()(const ufun& f) const noexcept { return f.k; } };
}
namespace {

std::string str(const H& h) { std::ostringstream os; os << h; return os.str(); }

// The expression as it was built: operands of sums are unordered.
struct expr;
using expr_ptr = std::shared_ptr<const expr>;
struct expr { char kind; H h; std::string arg; std::vector<expr_ptr> sub; std::string key; };

// compositions are associative
std::string
composed(const std::string& l, const std::string& r)
{
  const auto in = [](const std::string& k) { return k[0] == 'o' ? k.substr(2, k.size() - 3) : k + ";"; };
  return "o(" + in(l) + in(r) + ")";
}

expr_ptr
mk(char kind, const H& h, const std::string& arg, const std::vector<expr_ptr>& sub)
{
  std::vector<std::string> ks; for (const auto& s : sub) ks.push_back(s->key);
  if (kind == 'o') return std::make_shared<expr>(expr{kind, h, arg, sub, composed(ks[0], ks[1])});
  if (kind == '+') std::sort(ks.begin(), ks.end());
  std::string key = std::string(1, kind) + arg + "(";
  for (const auto& k : ks) key += k + ";";
  return std::make_shared<expr>(expr{kind, h, arg, sub, key + ")"});
}

// All the expressions over some operands, without those which the constructors simplify.
void
combine(const O& o, const std::vector<expr_ptr>& xs, const std::vector<expr_ptr>& ys, std::vector<expr_ptr>& out)
{
  const auto pos = [&](unsigned k) { return std::to_string(k); };
  for (const auto& x : xs)
  {
    if (x->kind != '*' && x->kind != 'i') out.push_back(mk('*', sdd::fixpoint<C>(x->h), "", {x}));
    if (x->kind != '@' && x->kind != 'i') for (unsigned v : {0u, 2u}) out.push_back(mk('@', sdd::local<C>(v, x->h), pos(v), {x}));
    for (const auto& y : ys)
    {
      if (x->kind != 'i' && y->kind != 'i' && !(x->kind == '@' && (y->kind == '@' || y->kind == 'o')) && !(y->kind == '@' && x->kind == 'o')) out.push_back(mk('o', sdd::composition<C>(x->h, y->h), "", {x, y}));
      if (x->kind != '+' && y->kind != '+' && x->key < y->key && !(x->kind == '@' && y->kind == '@')) out.push_back(mk('+', sdd::sum<C>(o, {x->h, y->h}), "", {x, y}));
    }
  }
}

struct graph
{
  std::map<std::string, std::string> label;
  std::map<std::string, std::vector<std::pair<std::string, std::string>>> edges; // target, label
  std::vector<std::string> order; // of declarations
};

std::string
attr_label(const std::string& l)
{
  const auto i = l.find("[label=\"");
  if (i == std::string::npos) return "";
  const auto j = l.rfind("\"]");
  MC_CHECK(j != std::string::npos && j >= i + 8, "unreadable line " << l);
  return l.substr(i + 8, j - i - 8);
}

graph
parse(const H& h)
{
  std::ostringstream os; os << sdd::tools::dot(h);
  std::istringstream is(os.str()); std::string l;
  graph g; bool open = false, closed = false;
  while (std::getline(is, l))
  {
    if (l == "digraph homomorphism {") { MC_CHECK(!open, "opened twice"); open = true; continue; }
    MC_CHECK(open && !closed, "text outside the graph");
    if (l == "}") { closed = true; continue; }
    const std::string n = l.substr(0, l.find_first_of(" [;"));
    const auto arrow = l.find(" -> ");
    if (arrow == std::string::npos || l.find("[label") < arrow)
    {
      MC_CHECK(g.label.emplace(n, attr_label(l)).second, "declared twice: " << l << " in\n" << os.str());
      g.order.push_back(n);
    }
    else
    {
      const auto rest = l.substr(arrow + 4);
      g.edges[n].push_back({rest.substr(0, rest.find_first_of(" [;")), attr_label(rest)});
    }
  }
  MC_CHECK(open && closed, "unreadable output " << os.str());
  return g;
}

// The expression denoted by a node of the graph, as a key, and its text.
struct reader
{
  const graph& g; const std::map<std::string, expr_ptr>& leaves;
  std::map<std::string, std::string> keys; // by node
  std::set<std::string> used;

  std::pair<std::string, std::string>
  read(const std::string& n)
  {
    const auto leaf = leaves.find(n);
    if (leaf != leaves.end()) { used.insert(n); return {leaf->second->key, str(leaf->second->h)}; }
    MC_CHECK(g.label.count(n), "an unknown node " << n);
    used.insert(n);
    const auto l = g.label.at(n);
    const auto it = g.edges.find(n);
    static const std::vector<std::pair<std::string, std::string>> none;
    const auto& es = it == g.edges.end() ? none : it->second;
    const auto child = [&](std::size_t k, const char* lab){ MC_CHECK(k < es.size() && es[k].second == lab, "edges of " << l); return read(es[k].first); };
    const auto one = [&](const std::string& k, const std::string& t){ return std::make_pair(k, t); };
    if (l == "id") { MC_CHECK(es.empty(), "edges of id"); return one("i()", "Id"); }
    if (l == "o") { MC_CHECK(es.size() == 2, "edges of a composition"); const auto a = child(0, "l"), b = child(1, "r"); return one(composed(a.first, b.first), a.second + " o " + b.second); }
    if (l == "*") { MC_CHECK(es.size() == 1, "edges of a fixpoint"); const auto a = child(0, ""); return one("*(" + a.first + ";)", "(" + a.second + ")*"); }
    if (l == "@") { MC_CHECK(es.size() == 1, "edges of a local"); const auto a = read(es[0].first); return one("@" + es[0].second + "(" + a.first + ";)", "@(" + es[0].second + ", " + a.second + ")"); }
    if (l == "ITE")
    {
      MC_CHECK(es.size() == 3, "edges of an if-then-else");
      const auto a = child(0, "if"), b = child(1, "then"), c = child(2, "else");
      return one("?(" + a.first + ";" + b.first + ";" + c.first + ";)", "ite(" + a.second + ", " + b.second + "," + c.second + ")");
    }
    if (l == "+")
    {
      std::vector<std::string> ks; std::string t = "(";
      for (std::size_t k = 0; k < es.size(); ++k) { const auto a = child(k, ""); ks.push_back(a.first); t += (k ? " + " : "") + a.second; }
      std::sort(ks.begin(), ks.end());
      std::string key = "+(";
      for (const auto& k : ks) key += k + ";";
      return one(key + ")", t + ")");
    }
    MC_CHECK(es.empty(), "edges of a function");
    return one("f" + l + "()", l);
  }
};

// The expression written by js(), as a key. Conditionals and constants are not written by it.
bool
written(const expr& e)
{
  if (e.kind == 'k' || e.kind == '?') return false;
  for (const auto& s : e.sub) if (!written(*s)) return false;
  return true;
}

std::string
read_js(const rapidjson::Value& v)
{
  MC_CHECK(v.IsObject() && v.HasMember("name") && v["name"].IsString(), "unreadable object");
  const std::string n = v["name"].GetString();
  std::vector<std::string> ks;
  if (v.HasMember("children"))
  {
    MC_CHECK(v["children"].IsArray(), "children");
    for (const auto& c : v["children"].GetArray()) ks.push_back(read_js(c));
  }
  MC_CHECK(v.MemberCount() == (v.HasMember("children") ? 2u : 1u), "members of " << n);
  if (n == "o") { MC_CHECK(ks.size() == 2, "children of a composition"); return composed(ks[0], ks[1]); }
  if (n == "*") { MC_CHECK(ks.size() == 1, "children of a fixpoint"); return "*(" + ks[0] + ";)"; }
  if (n == "id") { MC_CHECK(ks.empty(), "children of id"); return "i()"; }
  if (n.compare(0, 2, "@ ") == 0) { MC_CHECK(ks.size() == 1, "children of a local"); return "@" + n.substr(2) + "(" + ks[0] + ";)"; }
  if (n == "+")
  {
    std::sort(ks.begin(), ks.end());
    std::string key = "+(";
    for (const auto& k : ks) key += k + ";";
    return key + ")";
  }
  MC_CHECK(ks.empty(), "children of a function");
  return "f" + n + "()";
}

void
check_js(const expr& e)
{
  if (!written(e)) return;
  std::ostringstream os; os << sdd::tools::js(e.h);
  rapidjson::Document d;
  d.Parse(os.str().c_str());
  MC_CHECK(!d.HasParseError(), "unreadable output of js: " << os.str());
  const auto k = read_js(d);
  MC_CHECK(k == e.key, "js wrote " << k);
  ++st().validated;
}

void
hom_outputs(unsigned part, unsigned parts)
{
  auto m = sdd::init<C>(make_conf<C>(res("page")));
  bridge<C> b;
  OB ob; for (unsigned k = 0; k < 3; ++k) ob.push(name(k));
  const O o(ob);
  std::vector<expr_ptr> l0;
  for (unsigned k = 0; k < 3; ++k)
  {
    const H f = sdd::function<C>(o, name(k), ufun{k, k == 2});
    l0.push_back(mk('f', f, "fun(" + std::to_string(o.node(name(k)).variable()) + ", user" + std::to_string(k) + ")", {}));
  }
  const expr_ptr sel = l0[2];
  l0.push_back(mk('i', sdd::id<C>(), "", {}));
  const auto flat = make_shape("2,2");
  const expr_ptr cst = mk('k', sdd::constant<C>(b.grouped(*flat, 6)), "", {});
  l0.push_back(cst);
  std::vector<expr_ptr> l1, l2;
  combine(o, l0, l0, l1);
  for (const auto& x : l0) for (const auto& y : l0) if (x != y && (x->kind != 'i' || y->kind != 'i')) l1.push_back(mk('?', sdd::if_then_else<C>(sel->h, x->h, y->h), "", {sel, x, y}));
  // sums of three operands
  l1.push_back(mk('+', sdd::sum<C>(o, {l0[0]->h, l0[1]->h, l0[4]->h}), "", {l0[0], l0[1], l0[4]}));
  l1.push_back(mk('+', sdd::sum<C>(o, {l0[3]->h, l0[1]->h, l0[4]->h, l0[0]->h}), "", {l0[3], l0[1], l0[4], l0[0]}));
  auto both = l0; both.insert(both.end(), l1.begin(), l1.end());
  combine(o, l1, both, l2);
  combine(o, l0, l1, l2);
  for (const auto& x : l1) for (const auto& y : l1) if (x != y) l2.push_back(mk('?', sdd::if_then_else<C>(sel->h, x->h, y->h), "", {sel, x, y}));
  auto all = both; all.insert(all.end(), l2.begin(), l2.end());
  // the name of the node of the constant, which has no declaration
  std::map<std::string, expr_ptr> leaves;
  {
    const graph g = parse(sdd::fixpoint<C>(cst->h));
    MC_CHECK(g.edges.size() == 1 && g.edges.begin()->second.size() == 1, "fixpoint of a constant");
    const auto n = g.edges.begin()->second[0].first;
    if (!g.label.count(n)) leaves[n] = cst;
    else MC_FAIL("a constant is drawn; teach it to the explorer");
  }
  std::uint64_t idx = 0;
  for (const auto& e : all)
  {
    if (idx++ % parts != part) continue;
    where() = "output of " + e->key;
    const graph g = parse(e->h);
    ++st().states; st().transitions += 2; ++st().validated;
    check_js(*e);
    if (e->kind == 'k') { MC_CHECK(g.label.empty() && g.edges.empty(), "graph of a constant"); continue; }
    MC_CHECK(!g.order.empty(), "empty graph");
    reader rd{g, leaves, {}, {}};
    const auto r = rd.read(g.order.front());
    MC_CHECK(r.first == e->key, "the graph denotes " << r.first);
    MC_CHECK(r.second == str(e->h), "text " << str(e->h) << " instead of " << r.second);
    // each part once: no two nodes with the same label and children
    std::set<std::string> seen;
    for (const auto& n : g.label)
    {
      if (n.second == "id") continue; // drawn each time
      std::string k = n.second;
      const auto it = g.edges.find(n.first);
      if (it != g.edges.end()) for (const auto& x : it->second)
      {
        const auto t = g.label.find(x.first);
        k += "|" + x.second + ":" + (t != g.label.end() && t->second == "id" ? "id" : x.first);
      }
      MC_CHECK(seen.insert(k).second, "a part is drawn twice");
    }
    for (const auto& n : g.label) MC_CHECK(rd.used.count(n.first), "useless node " << n.first);
    // the same again, but for the names of identities
    const graph g2 = parse(e->h);
    reader rd2{g2, leaves, {}, {}};
    MC_CHECK(rd2.read(g2.order.front()) == r, "two outputs differ");
  }
  sample("outputs of " + std::to_string(all.size()) + " homomorphisms, last " + where());
}

/*------------------------------------------------------------------------------------------------*/
#ifdef WITH_FLAT_SET
// Serialization: an archive which keeps what it is given.

struct archive
{
  std::map<std::string, std::string> got;
  std::string prefix;
  template <typename T> auto put(const std::string& k, const T& v, int) -> decltype(std::declval<std::ostream&>() << v, void())
  { std::ostringstream os; os << v; MC_CHECK(got.emplace(prefix + k, os.str()).second, "written twice: " << k); }
  template <typename T> auto put(const std::string& k, const T& v, long) -> decltype(save(std::declval<archive&>(), v), void())
  { const auto old = prefix; prefix += k + "/"; save(*this, v); prefix = old; }
  void put(const std::string& k, const sdd::tools::arcs_frequency_type& v, int)
  { for (const auto& f : v) { std::ostringstream os; os << f.second.first << "," << f.second.second; got[prefix + k + "/" + std::to_string(f.first)] = os.str(); } }
  template <typename T> void one(const cereal::NameValuePair<T>& p) { put(p.name, p.value, 0); }
  template <typename... Ts> void operator()(Ts&&... ts) { const int d[] = {(one(ts), 0)...}; (void)d; }
};

using text_map = std::map<std::string, std::string>;
template <typename T> std::string txt(const T& v) { std::ostringstream os; os << v; return os.str(); }

void
serialized(const std::string& sn)
{
  const auto sp = make_shape(sn); const shape& s = *sp;
  auto m = sdd::init<C>(make_conf<C>(res("small")));
  bridge<C> b;
  std::vector<SDD> keep;
  const auto ut = [](text_map& w, const std::string& p, const sdd::mem::unique_table_statistics& u)
  {
    w[p + "/#"] = txt(u.size); w[p + "/# peak"] = txt(u.peak); w[p + "/# accesses"] = txt(u.access); w[p + "/# hits"] = txt(u.hits); w[p + "/# misses"] = txt(u.misses);
    w[p + "/# rehash"] = txt(u.rehash); w[p + "/# collisions"] = txt(u.collisions); w[p + "/# alone"] = txt(u.alone); w[p + "/# empty"] = txt(u.empty);
    w[p + "/# buckets"] = txt(u.buckets); w[p + "/load factor"] = txt(u.load_factor);
  };
  const auto ca = [](text_map& w, const std::string& p, const sdd::mem::cache_statistics& u)
  {
    w[p + "/#"] = txt(u.size); w[p + "/# hits"] = txt(u.hits); w[p + "/# misses"] = txt(u.misses); w[p + "/# filtered"] = txt(u.filtered); w[p + "/# discarded"] = txt(u.discarded);
    w[p + "/# collisions"] = txt(u.collisions); w[p + "/# alone"] = txt(u.alone); w[p + "/# empty"] = txt(u.empty); w[p + "/# buckets"] = txt(u.buckets);
    w[p + "/load factor"] = txt(u.load_factor);
  };
  for (mask x = 0; x <= full(s.count()); ++x)
  {
    where() = "serialization, set " + hex(x) + " of " + sn;
    keep.push_back(b.build(s, x, static_cast<unsigned>(x % bridge<C>::nb_builders)));
    if (x % 3 == 0) keep.back() = keep.back() + keep[x / 2] - keep[x / 3];
    const auto st_ = sdd::tools::statistics(keep.back());
    archive a; save(a, st_);
    text_map w;
    w["bytes"] = txt(sdd::tools::size(keep.back()));
    const auto n = sdd::tools::nodes(keep.back()); const auto f = sdd::tools::arcs(keep.back()); const auto na = sdd::tools::number_of_arcs(f);
    w["flat nodes"] = txt(n.first); w["hierarchical nodes"] = txt(n.second); w["flat arcs"] = txt(na.first); w["hierarchical arcs"] = txt(na.second);
    for (const auto& e : f) w["arcs frequency/" + txt(e.first)] = txt(e.second.first) + "," + txt(e.second.second);
    MC_CHECK(a.got == w, "statistics of " << keep.back());
    archive am; save(am, sdd::tools::statistics(m));
    text_map wm;
    ut(wm, "SDD unique table", m.sdd_stats()); ut(wm, "hom unique table", m.hom_stats()); ut(wm, "values", m.values_stats());
    ca(wm, "SDD differences cache", m.sdd_difference_cache_stats()); ca(wm, "SDD intersections cache", m.sdd_intersection_cache_stats());
    ca(wm, "SDD sums cache", m.sdd_sum_cache_stats()); ca(wm, "hom cache", m.hom_cache_stats());
    MC_CHECK(am.got == wm, "statistics of the manager");
    ++st().states; st().transitions += 2; ++st().validated;
  }
  sample("serialized statistics of every set of " + sn);
}
#endif

/*------------------------------------------------------------------------------------------------*/
// Orders written and read back: the same identifiers, the same nesting but for hierarchies of one level.

template <typename T> struct names;
template <> struct names<std::string> { static std::string get(unsigned k) { return std::string(k % 7 == 3 ? "a much longer identifier, with , [ and ] " : "p") + std::to_string(k); } };
template <> struct names<unsigned> { static unsigned get(unsigned k) { return k * 1000003; } };
Id name(unsigned k) { return names<Id>::get(k); }

struct tree;
using forest = std::vector<tree>;
struct tree { unsigned id; forest nested; };

const std::vector<forest>&
forests(unsigned n)
{
  static std::map<unsigned, std::vector<forest>> memo;
  const auto it = memo.find(n);
  if (it != memo.end()) return it->second;
  std::vector<forest> r;
  if (n == 0) r.push_back({});
  for (unsigned k = 1; k <= n; ++k)
    for (const auto& in : std::vector<forest>(forests(k - 1))) for (const auto& rest : std::vector<forest>(forests(n - k)))
    { forest f{tree{0, in}}; f.insert(f.end(), rest.begin(), rest.end()); r.push_back(f); }
  return memo[n] = r;
}
void number(forest& f, unsigned& next) { for (auto& t : f) { t.id = next++; number(t.nested, next); } }

OB
builder(const forest& f)
{
  OB ob;
  for (std::size_t i = f.size(); i-- > 0;)
    if (f[i].nested.empty()) ob.push(name(f[i].id)); else ob.push(name(f[i].id), builder(f[i].nested));
  return ob;
}

// nested lists of leaves
std::string
lists(const forest& f)
{
  std::string r;
  for (const auto& t : f)
  {
    std::ostringstream os; os << name(t.id);
    r += (r.empty() ? "" : " | ") + (t.nested.empty() ? os.str() : "<" + lists(t.nested) + ">");
  }
  return r;
}
std::string
lists(const OB& ob)
{
  std::string r;
  for (OB x = ob; !x.empty(); x = x.next())
  {
    std::ostringstream os;
    if (x.nested().empty()) { MC_CHECK(!x.identifier().artificial(), "a leaf without identifier"); os << x.identifier().user(); }
    else MC_CHECK(x.identifier().artificial(), "identifier of a hierarchy");
    r += (r.empty() ? "" : " | ") + (x.nested().empty() ? os.str() : "<" + lists(x.nested()) + ">");
  }
  return r;
}
// without hierarchies of one level
forest
collapsed(const forest& f)
{
  forest r;
  for (const auto& t : f)
  {
    if (t.nested.empty()) { r.push_back(t); continue; }
    const forest in = collapsed(t.nested);
    if (in.size() == 1) r.push_back(in[0]); else r.push_back({t.id, in});
  }
  return r;
}

void
json(unsigned n)
{
  auto m = sdd::init<C>(make_conf<C>(res("page")));
  for (forest f : forests(n))
  {
    unsigned k = 0; number(f, k);
    where() = "order " + lists(f);
    const O o(builder(f));
    std::ostringstream os; sdd::tools::dump_order(o, os);
    std::string t = os.str(), want;
    // the nested lists of identifiers
    std::function<void(const forest&)> put = [&](const forest& g)
    {
      want += "[";
      for (std::size_t i = 0; i < g.size(); ++i)
      {
        if (i) want += ",";
        if (!g[i].nested.empty()) { put(g[i].nested); continue; }
        std::ostringstream id; id << name(g[i].id);
        want += std::is_integral<Id>::value ? id.str() : "\"" + id.str() + "\"";
      }
      want += "]";
    };
    put(f);
    t.erase(std::remove(t.begin(), t.end(), '\n'), t.end());
    MC_CHECK(t == want, "written as " << t);
    std::istringstream is(os.str());
    const auto back = sdd::tools::load_order<C>(is);
    MC_CHECK(back, "not read back");
    forest c = collapsed(f);
    while (c.size() == 1 && !c[0].nested.empty()) c = forest(c[0].nested);
    MC_CHECK(lists(*back) == lists(c), "read back as " << lists(*back));
    std::vector<Id> a, z; o.flat(std::back_inserter(a)); O(*back).flat(std::back_inserter(z));
    MC_CHECK(a == z, "identifiers");
    ++st().states; st().transitions += 2; ++st().validated;
  }
  std::istringstream is("");
  MC_CHECK(!sdd::tools::load_order<C>(is), "an order read from nothing");
  sample("orders of " + std::to_string(n) + " levels written and read back");
}

void
cells_()
{
  const std::string c = std::string(conf_name<C>::get()) + "/";
  for (unsigned q = 0; q < 4; ++q) add_cell(c + "outputs/hom/" + std::to_string(q), [=]{ hom_outputs(q, 4); });
#ifdef WITH_FLAT_SET
  for (const char* s : {"3,3", "(2,2),2", "2,(2),2"}) add_cell(c + "outputs/serialized/" + s, [=]{ serialized(s); });
#endif
  for (unsigned n = 1; n <= 9; ++n) add_cell(c + "outputs/json/" + std::to_string(n), [=]{ json(n); }, n > 8);
}
const registrar reg(cells_);

} // namespace
