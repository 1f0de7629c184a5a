// C17 and C18: the contracts of decode, encode, verify, serialize and Serializer<N>, executed on the real code.
#include "harness.hh"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/filesystem.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <yaml-cpp/yaml.h>
#include "block_iterator.hh"
#include "config/config_node.hh"
#include "utils/serialization_tuple.hh"
using namespace std;
using H::below; using H::fail;
typedef unsigned u;

static string path_text() {
  static const vector<string> fix = {"results", "a/b/c", "/tmp/x", "with space/dir", "0", "12", "true", "null", "~", "./x/../y", "x.y_z-1", "a:b", "q#r", "\"quoted\"", "it's", "dir/", "[a]", "{b}", "- x", "&anchor", "*star", "!tag", "%p", "@at", "1e5", "0x10", "ä/ö", "a\\b", " lead", "trail ", "a,b", "? k", "|", ">", "yes", "no"};
  if (below(3)) return H::pick(fix);
  string s; static const string al = "abcXYZ019._-/ :#";
  for (u i = 0, n = 1 + below(12); i < n; ++i) s += al[below(al.size())];
  return s;
}
static u num() {
  switch (below(5)) { case 0: return below(4); case 1: return below(50); case 2: return (u)H::lit(); case 3: return 0xffffffffu - below(3); default: return (u)H::rnd(); }
}
static ConfigNode node() {
  ConfigNode c; c.prime = num(); c.prime_exponent = num(); c.genus = num(); c.with_marked_point = below(2); c.count_exponent = below(3) ? num() : c.genus; c.result_path = path_text(); c.package_size = num();
  return c;
}
static string show(const ConfigNode & c) { return "(" + to_string(c.prime) + "," + to_string(c.prime_exponent) + "," + to_string(c.genus) + "," + to_string(c.with_marked_point) + "," + to_string(c.count_exponent) + ",'" + c.result_path.string() + "'," + to_string(c.package_size) + ")"; }
static bool same(const ConfigNode & a, const ConfigNode & b) {
  return a.prime == b.prime && a.prime_exponent == b.prime_exponent && a.genus == b.genus && a.with_marked_point == b.with_marked_point && a.count_exponent == b.count_exponent && a.result_path.generic_string() == b.result_path.generic_string() && a.package_size == b.package_size;
}
static ConfigNode blank() { ConfigNode c; c.prime = 901; c.prime_exponent = 902; c.genus = 903; c.with_marked_point = below(2); c.count_exponent = 904; c.result_path = "blank"; c.package_size = 905; return c; }

static void decode_case() {
  static const vector<string> names = {"Prime", "PrimeExponent", "Genus", "WithMarkedPoint", "CountExponent", "ResultPath", "PackageSize"};
  ConfigNode c = node();
  u absent = 0;
  switch (below(3)) { case 0: break; case 1: absent = 1u << below(7); break; default: absent = below(128); }
  if (below(2)) absent &= ~((1u << 0) | (1 << 1) | (1 << 2) | (1 << 5) | (1 << 6));
  // a configuration file as a user writes it: the entries in some order
  vector<u> ord; for (u i = 0; i < 7; ++i) if (!(absent >> i & 1)) ord.push_back(i);
  for (size_t i = ord.size(); i > 1; --i) swap(ord[i - 1], ord[below(i)]);
  string t; u reprs = below(4);
  YAML::Node built;
  for (u i : ord) {
    string v; static const vector<string> T = {"true", "yes", "on", "True"}, F = {"false", "no", "off", "False"};
    switch (i) { case 0: v = to_string(c.prime); break; case 1: v = to_string(c.prime_exponent); break; case 2: v = to_string(c.genus); break; case 3: v = (c.with_marked_point ? T : F)[reprs]; break; case 4: v = to_string(c.count_exponent); break; case 6: v = to_string(c.package_size); break; }
    if (i == 5) { YAML::Emitter e; e << YAML::DoubleQuoted << c.result_path.string(); v = e.c_str(); }
    t += names[i] + ": " + v + "\n";
  }
  if (below(4) == 0) t += "Other: 3\n";
  H::input("decode:%s", t.c_str());
  ConfigNode w = c; if (absent >> 3 & 1) w.with_marked_point = false; if (absent >> 4 & 1) w.count_exponent = w.genus;
  bool complete = !(absent & ((1u << 0) | (1 << 1) | (1 << 2) | (1 << 5) | (1 << 6)));
  YAML::Node n = YAML::Load(t.empty() ? "{}" : t);
  ConfigNode got = blank(); bool r = YAML::convert<ConfigNode>::decode(n, got);
  if (r != complete) return fail(string("decode returns ") + (r ? "true" : "false"));
  if (r && !same(got, w)) return fail("decode gives " + show(got) + " instead of " + show(w));
  bool threw = false; ConfigNode got2;
  try { got2 = n.as<ConfigNode>(); } catch (const YAML::Exception &) { threw = true; }
  if (threw == complete) return fail("as<ConfigNode> " + string(threw ? "refuses" : "accepts"));
  if (complete && !same(got2, w)) fail("as<ConfigNode> gives " + show(got2) + " instead of " + show(w));
}
static void encode_case() {
  ConfigNode c = node();
  H::input("encode:%s", show(c).c_str());
  YAML::Node n = YAML::convert<ConfigNode>::encode(c);
  ConfigNode got = blank();
  if (!YAML::convert<ConfigNode>::decode(n, got)) return fail("decode refuses what encode wrote");
  if (!same(got, c)) return fail("decode after encode gives " + show(got));
  YAML::Emitter e; e << YAML::Node(c);
  ConfigNode g2 = YAML::Load(e.c_str()).as<ConfigNode>();
  if (!same(g2, c)) return fail("reading the written text gives " + show(g2) + " text " + e.c_str());
  // a whole file
  vector<ConfigNode> cs; for (u i = 0, k = 1 + below(4); i < k; ++i) cs.push_back(node());
  YAML::Node l; for (auto & x : cs) l.push_back(x);
  YAML::Emitter e2; e2 << l; auto back = YAML::Load(e2.c_str()).as<vector<ConfigNode>>();
  if (back.size() != cs.size()) return fail("a list of nodes changes length");
  for (size_t i = 0; i < cs.size(); ++i) if (!same(back[i], cs[i])) return fail("node " + to_string(i) + " of a list becomes " + show(back[i]) + " from " + show(cs[i]));
}
static void verify_case(const string & scratch) {
  ConfigNode c = node();
  u zero = below(3) ? below(64) : (below(2) ? 0 : 1u << below(6));
  for (u * f : {&c.prime, &c.prime_exponent, &c.genus, &c.count_exponent, &c.package_size}) if (!*f) *f = 1 + below(5);
  if (below(6) == 0) { u * all[] = {&c.prime, &c.prime_exponent, &c.genus, &c.count_exponent, &c.package_size}; for (u * f : all) if (below(2)) *f = below(2) ? 1u << (16 + below(16)) : 1u << below(32); }
  if (zero & 1) c.prime = 0; if (zero & 2) c.prime_exponent = 0; if (zero & 4) c.genus = 0; if (zero & 8) c.count_exponent = 0; if (zero & 16) c.package_size = 0;
  static u k = 0; string rel; for (char ch : path_text()) rel += (ch == '/' || ch == '.' ) ? '_' : ch;
  rel = "r" + rel; bool existing = below(3) == 0; if (below(3) == 0) rel += "/sub/deep";
  path root(scratch); root /= to_string(k++); boost::filesystem::create_directories(root);
  c.result_path = rel; c.prepend_output_path(root);
  if (c.result_path != root / rel) return fail("prepend_output_path gives " + c.result_path.string());
  bool unusable = below(5) == 0;
  if (unusable) { ofstream((root / "file").string()) << "x"; c.result_path = root / "file"; existing = true; }
  else if (existing) boost::filesystem::create_directories(c.result_path);
  H::input("verify:%s existing=%d unusable=%d", show(c).c_str(), existing, unusable);
  bool want = !(zero & 31) && !unusable, got = false;
  try { got = c.verify(); } catch (const std::exception &) { got = false; }
  if (got != want) return fail(string("verify returns ") + (got ? "true" : "false"));
  if (want && !boost::filesystem::is_directory(c.result_path)) return fail("verify does not create the result directory");
  boost::filesystem::remove_all(root);
}

// an archive that records the sequence of parts, and one that plays it back
template<class A> struct IsVec : false_type {}; template<class A> struct IsVec<vector<A>> : true_type {};
struct OutRec {
  typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading;
  vector<pair<string, string>> parts;
  void put(const string & t, const string & v) { parts.push_back({t, v}); }
  OutRec & part(const u & x) { put("u", to_string(x)); return *this; }
  OutRec & part(const int & x) { put("i", to_string(x)); return *this; }
  OutRec & part(const bool & x) { put("b", x ? "1" : "0"); return *this; }
  OutRec & part(const size_t & x) { put("z", to_string(x)); return *this; }
  OutRec & part(const string & x) { put("s", x); return *this; }
  template<class A> OutRec & operator&(A & x) { typedef std::remove_const_t<A> B; if constexpr (is_same_v<B, u> || is_same_v<B, int> || is_same_v<B, bool> || is_same_v<B, size_t> || is_same_v<B, string>) return part(x); else if constexpr (IsVec<B>::value) { part((size_t)x.size()); for (auto & y : x) *this & const_cast<std::remove_const_t<std::remove_reference_t<decltype(y)>> &>(y); } else boost::serialization::serialize(*this, const_cast<std::remove_const_t<A> &>(x), 0u); return *this; }
  template<class A> OutRec & operator<<(const A & x) { return *this & const_cast<A &>(x); }
};
struct InRec {
  typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading;
  const vector<pair<string, string>> & parts; size_t at = 0; bool bad = false;
  InRec(const OutRec & o) : parts(o.parts) {}
  string get(const string & t) { if (at >= parts.size() || parts[at].first != t) { bad = true; return "0"; } return parts[at++].second; }
  InRec & operator&(u & x) { x = stoul(get("u")); return *this; }
  InRec & operator&(int & x) { x = stoi(get("i")); return *this; }
  InRec & operator&(bool & x) { x = get("b") == "1"; return *this; }
  InRec & operator&(size_t & x) { x = stoull(get("z")); return *this; }
  InRec & operator&(string & x) { x = get("s"); return *this; }
  template<class A> InRec & operator&(A & x) { if constexpr (IsVec<A>::value) { size_t n = 0; *this & n; if (bad) return *this; x.clear(); x.resize(n); for (auto & y : x) *this & y; } else boost::serialization::serialize(*this, x, 0u); return *this; }
  template<class A> InRec & operator>>(A & x) { return *this & x; }
};
template<class A> bool eq(const A & a, const A & b) { return a == b; }
bool eq(const ConfigNode & a, const ConfigNode & b) { return same(a, b); }
template<class A> string sh(const A & a) { return H::str(a); }
string sh(const ConfigNode & a) { return show(a); }
template<class A> void travel(const char * kind, const A & v, const A & old) {
  H::input("%s:%s into %s", kind, sh(v).c_str(), sh(old).c_str());
  { A c = v; OutRec o; o << c; if (!eq(c, v)) return fail("sending changes the value to " + sh(c));
    A r = old; InRec i(o); i >> r; if (i.bad || i.at != o.parts.size()) return fail("the receiver does not consume the parts sent");
    if (!eq(r, v)) return fail("received " + sh(r)); }
  { stringstream s; { boost::archive::text_oarchive o(s); const A & c = v; o << c; } A r = old; boost::archive::text_iarchive i(s); i >> r; if (!eq(r, v)) return fail("received " + sh(r) + " from a text archive"); }
  { stringstream s; { boost::archive::binary_oarchive o(s); const A & c = v; o << c; } A r = old; boost::archive::binary_iarchive i(s); i >> r; if (!eq(r, v)) return fail("received " + sh(r) + " from a binary archive"); }
}
static string text() { string s; for (u i = 0, n = below(30); i < n; ++i) s += below(6) ? (char)(32 + below(95)) : (char)below(256); return s; }
static vuu_block block(u n) { vuu_block b; for (u i = 0; i < n; ++i) b.push_back(make_tuple(num(), num())); return b; }
static void travel_case() {
  switch (below(6)) {
  case 0: case 1: { ConfigNode c = node(); travel("node", c, blank()); break; }
  case 2: { travel<vuu_block>("block", block(below(12)), block(below(12))); break; }
  case 3: { travel<tuple<string, string>>("results", make_tuple(text(), text()), make_tuple(text(), text())); break; }
  case 4: { travel<tuple<u, u>>("pair", make_tuple(num(), num()), make_tuple(num(), num())); break; }
  default: {
    vector<vuu_block> a, b; for (u i = below(4); i--;) a.push_back(block(below(5))); for (u i = below(4); i--;) b.push_back(block(below(5))); travel("blocks", a, b);
    travel<tuple<u, string, bool>>("triple", make_tuple(num(), text(), (bool)below(2)), make_tuple(num(), text(), (bool)below(2)));
    vector<tuple<string, string>> rs, old; for (u i = below(4); i--;) rs.push_back(make_tuple(text(), text())); travel("resultlist", rs, old);
  } }
}

int main(int argc, char ** argv) {
  string prop = argc > 1 ? argv[1] : "C17"; H::init(argc - 1, argv + 1);
  if (prop == "C17") {
    auto sc = make_unique<H::Scratch>();
    for (u i = 0; i < 300 || (H::more() && i < (H::thorough ? 200000u : 12000u)); ++i) { decode_case(); encode_case(); if (i % 4 == 0) verify_case(sc->path); }
    sc.reset();
  } else {
    // every unsigned value class in every field
    for (u f = 0; f < 6; ++f) for (u v : {0u, 1u, 2u, 255u, 256u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
      ConfigNode c = blank(); u * p[] = {&c.prime, &c.prime_exponent, &c.genus, &c.count_exponent, &c.package_size}; if (f < 5) *p[f] = v; else c.with_marked_point = v & 1; travel("node", c, blank()); }
    for (u i = 0; i < 3000 || (H::more() && i < (H::thorough ? 2000000u : 60000u)); ++i) travel_case();
  }
  return H::finish();
}
