// C22 linked variables, C23 commands, C24 callbacks, C25 lifetimes, C29 evaluation and loading
#include "strworld.h"
#include "placed.h"
#include "ScriptInterpTCL.h"
#include "Stream.h"
#include "AtomicFile.h"
#include "base64.h"
#include "Cstrings.h"
#include "HashTable.h"
#include <atomic>
#include <sstream>
#include <cmath>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>

typedef bd::ScriptInterpTCL SI;
typedef bd::Array<BS> AS;
typedef bd::Array<AS> AAS;
typedef std::vector<SS> VS;

// ---- the Tcl side, seen through Tcl's own API ---------------------------------
static Tcl_Interp* g_loaded;
static std::vector<VS> g_obs;      // calls of the recording command, argument by argument
static int g_obsCode = TCL_OK;     // what it returns
static SS g_obsResult;
static SS text(Tcl_Obj* o) { int n; const char* p = Tcl_GetStringFromObj(o, &n); return SS(p, n); }
static int obsCmd(ClientData, Tcl_Interp* ip, int objc, Tcl_Obj* const objv[]) {
  VS v;
  for (int i = 0; i < objc; ++i) v.push_back(text(objv[i]));
  g_obs.push_back(v);
  Tcl_SetObjResult(ip, Tcl_NewStringObj(g_obsResult.data(), (int)g_obsResult.size()));
  return g_obsCode;
}
static int harnessInit(Tcl_Interp* ip) {
  g_loaded = ip;
  Tcl_CreateObjCommand(ip, "obs", obsCmd, nullptr, nullptr);
  return TCL_OK;
}
struct Interp {
  std::unique_ptr<SI> si;
  Tcl_Interp* ip = nullptr;
  Interp() : si(new SI()) {
    static bool once = (Tcl_StaticPackage(nullptr, "Harness", harnessInit, nullptr), true);
    (void)once;
    g_loaded = nullptr;
    si->eval("load {} Harness");
    ip = g_loaded;
    REQUIRE(ip, "a fresh interpreter does not evaluate scripts");
  }
};
struct Obj {  // counted reference
  Tcl_Obj* o;
  explicit Obj(Tcl_Obj* p) : o(p) { Tcl_IncrRefCount(o); }
  Obj(const Obj& x) : o(x.o) { Tcl_IncrRefCount(o); }
  Obj& operator=(const Obj& x) { Tcl_IncrRefCount(x.o); Tcl_DecrRefCount(o); o = x.o; return *this; }
  ~Obj() { Tcl_DecrRefCount(o); }
};
static Obj sobj(const SS& s) { return Obj(Tcl_NewStringObj(s.data(), (int)s.size())); }
// runs a command given word by word, without any parsing
static int run(Tcl_Interp* ip, const std::vector<Obj>& words, SS* result) {
  std::vector<Tcl_Obj*> v;
  for (auto& w : words) v.push_back(w.o);
  int rc = Tcl_EvalObjv(ip, (int)v.size(), v.data(), TCL_EVAL_GLOBAL);
  if (result) *result = text(Tcl_GetObjResult(ip));
  return rc;
}
static int run(Tcl_Interp* ip, const VS& words, SS* result = nullptr) {
  std::vector<Obj> v;
  for (auto& w : words) v.push_back(sobj(w));
  return run(ip, v, result);
}
static int runScript(Tcl_Interp* ip, const SS& script, SS* result = nullptr) {
  int rc = Tcl_EvalEx(ip, script.data(), (int)script.size(), TCL_EVAL_GLOBAL);
  if (result) *result = text(Tcl_GetObjResult(ip));
  return rc;
}
static SS rawVar(Tcl_Interp* ip, const char* name) {
  Tcl_Obj* o = Tcl_GetVar2Ex(ip, name, nullptr, TCL_GLOBAL_ONLY);
  return o ? text(o) : "";
}
// one word of a script, whatever the text
static SS word(const SS& t) {
  if (t.empty()) return "{}";
  SS r;
  for (char c : t) {
    unsigned char u = (unsigned char)c;
    if (isalnum(u) || u >= 0x80 || u == 0) r += c;
    else if (u < 0x20 || u == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\%03o", u); r += b; }
    else { r += '\\'; r += c; }
  }
  return r;
}
static VS listOf(const SS& t) {
  Obj o = sobj(t);
  int n;
  Tcl_Obj** v;
  if (Tcl_ListObjGetElements(nullptr, o.o, &n, &v) != TCL_OK) return VS{"<not a list>", t};
  VS r;
  for (int i = 0; i < n; ++i) r.push_back(text(v[i]));
  return r;
}
static SS show(const VS& v) { SS r = "("; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ", "; r += q(v[i]); } return r + ")"; }

static SS ttext(Src& g, size_t max) {
  static const char* const pieces[] = {"a", "b", "1", " ", "$", "[", "]", "{", "}", "\"", "\\", ";", "#", "\n", "\t", "~", "*", "%s", "(", ")", "\xc3\xa9", "\xe6\x97\xa5", "[set canary 1]", "$secret", "\\n", "::", "-", "\x01", "\x7f", "\r"};
  SS s;
  switch (g.draw(8)) {
    case 0: return s;
    case 1: { size_t n = g.len(max); while (s.size() < n) s += (char)(1 + g.draw(127)); return s; }
    case 2: { size_t n = g.len(max); while (s.size() < n) s += (char)('a' + g.draw(3)); return s; }
    case 3: if (g.draw(20) == 0) { s.assign(1000 + g.draw(70000), 'x'); for (unsigned k = (unsigned)g.draw(9); k-- > 0;) s[g.draw(s.size())] = " {}\"\\$[]\n"[k]; return s; }  // fallthrough
    default: { size_t n = g.draw(max / 2 + 1); for (size_t i = 0; i < n; ++i) s += pieces[g.draw(sizeof pieces / sizeof *pieces)]; return s; }
  }
}
// may have NUL bytes
static SS ntext(Src& g, size_t max) { SS t = ttext(g, max); if (g.draw(8) == 0) { g.label("NUL-in-text"); for (unsigned k = 1 + (unsigned)g.draw(2); k-- > 0;) t.insert(g.draw(std::min<size_t>(t.size(), 60) + 1), 1, '\0'); } return t; }
static VS texts(Src& g, size_t n, size_t max) { VS v; size_t k = g.draw(n + 1); if (g.draw(150) == 149) { g.label("long-list"); SS t = ntext(g, max); for (size_t c = 20 + g.draw(400); c-- > 0;) v.push_back(c % 7 ? std::to_string(c) : t); return v; } for (size_t i = 0; i < k; ++i) v.push_back(ntext(g, max)); return v; }

// ---- C22 ----------------------------------------------------------------------
// A text to be set, with its meaning for every type (known by construction).
struct Val {
  SS t;
  bool isInt = false;
  __int128 i = 0;
  bool isDouble = false;
  double d = 0;
  bool isBool = false, b = false;
};
static SS dec(__int128 v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; SS r; do { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u); return n ? "-" + r : r; }
static SS radix(unsigned __int128 u, unsigned base) { SS r; do { r.insert(r.begin(), "0123456789abcdef"[(int)(u % base)]); u /= base; } while (u); return r; }
static __int128 anyInt(Src& g) {
  static const int bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 65, 80};
  __int128 v;
  switch (g.draw(5)) {
    case 0: v = (__int128)g.draw(300); break;
    case 1: v = (__int128)g.u64(); break;
    case 2: v = (((__int128)1) << bits[g.draw(10)]) * (1 + (__int128)g.draw(2)) + g.range(-2, 2); break;
    default: v = (((__int128)1) << bits[g.draw(8)]) + g.range(-2, 2); break;
  }
  if (g.draw(3) == 0) v = -v;
  return v;
}
static Val anyVal(Src& g) {
  Val v;
  switch (g.draw(10)) {
    case 0: {
      static const double ds[] = {0.5, -0.5, 1.5, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 127.5, 0.1, -0.1, 4294967295.5, 9007199254740993.0 / 8, 1e-10};
      double d = g.draw(3) ? ds[g.draw(sizeof ds / sizeof *ds)] : std::ldexp((double)(int64_t)g.u64(), (int)g.range(-70, 3));
      char b[64];
      snprintf(b, sizeof b, "%.17g", d);
      if (!strpbrk(b, ".e")) strcat(b, ".0");
      v.t = b; v.isDouble = true; v.d = strtod(b, nullptr); v.isBool = true; v.b = v.d != 0;
      return v;
    }
    case 1: {
      static const char* const yes[] = {"yes", "true", "on", "y", "t", "tru", "YES", "True", "oN", "ye"};
      static const char* const no[] = {"no", "false", "off", "n", "f", "fal", "NO", "False", "ofF", "of"};
      v.isBool = true; v.b = g.draw(2);
      v.t = v.b ? yes[g.draw(10)] : no[g.draw(10)];
      return v;
    }
    case 2: {
      static const char* const bad[] = {"", "abc", "0x", "12ab", "1 2", "--1", "o", "-", "+", "1e", "0xg", "yesno", "{1}", ".", "1,5", "\xc3\xa9", "tr ue", "0b2", "1.5.1"};
      v.t = bad[g.draw(sizeof bad / sizeof *bad)];
      return v;
    }
    case 3: {
      v.t = "t" + ttext(g, 40);
      SS low;
      for (char c : v.t) low += (char)tolower(c);
      // keep it outside the words Tcl knows
      if (SS("true").compare(0, low.size(), low) == 0) v.t = "#" + v.t;
      v.t += "#";
      return v;
    }
    default: {
      v.isInt = true; v.i = anyInt(g); v.isBool = true; v.b = v.i != 0; v.isDouble = true;
      v.t = dec(v.i);
      v.d = strtod(v.t.c_str(), nullptr);
      unsigned __int128 u = v.i < 0 ? -(unsigned __int128)v.i : (unsigned __int128)v.i;
      SS sign = v.i < 0 ? "-" : "";
      switch (g.draw(8)) {
        case 0: v.t = sign + "0x" + radix(u, 16); break;
        case 1: v.t = sign + "0o" + radix(u, 8); break;
        case 2: v.t = sign + "0b" + radix(u, 2); break;
        case 3: v.t = " " + v.t + "  "; break;
        case 4: if (v.i >= 0) v.t = "+" + v.t; break;
        default: break;
      }
      return v;
    }
  }
}
static unsigned g_hooks[8];          // hook runs
static const void *g_hookOld, *g_hookNew;
static SS g_hookOldVal, g_hookNewVal;
static SS (*g_hookShow)(const void*);
template <int N> static void hookFn(const void* o, const void* n) { ++g_hooks[N]; g_hookOldVal = g_hookShow(o); g_hookNewVal = g_hookShow(n); }
static const bd::ScriptInterp::link_var_hook_t hookFns[8] = {hookFn<0>, hookFn<1>, hookFn<2>, hookFn<3>, hookFn<4>, hookFn<5>, hookFn<6>, hookFn<7>};
static unsigned hookTotal() { unsigned n = 0; for (unsigned h : g_hooks) n += h; return n; }

static SS dtext(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
template <class T> struct Ty {  // integers
  static T conv(const Val& v) { return v.isInt && v.i >= (__int128)std::numeric_limits<T>::min() && v.i <= (__int128)std::numeric_limits<T>::max() ? (T)v.i : (T)0; }
  static T gen(Src& g) { return g.draw(3) ? (T)g.u64() : (g.draw(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()); }
  static SS show(const T& t) { return dec((__int128)t); }
  static bool matches(const SS& tcl, const SS& want) { return tcl == want; }
};
template <> struct Ty<double> {
  static double conv(const Val& v) { return v.isDouble ? v.d : 0.0; }
  static double gen(Src& g) { Val v; static const double ds[] = {0, -0.0, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 42.8, 1e15, 1e17, 123456789012345680.0, 1 / 3.0, 9007199254740993.0, INFINITY, -INFINITY}; return g.draw(2) ? ds[g.draw(sizeof ds / sizeof *ds)] : std::ldexp((double)(int64_t)g.u64(), (int)g.range(-1100, 900)); }
  static SS show(const double& t) { return dtext(t); }
  static bool matches(const SS& t, const SS& want) {
    char* e;
    double d = strtod(t.c_str(), &e), w = strtod(want.c_str(), nullptr);
    if (!t.empty() && !*e && dtext(d) == want) return true;
    return t == text(Obj(Tcl_NewDoubleObj(w)).o);  // Tcl 8.6 drops a digit of some powers of two
  }
};
template <> struct Ty<bool> {
  static bool conv(const Val& v) { return v.isBool && v.b; }
  static bool gen(Src& g) { return g.draw(2); }
  static SS show(const bool& t) { return *(const unsigned char*)&t ? "1" : "0"; }
  static bool matches(const SS& t, const SS& want) { return t == want; }
};
template <> struct Ty<BS> {
  static SS conv(const Val& v) { return v.t; }
  static SS show(const BS& t) { return val(t); }
  static bool matches(const SS& t, const SS& want) { return t == want; }
};

struct Link {
  SS name;
  bool ro = false;
  int hook = -1;
  SS model;     // canonical value text
  virtual ~Link() {}
  virtual void link(SI& si) = 0;
  virtual SS value() const = 0;                 // of the C variable
  virtual bool matches(const SS& tcl) const { return tcl == model; }  // the text Tcl shows
  virtual SS expectSet(const Val& v) const = 0; // after a successful write
  virtual void cwrite(Src& g) = 0;
  virtual SS (*shower() const)(const void*) = 0;
  virtual const char* type() const = 0;
};
template <class T> static SS showP(const void* p) { return Ty<T>::show(*static_cast<const T*>(p)); }
template <class T> struct LinkT : Link {
  T before = T(), v, after = T();
  const char* nm;
  LinkT(Src& g, const char* n) : v(Ty<T>::gen(g)), nm(n) { model = value(); }
  void link(SI& si) override {
    auto h = hook < 0 ? nullptr : hookFns[hook];
    if (ro) si.linkVar(BS(name), static_cast<const T&>(v), h);
    else if (h) si.linkVar(BS(name), v, h);
    else if (name.size() % 2) bd::ScriptInterp::linkVar(si, BS(name), v);
    else si.linkVar(BS(name), v);
  }
  SS value() const override { REQUIRE(before == T() && after == T(), "memory beside the variable %s was changed", name.c_str()); return Ty<T>::show(v); }
  bool matches(const SS& t) const override { return Ty<T>::matches(t, model); }
  SS expectSet(const Val& x) const override { return Ty<T>::show(Ty<T>::conv(x)); }
  void cwrite(Src& g) override { v = Ty<T>::gen(g); model = Ty<T>::show(v); }
  SS (*shower() const)(const void*) override { return showP<T>; }
  const char* type() const override { return nm; }
};
struct LinkS : Link {
  BS v;
  BS keep;
  SS keepText;
  LinkS(Src& g) { set(g); }
  void set(Src& g) {
    SS t = ttext(g, 60);
    if (g.draw(6) == 0) { t += SS("\0x", 2); g.label("NUL-in-String"); }
    if (g.draw(6) == 0) t += "\xff\x80";
    Placed p = place(g, t);
    v = p.s; keep = p.keep; keepText = p.keepText; model = t;
  }
  void link(SI& si) override {
    auto h = hook < 0 ? nullptr : hookFns[hook];
    if (ro) si.linkVar(BS(name), static_cast<const BS&>(v), h); else si.linkVar(BS(name), v, h);
  }
  SS value() const override { expect(keep, keepText, "String sharing storage with a linked one"); return val(v); }
  SS expectSet(const Val& x) const override { return x.t; }
  void cwrite(Src& g) override { set(g); }
  SS (*shower() const)(const void*) override { return showP<BS>; }
  const char* type() const override { return "String"; }
};
static SS showC(const void* p) { return static_cast<const char*>(p); }
struct LinkB : Link {
  std::vector<char> mem;  // 8 guard bytes on each side
  size_t size;
  LinkB(Src& g) : size(1 + (g.draw(3) ? g.draw(12) : g.draw(200))) { mem.assign(size + 16, (char)0xA5); set(g); }
  char* buf() { return &mem[8]; }
  void set(Src& g) {
    SS t = ttext(g, size);
    if (t.size() >= size) t.resize(size - 1);
    memcpy(buf(), t.c_str(), t.size() + 1);
    model = t;
  }
  void link(SI& si) override {
    auto h = hook < 0 ? nullptr : hookFns[hook];
    if (ro) { const char* p = buf(); si.linkVar(BS(name), p, h); } else si.linkVar(BS(name), buf(), size, h);
  }
  SS value() const override {
    for (int i = 0; i < 8; ++i) REQUIRE(mem[i] == (char)0xA5 && mem[mem.size() - 1 - i] == (char)0xA5, "memory beside the buffer %s was changed", name.c_str());
    size_t n = strnlen(&mem[8], size);
    REQUIRE(n < size, "the buffer %s of %zu bytes is not terminated", name.c_str(), size);
    return SS(&mem[8], n);
  }
  SS expectSet(const Val& x) const override { return x.t.substr(0, size - 1); }
  void cwrite(Src& g) override { set(g); }
  SS (*shower() const)(const void*) override { return showC; }
  const char* type() const override { return ro ? "const char*" : "char[]"; }
};
static std::unique_ptr<Link> newLink(Src& g) {
  switch (g.draw(12)) {
    case 0: return std::unique_ptr<Link>(new LinkT<int32_t>(g, "int32"));
    case 1: return std::unique_ptr<Link>(new LinkT<int8_t>(g, "int8"));
    case 2: return std::unique_ptr<Link>(new LinkT<uint8_t>(g, "uint8"));
    case 3: return std::unique_ptr<Link>(new LinkT<int16_t>(g, "int16"));
    case 4: return std::unique_ptr<Link>(new LinkT<uint16_t>(g, "uint16"));
    case 5: return std::unique_ptr<Link>(new LinkT<uint32_t>(g, "uint32"));
    case 6: return std::unique_ptr<Link>(new LinkT<int64_t>(g, "int64"));
    case 7: return std::unique_ptr<Link>(new LinkT<uint64_t>(g, "uint64"));
    case 8: return std::unique_ptr<Link>(new LinkT<double>(g, "double"));
    case 9: return std::unique_ptr<Link>(new LinkT<bool>(g, "bool"));
    case 10: return std::unique_ptr<Link>(new LinkS(g));
    default: return std::unique_ptr<Link>(new LinkB(g));
  }
}
static void linkProcs(Tcl_Interp* ip) {
  REQUIRE(runScript(ip,
    "proc rdg {n} { global [lindex [split $n (] 0]; return [set $n] }\n"
    "proc wrg {n v} { global [lindex [split $n (] 0]; set $n $v }\n"
    "proc rdu {n} { upvar #0 $n loc; return $loc }\n"
    "proc wru {n v} { upvar #0 $n loc; set loc $v }\n"
    "namespace eval ns {}\n"
    "namespace eval other { proc rd {n} { return [set ::$n] }; proc wr {n v} { set ::$n $v } ; proc rdn {n} { namespace upvar :: $n here; return $here } }\n") == TCL_OK, "harness procedures");
}
// reads through one of the paths a script has
static int readVar(Src& g, Interp& in, const SS& n, SS* r, SS& how) {
  switch (g.draw(8)) {
    case 0: { how = "eval {set}"; *r = val(in.si->eval(BS("set " + n))); return TCL_OK; }
    case 1: how = "set"; return run(in.ip, VS{"set", n}, r);
    case 2: how = "global in proc"; return run(in.ip, VS{"rdg", n}, r);
    case 3: how = "upvar in proc"; return run(in.ip, VS{"rdu", n}, r);
    case 4: how = "qualified name in namespace"; return run(in.ip, VS{"other::rd", n}, r);
    case 5: how = "namespace upvar"; return run(in.ip, VS{"other::rdn", n}, r);
    case 6: how = "substitution"; return runScript(in.ip, "format %s \"$" + n + "\"", r);
    default: { how = "Tcl_GetVar2Ex"; Tcl_Obj* o = Tcl_GetVar2Ex(in.ip, n.c_str(), nullptr, TCL_GLOBAL_ONLY); if (!o) return TCL_ERROR; *r = text(o); return TCL_OK; }
  }
}
static int writeVar(Src& g, Interp& in, const SS& n, const Val& v, SS& how) {
  switch (g.draw(10)) {
    case 8: how = "lassign"; return run(in.ip, VS{"lassign", word(v.t), n});
    case 9: {
      size_t p = n.find('(');
      if (p == SS::npos) { how = "dict for"; return runScript(in.ip, "dict for {ignored " + n + "} [list key " + word(v.t) + "] {}"); }
      how = "array set"; return run(in.ip, VS{"array", "set", n.substr(0, p), word(n.substr(p + 1, n.size() - p - 2)) + " " + word(v.t)});
    }
    case 0: { how = "eval {set}"; SS t = val(in.si->eval(BS("catch {set " + n + " " + word(v.t) + "}"))); return atoi(t.c_str()); }
    case 1: how = "set"; return run(in.ip, VS{"set", n, v.t});
    case 2: how = "global in proc"; return run(in.ip, VS{"wrg", n, v.t});
    case 3: how = "upvar in proc"; return run(in.ip, VS{"wru", n, v.t});
    case 4: how = "qualified name in namespace"; return run(in.ip, VS{"other::wr", n, v.t});
    case 5: how = "qualified name"; return run(in.ip, VS{"set", "::" + n, v.t});
    case 6: {
      how = "Tcl_SetVar2Ex with a typed object";
      Obj o = sobj(v.t);
      if (v.isInt) { int64_t x; if (v.i >= INT64_MIN && v.i <= INT64_MAX && g.draw(2)) { Tcl_WideInt w = (Tcl_WideInt)v.i; o = Obj(Tcl_NewWideIntObj(w)); (void)x; } else { double d; Tcl_GetDoubleFromObj(nullptr, o.o, &d); } }
      else if (v.isDouble) { double d; Tcl_GetDoubleFromObj(nullptr, o.o, &d); }
      // a text that depends on the object's spelling is only set as itself
      if (text(o.o) != v.t) o = sobj(v.t);
      return Tcl_SetVar2Ex(in.ip, n.c_str(), nullptr, o.o, TCL_GLOBAL_ONLY) ? TCL_OK : TCL_ERROR;
    }
    default: how = "variable in foreach"; return runScript(in.ip, "foreach " + n + " [list " + word(v.t) + "] {}");
  }
}
static void c22(Src& g) {
  Interp in;
  linkProcs(in.ip);
  std::vector<std::unique_ptr<Link>> ls;
  static const char* const names[] = {"a", "vb", "a_b", "v1", "x2y", "arr(k)", "arr(other)", "ns::in", "ns::arr(k)", "ab", "Z"};
  size_t n = 1 + g.draw(5), first = g.draw(3) ? 0 : g.draw(7);
  memset(g_hooks, 0, sizeof g_hooks);
  for (size_t i = 0; i < n; ++i) {
    ls.push_back(newLink(g));
    ls[i]->name = names[first + i];
    if (ls[i]->name.find('(') != SS::npos) g.label("array-element");
    ls[i]->ro = g.draw(5) == 0;
    if (g.draw(2)) ls[i]->hook = (int)i;
    g.note("link %s %s%s%s, value %s", ls[i]->name.c_str(), ls[i]->ro ? "read-only " : "", ls[i]->type(), ls[i]->hook >= 0 ? " with hook" : "", q(ls[i]->model).c_str());
    ls[i]->link(*in.si);
  }
  auto all = [&](const char* what) {
    for (auto& l : ls) { SS v = l->value(); REQUIRE(v == l->model, "after %s: the C variable %s (%s) is %s, expected %s", what, l->name.c_str(), l->type(), q(v).c_str(), q(l->model).c_str()); }
  };
  all("linking");
  REQUIRE(hookTotal() == 0, "linking ran a hook");
  unsigned k = 0;
  bool setOnce = false;
  while (g.more(12) && k++ < 60) {
    Link& l = *ls[g.draw(ls.size())];
    unsigned before[8];
    memcpy(before, g_hooks, sizeof before);
    SS how;
    switch (g.draw(5)) {
      case 0: {
        l.cwrite(g);
        g.note("C sets %s = %s", l.name.c_str(), q(l.model).c_str());
        break;
      }
      case 1: case 2: {
        SS r;
        int rc = readVar(g, in, l.name, &r, how);
        g.note("read %s by %s", l.name.c_str(), how.c_str());
        REQUIRE(rc == TCL_OK, "reading %s (%s) by %s failed: %s", l.name.c_str(), l.type(), how.c_str(), q(r).c_str());
        REQUIRE(l.matches(r), "reading %s (%s) by %s shows %s, but the C variable is %s", l.name.c_str(), l.type(), how.c_str(), q(r).c_str(), q(l.model).c_str());
        REQUIRE(!memcmp(before, g_hooks, sizeof before), "reading %s ran a hook", l.name.c_str());
        break;
      }
      default: {
        Val v = anyVal(g);
        g_hookShow = l.shower();
        SS old = l.model;
        int rc = writeVar(g, in, l.name, v, how);
        g.note("set %s to %s by %s", l.name.c_str(), q(v.t).c_str(), how.c_str());
        if (l.ro) {
          g.label("write-to-read-only");
          REQUIRE(rc != TCL_OK, "setting the read-only %s by %s was accepted", l.name.c_str(), how.c_str());
          REQUIRE(!memcmp(before, g_hooks, sizeof before), "a rejected write ran a hook");
        } else {
          REQUIRE(rc == TCL_OK, "setting %s (%s) to %s by %s failed", l.name.c_str(), l.type(), q(v.t).c_str(), how.c_str());
          l.model = l.expectSet(v);
          if (v.isInt && l.model == "0" && v.i != 0) g.label("out-of-range");
          if (!v.isInt && !v.isDouble && !v.isBool) g.label("not-a-number");
          setOnce = true;
          all("a write from Tcl");
          if (l.hook >= 0) {
            ++before[l.hook];
            REQUIRE(!memcmp(before, g_hooks, sizeof before), "a write to %s by %s ran its hook %u times", l.name.c_str(), how.c_str(), g_hooks[l.hook] + 1 - before[l.hook]);
            REQUIRE(g_hookOldVal == old && g_hookNewVal == l.model, "the hook of %s saw %s -> %s, expected %s -> %s", l.name.c_str(), q(g_hookOldVal).c_str(), q(g_hookNewVal).c_str(), q(old).c_str(), q(l.model).c_str());
            g.label("hook");
          } else
            REQUIRE(!memcmp(before, g_hooks, sizeof before), "a write to %s ran another variable's hook", l.name.c_str());
        }
      }
    }
    all("an operation");
  }
  if (setOnce) g.nontrivial();
  // everything still visible at the end
  for (auto& l : ls) {
    SS r;
    REQUIRE(run(in.ip, VS{"set", l->name}, &r) == TCL_OK && l->matches(r), "at the end %s (%s) shows %s, but the C variable is %s", l->name.c_str(), l->type(), q(r).c_str(), q(l->model).c_str());
  }
  in.si.reset();
  all("destroying the interpreter");
}
PROPERTY("C22", "linked variables", c22, 25000, 500000, false, "1-6 variables of all types linked, C-side writes mixed with Tcl reads and writes over seven access paths; non-trivial when a write from Tcl succeeded");

// ---- C23 ----------------------------------------------------------------------
static unsigned g_ran;
static VS g_args;        // canonical text of the arguments seen
static int g_mode;       // 0 return, 1 throw String, 2 throw std::exception, 3 throw int
static SS g_throw;
static const void* g_ret;  // value to return
static SS enc(const VS& v) { SS r; for (auto& s : v) { r += dec((__int128)s.size()); r += ':'; r += s; } return r; }
static VS vs(const AS& a) { VS r; for (size_t i = 0; i < a.length(); ++i) r.push_back(val(a[i])); return r; }
static SS canonArg(const BS& s) { return val(s); }
static SS canonArg(const char* s) { return s ? s : "<null>"; }
static SS canonArg(const AS& a) { return "L" + enc(vs(a)); }
static SS canonArg(const AAS& a) { SS r = "N"; for (size_t i = 0; i < a.length(); ++i) r += "(" + enc(vs(static_cast<const AAS&>(a)[i])) + ")"; return r; }
static SS canonArg(double d) { return dtext(d); }
static SS canonArg(bool b) { return b ? "1" : "0"; }
template <class T> static typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, SS>::type canonArg(T t) { return dec((__int128)t); }
static void seen() {}
template <class A, class... R> static void seen(const A& a, const R&... r) { g_args.push_back(canonArg(a)); seen(r...); }
template <class R, class... P> static R fn(P... p) {
  ++g_ran;
  g_args.clear();
  seen(p...);
  if (g_mode == 1) throw BS(g_throw);
  if (g_mode == 2) throw std::runtime_error("inner");
  if (g_mode == 3) throw 7;
  return *static_cast<const R*>(g_ret);
}
template <class... P> static void vfn(P... p) {
  ++g_ran;
  g_args.clear();
  seen(p...);
  if (g_mode == 1) throw BS(g_throw);
  if (g_mode == 2) throw std::runtime_error("inner");
  if (g_mode == 3) throw 7;
}
// argument generators: the object passed and what the function must see
struct Arg { Obj o; SS canon; SS text; };
template <class T> struct GA { static Arg gen(Src& g) { Val v = anyVal(g); return Arg{sobj(v.t), canonArg(Ty<T>::conv(v)), v.t}; } };
template <> struct GA<BS> { static Arg gen(Src& g) { SS t = g.draw(8) ? ntext(g, 60) : dec(anyInt(g)); return Arg{sobj(t), t, t}; } };
template <> struct GA<const char*> { static Arg gen(Src& g) { SS t = ttext(g, 60); return Arg{sobj(t), t, t}; } };
static Obj lobj(const VS& v) { Obj l(Tcl_NewListObj(0, nullptr)); for (auto& s : v) Tcl_ListObjAppendElement(nullptr, l.o, Tcl_NewStringObj(s.data(), (int)s.size())); return l; }
template <> struct GA<AS> { static Arg gen(Src& g) { VS v = texts(g, 5, 20); Obj l = lobj(v); SS t = text(l.o); return Arg{g.draw(2) ? l : sobj(t), "L" + enc(v), t}; } };
template <> struct GA<AAS> { static Arg gen(Src& g) {
  Obj l(Tcl_NewListObj(0, nullptr)); SS c = "N";
  for (unsigned n = (unsigned)g.draw(4); n-- > 0;) { VS v = texts(g, 3, 12); Tcl_ListObjAppendElement(nullptr, l.o, lobj(v).o); c += "(" + enc(v) + ")"; }
  SS t = text(l.o);
  return Arg{g.draw(2) ? l : sobj(t), c, t}; } };
// result generators: value to return (kept alive by the holder) and a check of Tcl's result text
struct Holder { virtual ~Holder() {} };
template <class T> struct HoldT : Holder { T v; explicit HoldT(const T& x) : v(x) {} };
struct Ret { std::shared_ptr<Holder> h; const void* p = nullptr; std::function<SS(const SS&)> bad; SS canon; };
template <class T> static void hold(Ret& r, const T& v) { auto h = std::make_shared<HoldT<T>>(v); r.p = &h->v; r.h = h; }
template <class T> struct GR { static Ret gen(Src& g) { Ret r; T v = Ty<T>::gen(g); hold(r, v); SS want = Ty<T>::show(v); r.canon = want; r.bad = [want](const SS& t) { return Ty<T>::matches(t, want) ? SS() : q(want); }; return r; } };
template <> struct GR<BS> { static Ret gen(Src& g) { Ret r; SS t = ntext(g, 80); Placed p = place(g, t); hold(r, p); r.p = &static_cast<HoldT<Placed>*>(r.h.get())->v.s; r.canon = t; r.bad = [t](const SS& x) { return x == t ? SS() : q(t); }; return r; } };
template <> struct GR<AS> { static Ret gen(Src& g) { Ret r; VS v = texts(g, 5, 20); AS a; for (auto& s : v) a << BS(s); hold(r, a); r.canon = show(v); r.bad = [v](const SS& x) { return listOf(x) == v ? SS() : "list " + show(v); }; return r; } };
template <> struct GR<AAS> { static Ret gen(Src& g) { Ret r; std::vector<VS> vv; AAS a; for (unsigned n = (unsigned)g.draw(4); n-- > 0;) { vv.push_back(texts(g, 3, 12)); AS b; for (auto& s : vv.back()) b << BS(s); a << b; }
  hold(r, a); r.canon = "nested list";
  r.bad = [vv](const SS& x) { VS o = listOf(x); bool ok = o.size() == vv.size(); for (size_t i = 0; ok && i < o.size(); ++i) ok = listOf(o[i]) == vv[i]; return ok ? SS() : SS("the nested list returned"); }; return r; } };

struct Sig {
  const char* what;
  size_t max;
  std::function<void(SI&, const BS&, const char*, size_t)> create;
  std::vector<Arg (*)(Src&)> args;
  VS defaults;
  Ret (*ret)(Src&);  // null for void
};
template <class R, class... P> static Sig sig(const char* what) {
  return Sig{what, sizeof...(P), [](SI& si, const BS& n, const char* u, size_t m) { if (m == (size_t)-1) { if (u) si.createCommand(n, &fn<R, P...>, u); else bd::ScriptInterp::createCommand(si, n, &fn<R, P...>); } else si.createCommand(n, &fn<R, P...>, u, m); },
             {&GA<P>::gen...}, {canonArg(P())...}, &GR<R>::gen};
}
template <class... P> static Sig vsig(const char* what) {
  return Sig{what, sizeof...(P), [](SI& si, const BS& n, const char* u, size_t m) { if (m == (size_t)-1) si.createCommand(n, &vfn<P...>, u); else si.createCommand(n, &vfn<P...>, u, m); },
             {&GA<P>::gen...}, {canonArg(P())...}, nullptr};
}
static const std::vector<Sig>& sigs() {
  static const std::vector<Sig> s = {
    sig<BS, BS>("String(String)"), sig<int32_t, int32_t>("int32(int32)"), sig<AS, AS>("list(list)"), sig<AAS, AAS>("nested(nested)"),
    sig<int8_t, int8_t>("int8(int8)"), sig<uint8_t, uint8_t>("uint8(uint8)"), sig<int16_t, int16_t>("int16(int16)"), sig<uint16_t, uint16_t>("uint16(uint16)"),
    sig<uint32_t, uint32_t>("uint32(uint32)"), sig<int64_t, int64_t>("int64(int64)"), sig<uint64_t, uint64_t>("uint64(uint64)"), sig<double, double>("double(double)"), sig<bool, bool>("bool(bool)"),
    sig<BS, const char*>("String(const char*)"), sig<BS>("String()"), vsig<>("void()"), vsig<BS, int32_t>("void(String, int32)"),
    sig<BS, BS, int32_t, bool, BS>("String(String, int32, bool, String)"), sig<AS, BS, AS, double>("list(String, list, double)"), sig<bool, AAS, int64_t, BS, AS, uint64_t>("bool(nested, int64, String, list, uint64)"),
    sig<AAS, BS, BS>("nested(String, String)"), vsig<AS, uint8_t, const char*>("void(list, uint8, const char*)"), sig<int64_t, BS, BS, BS, BS, BS, BS>("int64(String x 6)"),
  };
  return s;
}
static void c23(Src& g) {
  Interp in;
  struct Cmd { const Sig* s; SS name; size_t min; const char* usage; };
  std::vector<Cmd> cmds;
  static const char* const names[] = {"c", "my cmd", "get_x", "::top"};
  static const char* const usages[] = {"foo ?bar?", "", "%s %d <x>", "a b c"};
  for (size_t i = 0, n = 1 + g.draw(4); i < n; ++i) {
    Cmd c{&sigs()[g.draw(sigs().size())], names[i], 0, nullptr};
    if (g.draw(2)) c.usage = usages[g.draw(4)];
    size_t m = g.draw(2) ? (size_t)-1 : g.draw(c.s->max + 1);
    c.min = m == (size_t)-1 ? c.s->max : m;
    g.note("command %s: %s, at least %zu arguments%s%s", q(c.name).c_str(), c.s->what, c.min, c.usage ? ", usage " : "", c.usage ? c.usage : "");
    c.s->create(*in.si, BS(c.name), c.usage, m);
    cmds.push_back(c);
  }
  runScript(in.ip, "proc through {args} { uplevel #0 $args }; proc caught {args} { set rc [catch $args r]; return [list $rc $r] }; set canary 0");
  unsigned k = 0;
  while (g.more(10) && k++ < 60) {
    const Cmd& c = cmds[g.draw(cmds.size())];
    // how many arguments
    size_t n = g.draw(4) ? c.min + g.draw(c.s->max - c.min + 1) : g.draw(c.s->max + 3);
    SS name = c.name;  // as the caller writes it
    if (g.draw(5) == 4 && name.compare(0, 2, "::") != 0) { name = "::" + name; g.label("qualified-name"); }
    std::vector<Obj> words{sobj(name)};
    SS script = word(name);
    VS want;
    for (size_t i = 0; i < n; ++i) {
      Arg a = i < c.s->max ? c.s->args[i](g) : GA<BS>::gen(g);
      words.push_back(a.o);
      script += " " + word(a.text);
      if (i < c.s->max) want.push_back(a.canon);
    }
    for (size_t i = n; i < c.s->max; ++i) want.push_back(c.s->defaults[i]);
    bool runs = n >= c.min && n <= c.s->max;
    Ret ret;
    if (c.s->ret) ret = c.s->ret(g);
    g_ret = ret.p;
    g_mode = g.draw(4) ? 0 : (int)g.draw(4);
    g_throw = ntext(g, 60);
    g_ran = 0;
    SS res;
    int rc;
    const char* how;
    bool haveRes = true;
    switch (g.draw(5)) {
      case 0: how = "Tcl_EvalObjv"; rc = run(in.ip, words, &res); break;
      case 1: how = "a script"; rc = runScript(in.ip, script, &res); break;
      case 2: how = "a procedure"; words.insert(words.begin(), sobj("through")); rc = run(in.ip, words, &res); break;
      case 3: {
        how = "catch"; words.insert(words.begin(), sobj("caught"));
        int r2 = run(in.ip, words, &res);
        REQUIRE(r2 == TCL_OK, "catch around a command failed: %s", q(res).c_str());
        VS l = listOf(res);
        REQUIRE(l.size() == 2, "catch gives %s", q(res).c_str());
        rc = atoi(l[0].c_str()); res = l[1];
        break;
      }
      default: {
        how = "eval()";
        BS r = in.si->eval(BS(script));
        rc = runs && g_mode == 0 ? TCL_OK : TCL_ERROR;  // judged by the text
        res = val(r);
        if (rc != TCL_OK) {
          haveRes = false;
          SS msg = !runs ? "Wrong # args." : g_mode == 1 ? g_throw : "Unhandled exception.";
          REQUIRE(res.compare(0, msg.size(), msg) == 0, "eval() of a failing command returned %s, expected a trace beginning with %s", q(res).c_str(), q(msg).c_str());
        }
      }
    }
    g.note("call %s with %zu arguments by %s%s", q(name).c_str(), n, how, g_mode ? ", it throws" : "");
    if (runs && n) g.nontrivial();
    if (!runs) {
      g.label("wrong-count");
      REQUIRE(g_ran == 0, "%s ran with %zu arguments, it takes %zu to %zu", c.s->what, n, c.min, c.s->max);
      REQUIRE(rc == TCL_ERROR, "calling %s with %zu arguments succeeded", c.s->what, n);
      SS msg = "Wrong # args. Expected " + dec((__int128)c.min) + ", got " + dec((__int128)n) + ".";
      if (c.usage) msg += " Should be \"" + name + " " + c.usage + "\"";
      if (haveRes) REQUIRE(res == msg, "the error is %s, expected %s", q(res).c_str(), q(msg).c_str());
      continue;
    }
    if (n < c.s->max) g.label("defaults");
    REQUIRE(g_ran == 1, "%s called with %zu arguments by %s ran %u times (result %s)", c.s->what, n, how, g_ran, q(res).c_str());
    REQUIRE(g_args == want, "%s called by %s saw %s, expected %s", c.s->what, how, show(g_args).c_str(), show(want).c_str());
    if (g_mode == 0) {
      REQUIRE(rc == TCL_OK, "%s failed: %s", c.s->what, q(res).c_str());
      if (c.s->ret) {
        SS b = ret.bad(res);
        REQUIRE(b.empty(), "%s called by %s gave %s, expected %s", c.s->what, how, q(res).c_str(), b.c_str());
      }
    } else {
      g.label("throws");
      REQUIRE(rc == TCL_ERROR, "%s threw but the command succeeded", c.s->what);
      SS msg = g_mode == 1 ? g_throw : "Unhandled exception.";
      if (haveRes) REQUIRE(res == msg, "%s threw: the error is %s, expected %s", c.s->what, q(res).c_str(), q(msg).c_str());
    }
    g_mode = 0;
  }
  g_mode = 0;
  expect(in.si->eval("expr {6 * 7}"), "42", "later evaluation");
  REQUIRE(rawVar(in.ip, "canary") == "0", "argument or result text was evaluated");
}
PROPERTY("C23", "commands", c23, 25000, 400000, false, "1-5 commands out of 23 signatures with every argument type, called with right and wrong counts over five call paths, returning and throwing; non-trivial when a command with arguments ran");

// ---- C24 ----------------------------------------------------------------------
static bd::ScriptCallbackerPtr g_cb;
static BS bindFn(BS, bd::ScriptCallbackerPtr cb) { g_cb = cb; return BS(); }
static void c24(Src& g) {
  Interp in;
  g_cb.reset();
  in.si->createCommand("bind", bindFn);
  runScript(in.ip, "set canary 0; set secret SECRET; proc tap {args} { return [obs {*}$args] }; proc echo {args} { return $args }; proc boom {args} { error \"went wrong\" }");
  std::vector<std::pair<bd::ScriptCallbackerPtr, std::pair<SS, VS>>> cbs;  // callback, kind, prefix words
  unsigned k = 0;
  while (k++ < 20 && (cbs.empty() || g.more(8))) {
    if (cbs.empty() || g.draw(5) == 0) {
      // a new callback: the command prefix is given as a script word list
      static const char* const kinds[] = {"obs", "tap", "echo", "boom", "::obs"};
      SS kind = kinds[g.draw(5)];
      VS pre = g.draw(2) ? VS() : texts(g, 2, 10);
      SS cmd = kind;
      for (auto& p : pre) cmd += " " + word(p);
      int rc;
      if (g.draw(2)) rc = run(in.ip, VS{"bind", "ev", cmd});
      else { in.si->eval(BS("bind ev " + word(cmd))); rc = TCL_OK; }
      REQUIRE(rc == TCL_OK && g_cb, "a command taking a callback did not receive one");
      g.note("callback %zu: %s", cbs.size(), q(cmd).c_str());
      expect(g_cb->cmd, cmd, "command of the callback");
      REQUIRE(g_cb->si == in.si.get(), "the callback belongs to another interpreter");
      cbs.push_back({g_cb, {kind, pre}});
      if (g.draw(4) == 0) { in.si->deleteCommand("bind"); in.si->createCommand("bind", bindFn); }
      continue;
    }
    auto& cb = cbs[g.draw(cbs.size())];
    VS ps = texts(g, 6, 40);
    if (g.draw(12) == 0) while (ps.size() < 60) ps.push_back("p" + dec((__int128)ps.size()));
    AS a;
    std::vector<Placed> keep;
    for (auto& p : ps) { keep.push_back(place(g, p)); a << keep.back().s; }
    g_obs.clear();
    g_obsCode = g.draw(5) ? TCL_OK : TCL_ERROR;
    g_obsResult = ntext(g, 60);
    g.note("call it with %s", show(ps).substr(0, 300).c_str());
    bool special = false;
    for (auto& p : ps) if (p.find_first_of("$[]{}\"\\; \n#") != SS::npos || p.empty()) special = true;
    if (special) g.nontrivial();
    if (ps.size() && ps[0].size() > 900) g.label("long-parameter");
    BS r = ps.empty() && g.draw(2) ? cb.first->call() : cb.first->call(a);
    const SS& kind = cb.second.first;
    VS want = cb.second.second;
    want.insert(want.end(), ps.begin(), ps.end());
    for (size_t i = 0; i < ps.size(); ++i) keepOK(keep[i], ps[i], "parameter after the call");
    if (kind == "echo") {
      VS got = listOf(val(r));
      REQUIRE(got == want, "the procedure received %s, expected %s", show(got).c_str(), show(want).c_str());
    } else if (kind == "boom") {
      SS t = val(r);
      REQUIRE(t.compare(0, 10, "went wrong") == 0 && t == rawVar(in.ip, "errorInfo"), "a failing callback returned %s", q(t).c_str());
      g.label("fails");
    } else {
      REQUIRE(g_obs.size() == 1, "the callback ran %zu times instead of once (returned %s)", g_obs.size(), q(val(r)).c_str());
      VS got(g_obs[0].begin() + 1, g_obs[0].end());
      REQUIRE(got == want, "the callback received %s, expected %s", show(got).c_str(), show(want).c_str());
      if (g_obsCode == TCL_OK) expect(r, g_obsResult, "result of the callback");
      else { SS t = val(r); REQUIRE(t.compare(0, g_obsResult.size(), g_obsResult) == 0 && t == rawVar(in.ip, "errorInfo"), "a failing callback returned %s", q(t).c_str()); g.label("fails"); }
    }
    REQUIRE(rawVar(in.ip, "canary") == "0", "a parameter was evaluated as script");
  }
  g_cb.reset();
  cbs.clear();
  g_obsCode = TCL_OK;
}
PROPERTY("C24", "callbacks", c24, 25000, 400000, false, "callbacks with command prefixes invoked with parameters full of Tcl syntax; non-trivial when a parameter holds a special character or is empty");

// ---- C25 ----------------------------------------------------------------------
static const unsigned NI = 3, NF = 8;
struct World25;
static World25* w25;
static void during(int f);
template <int N> static BS f25(BS a) { ++g_ran; during(N); return BS("f") + BS(dec((__int128)N)) + a; }
typedef BS (*F25)(BS);
static const F25 f25s[NF] = {f25<0>, f25<1>, f25<2>, f25<3>, f25<4>, f25<5>, f25<6>, f25<7>};
struct Lnk { int var = -1; bool ro = false; int hook = -1; };
struct IM {  // one interpreter and its model
  std::unique_ptr<Interp> in;
  std::map<SS, int> cmds;   // name -> function (>= 100: a script procedure)
  std::map<SS, Lnk> links;
  std::map<SS, SS> plain;   // ordinary variables
};
struct World25 {
  Src& g;
  IM im[NI];
  int vars[6], model[6];
  unsigned hooks[8];
  // action taken by the next running function: 0 none 1 delete own 2 replace own 3 delete other 4 create other 5 destroy another interpreter 6 link/unlink
  int action = 0;
  unsigned aInterp = 0;
  SS aName;
  int aFn = 0;
  bool inUse[NI] = {};
  VS cnames{"alpha", "beta", "gamma cmd", "::delta"}, vnames{"va", "vb", "vc", "vd"};
  explicit World25(Src& g_) : g(g_) {
    memset(hooks, 0, sizeof hooks);
    for (int i = 0; i < 6; ++i) vars[i] = model[i] = 100 + i;
    if (g.draw(6) == 0) { vnames = {"arr(a)", "arr(b)", "other(a)", "va"}; g.label("array-elements"); }
    if (g.draw(4) == 0) {  // other names: many, long, odd
      size_t many = g.draw(3) ? 4 : 5 + g.draw(30);
      bool odd = g.draw(2);
      g.label(many > 4 ? "many-names" : "other-names");
      for (VS* v : {&cnames, &vnames}) {
        v->clear();
        for (size_t i = 0; i < many; ++i) v->push_back(std::string(v == &cnames ? "c" : "v") + std::to_string(i) + (odd ? g.bytesOver("ab_ .$[]{}\";\\#%*?,-+", 6) : SS()) + (g.draw(3) ? SS() : g.exactly(g.longLen(400), "abcd")));
      }
    }
  }
  SS anyCmd() { return cnames[g.draw(cnames.size())]; }
  SS anyVar() { return vnames[g.draw(vnames.size())]; }
  void create(unsigned i, const SS& n, int f) { im[i].in->si->createCommand(BS(n), f25s[f]); im[i].cmds[n] = f; }
  void del(unsigned i, const SS& n) { im[i].in->si->deleteCommand(BS(n)); im[i].cmds.erase(n); }
  void act() {
    int a = action;
    action = 0;
    switch (a) {
      case 1: case 3: del(aInterp, aName); break;
      case 2: case 4: create(aInterp, aName, aFn); break;
      case 5: im[aInterp].in.reset(); im[aInterp].cmds.clear(); im[aInterp].links.clear(); im[aInterp].plain.clear(); break;
      default: break;
    }
  }
  void doLink(unsigned i, const SS& n, const Lnk& l) {
    auto h = l.hook < 0 ? nullptr : hookFns[l.hook];
    SI& si = *im[i].in->si;
    if (l.ro) si.linkVar(BS(n), static_cast<const int&>(vars[l.var]), h); else si.linkVar(BS(n), vars[l.var], h);
    im[i].links[n] = l;
    im[i].plain.erase(n);
  }
  void vcheck(const char* what) { for (int i = 0; i < 6; ++i) REQUIRE(vars[i] == model[i], "after %s: C variable %d is %d, expected %d", what, i, vars[i], model[i]); }
  void checkCmd(unsigned i, const SS& n) {
    SS r;
    g_ran = 0;
    int rc = run(im[i].in->ip, VS{n, "!"}, &r);
    auto it = im[i].cmds.find(n);
    if (it == im[i].cmds.end()) { REQUIRE(rc == TCL_ERROR && g_ran == 0 && r.compare(0, 20, "invalid command name") == 0, "command %s in interpreter %u should not exist, it gave %s", n.c_str(), i, q(r).c_str()); return; }
    SS want = it->second >= 100 ? "p" + dec((__int128)it->second) + "!" : "f" + dec((__int128)it->second) + "!";
    REQUIRE(rc == TCL_OK && r == want, "command %s in interpreter %u gave %s, expected %s", n.c_str(), i, q(r).c_str(), want.c_str());
    REQUIRE(g_ran == (it->second >= 100 ? 0u : 1u), "command %s ran %u functions", n.c_str(), g_ran);
  }
  void checkVar(unsigned i, const SS& n) {
    SS r;
    int rc = run(im[i].in->ip, VS{"set", n}, &r);
    auto l = im[i].links.find(n);
    auto p = im[i].plain.find(n);
    if (l != im[i].links.end()) REQUIRE(rc == TCL_OK && r == std::to_string(model[l->second.var]), "variable %s in interpreter %u shows %s, linked to a C variable holding %d", n.c_str(), i, q(r).c_str(), model[l->second.var]);
    else if (p != im[i].plain.end()) REQUIRE(rc == TCL_OK && r == p->second, "the unlinked variable %s in interpreter %u shows %s, expected %s", n.c_str(), i, q(r).c_str(), p->second.c_str());
    else REQUIRE(rc == TCL_ERROR, "variable %s in interpreter %u should not exist, it shows %s", n.c_str(), i, q(r).c_str());
  }
  void checkAll() {
    for (unsigned i = 0; i < NI; ++i) if (im[i].in) {
      for (auto& n : cnames) checkCmd(i, n);
      checkCmd(i, "renamed");
      for (auto& n : vnames) checkVar(i, n);
    }
  }
};
static void during(int) { if (w25 && w25->action) w25->act(); }
static SS showInt(const void* p) { return std::to_string(*static_cast<const int*>(p)); }
static void c25body(Src& g) {
  World25 w(g);
  w25 = &w;
  g_hookShow = showInt;
  memset(g_hooks, 0, sizeof g_hooks);
  w.im[0].in.reset(new Interp());
  if (w.cnames.size() > 4 && g.draw(2)) {
    g.note("0: create and link every name");
    for (auto& c : w.cnames) w.create(0, c, (int)g.draw(NF));
    for (auto& v : w.vnames) { Lnk l; l.var = (int)g.draw(6); w.doLink(0, v, l); }
    w.vcheck("linking everything");
  }
  unsigned k = 0;
  while (g.more(20) && k++ < 100) {
    unsigned i = (unsigned)g.draw(NI);
    IM& m = w.im[i];
    if (!m.in) {
      if (g.draw(3) == 0) { g.note("new interpreter %u", i); m.in.reset(new Interp()); g.label("several-interpreters"); }
      i = 0;
      while (i < NI && !w.im[i].in) ++i;
      if (i == NI) { g.note("new interpreter 0"); i = 0; w.im[0].in.reset(new Interp()); }
    }
    IM& t = w.im[i];
    SS cn = w.anyCmd(), vn = w.anyVar();
    switch (g.draw(14)) {
      case 0: case 1: { int f = (int)g.draw(NF); g.note("%u: create %s = f%d", i, cn.c_str(), f); if (t.cmds.count(cn)) { g.label("replaced"); g.nontrivial(); } w.create(i, cn, f); break; }
      case 2: { g.note("%u: delete %s", i, cn.c_str()); auto it = t.cmds.find(cn); if (it != t.cmds.end() && it->second >= 100) break; w.del(i, cn); g.nontrivial(); break; }
      case 3: case 4: g.note("%u: call %s", i, cn.c_str()); w.checkCmd(i, cn); break;
      case 5: { // a function that changes the registrations while it runs
        auto it = t.cmds.find(cn);
        if (it == t.cmds.end() || it->second >= 100) break;
        int f = it->second;
        w.action = 1 + (int)g.draw(5);
        w.aInterp = i; w.aName = cn; w.aFn = (int)g.draw(NF);
        if (w.action >= 3) {
          w.aInterp = (unsigned)g.draw(NI); w.aName = w.anyCmd();
          if (!w.im[w.aInterp].in || (w.action == 5 && w.aInterp == i)) { w.action = 0; break; }
          auto o = w.im[w.aInterp].cmds.find(w.aName);
          if (w.action == 3 && o != w.im[w.aInterp].cmds.end() && o->second >= 100) { w.action = 0; break; }
        }
        static const char* const what[] = {"", "deletes itself", "replaces itself", "deletes a command", "creates a command", "destroys an interpreter"};
        g.note("%u: call %s, which %s (%u %s)", i, cn.c_str(), what[w.action], w.aInterp, w.aName.c_str());
        g.label(what[w.action]);
        g.nontrivial();
        SS r;
        g_ran = 0;
        int rc;
        if (g.draw(2)) rc = run(t.in->ip, VS{cn, "?"}, &r);
        else { r = val(t.in->si->eval(BS(word(cn) + " ?"))); rc = TCL_OK; }
        w.action = 0;
        REQUIRE(rc == TCL_OK && r == "f" + std::to_string(f) + "?" && g_ran == 1, "command %s gave %s after changing registrations, expected f%d?", cn.c_str(), q(r).c_str(), f);
        break;
      }
      case 6: { // the script replaces or renames commands
        if (g.draw(2)) {
          int id = 100 + (int)g.draw(9);
          g.note("%u: proc %s", i, cn.c_str());
          REQUIRE(run(t.in->ip, VS{"proc", cn, "a", "return p" + std::to_string(id) + "$a"}) == TCL_OK, "proc failed");
          t.cmds[cn] = id;
        } else {
          auto it = t.cmds.find(cn);
          if (it == t.cmds.end()) break;
          bool back = t.cmds.count("renamed");
          if (back) break;
          g.note("%u: rename %s renamed", i, cn.c_str());
          SS r;
          REQUIRE(run(t.in->ip, VS{"rename", cn, "renamed"}, &r) == TCL_OK, "rename failed: %s", q(r).c_str());
          t.cmds["renamed"] = it->second;
          t.cmds.erase(it);
          g.label("renamed"); g.nontrivial();
          w.checkCmd(i, "renamed");
        }
        break;
      }
      case 7: { // removed by the script
        SS n = g.draw(3) ? cn : SS("renamed");
        if (!t.cmds.count(n)) break;
        g.note("%u: rename %s {}", i, n.c_str());
        REQUIRE(run(t.in->ip, VS{"rename", n, ""}) == TCL_OK, "removing a command failed");
        t.cmds.erase(n);
        break;
      }
      case 8: case 9: { Lnk l; l.var = (int)g.draw(6); l.ro = g.draw(4) == 0; l.hook = g.draw(2) ? (int)g.draw(8) : -1;
        g.note("%u: link %s to C variable %d%s%s", i, vn.c_str(), l.var, l.ro ? " read-only" : "", l.hook >= 0 ? " with hook" : "");
        if (t.links.count(vn)) { g.label("relinked"); g.nontrivial(); }
        unsigned h = hookTotal();
        w.doLink(i, vn, l);
        w.vcheck("linking");
        REQUIRE(hookTotal() == h, "linking %s ran a hook", vn.c_str());
        break; }
      case 10: { g.note("%u: unlink %s", i, vn.c_str()); if (t.links.count(vn)) g.nontrivial(); t.in->si->unlinkVar(BS(vn)); t.links.erase(vn); t.plain.erase(vn); break; }
      case 11: { int v = (int)g.draw(6); w.vars[v] = w.model[v] = (int)g.range(-50, 50); g.note("C variable %d = %d", v, w.vars[v]); break; }
      case 12: { int x = (int)g.range(1000, 2000);
        unsigned before[8];
        memcpy(before, g_hooks, sizeof before);
        g.note("%u: set %s %d", i, vn.c_str(), x);
        if (g.draw(5) == 0 && !(t.links.count(vn) && t.links[vn].ro)) { g.note("   (after unset)"); run(t.in->ip, VS{"unset", "-nocomplain", vn}); t.links.erase(vn); t.plain.erase(vn); }
        SS r;
        int rc = run(t.in->ip, VS{"set", vn, std::to_string(x)}, &r);
        auto l = t.links.find(vn);
        if (l == t.links.end()) { REQUIRE(rc == TCL_OK, "setting an ordinary variable failed: %s", q(r).c_str()); t.plain[vn] = std::to_string(x); }
        else if (l->second.ro) REQUIRE(rc == TCL_ERROR, "setting a read-only variable succeeded");
        else { REQUIRE(rc == TCL_OK, "setting %s failed: %s", vn.c_str(), q(r).c_str()); w.model[l->second.var] = x; if (l->second.hook >= 0) ++before[l->second.hook]; }
        REQUIRE(!memcmp(before, g_hooks, sizeof before), "a write to %s in interpreter %u ran the wrong hooks", vn.c_str(), i);
        break; }
      default: { if (g.draw(3)) break; g.note("destroy interpreter %u", i); t.in.reset(); t.cmds.clear(); t.links.clear(); t.plain.clear(); g.label("destroyed"); break; }
    }
    w.vcheck("an operation");
    if (g.draw(w.cnames.size()) == 0) w.checkAll();
  }
  w.checkAll();
  // one after another; the rest must not notice
  for (unsigned i = 0; i < NI; ++i) {
    unsigned v = (unsigned)g.draw(NI);
    IM& t = w.im[v];
    t.in.reset(); t.cmds.clear(); t.links.clear(); t.plain.clear();
    w.checkAll();
  }
  for (auto& t : w.im) t.in.reset();
  w.vcheck("destroying the interpreters");
  w25 = nullptr;
}
static void c25(Src& g) {
  struct Reset { ~Reset() { w25 = nullptr; } } reset;
  static bool warm = [] { Interp x; x.si->createCommand("c", f25<0>); x.si->eval("c 1"); int v = 0; x.si->linkVar("v", v); x.si->eval("set v 1"); return true; }();
  (void)warm;
  g_obs.clear(); g_obs.shrink_to_fit();
  g_hookOldVal = SS(); g_hookNewVal = SS();
  long b0 = pbt::mem::liveBlocks();
  c25body(g);
  g_hookOldVal = SS(); g_hookNewVal = SS();
  long b1 = pbt::mem::liveBlocks();
  BALANCE(b0 == b1, "%ld blocks still allocated after all interpreters were destroyed", b1 - b0);
}
PROPERTY("C25", "command and link lifetimes", c25, 10000, 200000, false, "histories over three interpreters with creation, replacement, renaming, deletion, linking, relinking, unlinking and destruction; non-trivial when something was replaced, renamed, deleted or unlinked");

// ---- C29 ----------------------------------------------------------------------
static SI* g_si;
static SS g_inner, g_innerResult;
static BS reenter(BS script) { BS r = g_si->eval(script); g_innerResult = val(r); return r; }
static void writeAll(const SS& path, const SS& t) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  REQUIRE(fd >= 0, "harness: cannot create %s", path.c_str());
  ssize_t n = write(fd, t.data(), t.size());
  close(fd);
  REQUIRE(n == (ssize_t)t.size(), "harness: short write");
}
struct InDir {  // runs the rest of its scope in a directory
  int back = -1;
  explicit InDir(const SS& d) {
    if (d.empty()) return;
    back = open(".", O_RDONLY | O_DIRECTORY);
    REQUIRE(back >= 0 && chdir(d.c_str()) == 0, "harness: cannot enter %s", d.c_str());
  }
  ~InDir() { if (back >= 0) { if (fchdir(back) != 0) abort(); close(back); } }
};
static void c29(Src& g) {
  Interp in;
  g_si = in.si.get();
  in.si->createCommand("reenter", reenter);
  runScript(in.ip, "proc inproc {s} { set local 1; set gx local; reenter $s }; set gx global; set ran 0");
  SS gx = "global";
  SS dir = pbt::scratch() + "/tcl" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  unsigned k = 0, ran = 0, fileNo = 0;
  bool failed = false;
  while (g.more(10) && k++ < 50) {
    switch (g.draw(7)) {
      case 0: case 1: {  // a script with a known result
        SS want = ntext(g, 80), script;
        switch (g.draw(6)) {
          case 0: script = "format %s " + word(want); break;
          case 1: script = "set tmp " + word(want); break;
          case 2: script = "return " + word(want); break;
          case 3: script = "set tmp 1\nset other 2 ;# comment\nformat %s " + word(want) + "\n\n"; break;
          case 4: script = "if {1} { list a; format %s " + word(want) + " }"; break;
          default: script = "obs x"; g_obsResult = want; g_obsCode = TCL_OK; break;
        }
        Placed p = place(g, script);
        g.note("eval %s", q(script).c_str());
        BS r = in.si->eval(p.s);
        expect(r, want, failed ? "result of a script after a failure" : "result of a script");
        keepOK(p, script, "script after evaluation");
        if (!want.empty()) g.nontrivial();
        break;
      }
      case 2: {  // a failing script
        SS msg = "E" + ntext(g, 40), script;
        switch (g.draw(4)) {
          case 0: script = "error " + word(msg); break;
          case 1: script = "set a 1; error " + word(msg) + "; set ran 99"; break;
          case 2: script = "proc fails {} { error " + word(msg) + " }; fails"; break;
          default: script = "no_such_command x y"; msg = "invalid command name \"no_such_command\""; break;
        }
        g.note("eval failing %s", q(script).c_str());
        SS r = val(in.si->eval(BS(script)));
        REQUIRE(r.compare(0, msg.size(), msg) == 0, "a failing script returned %s, expected a trace of %s", q(r).c_str(), q(msg).c_str());
        REQUIRE(r.find("while executing", msg.size()) != SS::npos, "a failing script returned %s without a trace", q(r).c_str());
        REQUIRE(r == rawVar(in.ip, "errorInfo"), "a failing script returned %s instead of the error trace", q(r).c_str());
        failed = true;
        g.label("failing-script");
        break;
      }
      case 3: {  // evaluated by a command running inside a procedure
        SS nv = "v" + dec((__int128)g.draw(1000));
        g.note("eval inside a procedure");
        if (g.draw(2)) { BS r = in.si->eval(BS("inproc {set gx}")); expect(r, gx, "global variable read by a script evaluated from inside a procedure"); }
        else { in.si->eval(BS("inproc {set gx " + nv + "}")); gx = nv; REQUIRE(rawVar(in.ip, "gx") == gx, "a script evaluated from inside a procedure did not set the global variable"); }
        SS r = val(in.si->eval("inproc {info exists local}"));
        REQUIRE(r == "0", "a script was evaluated in the scope of a procedure");
        g.label("nested");
        break;
      }
      case 4: {  // results larger than usual
        size_t n = g.draw(10) ? g.draw(2000) : 10000 + g.draw(300000);
        BS r = in.si->eval(BS("string repeat abc " + dec((__int128)n)));
        REQUIRE(r.length() == 3 * n, "result of %zu characters expected, got %zu", 3 * n, r.length());
        SS v = val(r);
        for (size_t i = 0; i < v.size(); ++i) REQUIRE(v[i] == "abc"[i % 3], "result differs at %zu", i);
        break;
      }
      default: {  // loading
        static const char* const good[] = {"a.tcl", ".tcl", "x.tcl.tcl", "b c.tcl", "longer-name_1.tcl", "q.TCL.tcl", "tcl.tcl", "..tcl"};
        static const char* const bad[] = {"a.txt", "tcl", "a.tcl.txt", "a.TCL", "atcl", "x.tclx", "a.tc", "a", ".tcl.", "a.tcl ", "a.tclb.tc", "cl"};
        bool ok = g.draw(3) != 0;
        SS name = ok ? good[g.draw(8)] : bad[g.draw(12)], path = dir + "/" + name;
        unsigned kind = (unsigned)g.draw(4);
        SS msg = "E" + g.bytesOver("ab {}[]$\"\\;#", 20);
        SS script = "incr ran\n";
        if (kind == 1) script += "error " + word(msg) + "\nincr ran 1000\n";
        if (kind == 2) script += "return early\nincr ran 1000\n";
        unlink(path.c_str());
        if (kind != 3) writeAll(path, script);
        SS rs0 = g.draw(2) ? "before" : "";
        BS rs(rs0);
        bool relative = g.draw(8) == 0;
        if (relative) path = name;  // short names; a wrong one is to be refused before anything is opened
        Placed p = place(g, path);
        g.note("load %s (%s)", q(name).c_str(), kind == 3 ? "missing" : kind == 1 ? "fails" : "good");
        auto rc = [&] { InDir cd(relative ? dir : SS()); return in.si->loadScript(p.s, rs); }();
        keepOK(p, path, "file name after loading");
        SS now = rawVar(in.ip, "ran");
        if (!ok) {
          g.label("wrong-name");
          REQUIRE(rc == bd::ScriptInterp::SCRIPT_LOAD_WRONG_INTERP, "loading %s gave status %d, expected a refusal", q(name).c_str(), (int)rc);
        } else if (kind == 3) {
          g.label("missing-file");
          REQUIRE(rc == bd::ScriptInterp::SCRIPT_LOAD_ERROR, "loading a missing file gave status %d", (int)rc);
          REQUIRE(rs.length() > 0 && val(rs) != rs0 && val(rs).find(path) != SS::npos, "loading a missing file reports %s", q(val(rs)).c_str());
        } else {
          ++ran;
          if (kind == 1) { g.label("failing-file"); REQUIRE(rc == bd::ScriptInterp::SCRIPT_LOAD_ERROR, "loading a failing script gave status %d", (int)rc); expect(rs, msg, "error of a loaded script"); failed = true; }
          else REQUIRE(rc == bd::ScriptInterp::SCRIPT_LOAD_OK, "loading a good script gave status %d (%s)", (int)rc, q(val(rs)).c_str());
        }
        REQUIRE(now == std::to_string(ran), "after loading %s (status %d) scripts ran to %s, expected %u", q(name).c_str(), (int)rc, now.c_str(), ran);
        g.nontrivial();
        ++fileNo;
        unlink((dir + "/" + name).c_str());
      }
    }
  }
  expect(in.si->eval("set ran"), std::to_string(ran), "variable at the end");
}
PROPERTY("C29", "evaluation and loading", c29, 10000, 150000, false, "sequences of succeeding, failing, nested and large evaluations and of loads under good and bad names; non-trivial when a script had a result or a file was loaded");

// ---- C34 ----------------------------------------------------------------------
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static std::atomic<long> g_heap;
static void onMalloc(const volatile void* p, size_t n) { if (p) g_heap += (long)n + 16; }
static void onRelease(const volatile void* p) { if (p) g_heap -= (long)__sanitizer_get_allocated_size(p) + 16; }
static long heapBytes() { static int once = __sanitizer_install_malloc_and_free_hooks(onMalloc, onRelease); (void)once; return g_heap; }
#else
#include <malloc.h>
static long heapBytes() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
#endif
typedef std::function<SS()> Step;  // one operation on fixed values; what it showed
static SS stepStatus(int rc, const SS& r) { return dec((__int128)rc) + ":" + r; }
static Step steadyStep(Src& g, Interp& in, std::vector<std::unique_ptr<Link>>& links, const SS& dir, SS& what, unsigned& reps) {
  Tcl_Interp* ip = in.ip;
  SI* si = in.si.get();
  switch (g.draw(22)) {
    case 0: {
      SS w = ntext(g, 60), s = g.draw(2) ? "format %s " + word(w) : "set x [list " + word(w) + " " + word(w) + "]; lindex $x 1";
      what = "evaluating a script"; BS b(s);
      return [=] { return val(si->eval(b)); };
    }
    case 1: { BS b("error " + word(ntext(g, 40))); what = "evaluating a failing script"; return [=] { return val(si->eval(b)); }; }
    case 2: case 3: case 4: {
      const Sig* s = &sigs()[g.draw(sigs().size())];
      SS name = "steady" + dec((__int128)(s - &sigs()[0]));
      s->create(*si, BS(name), "usage", g.draw(2) ? (size_t)-1 : 0);
      auto words = std::make_shared<std::vector<Obj>>();
      words->push_back(sobj(name));
      SS script = word(name);
      size_t n = g.draw(4) ? s->max : g.draw(s->max + 2);
      for (size_t i = 0; i < n; ++i) { Arg a = i < s->max ? s->args[i](g) : GA<BS>::gen(g); words->push_back(a.o); script += " " + word(a.text); }
      Ret ret;
      if (s->ret) ret = s->ret(g);
      int mode = g.draw(3) ? 0 : (int)g.draw(4);
      SS msg = ntext(g, 40);
      bool ev = g.draw(2);
      what = SS("calling ") + s->what + (mode ? ", which throws" : "") + (ev ? " by eval()" : "");
      BS b(script);
      return [=] { g_ret = ret.p; g_mode = mode; g_throw = msg; SS r; if (ev) r = val(si->eval(b)); else { int rc = run(ip, *words, &r); r = stepStatus(rc, r); } g_mode = 0; g_args.clear(); return r; };
    }
    case 5: case 6: {
      if (!g_cb) { si->createCommand("bind", bindFn); }
      SS cmd = g.draw(3) ? "echo " + word(ntext(g, 10)) : SS("boom");
      AS a;
      for (auto& p : texts(g, 4, 20)) a << BS(p);
      bool fresh = g.draw(2);
      REQUIRE(run(ip, VS{"bind", "ev", cmd}) == TCL_OK && g_cb, "a command taking a callback did not receive one");
      bd::ScriptCallbackerPtr held = g_cb;
      what = fresh ? "making and calling a callback" : "calling a callback";
      return [=] { if (fresh) { run(ip, VS{"bind", "ev", cmd}); return val(g_cb->call(a)); } return val(held->call(a)); };
    }
    case 7: case 8: case 9: case 10: {
      links.push_back(newLink(g));
      Link* l = links.back().get();
      l->name = "steady" + dec((__int128)links.size());
      l->ro = g.draw(4) == 0;
      if (g.draw(3) == 0) l->hook = 0;
      g_hookShow = l->shower();
      l->link(*si);
      SS v = anyVal(g).t, n = l->name;
      auto show = l->shower();
      unsigned kind = (unsigned)g.draw(4);
      switch (kind) {
        case 0: what = SS("reading a linked ") + l->type(); return [=] { SS r; int rc = run(ip, VS{"set", n}, &r); return stepStatus(rc, r); };
        case 1: what = SS("reading a linked ") + l->type() + " in a procedure"; return [=] { SS r; int rc = run(ip, VS{"rdu", n}, &r); return stepStatus(rc, r); };
        case 2: what = SS("setting a linked ") + l->type(); return [=] { g_hookShow = show; SS r; int rc = run(ip, VS{v.size() % 2 ? "wru" : "set", n, v}, &r); return stepStatus(rc, r); };
        default: what = SS("linking and unlinking a ") + l->type(); return [=] { g_hookShow = show; l->link(*si); run(ip, VS{"set", n, v}); if (v.size() % 2) l->link(*si); si->unlinkVar(BS(n)); return SS(); };
      }
    }
    case 11: {
      const Sig* s = &sigs()[g.draw(sigs().size())];
      unsigned how = (unsigned)g.draw(4);
      what = "creating and removing a command";
      return [=] {
        s->create(*si, BS("once"), "usage", 0);
        if (how == 1) s->create(*si, BS("once"), nullptr, 0);
        if (how == 2) { run(ip, VS{"rename", "once", "twice"}); si->deleteCommand("twice"); }
        else if (how == 3) run(ip, VS{"rename", "once", ""});
        else si->deleteCommand("once");
        return SS(); };
    }
    case 12: {
      unsigned kind = (unsigned)g.draw(4);
      SS path = dir + (kind == 3 ? "/absent.tcl" : kind == 2 ? "/steady.txt" : kind == 1 ? "/bad.tcl" : "/good.tcl");
      if (kind == 0) writeAll(path, "set a 1\nset b 2\n"); else if (kind == 1) writeAll(path, "set a 1\nerror {it failed}\n");
      what = "loading a script file"; reps = 700; BS p(path);
      return [=] { BS r; auto rc = si->loadScript(p, r); return stepStatus((int)rc, val(r)); };
    }
    case 13: {
      const Sig* s = &sigs()[g.draw(sigs().size())];
      unsigned n = (unsigned)g.draw(4);
      what = "creating, using and destroying an interpreter"; reps = 25;
      return [=] { SI x; int v = 7; BS t("text"); for (unsigned i = 0; i < n; ++i) s->create(x, BS("c" + dec((__int128)i)), nullptr, 0); x.linkVar("v", v); if (n > 1) x.linkVar("t", t); if (n > 2) x.unlinkVar("v"); return val(x.eval("set v")); };
    }
    case 14: {
      BS p(g.bytes(300)); SS e = val(bd::base64Encode(p)); if (g.draw(3) == 0) e = g.bytes(300); BS pe(e);
      static const char alpha[] = "zyxwvutsrqponmlkjihgfedcbaZYXWVUTSRQPONMLKJIHGFEDCBA9876543210-_";
      const char* cs = g.draw(2) ? alpha : nullptr;
      what = "base64 coding";
      return [=] { SS r = val(bd::base64Encode(p, cs)) + "|" + val(bd::base64Decode(pe, cs)); size_t n = p.length(); char* c = bd::b64enc((const unsigned char*)p.data(), &n, cs); free(c); n = pe.length(); c = bd::b64dec((const unsigned char*)pe.data(), &n, cs); free(c); return r; };
    }
    case 15: {
      SS t = g.bytesOver("ab c", 100); size_t n = g.draw(120);
      what = "duplicating C strings";
      return [=] { char* a = nullptr; bd::str_redup(&a, t.c_str()); bd::str_redup(&a, "other"); SS r = a; bd::str_redup(&a, n % 2 ? "" : nullptr); free(a); char* b = bd::strdup(t.c_str()); char* c = bd::strldup(t.c_str(), n); r += SS(b) + c; free(b); free(c); return r; };
    }
    case 16: {
      SS t = g.bytesOver("a %s b", g.draw(3) ? 60 : 9000); double d = (double)g.draw(1000); what = "formatting";
      return [=] { return val(BS::printf("%s|%g|%500s|", t.c_str(), d, t.c_str())); };
    }
    case 17: {
      BS t(g.bytesOver("ab ,", 400)), d(g.bytesOver(" ,ab", 2)), rep(g.bytesOver("xyab", 5)); long lim = g.draw(2) ? -1 : 1 + (long)g.draw(5);
      what = "splitting, joining and substituting";
      return [=] { AS a = d.length() ? (lim < 0 ? t.split(d) : t.split(d, (size_t)lim)) : AS(); SS r = val(a.join(d)) + val(t.sub(d, rep, (int)lim)); bd::HashTable<BS, BS> h; h[d] = rep; h[rep] = t(0, 3); if (d.length() && rep.length()) r += dec((__int128)t.subst(h).length()); BS u(t); r += val(newsplit(u, ',')); return r; };
    }
    case 18: {
      SS data = g.bytes(g.draw(3) ? 100 : 9000), path = dir + "/data", none = dir + "/none/x"; unsigned kind = (unsigned)g.draw(3); reps = 500;
      what = "writing and loading a Stream";
      return [=] { bd::Stream s; s << BS(data); int a = s.writeFile(BS(path)), b = kind ? s.loadFile(BS(path)) : s.loadFile(BS(none)); int c = s.writeFile(BS(none)); return dec((__int128)a) + dec((__int128)b) + dec((__int128)c) + val(s.read(5)); };
    }
    case 19: {
      unsigned kind = (unsigned)g.draw(4); SS path = dir + "/atomic", none = dir + "/none/x"; reps = 500;
      what = "an atomic file update";
      return [=] { bd::AtomicFile f; bool a = f.open(BS(kind == 3 ? none : path)), b = kind == 0 ? f.commit() : kind == 1 ? f.abort() : false; return dec((__int128)a) + dec((__int128)b); };
    }
    case 20: {
      BS t(g.bytesOver("abc", 60)); AS a; for (auto& p : texts(g, 4, 20)) a << BS(p); BS other(g.bytesOver("abc", 20)); size_t far = 1 + g.draw(100);
      what = "operations at positions beyond the end";
      return [=] { BS u(t); AS v(a); unsigned n = 0; size_t p = t.length() + far, k = a.length() + far;
        try { u.insert(p, other); } catch (const std::out_of_range&) { ++n; } try { u.replace(p, other); } catch (const std::out_of_range&) { ++n; } try { (void)u.at(p); } catch (const std::out_of_range&) { ++n; }
        try { v.insert(k, other); } catch (const std::out_of_range&) { ++n; } try { v.insert(k, a); } catch (const std::out_of_range&) { ++n; } try { v.replace(k, BS(other)); } catch (const std::out_of_range&) { ++n; }
        return dec((__int128)n); };
    }
    default: {
      SS t = g.bytesOver("ab \n", 100); bool thr = g.draw(2);
      what = "reading words and lines";
      return [=] { std::istringstream is(t); if (thr) is.exceptions(std::ios::failbit | std::ios::badbit); SS r; BS s; try { for (int i = 0; i < 50; ++i) { if (i % 2) { if (!(is >> s)) break; } else if (!getline(is, s)) break; r += val(s) + "|"; } } catch (const std::ios::failure&) { r += "!"; } std::ostringstream os; os << s; return r + os.str(); };
    }
  }
}
static void c34(Src& g) {
  Interp in;
  std::vector<std::unique_ptr<Link>> links;
  SS dir = pbt::scratch() + "/steady" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  linkProcs(in.ip);
  runScript(in.ip, "proc echo {args} { return $args }; proc boom {args} { error \"went wrong\" }");
  g_cb.reset();
  unsigned reps = 1500;
  std::vector<Step> steps;
  SS what;
  size_t n = 1 + (g.draw(2) ? 0 : g.draw(3));
  for (size_t i = 0; i < n; ++i) { SS w; unsigned r = 1500; steps.push_back(steadyStep(g, in, links, dir, w, r)); g.note("repeated: %s", w.c_str()); reps = std::min(reps, r); what += (i ? ", " : "") + w; static std::map<SS, int> names; g.label(names.insert(std::make_pair(w.substr(0, w.find_first_of("(,")), 0)).first->first.c_str()); }
  g.nontrivial();
  VS first(n);
  auto rounds = [&](unsigned k, bool check) { for (unsigned i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) { SS r = steps[j](); if (check) REQUIRE(r == first[j], "repeating %s gave %s, at first it gave %s", what.c_str(), q(r).c_str(), q(first[j]).c_str()); else first[j] = r; } };
  heapBytes();
  rounds(2, false);  // the first round may find another state than its own
  rounds(reps / 4, true);
  long grew = 0, cgrew = 0;
  for (int w = 0; w < 4; ++w) {
    long h = heapBytes(), b = pbt::mem::liveBytes();
    rounds(reps, true);
    grew = heapBytes() - h; cgrew = pbt::mem::liveBytes() - b;
    if (grew < (long)reps * 12 && cgrew < (long)reps) break;
    if (w == 3) pbt::fail("repeating %s keeps on taking memory: %ld bytes over %u times (%ld of them by operator new)", what.c_str(), grew, reps, cgrew);
  }
  steps.clear();
  g_cb.reset();
  in.si.reset();
  links.clear();
}
PROPERTY("C34", "steady memory", c34, 900, 16000, false, "one to three operations with generated arguments repeated about 2000 times on one interpreter; non-trivial always");
