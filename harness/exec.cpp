// Runs programs of INNC calls against the real library and records what a
// user can see after every call, one JSON line per call (see spec/Trace.tla).
//   exec run  CMDS OUT            the commands of file CMDS
//   exec rand PROFILE SEED N OUT  N random histories; the commands go to OUT.cmds
// Only the public interface of the library is used.
#include "INNC/INNC.hpp"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using INNC::SignedVec;
using INNC::SizeVec;
using INNC::Tensor;
using INNC::types;
typedef long long ll;

// ---- allocations made inside library calls --------------------------------
template <class T> struct MallocA {
  using value_type = T;
  MallocA() = default;
  template <class U> MallocA(const MallocA<U> &) {}
  T *allocate(size_t n) { return (T *)malloc(n * sizeof(T)); }
  void deallocate(T *p, size_t) { free(p); }
  bool operator==(const MallocA &) const { return true; }
};
typedef std::unordered_set<void *, std::hash<void *>, std::equal_to<void *>,
                           MallocA<void *>>
    PtrSet;
static PtrSet *live_allocs;
static int in_lib = 0;
struct Lib {
  Lib() { ++in_lib; }
  ~Lib() { --in_lib; }
};
static void *take(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (in_lib && live_allocs)
    live_allocs->insert(p);
  return p;
}
static void give(void *p) {
  if (!p)
    return;
  if (live_allocs)
    live_allocs->erase(p);
  free(p);
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

// memory that cannot be had is an exception
extern "C" const char *__asan_default_options() {
  return "allocator_may_return_null=1:max_allocation_size_mb=8000";
}

// ---- commands --------------------------------------------------------------
static const std::map<std::string, std::string> SIG = {
    {"begin", ""},       {"end", ""},         {"lit", "dtzV"},
    {"init", "dtzVk"},   {"ragged", "k"},     {"scal", "dtV"},
    {"tree", "dc"},
    {"zeros", "dtz"},    {"ones", "dtz"},     {"sized", "dtz"},
    {"randn", "dtz"},    {"zlike", "da"},     {"olike", "da"},
    {"rlike", "da"},     {"fulli", "dtzV"},   {"fulld", "dtzV"},
    {"eye", "dtnmk"},    {"add", "dab"},      {"sub", "dab"},
    {"mul", "dab"},      {"div", "dab"},      {"lt", "dab"},
    {"gt", "dab"},       {"le", "dab"},       {"ge", "dab"},
    {"eq", "dab"},       {"ne", "dab"},       {"neg", "da"},
    {"pos", "da"},       {"sum", "da"},       {"mean", "da"},
    {"abs", "da"},       {"max", "da"},       {"min", "da"},
    {"clone", "da"},     {"cont", "da"},      {"detach", "da"},
    {"type", "dat"},     {"slice", "dakx"},   {"badslice", "das"},
    {"tslice", "dac"},
    {"transpose", "daijk"}, {"reshape", "dark"}, {"reshapeas", "dab"},
    {"cat", "dln"},      {"iadd", "ab"},      {"setrg", "an"},
    {"setrt", "an"},     {"zerog", "a"},      {"back", "a"},
    {"gcopy", "da"},     {"assign", "da"},    {"drop", "d"},
    {"all", "a"},        {"show", "a"},       {"soak", "n"},
    {"mem", ""},         {"ghold", "da"},     {"deep", "nk"},
    {"randstat", "tnk"}, {"rel", "a"}};

struct Cmd {
  std::string o;
  std::map<char, ll> n;                  // scalar fields
  std::map<char, std::vector<ll>> seq;   // z r l v f
  std::vector<std::vector<ll>> x;        // slice
  std::string s;                         // text, hex
};

static const char *HEX = "0123456789abcdef";
static std::string to_hex(const std::string &s) {
  std::string r = "h";
  for (unsigned char c : s)
    r += HEX[c >> 4], r += HEX[c & 15];
  return r;
}
static std::string from_hex(const std::string &h) {
  std::string r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    r += (char)(v(h[i]) * 16 + v(h[i + 1]));
  return r;
}

static Cmd parse(const std::string &line) {
  std::istringstream in(line);
  Cmd c;
  in >> c.o;
  auto it = SIG.find(c.o);
  if (it == SIG.end()) {
    std::cerr << "unknown command: " << line << "\n";
    exit(3);
  }
  for (char k : it->second) {
    ll n;
    if (k == 's')
      in >> c.s;
    else if (k == 'x') {
      in >> n;
      for (ll i = 0; i < n; ++i) {
        ll y;
        in >> y;
        std::vector<ll> f{y};
        for (int j = 0; j < (f[0] == 0 ? 1 : 6); ++j) {
          in >> y;
          f.push_back(y);
        }
        c.x.push_back(f);
      }
    } else if (k == 'V') {
      in >> n;
      c.seq['v'];
      c.seq['f'];
      for (ll i = 0; i < n; ++i) {
        ll a, b;
        in >> a >> b;
        c.seq['v'].push_back(a);
        c.seq['f'].push_back(b);
      }
    } else if (k == 'z' || k == 'r' || k == 'l' || k == 'c') {
      in >> n;
      c.seq[k];
      for (ll i = 0; i < n; ++i) {
        ll a;
        in >> a;
        c.seq[k].push_back(a);
      }
    } else {
      in >> n;
      c.n[k] = n;
    }
  }
  if (!in) {
    std::cerr << "bad command: " << line << "\n";
    exit(3);
  }
  return c;
}

static std::string text(const Cmd &c) {
  std::ostringstream o;
  o << c.o;
  for (char k : SIG.at(c.o)) {
    if (k == 's')
      o << ' ' << c.s;
    else if (k == 'x') {
      o << ' ' << c.x.size();
      for (auto &f : c.x)
        for (auto y : f)
          o << ' ' << y;
    } else if (k == 'V') {
      auto &v = c.seq.at('v'), &f = c.seq.at('f');
      o << ' ' << v.size();
      for (size_t i = 0; i < v.size(); ++i)
        o << ' ' << v[i] << ' ' << f[i];
    } else if (k == 'z' || k == 'r' || k == 'l' || k == 'c') {
      auto &v = c.seq.at(k);
      o << ' ' << v.size();
      for (auto y : v)
        o << ' ' << y;
    } else
      o << ' ' << c.n.at(k);
  }
  return o.str();
}

template <class V> static std::string arr(const V &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + std::to_string(v[i]);
  return r + "]";
}

// wide mode: numbers of any size, written as [sign, four digits, four digits...]
// with the lowest digits first (spec/wide/Num.tla)
static bool wide = false;
static std::string limbs(bool neg, std::string digits) {
  while (digits.size() > 1 && digits[0] == '0')
    digits = digits.substr(1);
  if (digits == "0")
    return "[0]";
  std::string r = neg ? "[-1" : "[1";
  while (!digits.empty()) {
    size_t k = digits.size() > 4 ? digits.size() - 4 : 0;
    r += "," + std::to_string(atoi(digits.substr(k).c_str()));
    digits = digits.substr(0, k);
  }
  return r + "]";
}
static std::string number(ll v) {
  std::string s = std::to_string(v);
  if (!wide)
    return s;
  return s[0] == '-' ? limbs(true, s.substr(1)) : limbs(false, s);
}
static std::string arr(const std::vector<std::string> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + v[i];
  return r + "]";
}
static std::string numbers_of(const std::vector<ll> &v) {
  std::vector<std::string> r;
  for (auto i : v)
    r.push_back(number(i));
  return arr(r);
}

static std::string json_args(const Cmd &c) {
  std::string r = "\"o\":\"" + c.o + "\"";
  for (char k : SIG.at(c.o)) {
    if (k == 's')
      continue;
    if (k == 'x') {
      r += ",\"x\":[";
      for (size_t i = 0; i < c.x.size(); ++i)
        r += (i ? "," : "") + arr(c.x[i]);
      r += "]";
    } else if (k == 'V')
      r += ",\"v\":" + numbers_of(c.seq.at('v')) + ",\"f\":" + arr(c.seq.at('f'));
    else if (k == 'z' || k == 'r' || k == 'l' || k == 'c')
      r += std::string(",\"") + k + "\":" + arr(c.seq.at(k));
    else
      r += std::string(",\"") + k + "\":" + std::to_string(c.n.at(k));
  }
  return r;
}

// ---- observation -----------------------------------------------------------
// numbers of a printed tensor as (integer part, millionths), value = i + f/10^6
// f = -1: nan (i = 0) or infinite (i = +-1), f = -2: too large for the model
static void numbers(const std::string &t, std::vector<std::string> &iv,
                    std::vector<ll> &fv) {
  size_t p = 0;
  while (p < t.size()) {
    char ch = t[p];
    if (ch == '[' || ch == ']' || ch == ',' || ch == ' ') {
      ++p;
      continue;
    }
    size_t q = p;
    while (q < t.size() && !strchr("[], ", t[q]))
      ++q;
    std::string s = t.substr(p, q - p);
    p = q;
    bool neg = s[0] == '-';
    if (neg)
      s = s.substr(1);
    if (s.empty() || s.find_first_not_of("0123456789.") != std::string::npos) {
      iv.push_back(number(s == "inf" ? (neg ? -1 : 1) : s == "nan" ? 0 : -9));
      fv.push_back(s == "inf" || s == "nan" ? -1 : -3);
      continue;
    }
    auto dot = s.find('.');
    std::string is = s.substr(0, dot), fs;
    if (dot != std::string::npos)
      fs = s.substr(dot + 1);
    while (fs.size() < 6)
      fs += '0';
    fs = fs.substr(0, 6);
    if (wide) {
      iv.push_back(limbs(neg, is.empty() ? "0" : is));
      fv.push_back(atoll(fs.c_str()));
      continue;
    }
    if (is.size() > 10 || atoll(is.c_str()) > (1LL << 30)) {
      iv.push_back("0");
      fv.push_back(-2);
      continue;
    }
    ll i = atoll(is.c_str()), f = atoll(fs.c_str());
    if (neg) {
      if (f == 0)
        i = -i;
      else
        i = -i - 1, f = 1000000 - f;
    }
    iv.push_back(std::to_string(i));
    fv.push_back(f);
  }
}

// digits in full, a float with six decimals
static bool well_formed(std::string s, bool real) {
  if (s[0] == '-')
    s = s.substr(1);
  if (real && (s == "inf" || s == "nan"))
    return true;
  auto dot = real ? s.find('.') : s.size();
  if (dot == std::string::npos || dot == 0 || (s[0] == '0' && dot > 1))
    return false;
  for (size_t i = 0; i < s.size(); ++i)
    if (i != dot && !isdigit((unsigned char)s[i]))
      return false;
  return !real || s.size() == dot + 7;
}

static std::vector<int> tokens(const std::string &t, bool real) {
  std::vector<int> r;
  for (size_t p = 0; p < t.size();) {
    if (t[p] == '[')
      r.push_back(1), ++p;
    else if (t[p] == ']')
      r.push_back(2), ++p;
    else if (t[p] == ',')
      r.push_back(3), ++p;
    else if (t[p] == ' ')
      ++p;
    else {
      size_t q = p;
      while (p < t.size() && !strchr("[], ", t[p]))
        ++p;
      r.push_back(well_formed(t.substr(q, p - q), real) ? 0 : 9);
    }
  }
  return r;
}

static const int NH = 17;
static std::unique_ptr<Tensor> slot[NH];
static std::string last[NH];
static bool quiet = false;

static std::string picture(int h) {
  Tensor &t = *slot[h];
  std::vector<std::string> iv, gi;
  std::vector<ll> fv, gf;
  SizeVec sz;
  SignedVec sr;
  std::string txt;
  int ty, rg, rt, ct, g = 0;
  size_t nm, dm;
  {
    Lib l;
    txt = t.to_string();
    sz = t.size();
    ty = t.type();
    rg = t.requires_grad();
    rt = t.retain_grad();
    ct = t.is_contiguous();
    nm = t.numel();
    dm = t.dim();
    if (!sz.empty())
      sr = t.stride();
  }
  bool big = nm > 2000 || txt.size() > 60000; // too long for the trace
  if (!big)
    numbers(txt, iv, fv);
  for (auto &y : sr) // of a dimension of extent 1, or wrong
    y = std::max(-1000000000LL, std::min(1000000000LL, y));
  std::string r = "{\"h\":" + std::to_string(h) + ",\"t\":" +
                  std::to_string(ty) + ",\"s\":" + arr(sz) +
                  ",\"nm\":" + std::to_string(nm) +
                  ",\"dm\":" + std::to_string(dm) + ",\"v\":" + arr(iv) +
                  ",\"f\":" + arr(fv) + ",\"rg\":" + std::to_string(rg) +
                  ",\"rt\":" + std::to_string(rt) +
                  ",\"ct\":" + std::to_string(ct) + ",\"sr\":" + arr(sr);
  int gt = 0;
  SizeVec gs;
  if (big)
    r += ",\"big\":" +
         std::to_string(std::hash<std::string>()(txt) & 0x3fffffff);
  {
    Lib l;
    Tensor gr = t.grad();
    std::string gtxt = gr.to_string();
    // an empty handle prints "[]", like the gradient of an empty tensor, which
    // is not looked at
    if (gtxt != "[]" && nm != 0) {
      g = 1;
      gs = gr.size();
      gt = gr.type();
      in_lib--;
      if (big)
        r += ",\"gbig\":" +
             std::to_string(std::hash<std::string>()(gtxt) & 0x3fffffff);
      else
        numbers(gtxt, gi, gf);
      in_lib++;
    }
  }
  r += ",\"g\":" + std::to_string(g);
  if (g)
    r += ",\"gt\":" + std::to_string(gt) + ",\"gs\":" + arr(gs) +
         ",\"gv\":" + arr(gi) + ",\"gf\":" + arr(gf);
  return r + "}";
}

// ---- execution -------------------------------------------------------------
static std::string slice_text(const Cmd &c) {
  int style = c.n.at('k');
  std::string sp = style == 5 ? "\t" : style % 3 == 1 ? " " : style % 3 == 2 ? "  " : "";
  // the model counts to 2^30; these two stand for numbers beyond 2^32 and for
  // the ends of the range, which select the same
  auto num = [&](ll v) -> std::string {
    if (v == 1000000007 || v == -1000000007)
      return v < 0 ? "-4294967299" : "4294967299";
    if (v == 1000000009 || v == -1000000009)
      return v < 0 ? "-9223372036854775808" : "9223372036854775807";
    return (style == 5 && v >= 0 ? "+" : "") + std::to_string(v);
  };
  std::string r;
  for (size_t i = 0; i < c.x.size(); ++i) {
    auto &f = c.x[i];
    if (i)
      r += "," + sp;
    if (style >= 3)
      r += " ";
    if (f[0] == 0) {
      r += num(f[1]);
    } else {
      if (f[1])
        r += num(f[2]) + sp;
      r += ":" + sp;
      if (f[3])
        r += num(f[4]);
      if (f[5])
        r += sp + ":" + num(f[6]);
      else if (style == 4)
        r += ":";
    }
    if (style >= 3)
      r += " ";
  }
  return r;
}

// extents that only make sense as a product that overflows
static ll extent(ll i) {
  switch (i) {
  case 1000000032:
    return 1LL << 32;
  case 1000000061:
    return 1LL << 61;
  case 1000000062:
    return 1LL << 62;
  case 1000000063: // four times this: 4
    return (1LL << 62) + 1;
  case 1000000007: // seven times this: 1
    return 0x6DB6DB6DB6DB6DB7LL;
  case 1000000064:
    return (ll)(1ULL << 63);
  case 1000000065:
    return -1;
  }
  return i;
}
static SizeVec to_size(const std::vector<ll> &z) {
  SizeVec r;
  for (auto i : z)
    r.push_back((size_t)extent(i));
  return r;
}

static double real(ll i, ll f) {
  return f == -1 ? (i == 0 ? NAN : i * INFINITY) : (double)i + (double)f / 1e6;
}
template <class T> static Tensor blob(const Cmd &c) {
  auto &v = c.seq.at('v'), &f = c.seq.at('f');
  std::vector<T> d;
  for (size_t i = 0; i < v.size(); ++i)
    d.push_back(f[i] ? (T)real(v[i], f[i]) : (T)v[i]);
  d.push_back(T{});
  Lib l;
  return (d.size() % 2 ? INNC::from_blob : Tensor::from_blob)(
      d.data(), to_size(c.seq.at('z')), (types)c.n.at('t'));
}

// literals written in the source, k-th one of the catalogue (see Gen.tla)
static Tensor literal(int k) {
  using INNC::TensorInit;
  switch (k) {
  case 0:
    return Tensor(TensorInit{std::int32_t(1), std::int32_t(2), std::int32_t(3)});
  case 1:
    return Tensor(TensorInit{{1.5, 2.25}, {-3.5, 4.0}, {0.25, -0.5}});
  case 2:
    return Tensor(TensorInit{{{1, 2}, {3, 4}}, {{5, 6}, {7, 8}}});
  case 3:
    return Tensor(TensorInit{{1.5f}, {2.5f}});
  case 4: {
    Tensor t;
    t = TensorInit{{std::int8_t(100), std::int8_t(-100)}};
    return t;
  }
  case 5: {
    Tensor t = Tensor::zeros({2}, INNC::f32);
    t = TensorInit{{std::int16_t(30000)}, {std::int16_t(-30000)}, {std::int16_t(1)}};
    return t;
  }
  case 6:
    return Tensor(TensorInit{{{{1.5, -1.5, 2.5}}, {{0.5, 7.25, -8.0}}}});
  case 7:
    return Tensor(TensorInit{std::int64_t(7)});
  default:
    return Tensor(TensorInit{{{3.5f, 1.0f}, {2.0f, -0.25f}, {8.0f, 9.0f}}});
  }
}
static Tensor ragged(int k) {
  using INNC::TensorInit;
  switch (k) {
  case 0:
    return Tensor(TensorInit{{1, 2}, {3}});
  case 1:
    return Tensor(TensorInit{{1.5, 2.5}, {1.5, 2.5, 3.5}});
  case 2:
    return Tensor(TensorInit{{1, 2}, {1.5, 2.5}});
  default:
    return Tensor(TensorInit{{{1, 2}, {3, 4}}, {{5, 6}}});
  }
}

// a literal given as a tree in prefix order: 100 + n is a list of n parts,
// 10 * t + n a list of n numbers of type t; the numbers count on
struct Tree {
  const std::vector<ll> &c;
  size_t at = 0;
  ll count = 0;
  template <class T> T next() {
    ll k = ++count;
    T v = T(k % 2 ? k : -k);
    if constexpr (std::is_floating_point_v<T>)
      v += T(0.5);
    return v;
  }
  template <class T> INNC::TensorInit list(ll n) {
    using L = std::initializer_list<T>;
    switch (n) { // the elements of a braced list are evaluated in order
    case 0:
      return INNC::TensorInit(L{});
    case 1:
      return INNC::TensorInit(L{next<T>()});
    case 2:
      return INNC::TensorInit(L{next<T>(), next<T>()});
    case 3:
      return INNC::TensorInit(L{next<T>(), next<T>(), next<T>()});
    case 4:
      return INNC::TensorInit(L{next<T>(), next<T>(), next<T>(), next<T>()});
    default:
      return INNC::TensorInit(L{next<T>(), next<T>(), next<T>(), next<T>(), next<T>()});
    }
  }
  INNC::TensorInit make() {
    ll k = c.at(at++);
    if (k < 100)
      switch (k / 10) {
      case 0:
        return list<std::int8_t>(k % 10);
      case 1:
        return list<std::int16_t>(k % 10);
      case 2:
        return list<std::int32_t>(k % 10);
      case 3:
        return list<std::int64_t>(k % 10);
      case 4:
        return list<float>(k % 10);
      default:
        return list<double>(k % 10);
      }
    using L = std::initializer_list<INNC::TensorInit>;
    switch (k - 100) {
    case 1:
      return INNC::TensorInit(L{make()});
    case 2:
      return INNC::TensorInit(L{make(), make()});
    case 3:
      return INNC::TensorInit(L{make(), make(), make()});
    case 4:
      return INNC::TensorInit(L{make(), make(), make(), make()});
    default:
      return INNC::TensorInit(L{make(), make(), make(), make(), make()});
    }
  }
};

static void put(int d, Tensor &&t) { slot[d].reset(new Tensor(std::move(t))); }

struct Outcome {
  int ok = 1;
  bool has_ret = false;
  std::string ret;
  bool executed = true;
};

static std::vector<Cmd> *history; // the commands since "begin"

static void drop_all() {
  Lib l;
  for (int h = 1; h < NH; ++h)
    slot[h].reset();
}

// some passes over one graph; whether the gradients are right
static bool one_pass() {
  Tensor a = Tensor::ones({2}, INNC::f32);
  a.requires_grad(true);
  Tensor b = a * a;
  b.retain_grad(true);
  Tensor c = (b + a).sum();
  c.backward();
  bool ok = a.grad().to_string() == "[3.000000, 3.000000]" &&
            b.grad().to_string() == "[1.000000, 1.000000]";
  a.zero_grad();
  return ok && a.grad().to_string() == "[0.000000, 0.000000]";
}

// long chains and wide fans: the gradient of the first element
static ll deep(ll n, int k) {
  Tensor a = Tensor::ones({2}, INNC::f64);
  a.requires_grad(true);
  Tensor s;
  if (k == 2 || k == 7) { // 7: one intermediate result with 2n consumers, and as operand of cat
    std::vector<Tensor> v(n);
    Tensor m = k == 2 ? +a : a + Tensor::zeros({2}, INNC::f64);
    for (ll i = 0; i < n; ++i)
      if (k == 2)
        v[i] = m + m;
      else if (i % 2)
        v[i] = m + m + m;
      else
        v[i] = m * Tensor(3.0);
    s = Tensor::cat(v, 0).sum();
  } else if (k == 8) { // n passes, each over a graph of its own
    Tensor w = Tensor::ones({1}, INNC::f64);
    w.requires_grad(true);
    for (ll i = 0; i < n; ++i)
      (w + (w + w)).backward();
    return (ll)atoll(w.grad().to_string().c_str() + 1);
  } else if (k == 6) { // one intermediate result with n + 1 consumers
    Tensor m = a * Tensor(1.0), b;
    b = m;
    for (ll i = 0; i < n; ++i)
      b = b + m;
    s = b.sum();
  } else {
    Tensor b;
    b = a;
    Tensor two = Tensor::full({2}, 2.0, INNC::f64);
    for (ll i = 0; i < n; ++i)
      if (k == 0)
        b = b + a;
      else if (k == 1)
        b = b["::-1"];
      else if (k == 3)
        b = i % 4 == 0 ? b.clone() : i % 4 == 1 ? b.reshape({2, 1}) : i % 4 == 2 ? b.reshape({2}) : -(-b);
      else if (k == 4)
        b = b + b;
      else if (k == 5) // not passed by any backward(): only released
        b = i % 2 ? b / two : b * two;
    if (k == 5)
      return 0;
    s = b.sum();
  }
  s.backward();
  return (ll)atoll(a.grad().to_string().c_str() + 1);
}

// whether randn looks like a sample of the normal distribution: every
// statistic within eight standard errors
static bool normal(INNC::types t, ll n, int k) {
  auto sample = [&]() {
    Tensor x;
    if (k == 0)
      x = Tensor::randn({(size_t)n}, t);
    else if (k == 1)
      x = Tensor::randn({2, (size_t)n / 10, 5}, t);
    else {
      Tensor y = Tensor::zeros({(size_t)n / 4, 4}, t);
      x = k == 2 ? Tensor::randn_like(y) : Tensor::randn_like(y.transpose(0, 1));
    }
    std::vector<double> r;
    std::string s = x.to_string();
    for (size_t p = 0; p < s.size(); ++p)
      if (s[p] != '[' && s[p] != ']' && s[p] != ',' && s[p] != ' ') {
        r.push_back(atof(s.c_str() + p));
        while (p < s.size() && !strchr("[], ", s[p]))
          ++p;
      }
    return r;
  };
  auto x = sample(), y = sample();
  if (x == y || x.size() != y.size() || (ll)x.size() != n)
    return false;
  x.insert(x.end(), y.begin(), y.end());
  double m = 0, v = 0, q3 = 0, q4 = 0, lag = 0, lag2 = 0, cross = 0, in1 = 0, half = 0, pos = 0, N = x.size();
  for (size_t i = 0; i < x.size(); ++i) {
    double z = x[i];
    if (!std::isfinite(z))
      return false;
    m += z, v += z * z, q3 += z * z * z, q4 += z * z * z * z;
    if (i + 1 < x.size())
      lag += z * x[i + 1];
    if (i + 2 < x.size())
      lag2 += z * x[i + 2];
    if (i < y.size())
      cross += z * y[i];
    in1 += std::fabs(z) < 1, half += std::fabs(z) < 0.67448975, pos += z > 0;
  }
  auto near = [&](double sum, double mean, double sd) { return std::fabs(sum / N - mean) <= 8 * sd / std::sqrt(N); };
  std::sort(x.begin(), x.end());
  ll distinct = std::unique(x.begin(), x.end()) - x.begin();
  return near(m, 0, 1) && near(v, 1, 1.4143) && near(q3, 0, 3.88) && near(q4, 3, 9.8) && near(lag, 0, 1) && near(lag2, 0, 1) &&
         near(cross, 0, 1) && near(in1, 0.6826895, 0.47) && near(half, 0.5, 0.5) && near(pos, 0.5, 0.5) && distinct > 0.97 * N;
}

static Outcome execute(const Cmd &c);

// Calls that can be written in two ways are written in one or the other,
// depending on their position in the history.
static unsigned turn;

static ll count_live() { return (ll)live_allocs->size(); }

static Outcome execute(const Cmd &c) {
  Outcome r;
  const std::string &o = c.o;
  auto N = [&](char k) { return c.n.at(k); };
  for (char k : {'a', 'b'})
    if (c.n.count(k) && !slot[N(k)]) {
      r.executed = false;
      return r;
    }
  if (c.seq.count('l'))
    for (auto h : c.seq.at('l'))
      if (!slot[h]) {
        r.executed = false;
        return r;
      }
  int d = c.n.count('d') ? N('d') : 0;
  auto A = [&]() -> Tensor & { return *slot[N('a')]; };
  auto B = [&]() -> Tensor & { return *slot[N('b')]; };
  ++turn;
  bool other = turn % 2;
  try {
    auto store = [&](auto fn) {
      if (slot[d]) { // d = ...
        Lib l;
        if (turn % 3 == 0) {
          Tensor t = fn();
          *slot[d] = t;
        } else
          *slot[d] = fn();
        return;
      }
      Tensor t;
      {
        Lib l;
        t = fn();
      }
      put(d, std::move(t));
    };
    if (o == "begin") {
      turn = 0;
      drop_all();
      for (int h = 1; h < NH; ++h)
        last[h].clear();
      live_allocs->clear();
    } else if (o == "lit") {
      Tensor t;
      switch (N('t')) {
      case 0:
        t = blob<std::int8_t>(c);
        break;
      case 1:
        t = blob<std::int16_t>(c);
        break;
      case 2:
        t = blob<std::int32_t>(c);
        break;
      case 3:
        t = blob<std::int64_t>(c);
        break;
      case 4:
        t = blob<float>(c);
        break;
      default:
        t = blob<double>(c);
      }
      store([&] { return std::move(t); });
    } else if (o == "init")
      store([&] { return literal(N('k')); });
    else if (o == "tree") {
      std::vector<ll> q = c.seq.at('c');
      store([&] {
        Tree t{q};
        return Tensor(t.make());
      });
    } else if (o == "ragged") {
      Lib l;
      ragged(N('k'));
    } else if (o == "scal") {
      ll vi = c.seq.at('v')[0];
      double v = real(vi, c.seq.at('f')[0]);
      store([&]() -> Tensor {
        switch (N('t')) {
        case 0:
          return Tensor((std::int8_t)vi);
        case 1:
          return Tensor((std::int16_t)vi);
        case 2:
          return Tensor((std::int32_t)vi);
        case 3:
          return Tensor((std::int64_t)vi);
        case 4:
          return Tensor((float)v);
        default:
          return Tensor((double)v);
        }
      });
    } else if (o == "zeros")
      store([&] { return (other ? INNC::zeros : Tensor::zeros)(to_size(c.seq.at('z')), (types)N('t')); });
    else if (o == "ones")
      store([&] { return (other ? INNC::ones : Tensor::ones)(to_size(c.seq.at('z')), (types)N('t')); });
    else if (o == "sized")
      store([&] { return Tensor(to_size(c.seq.at('z')), (types)N('t')); });
    else if (o == "randn")
      store([&] { return Tensor::randn(to_size(c.seq.at('z')), (types)N('t')); });
    else if (o == "zlike")
      store([&] { return (other ? INNC::zeros_like : Tensor::zeros_like)(A()); });
    else if (o == "olike")
      store([&] { return (other ? INNC::ones_like : Tensor::ones_like)(A()); });
    else if (o == "rlike")
      store([&] { return Tensor::randn_like(A()); });
    else if (o == "fulli")
      store([&] {
        auto z = to_size(c.seq.at('z'));
        auto v = (std::int64_t)c.seq.at('v')[0];
        return other ? INNC::full(z, v, (types)N('t')) : Tensor::full(z, v, (types)N('t'));
      });
    else if (o == "fulld")
      store([&] {
        auto z = to_size(c.seq.at('z'));
        double v = real(c.seq.at('v')[0], c.seq.at('f')[0]);
        return other ? INNC::full(z, v, (types)N('t')) : Tensor::full(z, v, (types)N('t'));
      });
    else if (o == "eye")
      store([&] {
        if (N('k') == 1 && N('n') == N('m'))
          return N('t') == 0 ? Tensor::eye(N('n'))
                             : Tensor::eye(N('n'), (types)N('t'));
        return Tensor::eye(extent(N('n')), extent(N('m')), (types)N('t'));
      });
    else if (o == "add")
      store([&] { return A() + B(); });
    else if (o == "sub")
      store([&] { return A() - B(); });
    else if (o == "mul")
      store([&] { return A() * B(); });
    else if (o == "div")
      store([&] { return A() / B(); });
    else if (o == "lt")
      store([&] { return A() < B(); });
    else if (o == "gt")
      store([&] { return A() > B(); });
    else if (o == "le")
      store([&] { return A() <= B(); });
    else if (o == "ge")
      store([&] { return A() >= B(); });
    else if (o == "eq")
      store([&] { return A() == B(); });
    else if (o == "ne")
      store([&] { return A() != B(); });
    else if (o == "neg")
      store([&] { return -A(); });
    else if (o == "pos")
      store([&] { return +A(); });
    else if (o == "sum")
      store([&] { return A().sum(); });
    else if (o == "mean")
      store([&] { return A().mean(); });
    else if (o == "abs")
      store([&] { return A().abs(); });
    else if (o == "max")
      store([&] { return A().max(); });
    else if (o == "min")
      store([&] { return A().min(); });
    else if (o == "clone")
      store([&] { return A().clone(); });
    else if (o == "cont")
      store([&] { return A().contiguous(); });
    else if (o == "detach")
      store([&] { return A().detach(); });
    else if (o == "type")
      store([&] { return A().type((types)N('t')); });
    else if (o == "slice") {
      std::string s = slice_text(c);
      store([&] { return A()[s]; });
    } else if (o == "badslice") {
      std::string s = from_hex(c.s);
      store([&] { return A()[s]; });
    } else if (o == "tslice") {
      std::string s;
      for (auto ch : c.seq.at('c'))
        s += (char)ch;
      store([&] { return A()[s]; });
    } else if (o == "transpose")
      store([&] {
        return N('k') ? (other ? INNC::transpose : static_cast<Tensor (*)(const Tensor &, size_t, size_t)>(Tensor::transpose))(A(), N('i'), N('j'))
                      : A().transpose(N('i'), N('j'));
      });
    else if (o == "reshape") {
      SignedVec v;
      for (auto y : c.seq.at('r'))
        v.push_back(extent(y));
      store([&] { return !N('k') ? A().reshape(v) : other ? INNC::reshape(A(), v) : Tensor::reshape(A(), v); });
    } else if (o == "reshapeas")
      store([&] { return A().reshape_as(B()); });
    else if (o == "cat") {
      std::vector<Tensor> in(c.seq.at('l').size());
      for (size_t i = 0; i < in.size(); ++i)
        in[i] = *slot[c.seq.at('l')[i]];
      store([&] {
        if (N('n') == 0 && in.size() % 2)
          return other ? INNC::cat(in) : Tensor::cat(in);
        return other ? INNC::cat(in, N('n')) : Tensor::cat(in, N('n'));
      });
    } else if (o == "iadd") {
      Lib l;
      Tensor &same = A() += B();
      if (&same != &A())
        r.ok = 5;
    } else if (o == "setrg") {
      Lib l;
      A().requires_grad(N('n') != 0);
    } else if (o == "setrt") {
      Lib l;
      A().retain_grad(N('n') != 0);
    } else if (o == "zerog") {
      Lib l;
      A().zero_grad();
    } else if (o == "back") {
      Lib l;
      A().backward();
    } else if (o == "gcopy") {
      bool none;
      {
        Lib l;
        Tensor g = A().grad();
        none = g.to_string() == "[]";
      }
      if (none)
        r.ok = 2;
      else
        store([&] { return A().grad().clone(); });
    } else if (o == "ghold") { // the gradient itself
      Tensor g;
      bool none;
      {
        Lib l;
        g = A().grad();
        none = g.to_string() == "[]";
      }
      if (none)
        r.ok = 2;
      else
        store([&] { return std::move(g); });
    } else if (o == "assign") {
      if (!slot[d])
        slot[d].reset(new Tensor());
      Lib l;
      *slot[d] = A();
    } else if (o == "drop") {
      if (!slot[d])
        r.executed = false;
      Lib l;
      slot[d].reset();
      last[d].clear();
    } else if (o == "all") {
      Lib l;
      bool b = A().all();
      in_lib--;
      r.has_ret = true;
      r.ret = b ? "1" : "0";
      in_lib++;
    } else if (o == "show") {
      std::string t;
      {
        Lib l;
        t = A().to_string();
      }
      r.has_ret = true;
      r.ret = arr(tokens(t, slot[N('a')]->type() >= INNC::f32));
    } else if (o == "soak") {
      {
        Lib l;
        one_pass();
      }
      ll n0 = count_live();
      bool right = true;
      {
        Lib l;
        for (ll i = 0; i < N('n'); ++i)
          right = one_pass() && right;
      }
      r.has_ret = true;
      r.ret = std::to_string(count_live() - n0 + (right ? 0 : 1000000));
    } else if (o == "deep") {
      {
        Lib l;
        deep(5, N('k'));
      }
      ll n0 = count_live(), g;
      {
        Lib l;
        g = deep(N('n'), N('k'));
      }
      r.has_ret = true;
      r.ret = std::to_string(count_live() == n0 ? g : -1);
    } else if (o == "randstat") {
      r.has_ret = true;
      r.ret = normal((types)N('t'), N('n'), N('k')) ? "1" : "0";
    } else if (o == "rel") { // release() of a copy: the description remains, the original too
      auto &a = A();
      bool good;
      {
        Lib l;
        Tensor c = a.clone();
        c.release();
        good = c.size() == a.size() &&
               c.type() == a.type() && c.numel() == a.numel() &&
               c.dim() == a.dim() && c.requires_grad() == a.requires_grad() &&
               c.is_contiguous();
        c.release();
        c = a.clone();
        good = good && c.to_string() == a.to_string();
      }
      r.has_ret = true;
      r.ret = good ? "1" : "0";
    } else if (o == "mem") {
      drop_all();
      ll left = count_live();
      if (left != 0 && !quiet) {
        // once more: tables that the library fills on first use do not count
        quiet = true;
        auto h = *history;
        for (auto &q : h)
          if (q.o != "mem" && q.o != "begin") {
            execute(q);
            for (int i = 1; i < NH; ++i)
              if (slot[i])
                picture(i);
          }
        drop_all();
        left = count_live() - left;
        quiet = false;
      }
      for (int h = 1; h < NH; ++h)
        last[h].clear();
      live_allocs->clear();
      r.has_ret = true;
      r.ret = std::to_string(left);
    }
  } catch (const std::exception &e) {
    r.ok = 0;
  } catch (...) {
    r.ok = 0;
  }
  in_lib = 0;
  return r;
}

static FILE *out, *cmds_out;
struct Shared {
  volatile ll pos;
  char op[32];
  char cmd[8192];
};
static Shared *shm;

// execute and record
static void perform(const Cmd &c) {
  snprintf(shm->op, sizeof shm->op, "%s", c.o.c_str());
  snprintf(shm->cmd, sizeof shm->cmd, "%s", text(c).c_str());
  if (c.o == "begin") {
    history->clear();
    alarm(60);
  }
  if (c.o == "deep")
    alarm(300);
  Outcome r = execute(c);
  if (!r.executed)
    return;
  if (c.o != "begin")
    history->push_back(c);
  std::string line = "{" + json_args(c) + ",\"ok\":" + std::to_string(r.ok);
  if (r.has_ret)
    line += ",\"ret\":" + r.ret;
  line += ",\"ch\":[";
  bool first = true;
  for (int h = 1; h < NH; ++h)
    if (slot[h]) {
      std::string p;
      try {
        p = picture(h);
      } catch (...) {
        in_lib = 0;
        p = "{\"h\":" + std::to_string(h) +
            ",\"t\":-1,\"s\":[],\"nm\":-1,\"dm\":-1,\"v\":[],\"f\":[],\"rg\":-1,\"rt\":-"
            "1,\"ct\":-1,\"sr\":[],\"g\":0}";
      }
      if (p != last[h]) {
        line += (first ? "" : ",") + p;
        first = false;
        last[h] = p;
      }
    }
  line += "]}\n";
  fputs(line.c_str(), out);
  fflush(out);
  fputs((text(c) + "\n").c_str(), cmds_out);
  fflush(cmds_out);
}

static void begin_child() {
  live_allocs = new (malloc(sizeof(PtrSet))) PtrSet();
  history = new std::vector<Cmd>();
}

#include "driver.hpp"

// histories per process: the sanitizer's record of stack frames left by
// exceptions slows a process down that has seen many
static const ll FRESH = 40;

// runs body(from) in child processes until it has dealt with everything; the
// body keeps shm->pos at the history or command it is at
static int supervise(const std::string &outname, ll total,
                     std::function<void(ll)> body,
                     std::function<ll(ll)> resume) {
  shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ll from = 0;
  int crashes = 0, hangs = 0;
  { std::ofstream(outname, std::ios::trunc); }
  { std::ofstream(outname + ".cmds", std::ios::trunc); }
  while (from < total && crashes < 40 && hangs < 2) {
    shm->pos = from;
    pid_t pid = fork();
    if (pid == 0) {
      out = fopen(outname.c_str(), "a");
      cmds_out = fopen((outname + ".cmds").c_str(), "a");
      freopen((outname + ".err").c_str(), "a", stderr);
      begin_child();
      body(from);
      fclose(out);
      fclose(cmds_out);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
      return 3;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { // goes on in a new child
      from = shm->pos;
      continue;
    }
    ++crashes;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
      ++hangs;
    // a line cut short is completed as the crash
    std::ifstream in(outname);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    in.close();
    auto cut = all.rfind('\n');
    if (cut == std::string::npos)
      cut = 0;
    else
      ++cut;
    truncate(outname.c_str(), cut);
    FILE *f = fopen(outname.c_str(), "a");
    fprintf(f, "{\"o\":\"crash\",\"c\":\"%s\",\"ok\":0,\"ch\":[]}\n", shm->op);
    fclose(f);
    // keep the two files aligned
    std::ifstream ci(outname + ".cmds");
    std::string ctext((std::istreambuf_iterator<char>(ci)), {});
    ci.close();
    size_t nl = 0, cl = 0;
    for (char ch : all.substr(0, cut))
      nl += ch == '\n';
    for (char ch : ctext)
      cl += ch == '\n';
    f = fopen((outname + ".cmds").c_str(), "a");
    for (; cl < nl; ++cl)
      fputs("?\n", f);
    fprintf(f, "%s\n", (const char *)shm->cmd);
    fclose(f);
    from = resume(shm->pos);
  }
  FILE *f = fopen(outname.c_str(), "a");
  fputs("{\"o\":\"end\",\"ok\":1,\"ch\":[]}\n", f);
  fclose(f);
  f = fopen((outname + ".cmds").c_str(), "a");
  fputs("end\n", f);
  fclose(f);
  return 0;
}

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "wrun" || mode == "wrand") {
    wide = true;
    mode = mode.substr(1);
  }
  if (mode == "run" && argc == 4) {
    std::ifstream in(argv[2]);
    std::vector<std::string> lines;
    for (std::string s; std::getline(in, s);)
      if (!s.empty() && s[0] != '#' && s != "end")
        lines.push_back(s);
    return supervise(
        argv[3], lines.size(),
        [&](ll from) {
          ll count = 0;
          for (ll i = from; i < (ll)lines.size(); ++i) {
            shm->pos = i;
            if (lines[i] == "begin" && ++count > FRESH)
              _exit(4);
            perform(parse(lines[i]));
          }
        },
        [&](ll p) {
          for (++p; p < (ll)lines.size(); ++p)
            if (lines[p] == "begin")
              break;
          return p;
        });
  }
  if (mode == "rand" && argc == 6) {
    std::string profile = argv[2];
    ll seed = atoll(argv[3]), n = atoll(argv[4]);
    return supervise(
        argv[5], n,
        [&](ll from) {
          for (ll i = from; i < n; ++i) {
            shm->pos = i;
            if (i >= from + FRESH)
              _exit(4);
            random_history(profile, seed, i);
          }
        },
        [&](ll p) { return p + 1; });
  }
  std::cerr << "usage: exec run CMDS OUT | exec rand PROFILE SEED N OUT\n";
  return 2;
}
