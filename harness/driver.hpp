// Random histories. A profile says which calls are made how often, on tensors
// of which shapes and types; the model decides what they have to do.
#pragma once

struct Profile {
  std::vector<std::pair<std::string, int>> ops; // weights
  std::vector<int> dts{4, 5};                   // types of new tensors
  int cap = 30;                                 // elements per tensor
  int maxdim = 3, maxext = 4;
  int steps = 16;
  int pbad = 6;    // percent of deliberately wrong calls
  int pempty = 3;  // percent of extents that are 0
  int pleaf = 60;  // percent of new float tensors that require grad
  bool big = false; // large integers
  int pspec = 0;    // percent of floats that are infinite or NaN
  int plarge = 20;  // percent of integers that are large
  bool wide = false; // integers up to the extremes of their types
};

static std::map<std::string, Profile> profiles() {
  std::map<std::string, Profile> m;
  {
    Profile p;
    p.ops = {{"new", 4},   {"add", 8},       {"sub", 7},  {"mul", 12}, {"div", 6},
             {"neg", 3},   {"sum", 5},       {"mean", 5}, {"abs", 4},  {"max", 3},
             {"min", 3},   {"clone", 2},     {"cont", 2}, {"detach", 2},
             {"type", 3},  {"slice", 9},     {"transpose", 6}, {"reshape", 6},
             {"reshapeas", 1}, {"cat", 6},   {"setrg", 3}, {"setrt", 5},
             {"zerog", 2}, {"backward", 14}, {"gcopy", 2}, {"ghold", 2}, {"assign", 2},
             {"drop", 3},  {"lt", 1}};
    p.steps = 20;
    p.dts = {4, 4, 4, 4, 5, 5, 5, 5, 0, 1, 2, 3};
    p.plarge = 3;
    m["graph"] = p;
    p.cap = 12;
    p.maxdim = 2;
    p.maxext = 3;
    p.pbad = 1;
    p.pempty = 1;
    p.steps = 26;
    m["dag"] = p;
    p = m["graph"];
    p.cap = 400;
    p.maxdim = 6;
    p.maxext = 9;
    p.steps = 10;
    m["large"] = p;
  }
  {
    Profile p;
    p.ops = {{"new", 5},    {"slice", 16}, {"transpose", 9}, {"reshape", 9},
             {"reshapeas", 2}, {"iadd", 14}, {"clone", 4},   {"cont", 4},
             {"detach", 5}, {"type", 3},   {"assign", 3},    {"drop", 3},
             {"show", 3},   {"add", 2},    {"all", 1},       {"pos", 2},
             {"cat", 3},    {"sum", 1},    {"setrg", 1}};
    p.dts = {0, 1, 2, 3, 4, 5};
    p.pleaf = 10;
    m["view"] = p;
    p.maxdim = 5;
    p.maxext = 3;
    p.cap = 60;
    m["view5"] = p;
  }
  {
    Profile p;
    p.ops = {{"new", 10}, {"add", 8}, {"sub", 8}, {"mul", 8}, {"div", 8},
             {"lt", 3},   {"gt", 3},  {"le", 3},  {"ge", 3},  {"eq", 3},
             {"ne", 3},   {"neg", 3}, {"sum", 3}, {"mean", 3}, {"abs", 3},
             {"max", 3},  {"min", 3}, {"type", 6}, {"slice", 5}, {"transpose", 4},
             {"iadd", 4}, {"cat", 5}, {"all", 4}, {"clone", 1}, {"drop", 2},
             {"reshape", 2}, {"show", 1}};
    p.dts = {0, 1, 2, 3, 4, 5};
    p.pleaf = 15;
    p.pspec = 3;
    m["arith"] = p;
    p.pspec = 0;
    p.big = true;
    m["arithbig"] = p;
    p.big = false;
    p.wide = true;
    p.dts = {0, 1, 2, 2, 3, 3, 3, 4, 5};
    p.cap = 8;
    p.maxdim = 2;
    p.maxext = 3;
    p.pleaf = 0;
    p.ops.push_back({"ctor", 6});
    p.ops.push_back({"detach", 1});
    p.ops.push_back({"cont", 1});
    m["wide"] = p;
  }
  {
    Profile p;
    p.ops = {{"new", 6}, {"train", 30}, {"drop", 2}, {"setrt", 2}, {"gcopy", 3}, {"ghold", 2}, {"slice", 2}, {"transpose", 2}};
    p.steps = 5;
    p.pbad = 0;
    p.cap = 12;
    p.pempty = 0;
    p.pleaf = 90;
    m["train"] = p;
  }
  {
    Profile p;
    p.ops = {{"new", 6},  {"add", 6},   {"mul", 8},      {"sum", 4},  {"mean", 2},
             {"slice", 8}, {"transpose", 5}, {"reshape", 6}, {"cat", 5}, {"clone", 3},
             {"detach", 4}, {"div", 3}, {"max", 2}, {"abs", 2}, {"type", 2}, {"pos", 1},
             {"drop", 22}, {"assign", 8}, {"backward", 9}, {"setrt", 3},
             {"iadd", 4}, {"gcopy", 3}, {"zerog", 1}, {"soak", 2}, {"ghold", 5}};
    p.steps = 24;
    m["life"] = p;
  }
  {
    Profile p;
    p.ops = {{"new", 4},  {"add", 5}, {"sub", 3}, {"mul", 4}, {"div", 6}, {"lt", 2},
             {"eq", 2},   {"slice", 10}, {"badslice", 8}, {"transpose", 8},
             {"reshape", 10}, {"reshapeas", 4}, {"cat", 10}, {"iadd", 10},
             {"setrg", 8}, {"type", 8}, {"back", 8}, {"randn", 3}, {"ragged", 2},
             {"sum", 4}, {"rlike", 3}};
    p.dts = {0, 1, 2, 3, 4, 5};
    p.pbad = 55;
    p.pempty = 8;
    p.steps = 20;
    m["err"] = p;
  }
  {
    Profile p;
    p.ops = {{"ctor", 40}, {"show", 6}, {"slice", 4}, {"transpose", 4}, {"reshape", 4}, {"iadd", 4}, {"setrg", 2}, {"sum", 2}};
    p.dts = {0, 1, 2, 3, 4, 5};
    p.steps = 14;
    m["ctor"] = p;
  }
  {
    Profile p;
    p.ops = {{"new", 5}, {"sum", 8}, {"mean", 8}, {"abs", 8}, {"max", 10}, {"min", 10},
             {"slice", 8}, {"transpose", 6}, {"reshape", 3}, {"backward", 8}, {"mul", 4}, {"neg", 3}, {"cat", 8}, {"type", 3}, {"all", 3}, {"drop", 3}};
    p.dts = {0, 1, 2, 3, 4, 4, 5, 5};
    p.cap = 60;
    p.maxdim = 4;
    m["reduce"] = p;
  }
  return m;
}

struct Driver {
  Profile p;
  std::mt19937_64 g;
  bool op_result[NH] = {};

  ll rnd(ll lo, ll hi) { return lo + (ll)(g() % (unsigned long long)(hi - lo + 1)); }
  bool pct(int n) { return rnd(1, 100) <= n; }
  bool bad() { return pct(p.pbad); }

  static ll numel(const SizeVec &z) {
    ll n = 1;
    for (auto i : z)
      n *= i;
    return n;
  }
  SizeVec size(int h) { return slot[h]->size(); }
  std::vector<int> handles(std::function<bool(int)> f = nullptr) {
    std::vector<int> r;
    for (int h = 1; h < NH; ++h)
      if (slot[h] && (!f || f(h)))
        r.push_back(h);
    return r;
  }
  int pick(const std::vector<int> &v) { return v[rnd(0, v.size() - 1)]; }
  int dest() {
    if (pct(80)) {
      std::vector<int> e;
      for (int h = 1; h < 14; ++h)
        if (!slot[h])
          e.push_back(h);
      if (!e.empty())
        return pick(e);
    }
    return rnd(1, 13);
  }
  bool is_float(int h) { return slot[h]->type() >= 4; }

  std::vector<ll> shape() {
    std::vector<ll> z;
    int nd = rnd(0, 9) == 0 ? 0 : rnd(1, p.maxdim);
    ll n = 1;
    for (int i = 0; i < nd; ++i) {
      ll e = pct(p.pempty) ? 0 : pct(15) ? 1 : rnd(1, p.maxext);
      if (n * e > p.cap)
        e = 1;
      n *= e;
      z.push_back(e);
    }
    return z;
  }
  // 2^k and its neighbours, the extremes, numbers of any length
  ll wide_value(int t) {
    static const int bits[] = {7, 15, 31, 63, 53, 62};
    int n = bits[t];
    unsigned long long top = 1ULL << n;
    ll x;
    int k = rnd(0, 9);
    if (k <= 2)
      x = rnd(-9, 9);
    else if (k <= 4)
      x = (ll)((1ULL << rnd(0, n - 1)) + (unsigned long long)rnd(-2, 2));
    else if (k == 5)
      x = (ll)(top - 1 - (unsigned long long)rnd(0, 2));
    else if (k == 6)
      return t < 4 ? (ll)(0 - top + (unsigned long long)rnd(0, 1)) : -(ll)(1ULL << rnd(0, n - 1));
    else
      x = (ll)(g() >> rnd(64 - n, 63));
    return pct(50) ? x : (ll)(0 - (unsigned long long)x);
  }
  void value(int t, std::vector<ll> &v, std::vector<ll> &f) {
    if (p.wide) {
      v.push_back(wide_value(t));
      f.push_back(0);
      return;
    }
    ll i = rnd(-4, 4), m = 0;
    if (t >= 4 && p.pspec && pct(p.pspec)) {
      v.push_back(rnd(-1, 1));
      f.push_back(-1);
      return;
    }
    if (t >= 4) {
      if (pct(50))
        m = rnd(0, 3) * 250000;
      if (p.big && pct(20))
        i = rnd(-3000000, 3000000);
    } else if (pct(p.big ? 60 : p.plarge)) {
      static const ll lim[] = {127, 32767, 1000000, 1000000};
      ll a = lim[t];
      i = pct(30) ? (pct(50) ? a : t < 2 ? -a - 1 : -a) : rnd(-a, a);
      if (p.big && t >= 2 && pct(25))
        i = pct(50) ? 16777217 : -16777219;
    }
    v.push_back(i);
    f.push_back(m);
  }
  Cmd c(const std::string &o) {
    Cmd q;
    q.o = o;
    return q;
  }
  void literal_tensor(int d, int t, const std::vector<ll> &z, bool grad) {
    Cmd q = c("lit");
    q.n['d'] = d;
    q.n['t'] = t;
    q.seq['z'] = z;
    ll n = 1;
    for (auto e : z)
      n *= e;
    q.seq['v'];
    q.seq['f'];
    for (ll i = 0; i < n; ++i)
      value(t, q.seq['v'], q.seq['f']);
    perform(q);
    op_result[d] = false;
    if (grad && t >= 4)
      simple("setrg", d, 1);
  }
  void simple(const std::string &o, int a, ll n = 0) {
    Cmd q = c(o);
    q.n['a'] = a;
    q.n['n'] = n;
    perform(q);
  }
  void unary(const std::string &o, int d, int a) {
    Cmd q = c(o);
    q.n['d'] = d;
    q.n['a'] = a;
    perform(q);
    op_result[d] = true;
  }
  void binary(const std::string &o, int d, int a, int b) {
    Cmd q = c(o);
    q.n['d'] = d;
    q.n['a'] = a;
    q.n['b'] = b;
    perform(q);
    op_result[d] = true;
  }
  // shape of the broadcast, empty optional if there is none
  bool bshape(const SizeVec &u, const SizeVec &v, ll &n) {
    n = 1;
    size_t m = std::max(u.size(), v.size());
    for (size_t i = 1; i <= m; ++i) {
      size_t a = i <= u.size() ? u[u.size() - i] : 1,
             b = i <= v.size() ? v[v.size() - i] : 1;
      if (a != b && std::min(a, b) != 1 && i <= u.size() && i <= v.size())
        return false;
      n *= (i <= u.size() && i <= v.size()) ? std::max(a, b) : a * b;
    }
    return true;
  }
  bool pair(int &a, int &b, bool bad_) {
    auto hs = handles();
    if (hs.empty())
      return false;
    for (int i = 0; i < 20; ++i) {
      a = pick(hs);
      b = pick(hs);
      ll n;
      bool ok = bshape(size(a), size(b), n);
      if (ok != bad_ && (!ok || n <= p.cap))
        return true;
    }
    return false;
  }
  void slice(int d, int a) {
    auto z = size(a);
    Cmd q = c("slice");
    q.n['d'] = d;
    q.n['a'] = a;
    q.n['k'] = rnd(0, 5);
    int nf = z.empty() ? 1 : rnd(1, z.size());
    bool wrong = bad();
    if (z.empty() && !wrong)
      return;
    if (wrong && pct(25))
      nf = z.size() + 1;
    for (int i = 0; i < nf; ++i) {
      ll n = i < (int)z.size() ? z[i] : 2;
      if (pct(30) && (n > 0 || wrong)) {
        ll x = wrong && pct(60) ? (pct(50) ? n + rnd(0, 2) : -n - rnd(1, 3))
                                : rnd(-n, n - 1 < -n ? -n : n - 1);
        q.x.push_back({0, x});
      } else {
        ll s = pct(50) ? 1 : rnd(-3, 3);
        if (s == 0 && !wrong)
          s = -1;
        auto bound = [&]() -> ll {
          if (pct(4)) {
            static const ll far[] = {1000000007, -1000000007, 1000000009, -1000000009, 300, -300, 70000, -70000};
            return far[rnd(0, 7)];
          }
          return rnd(-n - 2, n + 2);
        };
        if (pct(3))
          s = pct(50) ? 1000000007 : -1000000007;
        ll hb = pct(65), b = bound(), he = pct(65), e = bound();
        q.x.push_back({1, hb, b, he, e, s != 1 || pct(20), s});
      }
    }
    if (q.x.empty())
      return;
    bool far = false;
    for (auto &f : q.x)
      for (auto y : f)
        far = far || y > 1000000 || y < -1000000;
    if (!far && pct(p.pbad > 50 ? 50 : 15)) { // the text itself, with a mistake or not
      std::string t = slice_text(q);
      for (int i = pct(p.pbad) ? rnd(1, 2) : 0; i > 0; --i) {
        static const char ch[] = "0129-+:, ;x.";
        size_t at = rnd(0, t.size());
        if (at < t.size() && pct(40))
          t.erase(at, 1);
        else if (at < t.size() && pct(40))
          t[at] = ch[rnd(0, 11)];
        else
          t.insert(at, 1, ch[rnd(0, 11)]);
      }
      Cmd w = c("tslice");
      w.n['d'] = d;
      w.n['a'] = a;
      w.seq['c'];
      for (unsigned char y : t)
        w.seq['c'].push_back(y);
      // a part of nothing but spaces is left open
      bool blank = false, ink = false, any = false;
      for (char y : t + ",") {
        if (y == ',') {
          blank = blank || (any && !ink);
          ink = any = false;
        } else {
          any = true;
          ink = ink || (y != ' ' && y != '\t');
        }
      }
      if (blank || t.size() > 60)
        return;
      perform(w);
      op_result[d] = true;
      return;
    }
    perform(q);
    op_result[d] = true;
  }
  void reshape(int d, int a) {
    auto z = size(a);
    ll n = numel(z);
    Cmd q = c("reshape");
    q.n['d'] = d;
    q.n['a'] = a;
    q.n['k'] = rnd(0, 1);
    auto &r = q.seq['r'];
    if (bad()) {
      int k = rnd(0, 4);
      if (k == 0)
        r = {n + 1};
      else if (k == 1)
        r = {-1, -1};
      else if (k == 2)
        r = {-1, n + 1};
      else if (k == 3)
        r = {-2, -n};
      else
        r = {n, 2};
    } else {
      ll m = n;
      while (m > 1 && pct(75)) {
        std::vector<ll> dv;
        for (ll x = 2; x <= m; ++x)
          if (m % x == 0)
            dv.push_back(x);
        ll x = dv[rnd(0, dv.size() - 1)];
        r.push_back(x);
        m /= x;
      }
      if (m != 1 || n == 0 || pct(20))
        r.push_back(m);
      if (!r.empty() && pct(35) && n > 0)
        r[rnd(0, r.size() - 1)] = -1;
    }
    perform(q);
    op_result[d] = true;
  }
  void cat(int d) {
    auto hs = handles();
    if (hs.empty())
      return;
    Cmd q = c("cat");
    q.n['d'] = d;
    auto &l = q.seq['l'];
    if (bad()) {
      int k = rnd(0, 3);
      for (int i = 0; i < k; ++i)
        l.push_back(pick(hs));
      q.n['n'] = rnd(0, 3);
    } else {
      int a = pick(hs);
      auto z = size(a);
      if (z.empty())
        return;
      int dim = rnd(0, z.size() - 1);
      q.n['n'] = dim;
      auto ok = handles([&](int h) {
        auto y = size(h);
        if (y.size() != z.size())
          return false;
        for (size_t i = 0; i < y.size(); ++i)
          if ((int)i != dim && y[i] != z[i])
            return false;
        return true;
      });
      int k = rnd(1, 4);
      ll n = 0;
      for (int i = 0; i < k; ++i) {
        int h = i == 0 ? a : pick(ok);
        n += numel(size(h));
        if (n > p.cap && i > 0)
          break;
        l.push_back(h);
      }
    }
    perform(q);
    op_result[d] = true;
  }
  void forget_results() {
    for (int h = 1; h < NH; ++h)
      if (slot[h] && op_result[h] && slot[h]->requires_grad() && pct(85)) {
        Cmd q = c("drop");
        q.n['d'] = h;
        perform(q);
      }
  }
  void backward() {
    auto rg = handles([&](int h) { return slot[h]->requires_grad() && numel(size(h)) > 0; });
    if (rg.empty())
      return;
    auto roots = handles([&](int h) {
      return slot[h]->requires_grad() && op_result[h] && numel(size(h)) == 1;
    });
    int r;
    if (!roots.empty() && pct(60))
      r = pick(roots);
    else {
      auto res = handles([&](int h) { return slot[h]->requires_grad() && op_result[h]; });
      int a = !res.empty() && pct(85) ? pick(res) : pick(rg);
      if (pct(50)) {
        // a cotangent that is not all ones
        std::vector<ll> z;
        for (auto e : size(a))
          z.push_back(e);
        literal_tensor(14, 5, z, false);
        binary("mul", 15, a, 14);
        a = 15;
      }
      unary(pct(75) ? "sum" : "mean", 16, a);
      r = 16;
    }
    if (!slot[r])
      return;
    simple("back", r);
    if (pct(80))
      forget_results();
    if (pct(25) && slot[14]) {
      Cmd q = c("drop");
      for (int h : {14, 15, 16})
        if (slot[h]) {
          q.n['d'] = h;
          perform(q);
        }
    }
  }
  // one step of gradient descent on the leaves
  void train() {
    auto leaves = handles([&](int h) {
      return slot[h]->requires_grad() && !op_result[h] && numel(size(h)) > 0;
    });
    if (leaves.empty()) {
      literal_tensor(dest(), 4 + rnd(0, 1), shape(), true);
      return;
    }
    int a = pick(leaves), b = pick(leaves);
    ll n;
    if (!bshape(size(a), size(b), n) || n > p.cap)
      b = a;
    binary(pct(70) ? "mul" : "add", 14, a, b);
    if (slot[14] && pct(60))
      binary("mul", 14, 14, a);
    if (!slot[14])
      return;
    unary(pct(50) ? "mean" : "sum", 15, 14);
    if (!slot[15])
      return;
    simple("back", 15);
    for (int h : leaves)
      if (slot[h] && pct(80)) {
        Cmd q = c("gcopy");
        q.n['d'] = 16;
        q.n['a'] = h;
        perform(q);
        if (!slot[16])
          continue;
        Cmd s = c("scal");
        s.n['d'] = 13;
        s.n['t'] = 5;
        s.seq['v'] = {-1};
        s.seq['f'] = {750000}; // -0.25
        perform(s);
        binary("mul", 16, 16, 13);
        unary("detach", 12, h);
        Cmd i = c("iadd");
        i.n['a'] = 12;
        i.n['b'] = 16;
        perform(i);
        Cmd dr = c("drop");
        for (int x : {12, 13, 16}) {
          dr.n['d'] = x;
          perform(dr);
        }
        if (pct(60))
          simple("zerog", h);
      }
  }
  void ctor(int d) {
    int k = rnd(0, 10);
    int t = p.dts[rnd(0, p.dts.size() - 1)];
    auto hs = handles();
    if (k <= 2) {
      Cmd q = c(k == 0 ? "zeros" : k == 1 ? "ones" : "sized");
      q.n['d'] = d;
      q.n['t'] = t;
      q.seq['z'] = shape();
      perform(q);
    } else if (k == 3 || k == 4) {
      Cmd q = c(k == 3 ? "fulli" : "fulld");
      q.n['d'] = d;
      q.n['t'] = t;
      q.seq['z'] = shape();
      q.seq['v'];
      q.seq['f'];
      value(k == 3 ? (int)rnd(0, 3) : 5, q.seq['v'], q.seq['f']);
      perform(q);
    } else if (k == 5) {
      Cmd q = c("eye");
      q.n['d'] = d;
      q.n['t'] = t;
      q.n['n'] = rnd(0, 4);
      q.n['m'] = pct(40) ? q.n['n'] : rnd(0, 4);
      q.n['k'] = rnd(0, 1);
      perform(q);
    } else if (k == 6) {
      Cmd q = c("scal");
      q.n['d'] = d;
      q.n['t'] = t;
      q.seq['v'];
      q.seq['f'];
      value(t, q.seq['v'], q.seq['f']);
      perform(q);
    } else if (k == 7) {
      Cmd q = c("randn");
      q.n['d'] = d;
      q.n['t'] = bad() ? rnd(0, 3) : rnd(4, 5);
      q.seq['z'] = shape();
      perform(q);
    } else if (k == 8 && !hs.empty()) {
      unary(pct(40) ? "zlike" : pct(50) ? "olike" : "rlike", d, pick(hs));
      op_result[d] = false;
    } else
      literal_tensor(d, t, shape(), false);
    op_result[d] = false;
  }
  void step(const std::string &o) {
    auto hs = handles();
    int d = dest();
    if (o == "new" || hs.empty())
      literal_tensor(d, p.dts[rnd(0, p.dts.size() - 1)], shape(), pct(p.pleaf));
    else if (o == "ctor")
      ctor(d);
    else if (o == "train")
      train();
    else if (o == "backward")
      backward();
    else if (o == "slice")
      slice(d, pick(hs));
    else if (o == "reshape")
      reshape(d, pick(hs));
    else if (o == "cat")
      cat(d);
    else if (o == "iadd") {
      int a, b;
      if (!pair(a, b, bad()))
        return;
      if (slot[a]->requires_grad() && !bad())
        return;
      ll n;
      if (bshape(size(a), size(b), n) && n != numel(size(a)) && pct(90))
        std::swap(a, b);
      Cmd q = c("iadd");
      q.n['a'] = a;
      q.n['b'] = b;
      if (slot[a]->requires_grad() && !bad())
        return;
      perform(q);
    } else if (o == "transpose") {
      int a = pick(hs);
      int nd = size(a).size();
      Cmd q = c("transpose");
      q.n['d'] = d;
      q.n['a'] = a;
      q.n['k'] = rnd(0, 1);
      if (bad()) {
        q.n['i'] = rnd(0, nd + 1);
        q.n['j'] = pct(50) ? q.n['i'] : rnd(0, nd + 1);
      } else {
        if (nd < 2)
          return;
        q.n['i'] = rnd(0, nd - 1);
        do
          q.n['j'] = rnd(0, nd - 1);
        while (q.n['i'] == q.n['j']);
      }
      perform(q);
      op_result[d] = true;
    } else if (o == "type") {
      int a = pick(hs);
      Cmd q = c("type");
      q.n['d'] = d;
      q.n['a'] = a;
      q.n['t'] = slot[a]->requires_grad() && !bad() ? rnd(4, 5) : rnd(0, 5);
      bool same = q.n['t'] == (ll)slot[a]->type();
      perform(q);
      op_result[d] = same ? op_result[a] : true;
    } else if (o == "setrg") {
      int a = pick(hs);
      ll n = pct(65);
      if (n && !is_float(a) && !bad())
        return;
      simple("setrg", a, n);
    } else if (o == "setrt")
      simple("setrt", pick(hs), pct(70));
    else if (o == "zerog" || o == "all" || o == "show" || o == "back")
      simple(o, pick(hs));
    else if (o == "gcopy" || o == "ghold" || o == "assign" || o == "pos") {
      int a = pick(hs);
      unary(o, d, a);
      op_result[d] = o == "gcopy" || o == "ghold" ? false : op_result[a];
    } else if (o == "drop") {
      Cmd q = c("drop");
      q.n['d'] = pick(hs);
      perform(q);
    } else if (o == "soak") {
      Cmd q = c("soak");
      q.n['n'] = rnd(1, 40);
      perform(q);
    } else if (o == "reshapeas") {
      int a = pick(hs);
      auto same = handles([&](int h) { return (numel(size(h)) == numel(size(a))) != (p.pbad > 50); });
      if (!same.empty())
        binary(o, d, a, pick(same));
    } else if (o == "badslice") {
      static const char *t[] = {"1:2:3:4", "a",  "1x", "2 3", "::0", ":,:,:,:,:,:,:,:", "1:2x",
                                "1:b:1",   "1.5", ":a", "x:",  "::y", "1;2", "1e0", "1 2:", "+", "-", " "};
      int a = pick(hs);
      auto z = size(a);
      if (z.empty() || numel(z) == 0)
        return;
      Cmd q = c("badslice");
      q.n['d'] = d;
      q.n['a'] = a;
      q.s = to_hex(t[rnd(0, 17)]);
      perform(q);
    } else if (o == "ragged") {
      Cmd q = c("ragged");
      q.n['k'] = rnd(0, 3);
      perform(q);
    } else if (o == "randn") {
      Cmd q = c("randn");
      q.n['d'] = d;
      q.n['t'] = rnd(0, 5);
      q.seq['z'] = shape();
      perform(q);
      op_result[d] = false;
    } else if (o == "rlike") {
      unary(o, d, pick(hs));
      op_result[d] = false;
    } else if (SIG.at(o) == "dab") {
      int a, b;
      if (pair(a, b, bad()))
        binary(o, d, a, b);
    } else if (SIG.at(o) == "da")
      unary(o, d, pick(hs));
  }
  void history_() {
    perform(c("begin"));
    int n = rnd(1, 3);
    for (int i = 0; i < n; ++i)
      if (p.ops[0].first == "ctor")
        ctor(dest());
      else
        literal_tensor(dest(), p.dts[rnd(0, p.dts.size() - 1)], shape(), pct(p.pleaf));
    int total = 0;
    for (auto &w : p.ops)
      total += w.second;
    for (int i = 0; i < p.steps; ++i) {
      int x = rnd(0, total - 1);
      for (auto &w : p.ops) {
        x -= w.second;
        if (x < 0) {
          step(w.first);
          break;
        }
      }
    }
    if (pct(50))
      perform(c("mem"));
  }
};

static void random_history(const std::string &profile, ll seed, ll i) {
  static auto m = profiles();
  auto it = m.find(profile);
  if (it == m.end()) {
    std::cerr << "unknown profile " << profile << "\n";
    _exit(3);
  }
  Driver d;
  d.p = it->second;
  std::seed_seq sq{(unsigned)seed, (unsigned)std::hash<std::string>()(profile), (unsigned)i};
  d.g.seed(sq);
  d.history_();
}
