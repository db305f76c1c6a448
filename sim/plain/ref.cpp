#include "plain/ref.hpp"

#include <algorithm>
#include <array>
#include <bit>
#include <cstdlib>
#include <functional>
#include <set>

namespace ref {
namespace {
constexpr std::uint64_t P = 2147483647ull;
std::uint64_t addm(std::uint64_t a, std::uint64_t b) { a += b; return a >= P ? a - P : a; }
std::uint64_t subm(std::uint64_t a, std::uint64_t b) { return a >= b ? a - b : a + P - b; }
std::uint64_t mulm(std::uint64_t a, std::uint64_t b) { return a * b % P; }
std::uint64_t powm(std::uint64_t a, std::uint64_t e) {
  std::uint64_t r = 1;
  for (; e; e >>= 1, a = mulm(a, a))
    if (e & 1) r = mulm(r, a);
  return r;
}
std::uint64_t decimal(const std::string& s) {
  std::uint64_t r = 0;
  bool neg = false;
  for (char c : s) {
    if (c == '-') neg = true;
    else if (c >= '0' && c <= '9') r = (r * 10 + (c - '0')) % P;
  }
  return neg && r ? P - r : r;
}
bool zero(const F2& a) { return a.re == 0 && a.im == 0; }
}  // namespace

F2 operator+(F2 a, F2 b) { return {addm(a.re, b.re), addm(a.im, b.im)}; }
F2 operator-(F2 a, F2 b) { return {subm(a.re, b.re), subm(a.im, b.im)}; }
F2 operator*(F2 a, F2 b) {
  return {subm(mulm(a.re, b.re), mulm(a.im, b.im)), addm(mulm(a.re, b.im), mulm(a.im, b.re))};
}
F2 conj(F2 a) { return {a.re, subm(0, a.im)}; }
F2 inv(F2 a) {
  const auto d = powm(addm(mulm(a.re, a.re), mulm(a.im, a.im)), P - 2);
  return {mulm(a.re, d), mulm(subm(0, a.im), d)};
}
F2 num(long n) { return {static_cast<std::uint64_t>(((n % static_cast<long>(P)) + static_cast<long>(P)) % static_cast<long>(P)), 0}; }
F2 frac(const std::string& n, const std::string& d) { return {mulm(decimal(n), powm(decimal(d), P - 2)), 0}; }
bool sqrt_int(unsigned long n, F2& r) {
  r = num(1);
  for (unsigned long q = 2; n > 1; ++q) {
    int k = 0;
    while (n % q == 0) n /= q, ++k;
    for (int j = 0; j < k / 2; ++j) r = r * num(static_cast<long>(q));
    if (k & 1) {
      const auto x = powm(q, (P + 1) / 4);
      if (mulm(x, x) != q % P) return false;
      r = r * F2{x, 0};
    }
  }
  return true;
}
std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  std::uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
std::uint64_t hash(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h, s.size());
}
F2 random_value(std::uint64_t h) { return {mix(h, 1) % P, mix(h, 2) % P}; }

namespace {
// concrete slot: orbital and the orbitals of its proto indices
using Slot = std::uint64_t;  // 0 = empty
std::uint64_t fold(std::uint64_t h, const std::vector<Slot>& v) {
  h = mix(h, v.size());
  for (auto s : v) h = mix(h, s);
  return h;
}
int sort_sign(std::vector<Slot>& v) {
  int sign = 1;
  for (std::size_t i = 1; i < v.size(); ++i)
    for (std::size_t j = i; j && v[j] < v[j - 1]; --j) std::swap(v[j], v[j - 1]), sign = -sign;
  for (std::size_t i = 1; i < v.size(); ++i)
    if (v[i] == v[i - 1]) return 0;
  return sign;
}
F2 element(const Fac& f, std::vector<Slot> bra, std::vector<Slot> ket, const std::vector<Slot>& aux, std::uint64_t seed) {
  bool cj = false;
  if (f.adj) std::swap(bra, ket), cj = true;
  int sign = 1;
  if (f.symm == NONSYMM) {
    if (f.colsymm) {
      const auto n = std::max(bra.size(), ket.size());
      std::vector<std::pair<Slot, Slot>> c(n, {0, 0});
      for (std::size_t i = 0; i < bra.size(); ++i) c[i].first = bra[i];
      for (std::size_t i = 0; i < ket.size(); ++i) c[i].second = ket[i];
      std::sort(c.begin(), c.end());
      bra.assign(n, 0), ket.assign(n, 0);
      for (std::size_t i = 0; i < n; ++i) bra[i] = c[i].first, ket[i] = c[i].second;
    }
  } else {
    const int s1 = sort_sign(bra), s2 = sort_sign(ket);
    if (f.symm == ANTISYMM) {
      sign = s1 * s2;
      if (!sign) return {};
    }
  }
  bool real = false;
  if (f.bk != BK_NONSYMM) {
    auto sbra = ket, sket = bra;
    if (f.symm == NONSYMM && f.colsymm) {
      std::vector<std::pair<Slot, Slot>> c(sbra.size());
      for (std::size_t i = 0; i < c.size(); ++i) c[i] = {sbra[i], sket[i]};
      std::sort(c.begin(), c.end());
      for (std::size_t i = 0; i < c.size(); ++i) sbra[i] = c[i].first, sket[i] = c[i].second;
    }
    const auto a = std::make_pair(bra, ket), b = std::make_pair(sbra, sket);
    if (b < a) {
      bra = sbra, ket = sket;
      if (f.bk == BK_CONJ) cj = !cj;
    } else if (a == b && f.bk == BK_CONJ)
      real = true;
  }
  std::uint64_t h = mix(seed, f.label);
  h = mix(h, f.symm * 9 + f.bk * 3 + f.colsymm);
  h = fold(h, bra), h = fold(h, ket), h = fold(h, aux);
  F2 v = random_value(h);
  if (real) v.im = 0;
  if (cj) v = conj(v);
  if (sign < 0) v = F2{} - v;
  return v;
}
using State = std::vector<unsigned char>;
// strings of elementary operators acting on occupation-number states; false if
// the result vanishes
bool apply_fermi(const std::vector<std::pair<int, bool>>& ops, State& s, int& sign) {
  for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
    const auto [o, cre] = *it;
    if ((s[o] != 0) == cre) return false;
    int n = 0;
    for (int k = 0; k < o; ++k) n += s[k];
    if (n & 1) sign = -sign;
    s[o] = cre;
  }
  return true;
}
bool apply_bose(const std::vector<std::pair<int, bool>>& ops, State& s, F2& c) {
  for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
    const auto [o, cre] = *it;
    if (cre)
      ++s[o];
    else {
      if (!s[o]) return false;
      c = c * num(s[o]);
      --s[o];
    }
  }
  return true;
}
}  // namespace

namespace {
// walks all assignments of a term's dummies
struct Walker {
  const Basis& basis;
  const Indices& ind;
  std::vector<int> val;  // id -> orbital or -1
  const Term* t = nullptr;
  std::vector<const Fac*> order;             // c-number factors first
  std::vector<const Fac*> nops;
  std::function<void(F2)> leaf;

  explicit Walker(const Basis& b, const Indices& i, const std::map<int, int>& ext) : basis(b), ind(i), val(i.space.size(), -1) {
    for (auto& [k, v] : ext) val[k] = v;
  }
  static void ids(const IdxRef& r, std::vector<int>& out) {
    if (r.id < 0) return;
    for (int p : r.proto) out.push_back(p);
    out.push_back(r.id);
  }
  static void ids(const Fac& f, std::vector<int>& out) {
    for (auto& r : f.bra) ids(r, out);
    for (auto& r : f.ket) ids(r, out);
    for (auto& r : f.aux) ids(r, out);
    for (auto& o : f.ops) ids(o.idx, out);
  }
  Slot slot(const IdxRef& r) const {
    if (r.id < 0) return 0;
    Slot s = val[r.id] + 1;
    if (!r.proto.empty()) {
      std::vector<Slot> p;
      for (int i : r.proto) p.push_back(val[i] + 1);
      std::sort(p.begin(), p.end());
      s = (fold(77, p) << 8) | s;
    }
    return s;
  }
  std::vector<Slot> slots(const std::vector<IdxRef>& v) const {
    std::vector<Slot> r;
    for (auto& x : v) r.push_back(slot(x));
    return r;
  }
  F2 value(const Fac& f) const {
    switch (f.kind) {
      case SCALAR: {
        F2 v = random_value(mix(basis.seed, f.label));
        return f.adj ? conj(v) : v;
      }
      case DELTA:
        return num(slot(f.bra[0]) == slot(f.ket[0]));
      default:
        if (basis.custom) {
          auto orbs = [&](const std::vector<IdxRef>& v) {
            std::vector<int> r;
            for (auto& x : v) r.push_back(x.id < 0 ? -1 : val[x.id]);
            return r;
          };
          F2 r;
          if (basis.custom(f.label, orbs(f.bra), orbs(f.ket), r)) return r;
        }
        return element(f, slots(f.bra), slots(f.ket), slots(f.aux), basis.seed);
    }
  }
  void run(const Term& term) {
    t = &term;
    order.clear(), nops.clear();
    std::vector<const Fac*> todo;
    for (auto& f : term.facs) (f.kind == NOP_F || f.kind == NOP_B ? nops : todo).push_back(&f);
    // deltas as soon as one index is known
    std::set<int> known;
    for (std::size_t i = 0; i < val.size(); ++i)
      if (val[i] >= 0) known.insert(static_cast<int>(i));
    while (!todo.empty()) {
      std::size_t best = 0;
      int bestn = 1 << 30;
      for (std::size_t i = 0; i < todo.size(); ++i) {
        std::vector<int> v;
        ids(*todo[i], v);
        std::set<int> u(v.begin(), v.end());
        int n = 0;
        for (int k : u) n += !known.count(k);
        if (n < bestn) bestn = n, best = i;
      }
      std::vector<int> v;
      ids(*todo[best], v);
      known.insert(v.begin(), v.end());
      order.push_back(todo[best]);
      todo.erase(todo.begin() + static_cast<long>(best));
    }
    fac(0, term.coef);
  }
  void fac(std::size_t k, F2 c) {
    if (zero(c)) return;
    const bool done = k == order.size();
    std::vector<int> v;
    if (!done)
      ids(*order[k], v);
    else
      for (auto* f : nops) ids(*f, v);
    std::vector<int> fresh;
    for (int i : v)
      if (val[i] < 0 && std::find(fresh.begin(), fresh.end(), i) == fresh.end()) fresh.push_back(i);
    loop(fresh, 0, [&] {
      if (done)
        leaf(c);
      else
        fac(k + 1, c * value(*order[k]));
    });
  }
  template <typename F>
  void loop(const std::vector<int>& fresh, std::size_t k, const F& f) {
    if (k == fresh.size()) return f();
    for (int o = 0; o < basis.n; ++o)
      if (ind.space[fresh[k]].mask >> o & 1) {
        val[fresh[k]] = o;
        loop(fresh, k + 1, f);
      }
    val[fresh[k]] = -1;
  }
  // elementary operators of a normal operator, in its normal order; sign of the
  // reordering. spin[k] is the spin of column k of spin-free operators
  void elementary(const Fac& f, std::vector<std::pair<int, bool>>& out, int& sign, const std::vector<int>* spin = nullptr) const {
    std::vector<std::pair<int, bool>> q;
    std::size_t ncre = 0, nann = 0;
    for (auto& o : f.ops) (o.create ? ncre : nann)++;
    std::size_t c = 0, a = 0;
    for (auto& o : f.ops) {
      int orb = val[o.idx.id];
      if (spin) {
        // creators come in the order of columns, annihilators in reverse;
        // missing partners are in the first columns
        const auto n = std::max(ncre, nann);
        std::size_t col = o.create ? n - ncre + c++ : n - 1 - a++;
        orb = 2 * orb + (*spin)[col];
      }
      q.emplace_back(orb, o.create);
    }
    if (!f.physical) {
      std::vector<std::pair<int, bool>> left, right;
      int inversions = 0;
      for (auto& x : q) {
        const bool occ = basis.occ >> (spin ? x.first / 2 : x.first) & 1;
        if (x.second != occ) {  // quasiparticle creator
          inversions += static_cast<int>(right.size());
          left.push_back(x);
        } else
          right.push_back(x);
      }
      if (inversions & 1) sign = -sign;
      q = left;
      q.insert(q.end(), right.begin(), right.end());
    }
    out.insert(out.end(), q.begin(), q.end());
  }
};
}  // namespace

Value Eval::value(const IR& e) const {
  Value result;
  for (auto& t : e.terms) {
    Walker w(basis, indices, externals);
    State start(static_cast<std::size_t>(basis.n) * 2 + 1, 0);
    // the state: N.B. layout is the same with and without spin-free operators
    // only if all expressions compared use the same kind
    const bool sf = spinfree_basis;
    const bool operate = ket >= 0 || !state.empty();
    if (!state.empty())
      start = state;
    else if (ket < 0) {
      for (int o = 0; o < basis.n; ++o)
        if (!bose_basis && basis.occ >> o & 1) {
          if (sf)
            start[2 * o] = start[2 * o + 1] = 1;
          else
            start[o] = 1;
        }
    } else
      for (int o = 0; o < (sf ? 2 : 1) * basis.n; ++o)
        start[o] = bose_basis ? mix(mix(basis.seed, ket), 1000 + o) % 3 : mix(mix(basis.seed, ket), 1000 + o) % 2;
    const State vac = start;
    w.leaf = [&](F2 c) {
      auto act = [&](auto&& self, std::size_t k, std::vector<std::pair<int, bool>> ops, int sign) -> void {
        if (k == w.nops.size()) {
          State s = start;
          F2 cc = c;
          if (bose_basis) {
            if (!apply_bose(ops, s, cc)) return;
          } else if (!apply_fermi(ops, s, sign))
            return;
          if (!operate && s != vac) return;
          if (sign < 0) cc = F2{} - cc;
          auto& r = result[operate ? s : State{}];
          r = r + cc;
          return;
        }
        const Fac& f = *w.nops[k];
        if (!f.spinfree) {
          w.elementary(f, ops, sign);
          self(self, k + 1, std::move(ops), sign);
          return;
        }
        std::size_t ncre = 0;
        for (auto& o : f.ops) ncre += o.create;
        const auto ncol = std::max(ncre, f.ops.size() - ncre);
        for (unsigned m = 0; m < (1u << ncol); ++m) {
          std::vector<int> spin;
          for (std::size_t i = 0; i < ncol; ++i) spin.push_back(m >> i & 1);
          auto o2 = ops;
          int s2 = sign;
          w.elementary(f, o2, s2, &spin);
          self(self, k + 1, std::move(o2), s2);
        }
      };
      act(act, 0, {}, 1);
    };
    w.run(t);
  }
  for (auto it = result.begin(); it != result.end();) it = zero(it->second) ? result.erase(it) : std::next(it);
  return result;
}

double cost(const IR& e, const Indices& ind, const std::vector<int>& ext) {
  double c = 0;
  for (auto& t : e.terms) {
    std::vector<int> v;
    for (auto& f : t.facs) Walker::ids(f, v);
    std::set<int> u(v.begin(), v.end());
    for (int x : ext) u.erase(x);
    double n = 1;
    for (int i : u) n *= std::popcount(ind.space[i].mask);
    c += n;
  }
  return c;
}

namespace {
template <typename F>
std::string for_samples(const Basis& basis, const Indices& ind, const std::vector<int>& ext, int samples, std::uint64_t seed, F&& f) {
  double all = 1;
  for (int i : ext) all *= std::popcount(ind.space[i].mask);
  std::vector<std::map<int, int>> list;
  if (all <= samples) {
    list.push_back({});
    for (int i : ext) {
      std::vector<std::map<int, int>> next;
      for (auto& m : list)
        for (int o = 0; o < basis.n; ++o)
          if (ind.space[i].mask >> o & 1) {
            auto m2 = m;
            m2[i] = o;
            next.push_back(m2);
          }
      list = next;
    }
  } else
    for (int s = 0; s < samples; ++s) {
      std::map<int, int> m;
      for (int i : ext) {
        const int n = std::popcount(ind.space[i].mask);
        int k = static_cast<int>(mix(mix(seed, s), i) % n);
        int o = 0;
        for (;; ++o)
          if (ind.space[i].mask >> o & 1 && k-- == 0) break;
        m[i] = o;
      }
      list.push_back(m);
    }
  for (auto& m : list) {
    auto r = f(m);
    if (!r.empty()) {
      r += " with external orbitals";
      for (auto& [i, o] : m) {
        for (auto& [name, id] : ind.id)
          if (id == i) r += " " + name + "=" + std::to_string(o);
      }
      return r;
    }
  }
  return "";
}
std::string show(F2 v) { return "(" + std::to_string(v.re) + "," + std::to_string(v.im) + ")"; }
std::string show(const Value& v) {
  if (v.empty()) return "0";
  std::string r;
  for (auto& [s, c] : v) {
    if (!s.empty()) {
      r += "|";
      for (auto x : s) r += static_cast<char>('0' + x);
      r += ">";
    }
    r += show(c) + " ";
  }
  return r;
}
}  // namespace

std::string compare(const IR& a, const IR& b, const Basis& basis, const Indices& ind, const std::vector<int>& ext, int samples,
                    const std::vector<int>& kets, std::uint64_t seed) {
  bool bose = false, sf = false;
  for (auto* e : {&a, &b})
    for (auto& t : e->terms)
      for (auto& f : t.facs) bose |= f.kind == NOP_B, sf |= f.spinfree;
  return for_samples(basis, ind, ext, samples, seed, [&](const std::map<int, int>& m) -> std::string {
    for (int k : kets) {
      Eval ev{basis, ind, m, k, bose, sf};
      const auto va = ev.value(a), vb = ev.value(b);
      if (va != vb) return "values differ for state " + std::to_string(k) + ": " + show(va) + " vs " + show(vb);
    }
    return "";
  });
}

F2 contraction_value(const IR& a, const Constraints& cons, const Basis& basis, const Indices& ind, const std::map<int, int>& m) {
  F2 sum{};
  for (auto& t : a.terms) {
    Walker w(basis, ind, m);
    w.leaf = [&](F2 c) {
      // elementary operators with the number of the normal operator
      std::vector<std::array<int, 3>> ops;
      int sign0 = 1;
      for (std::size_t k = 0; k < w.nops.size(); ++k) {
        std::vector<std::pair<int, bool>> o;
        w.elementary(*w.nops[k], o, sign0);
        for (auto& x : o) ops.push_back({x.first, x.second, static_cast<int>(k)});
      }
      const bool phys = w.nops.empty() || w.nops[0]->physical;
      const bool fermi = w.nops.empty() || w.nops[0]->kind == NOP_F;
      std::set<std::pair<int, int>> conn;
      long total = 0;
      auto rec = [&](auto&& self, std::vector<std::array<int, 3>> rest, long coef) -> void {
        if (rest.empty()) {
          for (auto [x, y] : cons.connect)
            if (!conn.count({std::min(x, y), std::max(x, y)})) return;
          total += coef;
          return;
        }
        const auto f = rest[0];
        const bool occ = !phys && (basis.occ >> f[0] & 1);
        if ((f[1] != 0) != occ) return;  // leftmost must annihilate
        for (std::size_t j = 1; j < rest.size(); ++j) {
          const auto g = rest[j];
          if (g[0] != f[0] || g[1] == f[1] || g[2] == f[2]) continue;
          const std::pair<int, int> pr{std::min(f[2], g[2]), std::max(f[2], g[2])};
          bool avoid = false;
          for (auto [x, y] : cons.avoid) avoid |= std::make_pair(std::min(x, y), std::max(x, y)) == pr;
          if (avoid) continue;
          const bool added = conn.insert(pr).second;
          std::vector<std::array<int, 3>> r2;
          for (std::size_t i = 1; i < rest.size(); ++i)
            if (i != j) r2.push_back(rest[i]);
          self(self, r2, fermi && j % 2 == 0 ? -coef : coef);
          if (added) conn.erase(pr);
        }
      };
      rec(rec, ops, sign0);
      sum = sum + c * num(total);
    };
    w.run(t);
  }
  return sum;
}

std::string compare_contractions(const IR& a, const Constraints& cons, const IR& b, const Basis& basis, const Indices& ind,
                                 const std::vector<int>& ext, int samples, std::uint64_t seed) {
  return for_samples(basis, ind, ext, samples, seed, [&](const std::map<int, int>& m) -> std::string {
    const F2 sum = contraction_value(a, cons, basis, ind, m);
    Eval ev{basis, ind, m, -1, false, false};
    const auto vb = ev.value(b);
    const F2 r = vb.empty() ? F2{} : vb.begin()->second;
    if (!(r == sum)) return "values differ: " + show(sum) + " vs " + show(r);
    return "";
  });
}

std::string dump(const IR& e) {
  std::string r;
  for (auto& t : e.terms) {
    r += "+" + show(t.coef);
    for (auto& f : t.facs) {
      static const char* k[] = {" T", " D", " F", " B", " S"};
      r += k[f.kind];
      auto put = [&](const std::vector<IdxRef>& v) {
        r += "[";
        for (auto& x : v) r += std::to_string(x.id) + " ";
        r += "]";
      };
      put(f.bra), put(f.ket), put(f.aux);
      for (auto& o : f.ops) r += (o.create ? "+" : "-") + std::to_string(o.idx.id);
    }
    r += "\n";
  }
  return r;
}
}  // namespace ref
