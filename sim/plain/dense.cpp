#include "plain/dense.hpp"

#include <algorithm>
#include <set>

namespace dense {
namespace {
std::string csv(const Labels& l) {
  std::string s;
  for (auto& x : l) s += (s.empty() ? "" : ",") + x;
  return "[" + s + "]";
}
std::vector<std::size_t> strides(const T& a) {
  std::vector<std::size_t> s(a.modes.size(), 1);
  for (std::size_t i = a.modes.size(); i-- > 1;) s[i - 1] = s[i] * a.modes[i].size();
  return s;
}
std::size_t volume(const std::vector<std::vector<int>>& m) {
  std::size_t n = 1;
  for (auto& x : m) n *= x.size();
  return n;
}
bool distinct(const Labels& l) { return std::set<std::string>(l.begin(), l.end()).size() == l.size(); }
}  // namespace

T make(std::vector<std::vector<int>> modes, const std::function<F2(const std::vector<int>&)>& f) {
  T r;
  r.modes = std::move(modes);
  const auto n = volume(r.modes);
  r.v.resize(n);
  std::vector<std::size_t> at(r.modes.size(), 0);
  std::vector<int> orb(r.modes.size());
  for (std::size_t k = 0; k < n; ++k) {
    for (std::size_t i = 0; i < at.size(); ++i) orb[i] = r.modes[i][at[i]];
    r.v[k] = f(orb);
    for (std::size_t i = at.size(); i-- > 0;) {
      if (++at[i] < r.modes[i].size()) break;
      at[i] = 0;
    }
  }
  return r;
}
std::string permute(const T& a, const Labels& la, const Labels& lr, T& r) {
  if (la.size() != a.modes.size()) return "annotation " + csv(la) + " does not fit a tensor with " + std::to_string(a.modes.size()) + " modes";
  if (!distinct(la) || !distinct(lr) || la.size() != lr.size()) return "cannot permute " + csv(la) + " to " + csv(lr);
  return contract(a, la, T{{}, {ref::num(1)}}, {}, lr, r);
}
std::string add(const T& a, const T& b, T& r) {
  if (a.modes != b.modes) return "sum of tensors of different shapes";
  T x = a;
  for (std::size_t i = 0; i < x.v.size(); ++i) x.v[i] = x.v[i] + b.v[i];
  r = std::move(x);
  return {};
}
std::string contract(const T& a, const Labels& la, const T& b, const Labels& lb, const Labels& lr, T& r) {
  const std::string what = csv(la) + " * " + csv(lb) + " = " + csv(lr) + ": ";
  if (la.size() != a.modes.size() || lb.size() != b.modes.size()) return what + "annotation does not fit the tensor";
  if (!distinct(la) || !distinct(lb) || !distinct(lr)) return what + "repeated index";
  std::map<std::string, std::vector<int>> range;
  auto see = [&](const T& t, const Labels& l) -> std::string {
    for (std::size_t i = 0; i < l.size(); ++i) {
      auto [it, fresh] = range.emplace(l[i], t.modes[i]);
      if (!fresh && it->second != t.modes[i]) return what + "operands disagree on the range of " + l[i];
    }
    return {};
  };
  if (auto e = see(a, la); !e.empty()) return e;
  if (auto e = see(b, lb); !e.empty()) return e;
  Labels all = lr;
  for (auto& x : lr)
    if (!range.count(x)) return what + "no operand has " + x;
  for (auto& [x, m] : range)
    if (std::find(lr.begin(), lr.end(), x) == lr.end()) {
      const bool shared = std::find(la.begin(), la.end(), x) != la.end() && std::find(lb.begin(), lb.end(), x) != lb.end();
      if (!shared) return what + "index " + x + " of one operand is lost";
      all.push_back(x);
    }
  T res;
  for (auto& x : lr) res.modes.push_back(range[x]);
  res.v.assign(volume(res.modes), F2{});
  const auto sa = strides(a), sb = strides(b), sr = strides(res);
  struct Step {
    std::size_t n, a, b, r;
  };
  std::vector<Step> st;
  for (auto& x : all) {
    auto step = [&](const Labels& l, const std::vector<std::size_t>& s) {
      auto it = std::find(l.begin(), l.end(), x);
      return it == l.end() ? std::size_t{0} : s[static_cast<std::size_t>(it - l.begin())];
    };
    st.push_back({range[x].size(), step(la, sa), step(lb, sb), step(lr, sr)});
  }
  auto rec = [&](auto&& self, std::size_t k, std::size_t ia, std::size_t ib, std::size_t ir) -> void {
    if (k == st.size()) {
      res.v[ir] = res.v[ir] + a.v[ia] * b.v[ib];
      return;
    }
    for (std::size_t i = 0; i < st[k].n; ++i) self(self, k + 1, ia + i * st[k].a, ib + i * st[k].b, ir + i * st[k].r);
  };
  rec(rec, 0, 0, 0, 0);
  r = std::move(res);
  return {};
}
T scaled(const T& a, F2 c) {
  T r = a;
  for (auto& x : r.v) x = x * c;
  return r;
}
T conjugated(const T& a) {
  T r = a;
  for (auto& x : r.v) x = ref::conj(x);
  return r;
}
T slice(const T& a, std::size_t mode, std::size_t lo, std::size_t hi) {
  T r;
  r.modes = a.modes;
  r.modes[mode] = std::vector<int>(a.modes[mode].begin() + static_cast<long>(lo), a.modes[mode].begin() + static_cast<long>(hi));
  const auto s = strides(a);
  const std::size_t outer = a.modes[mode].empty() ? 0 : a.v.size() / (s[mode] * a.modes[mode].size());
  for (std::size_t o = 0; o < outer; ++o)
    for (std::size_t i = lo; i < hi; ++i)
      for (std::size_t k = 0; k < s[mode]; ++k) r.v.push_back(a.v[(o * a.modes[mode].size() + i) * s[mode] + k]);
  return r;
}
}  // namespace dense
