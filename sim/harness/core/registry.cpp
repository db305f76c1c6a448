// C07: index-space registries against a small reference model.
#include "rt/sim.hpp"

#include <SeQuant/core/index_space_registry.hpp>

#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>

using namespace sequant;
using std::to_string;
using Type = IndexSpace::Type;
using QN = IndexSpace::QuantumNumbers;

namespace {

struct MSpace {
  int type = 0, qns = 0;
  unsigned long size = 0;
  bool real = false;
};
using MSpaces = std::map<std::wstring, MSpace>;
enum Tag { VAC, REF, COMPL, HOLE, PART, NTAG };
const char* const tag_name[] = {"vacuum_occupied", "reference_occupied", "complete", "hole", "particle"};
struct MReg {
  std::shared_ptr<MSpaces> sp;
  int mask = 0;
  std::array<int, NTAG> tag{};
  std::array<std::map<int, int>, NTAG> qtag;
  static MReg fresh() {
    MReg r;
    r.sp = std::make_shared<MSpaces>();
    (*r.sp)[L""] = MSpace{};
    return r;
  }
};

const std::vector<std::wstring> KEYS = {L"i", L"a", L"u", L"p", L"m", L"i↑", L"a↓", L"κ", L"g", L"z"};
const std::vector<int> QNS = {0, 0, 0, 1, 2, 4};
bool single(int t) { return t && !(t & (t - 1)); }
std::string u8(const std::wstring& w) { return toUtf8(w); }

struct Fail {};  // the model's verdict: the operation is refused

const MSpace* m_attr(const MReg& m, int t, int q, const std::wstring** key = nullptr) {
  for (auto& [k, s] : *m.sp)
    if (s.type == t && s.qns == q) {
      if (key) *key = &k;
      return &s;
    }
  return nullptr;
}

void m_add(MReg& m, const std::wstring& key, MSpace s) {
  if (m.sp->count(key) || m_attr(m, s.type, s.qns)) throw Fail{};
  (*m.sp)[key] = s;
}
bool m_has_type(const MReg& m, int t) {
  for (auto& [k, s] : *m.sp)
    if (s.type == t) return true;
  return false;
}
std::pair<unsigned long, bool> m_composite(const MReg& m, int t, int q) {
  if (single(t)) {
    auto* s = m_attr(m, t, q);
    if (!s) throw Fail{};
    return {s->size, s->real};
  }
  unsigned long n = 0;
  bool real = true;
  for (auto& [k, s] : *m.sp)
    if (s.qns == q && single(s.type) && (s.type & t)) {
      n += s.size;
      if (!s.real) real = false;
    }
  return {n, real};
}

IndexSpaceRegistry& set_tag(IndexSpaceRegistry& r, int tag, Type t) {
  switch (tag) {
    case VAC: return r.vacuum_occupied_space(t);
    case REF: return r.reference_occupied_space(t);
    case COMPL: return r.complete_space(t);
    case HOLE: return r.hole_space(t);
    default: return r.particle_space(t);
  }
}
template <typename L>
IndexSpaceRegistry& set_tag_l(IndexSpaceRegistry& r, int tag, const L& l) {
  switch (tag) {
    case VAC: return r.vacuum_occupied_space(l);
    case REF: return r.reference_occupied_space(l);
    case COMPL: return r.complete_space(l);
    case HOLE: return r.hole_space(l);
    default: return r.particle_space(l);
  }
}
IndexSpaceRegistry& set_tag_m(IndexSpaceRegistry& r, int tag, const container::map<QN, Type>& m) {
  switch (tag) {
    case VAC: return r.vacuum_occupied_space(m);
    case REF: return r.reference_occupied_space(m);
    case COMPL: return r.complete_space(m);
    case HOLE: return r.hole_space(m);
    default: return r.particle_space(m);
  }
}
Type get_tag(const IndexSpaceRegistry& r, int tag, bool ok) {
  switch (tag) {
    case VAC: return r.vacuum_occupied_space(ok);
    case REF: return r.reference_occupied_space(ok);
    case COMPL: return r.complete_space(ok);
    case HOLE: return r.hole_space(ok);
    default: return r.particle_space(ok);
  }
}
const IndexSpace& get_tag_q(const IndexSpaceRegistry& r, int tag, QN q) {
  switch (tag) {
    case VAC: return r.vacuum_occupied_space(q);
    case REF: return r.reference_occupied_space(q);
    case COMPL: return r.complete_space(q);
    case HOLE: return r.hole_space(q);
    default: return r.particle_space(q);
  }
}
std::optional<std::wstring> m_tag_q(const MReg& m, int tag, int q) {
  const auto it = m.qtag[tag].find(q);
  int t = it != m.qtag[tag].end() ? it->second : m.tag[tag];
  if (it == m.qtag[tag].end() && !t) return {};
  const std::wstring* k = nullptr;
  return m_attr(m, t, q, &k) ? std::optional<std::wstring>(*k) : std::nullopt;
}

// runs fn; nullopt when it is refused with a library exception
template <typename F>
auto attempt(F&& fn) -> std::optional<decltype(fn())> {
  try {
    return fn();
  } catch (const Exception&) {
    return {};
  }
}
template <typename T, typename U>
void same(const char* cls, const std::string& what, const std::optional<T>& got, const std::optional<U>& want) {
  if (got.has_value() != want.has_value())
    sim::violation(cls, what + (want ? ": refused, should succeed" : ": succeeded, should be refused"));
  if (got && !(*got == *want)) sim::violation(cls, what + ": wrong answer");
}

// full comparison of a registry with the model
void check_reg(const IndexSpaceRegistry& r, const MReg& m, const std::string& where) {
  // contents, in key order
  {
    auto it = m.sp->begin();
    std::size_t n = 0;
    for (auto& s : r) {
      SIM_CHECK("contents", it != m.sp->end(), where + ": unexpected space '" + u8(s.base_key()) + "'");
      SIM_CHECK("contents", s.base_key() == it->first, where + ": has '" + u8(s.base_key()) + "', expected '" + u8(it->first) + "'");
      SIM_CHECK("contents", s.type().to_int32() == it->second.type && s.qns().to_int32() == it->second.qns, where + ": attributes of '" + u8(it->first) + "' changed");
      SIM_CHECK("contents", s.approximate_size() == it->second.size, where + ": size of '" + u8(it->first) + "' is " + to_string(s.approximate_size()) + ", expected " + to_string(it->second.size));
      SIM_CHECK("contents", (s.field() == Field::Real) == it->second.real, where + ": field of '" + u8(it->first) + "'");
      ++it;
      ++n;
    }
    SIM_CHECK("contents", it == m.sp->end(), where + ": '" + (it == m.sp->end() ? "" : u8(it->first)) + "' is missing");
  }
  // base spaces
  {
    std::set<int> want;
    std::set<std::pair<int, std::wstring>> wsp;
    for (auto& [k, s] : *m.sp)
      if (single(s.type)) {
        want.insert(s.type);
        if (!(s.qns & ~m.mask)) wsp.insert({s.type, k});
      }
    std::vector<int> got;
    for (auto& t : r.base_space_types()) got.push_back(t.to_int32());
    SIM_CHECK("base-spaces", got == std::vector<int>(want.begin(), want.end()), where + ": base_space_types() is not the sorted set of base types");
    int last = -1;
    std::set<std::pair<int, std::wstring>> gsp;
    for (auto& s : r.base_spaces()) {
      SIM_CHECK("base-spaces", s.type().to_int32() >= last, where + ": base_spaces() is not sorted");
      last = s.type().to_int32();
      SIM_CHECK("base-spaces", gsp.insert({last, s.base_key()}).second, where + ": duplicate in base_spaces()");
    }
    SIM_CHECK("base-spaces", gsp == wsp, where + ": base_spaces() has " + to_string(gsp.size()) + " spaces that are not the registered base spaces (" + to_string(wsp.size()) + ")");
  }
  SIM_CHECK("mask", r.physical_particle_attribute_mask() == m.mask, where + ": attribute mask");
  for (int t = 0; t < NTAG; ++t)
    SIM_CHECK("tags", get_tag(r, t, true).to_int32() == m.tag[t], where + ": " + tag_name[t] + " space is " + to_string(get_tag(r, t, true).to_int32()) + ", expected " + to_string(m.tag[t]));
}

// one random query
void query(const IndexSpaceRegistry& r, const MReg& m, const std::string& where) {
  const std::wstring k1 = KEYS[sim::pick((int)KEYS.size())], k2 = KEYS[sim::pick((int)KEYS.size())];
  const bool h1 = m.sp->count(k1), h2 = m.sp->count(k2);
  const int t = sim::range(1, 15), q = QNS[sim::pick((int)QNS.size())], tag = sim::pick(NTAG);
  const std::string w = where + " query on '" + u8(k1) + "','" + u8(k2) + "'";
  auto key_of = [](const IndexSpace& s) { return s.base_key(); };
  switch (sim::pick(13)) {
    case 0: {
      SIM_CHECK("query", r.contains(k1) == h1, w + ": contains");
      SIM_CHECK("query", r.contains(k1 + L"_7") == h1, w + ": contains(index label)");
      same("query", w + ": retrieve", attempt([&] { return key_of(r.retrieve(k1)); }), h1 ? std::optional(k1) : std::nullopt);
      break;
    }
    case 1: {
      const std::wstring* k = nullptr;
      auto* s = m_attr(m, t, q, &k);
      SIM_CHECK("query", r.contains(Type(t), QN(q)) == !!s, w + ": contains(type,qn)");
      SIM_CHECK("query", r.contains(IndexSpace::Attr(t, q)) == !!s, w + ": contains(attr)");
      same("query", w + ": retrieve(type,qn)", attempt([&] { return key_of(r.retrieve(Type(t), QN(q))); }), s ? std::optional(*k) : std::nullopt);
      same("query", w + ": retrieve(attr)", attempt([&] { return key_of(r.retrieve(IndexSpace::Attr(t, q))); }), s ? std::optional(*k) : std::nullopt);
      break;
    }
    case 2: {
      std::optional<Type> want;
      if (m.tag[tag]) want = Type(m.tag[tag]);
      same("query", where + " " + tag_name[tag], attempt([&] { return get_tag(r, tag, false); }), want);
      break;
    }
    case 3:
      same("query", where + " " + tag_name[tag] + " for qn " + to_string(q), attempt([&] { return key_of(get_tag_q(r, tag, QN(q))); }), m_tag_q(m, tag, q));
      break;
    case 4: {  // union
      std::optional<std::wstring> want;
      if (h1 && h2) {
        auto &a = m.sp->at(k1), &b = m.sp->at(k2);
        const std::wstring* k = nullptr;
        if (k1 == k2)
          want = k1;
        else if (a.qns == b.qns && m_attr(m, a.type | b.type, a.qns, &k))
          want = *k;
      }
      same("query", w + ": union", attempt([&] { return key_of(r.unIon(k1, k2)); }), want);
      break;
    }
    case 5: {  // intersection
      std::optional<std::wstring> want;
      if (h1 && h2) {
        auto &a = m.sp->at(k1), &b = m.sp->at(k2);
        const std::wstring* k = nullptr;
        if (k1 == k2)
          want = k1;
        else if (a.qns != b.qns && !(a.qns & b.qns))
          want = L"";
        else if (a.qns != b.qns)
          break;  // partly overlapping quantum numbers: not specified
        else if (!(a.type & b.type))
          want = L"";
        else if (m_attr(m, a.type & b.type, a.qns, &k))
          want = *k;
      }
      same("query", w + ": intersection", attempt([&] { return key_of(r.intersection(k1, k2)); }), want);
      break;
    }
    case 6: {
      std::optional<bool> want;
      if (h1 && h2) {
        auto &a = m.sp->at(k1), &b = m.sp->at(k2);
        if (a.qns != b.qns) break;
        if ((a.type & b.type) == b.type)
          want = false;
        else
          want = !!m_attr(m, a.type | b.type, a.qns);
      }
      same("query", w + ": valid_union", attempt([&] { return r.valid_unIon(k1, k2); }), want);
      break;
    }
    case 7: {
      std::optional<bool> want;
      if (h1) {
        auto& a = m.sp->at(k1);
        want = single(a.type) && !(a.qns & ~m.mask);
      }
      same("query", w + ": is_base", attempt([&] { return r.is_base(k1); }), want);
      break;
    }
    case 8: {
      std::optional<bool> want;
      if (h1) {
        auto& a = m.sp->at(k1);
        if (auto v = m_tag_q(m, VAC, a.qns)) want = a.type <= m.sp->at(*v).type;
      }
      same("query", w + ": is_pure_occupied", attempt([&] { return r.is_pure_occupied(k1); }), want);
      break;
    }
    case 9: {
      std::optional<bool> want;
      if (h1) {
        auto& a = m.sp->at(k1);
        if (auto v = m_tag_q(m, VAC, a.qns & m.mask)) want = !(a.type & m.sp->at(*v).type);
      }
      same("query", w + ": is_pure_unoccupied", attempt([&] { return r.is_pure_unoccupied(k1); }), want);
      break;
    }
    case 10: {
      std::optional<bool> want, want_un;
      if (h1) {
        auto& a = m.sp->at(k1);
        auto v = m_tag_q(m, VAC, a.qns), c = m_tag_q(m, COMPL, a.qns);
        if (v) want = (a.type & m.sp->at(*v).type) != 0;
        if (v && c) {
          int ct = m.sp->at(*c).type, ut = (ct ^ m.sp->at(*v).type) & ct;
          if (m_attr(m, ut, a.qns)) want_un = (a.type & ut) != 0;
        }
      }
      same("query", w + ": contains_occupied", attempt([&] { return r.contains_occupied(k1); }), want);
      same("query", w + ": contains_unoccupied", attempt([&] { return r.contains_unoccupied(k1); }), want_un);
      break;
    }
    case 11:
      check_reg(r, m, where);
      break;
    case 12: {
      std::set<int> want;
      for (auto& [k, s] : *m.sp)
        if (single(s.type)) want.insert(s.type);
      SIM_CHECK("base-spaces", r.base_space_types().size() == want.size(), where + ": base_space_types()");
      int n = 0;
      for (auto& [k, s] : *m.sp) n += single(s.type) && !(s.qns & ~m.mask);
      SIM_CHECK("base-spaces", (int)r.base_spaces().size() == n, where + ": base_spaces()");
      break;
    }
  }
}

struct World {
  std::vector<std::unique_ptr<IndexSpaceRegistry>> r;
  std::vector<MReg> m;
  int faults = 0, refused = 0, done = 0;
};

// one random mutation, applied to both sides. A refused or failed operation
// must leave everything as it was.
void mutate(World& w, bool alloc_faults, int idx) {
  const int n = (int)w.r.size();
  const int a = sim::pick(n), b = sim::pick(n);
  IndexSpaceRegistry& r = *w.r[a];
  MReg& m = w.m[a];
  std::string d = "op " + to_string(idx) + ": registry " + to_string(a) + " ";
  std::function<void()> real, model;
  // several steps each of which may run out of memory: no all-or-nothing promise
  bool composite = false;
  const std::wstring key = KEYS[sim::pick((int)KEYS.size())], k2 = KEYS[sim::pick((int)KEYS.size())], k3 = KEYS[sim::pick((int)KEYS.size())];
  MSpace s{sim::chance(70) ? 1 << sim::pick(4) : sim::range(1, 15), QNS[sim::pick((int)QNS.size())], (unsigned long)sim::range(1, 50), sim::chance(30)};
  const int tag = sim::pick(NTAG);
  IndexSpace space(key, Type(s.type), QN(s.qns), s.size, s.real ? Field::Real : Field::Complex);
  switch (sim::pick(15)) {
    case 0:
    case 1:
    case 2: {
      const int variant = sim::pick(4);
      composite = variant == 3;
      d += "add " + u8(key) + " type " + to_string(s.type) + " qns " + to_string(s.qns) + " variant " + to_string(variant);
      if (variant == 0) real = [&r, space] { r.add(space); };
      if (variant == 1) real = [&r, key, s] { r.add(key, Type(s.type), QN(s.qns), s.size, s.real ? Field::Real : Field::Complex); };
      if (variant == 2) {
        s.qns = 0, s.size = 10, s.real = false;
        real = [&r, key, s] { r.add(key, Type(s.type)); };
      }
      if (variant == 3) real = [&r, key, s] { r.add(key, Type(s.type), QN(s.qns), is_vacuum_occupied, s.size, is_hole, s.real ? Field::Real : Field::Complex); };
      model = [&m, key, s, variant] {
        m_add(m, key, s);
        if (variant == 3) m.tag[VAC] = m.tag[HOLE] = s.type;
      };
      break;
    }
    case 3:
    case 4:
    case 5: {
      const bool uni = sim::chance(70), three = sim::chance(30), tagged = sim::chance(30);
      const std::wstring k4 = KEYS[sim::pick((int)KEYS.size())];
      composite = tagged && !three;
      d += std::string("add ") + (uni ? "union " : "intersection ") + u8(key) + " of " + u8(k2) + " " + u8(k3) + (three ? " " + u8(k4) : "");
      // quantum numbers that differ, and unions that are base spaces themselves, are not specified
      auto attr = [&](int& t, int& q) {
        auto *p = m.sp->count(k2) ? &m.sp->at(k2) : nullptr, *p2 = m.sp->count(k3) ? &m.sp->at(k3) : nullptr, *p3 = m.sp->count(k4) ? &m.sp->at(k4) : nullptr;
        if (!p || !p2 || (three && !p3)) return 0;
        if (p->qns != p2->qns || (three && p3->qns != p->qns)) return -1;
        q = p->qns;
        t = uni ? p->type | p2->type : p->type & p2->type;
        if (three) t = uni ? t | p3->type : t & p3->type;
        return 1;
      };
      int t = 0, q = 0;
      const int ok = attr(t, q);
      if (ok < 0 || (ok && !t)) return;  // nor are empty intersections
      real = [&r, key, k2, k3, k4, uni, three, tagged] {
        if (three)
          uni ? r.add_unIon(key, {k2, k3, k4}) : r.add_intersection(key, {k2, k3, k4});
        else if (tagged)
          uni ? r.add_union(key, {k2, k3}, is_complete, is_particle) : r.add_intersection(key, {k2, k3}, is_complete, is_particle);
        else
          uni ? r.add_unIon(key, {k2, k3}) : r.add_intersection(key, {k2, k3});
      };
      model = [&m, key, t, q, ok, tagged, three, uni] {
        if (!ok) throw Fail{};
        auto [n, rl] = m_composite(m, t, q);
        m_add(m, key, MSpace{t, q, n, uni && rl});
        if (tagged && !three) m.tag[COMPL] = m.tag[PART] = t;
      };
      break;
    }
    case 6: {
      const bool by_label = sim::chance(50);
      d += "remove " + u8(key) + (by_label ? " by label" : "");
      real = [&r, key, by_label, space] { by_label ? r.remove(key) : r.remove(space); };
      model = [&m, key, by_label] {
        if (!m.sp->erase(key) && by_label) throw Fail{};
      };
      break;
    }
    case 7:
    case 8:
      d += "replace " + u8(key) + " type " + to_string(s.type) + " qns " + to_string(s.qns);
      real = [&r, space] { r.replace(space); };
      model = [&m, key, s] {
        const std::wstring* k = nullptr;
        if (m_attr(m, s.type, s.qns, &k) && *k != key) throw Fail{};
        (*m.sp)[key] = s;
      };
      break;
    case 9: {
      const int how = sim::pick(3);
      d += std::string("set ") + tag_name[tag] + " variant " + to_string(how);
      if (how == 0) {
        d += " type " + to_string(s.type);
        real = [&r, tag, s] { set_tag(r, tag, Type(s.type)); };
        model = [&m, tag, s] {
          if (!m_has_type(m, s.type)) throw Fail{};
          m.tag[tag] = s.type;
        };
      } else if (how == 1) {
        d += " " + u8(key);
        real = [&r, tag, key] { set_tag_l(r, tag, key); };
        model = [&m, tag, key] {
          if (!m.sp->count(key)) throw Fail{};
          m.tag[tag] = m.sp->at(key).type;
        };
      } else {
        d += " type " + to_string(s.type) + " via space";
        real = [&r, tag, space] { set_tag_l(r, tag, space); };
        model = [&m, tag, s] {
          if (!m_has_type(m, s.type)) throw Fail{};
          m.tag[tag] = s.type;
        };
      }
      break;
    }
    case 10: {
      container::map<QN, Type> mm;
      std::map<int, int> qm;
      // mostly from registered spaces
      std::vector<std::pair<int, int>> have;
      for (auto& [k, x] : *m.sp)
        if (x.type) have.push_back({x.qns, x.type});
      for (int i = 0, e = sim::range(1, 3); i < e; ++i) {
        int q = s.qns, t = s.type;
        if (!have.empty() && sim::chance(85)) std::tie(q, t) = have[sim::pick((int)have.size())];
        qm[q] = t;
      }
      for (auto& [q, t] : qm) mm.emplace(QN(q), Type(t));
      d += std::string("set ") + tag_name[tag] + " for " + to_string(qm.size()) + " quantum numbers";
      real = [&r, tag, mm] { set_tag_m(r, tag, mm); };
      model = [&m, tag, qm] {
        for (auto& [q, t] : qm)
          if (!m_attr(m, t, q)) throw Fail{};
        m.qtag[tag] = qm;
      };
      break;
    }
    case 11: {
      const int mask = sim::pick(8);
      d += "mask " + to_string(mask);
      real = [&r, mask] { r.physical_particle_attribute_mask(mask); };
      model = [&m, mask] { m.mask = mask; };
      break;
    }
    case 12: {
      const int how = sim::pick(4);
      composite = how == 0;
      if (a == b && how != 0) return;
      d += (const char*[]){"= registry ", "= copy of ", "= clone of ", "moved through a temporary from "}[how] + to_string(b);
      MReg& mb = w.m[b];
      IndexSpaceRegistry& rb = *w.r[b];
      real = [&r, &rb, &w, a, how] {
        if (how == 0) r = rb;
        if (how == 1) w.r[a] = std::make_unique<IndexSpaceRegistry>(rb);
        if (how == 2) r = rb.clone();
        if (how == 3) {
          IndexSpaceRegistry t1(rb);
          IndexSpaceRegistry t2(std::move(t1));
          r = std::move(t2);
        }
      };
      model = [&m, &mb, how] {
        if (&m == &mb) return;
        m = mb;
        if (how == 2) m.sp = std::make_shared<MSpaces>(*mb.sp);
      };
      break;
    }
    case 13:
      if (!sim::chance(30)) return;
      d += "clear";
      real = [&r] { r.clear(); };
      model = [&m] { m = MReg::fresh(); };
      break;
    case 14: {
      // another handle on the same set of spaces
      if (a == b) return;
      d += "shares the spaces of " + to_string(b);
      IndexSpaceRegistry& rb = *w.r[b];
      MReg& mb = w.m[b];
      real = [&w, &rb, a] { w.r[a] = std::make_unique<IndexSpaceRegistry>(rb.spaces()); };
      model = [&m, &mb] {
        auto sp = mb.sp;
        m = MReg{};
        m.sp = sp;
      };
      break;
    }
  }
  if (!sim::op_enabled(idx)) return;
  sim::note(d);
  sim::event(d);
  bool want_ok = true;
  MReg saved_m = m;
  MSpaces saved_s = *m.sp;
  const auto outcome = [&]() -> int {
    try {
      if (alloc_faults && !composite) {
        sim::FaultWindow fw;
        real();
      } else
        real();
      return 0;
    } catch (const Exception&) {
      return 1;
    } catch (const std::bad_alloc&) {
      return 2;
    }
  }();
  if (outcome == 2) {
    SIM_CHECK("harness", alloc_faults, "bad_alloc without a fault");
    ++w.faults;
    return;  // model unchanged
  }
  try {
    model();
  } catch (const Fail&) {
    want_ok = false;
    m = saved_m;
    *m.sp = saved_s;
  }
  // an allocation failure while the refusal is reported may replace it
  SIM_CHECK("outcome", (outcome == 0) == want_ok, d + (want_ok ? ": refused, should succeed" : ": succeeded, should be refused"));
  (want_ok ? w.done : w.refused)++;
}

void build(World& w, int ops, bool faults, bool check_each) {
  const int n = sim::range(1, 3);
  for (int i = 0; i < n; ++i) {
    w.r.push_back(std::make_unique<IndexSpaceRegistry>());
    w.m.push_back(MReg::fresh());
  }
  for (int k = 0; k < ops; ++k) {
    mutate(w, faults, k);
    if (!check_each) continue;
    // the others are looked at only now and then, so that memoized answers get old
    for (std::size_t i = 0; i < w.r.size(); ++i)
      if (sim::chance(40)) check_reg(*w.r[i], w.m[i], "after op " + to_string(k) + " registry " + to_string(i));
    for (int j = 0; j < 2; ++j) {
      const int i = sim::pick((int)w.r.size());
      query(*w.r[i], w.m[i], "after op " + to_string(k) + " registry " + to_string(i));
    }
    if (w.r.size() > 1) {
      auto &A = w.m[0], &B = w.m[1];
      bool eq = A.sp->size() == B.sp->size();
      if (eq)
        for (auto i = A.sp->begin(), j = B.sp->begin(); i != A.sp->end(); ++i, ++j)
          eq = eq && i->first == j->first && i->second.type == j->second.type && i->second.qns == j->second.qns;
      SIM_CHECK("equality", (*w.r[0] == *w.r[1]) == eq, "operator== after op " + to_string(k));
    }
  }
}

}  // namespace

SIM_SCENARIO(registry_history) {
  World w;
  const bool faults = sim::chance(40);
  if (faults) sim::arm(sim::F_ALLOC, 1, sim::range(10, 120), sim::range(1, 6));
  build(w, sim::range(5, 45), faults, true);
  sim::disarm(sim::F_ALLOC);
  for (std::size_t i = 0; i < w.r.size(); ++i) check_reg(*w.r[i], w.m[i], "at the end registry " + to_string(i));
  if (w.refused) sim::probe("registry_refused");
  if (w.faults) sim::probe("registry_alloc_failed");
  if (w.done > 10) sim::probe("registry_long_history");
  sim::event_num((std::uint64_t)(w.done * 10000 + w.refused * 100 + w.faults));
}

// a registry nobody modifies any more, read from several threads
SIM_SCENARIO(registry_readers) {
  World w;
  build(w, sim::range(3, 20), false, false);
  const int nthr = sim::range(2, 4), a = sim::pick((int)w.r.size());
  // every thread has its own workload
  std::vector<int> nq(nthr);
  for (auto& x : nq) x = sim::range(1, 5);
  const bool same_registry = sim::chance(70);
  auto client = [&](int t) {
    const int who = same_registry ? a : (a + t) % (int)w.r.size();
    for (int i = 0; i < nq[t]; ++i) {
      if (sim::chance(50))
        check_reg(*w.r[who], w.m[who], "reader " + to_string(t));
      else
        query(*w.r[who], w.m[who], "reader " + to_string(t));
    }
  };
  std::vector<std::thread> ts;
  for (int t = 1; t < nthr; ++t) ts.emplace_back(client, t);
  client(0);
  for (auto& t : ts) t.join();
  for (std::size_t i = 0; i < w.r.size(); ++i) check_reg(*w.r[i], w.m[i], "afterwards registry " + to_string(i));
}
