// Executable reference model: expressions evaluated exactly on a small
// one-particle space. Not instrumented, no library code.
#ifndef SIM_REF_HPP
#define SIM_REF_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace ref {

// the field F_{p^2}, p = 2^31-1: exact "complex" numbers; conj is an
// automorphism
struct F2 {
  std::uint64_t re = 0, im = 0;
  friend bool operator==(const F2&, const F2&) = default;
};
F2 operator+(F2 a, F2 b);
F2 operator-(F2 a, F2 b);
F2 operator*(F2 a, F2 b);
F2 conj(F2 a);
F2 inv(F2 a);
F2 num(long n);
F2 frac(const std::string& n, const std::string& d);  // decimal integers
// square root of a positive integer, multiplicative; false if it has none in
// F_p
bool sqrt_int(unsigned long n, F2& r);
F2 random_value(std::uint64_t h);
std::uint64_t mix(std::uint64_t a, std::uint64_t b);
std::uint64_t hash(const std::string& s);

struct IdxRef {
  int id = -1;             // -1: empty slot
  std::vector<int> proto;  // ids of proto indices
};
enum Kind { TENSOR, DELTA, NOP_F, NOP_B, SCALAR };
enum Symm { SYMM, ANTISYMM, NONSYMM };
enum BraKet { BK_SYMM, BK_CONJ, BK_NONSYMM };
struct Fac {
  Kind kind = TENSOR;
  std::uint64_t label = 0;
  bool adj = false;  // tensor: adjoint marker; scalar: conjugated
  std::vector<IdxRef> bra, ket, aux;
  Symm symm = NONSYMM;
  BraKet bk = BK_NONSYMM;
  bool colsymm = true;
  struct Op {
    IdxRef idx;
    bool create;
  };
  std::vector<Op> ops;
  bool physical = true;  // vacuum
  bool spinfree = false;
};
struct Term {
  F2 coef;
  std::vector<Fac> facs;
};
struct Basis {
  int n = 0;                       // number of (spatial) orbitals
  unsigned occ = 0;                // mask of orbitals occupied in the vacuum
  std::uint64_t seed = 0;          // of the tensors' elements
  // elements of tensors that are not random; bra and ket orbitals
  std::function<bool(std::uint64_t label, const std::vector<int>& bra, const std::vector<int>& ket, F2&)> custom;
};
// what is known of an index
struct Space {
  unsigned mask;  // orbitals it runs over
};
struct IR {
  std::vector<Term> terms;
};
// indices of all expressions that are compared
struct Indices {
  std::map<std::string, int> id;
  std::vector<Space> space;
};

// value of an expression for given values of its external indices; an
// operator's value is the vector it makes of the ket-th state
using Value = std::map<std::vector<unsigned char>, F2>;
struct Eval {
  const Basis& basis;
  const Indices& indices;
  std::map<int, int> externals;  // index id -> orbital
  int ket = -1;                  // -1: vacuum expectation value
  bool bose_basis = false, spinfree_basis = false;
  std::vector<unsigned char> state{};  // if given, the ket
  Value value(const IR& e) const;
};
// cost estimate of evaluating e once: number of assignments of dummies
double cost(const IR& e, const Indices& ind, const std::vector<int>& ext);
// "" if a and b have the same value for up to `samples` assignments of ext
std::string compare(const IR& a, const IR& b, const Basis& basis,
                    const Indices& ind, const std::vector<int>& ext, int samples,
                    const std::vector<int>& kets, std::uint64_t seed);

// vacuum expectation value of products of operators as the sum of full
// contractions with constraints on which pairs of operators must / must not be
// contracted
struct Constraints {
  std::vector<std::pair<int, int>> connect, avoid;
};
F2 contraction_value(const IR& ops, const Constraints& c, const Basis& basis, const Indices& ind, const std::map<int, int>& ext);
std::string compare_contractions(const IR& ops, const Constraints& c, const IR& b, const Basis& basis, const Indices& ind,
                                 const std::vector<int>& ext, int samples, std::uint64_t seed);
std::string dump(const IR& e);
}  // namespace ref
#endif
