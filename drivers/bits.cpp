// Observations of NodeId / Node / NodeBranchId; every function is loop-free after unrolling.
#include <tdzdd/dd/Node.hpp>
using namespace tdzdd;
typedef uint64_t u64;
static inline bool same(NodeId f, NodeId g) { return f == g && f.getAttr() == g.getAttr(); }
static inline bool blank(NodeId f) { return f.row() == 0 && f != 0 && f != 1; }
static inline NodeId id(u64 c) { return NodeId(c); }
extern "C" {
int b_row(u64 r, u64 c) { return NodeId(r, c).row(); }
u64 b_col(u64 r, u64 c) { return NodeId(r, c).col(); }
bool b_attr(u64 r, u64 c) { return NodeId(r, c).getAttr(); }
u64 b_code(u64 r, u64 c) { return NodeId(r, c).code(); }
int b_row3(u64 r, u64 c, bool a) { return NodeId(r, c, a).row(); }
u64 b_col3(u64 r, u64 c, bool a) { return NodeId(r, c, a).col(); }
bool b_attr3(u64 r, u64 c, bool a) { return NodeId(r, c, a).getAttr(); }
u64 b_code3(u64 r, u64 c, bool a) { return NodeId(r, c, a).code(); }
int b_rowx(u64 x) { return id(x).row(); }
u64 b_colx(u64 x) { return id(x).col(); }
bool b_attrx(u64 x) { return id(x).getAttr(); }
u64 b_codex(u64 x) { return id(x).code(); }
int b_setrow(u64 x, bool a) { NodeId f(x); f.setAttr(a); return f.row(); }
u64 b_setcol(u64 x, bool a) { NodeId f(x); f.setAttr(a); return f.col(); }
bool b_setattr(u64 x, bool a) { NodeId f(x); f.setAttr(a); return f.getAttr(); }
int b_worow(u64 x) { return id(x).withoutAttr().row(); }
u64 b_wocol(u64 x) { return id(x).withoutAttr().col(); }
bool b_woattr(u64 x) { return id(x).withoutAttr().getAttr(); }
bool b_empty(u64 x) { return id(x).hasEmpty(); }
u64 b_hash(u64 x) { return id(x).hash(); }
bool b_eq(u64 x, u64 y) { return id(x) == id(y); }
bool b_ne(u64 x, u64 y) { return id(x) != id(y); }
bool b_lt(u64 x, u64 y) { return id(x) < id(y); }
bool b_gt(u64 x, u64 y) { return id(x) > id(y); }
bool b_le(u64 x, u64 y) { return id(x) <= id(y); }
bool b_ge(u64 x, u64 y) { return id(x) >= id(y); }
bool b_is0(u64 x) { return id(x) == 0; }
bool b_is1(u64 x) { return id(x) == 1; }
int b_t0row() { return NodeId(0).row(); }
int b_t1row() { return NodeId(1).row(); }
u64 b_t1col() { return NodeId(1).col(); }
}
template<int A> struct Mk {
  static Node<A> f(u64 a, u64 b, u64 c) { NodeId x[3] = { id(a), id(b), id(c) }; return Node<A>(x); }
};
#define NODE(A) \
extern "C" bool b_neq##A(u64 a, u64 b, u64 c, u64 d, u64 e, u64 f) { return Mk<A>::f(a,b,c) == Mk<A>::f(d,e,f); } \
extern "C" bool b_nne##A(u64 a, u64 b, u64 c, u64 d, u64 e, u64 f) { return Mk<A>::f(a,b,c) != Mk<A>::f(d,e,f); } \
extern "C" u64 b_nhash##A(u64 a, u64 b, u64 c) { return Mk<A>::f(a,b,c).hash(); } \
extern "C" bool b_nbr##A##_0(u64 a, u64 b, u64 c) { NodeId f = Mk<A>::f(a,b,c).branch[0]; return f == id(a) && f.getAttr() == id(a).getAttr(); } \
extern "C" bool b_nbr##A##_1(u64 a, u64 b, u64 c) { NodeId f = Mk<A>::f(a,b,c).branch[1]; return f == id(b) && f.getAttr() == id(b).getAttr(); } \
extern "C" bool b_n2##A##_0(u64 a, u64 b, u64 c) { NodeId f = Node<A>(id(a), id(b)).branch[0]; return f == id(a) && f.getAttr() == id(a).getAttr(); } \
extern "C" bool b_n2##A##_1(u64 a, u64 b, u64 c) { NodeId f = Node<A>(id(a), id(b)).branch[1]; return f == id(b) && f.getAttr() == id(b).getAttr(); } \
extern "C" bool b_n2##A##_l(u64 a, u64 b, u64 c) { NodeId f = Node<A>(id(a), id(b)).branch[A - 1]; return f == id(b) && f.getAttr() == id(b).getAttr(); } \
extern "C" bool b_nc##A(u64 a, u64 b, u64 c) { InitializedNode<A> f(Mk<A>::f(a,b,c)); Node<A> g = Mk<A>::f(a,b,c); \
  return same(f.branch[0], g.branch[0]) && same(f.branch[1], g.branch[1]) && same(f.branch[A-1], g.branch[A-1]); } \
extern "C" bool b_ni##A(u64 x) { InitializedNode<A> f; return blank(f.branch[0]) && blank(f.branch[1]) && blank(f.branch[A-1]); }
NODE(2)
NODE(3)
extern "C" {
int b_nbrow(int r, u64 c, int v) { return NodeBranchId(r, c, v).row; }
u64 b_nbcol(int r, u64 c, int v) { return NodeBranchId(r, c, v).col; }
int b_nbval(int r, u64 c, int v) { return NodeBranchId(r, c, v).val; }
}
