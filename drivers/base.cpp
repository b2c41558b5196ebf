// Most general clients of the spec base classes.  The user's spec functions and
// the user's state class are declared and left undefined.
#include <tdzdd/DdSpec.hpp>
using namespace tdzdd;
namespace vp {
// a state class with observable lifetime; 24 bytes, so that raw copies are possible to write
struct Obj { long a; int b; short c;
    Obj(); Obj(Obj const&); Obj& operator=(Obj const&); ~Obj();
    bool operator==(Obj const&) const; };
std::ostream& operator<<(std::ostream&, Obj const&);
struct Pod12 { int a, b, c; };
struct Pod16 { long a; int b, c; };
struct Pod6 { short a, b, c; };
struct Pod3 { char a, b, c; };

// DdSpec, everything user visible overridden at the *AtLevel granularity
struct D1: DdSpec<D1,Obj,2> {
    long cfg;
    int getRoot(Obj&); int getChild(Obj&, int, int);
    int mergeStates(Obj&, Obj&);
    size_t hashCodeAtLevel(Obj const&, int) const; bool equalToAtLevel(Obj const&, Obj const&, int) const;
};
// level-independent hooks, default equality (operator==)
struct D2: DdSpec<D2,Obj,3> {
    long cfg;
    int getRoot(Obj&); int getChild(Obj&, int, int);
    size_t hashCode(Obj const&) const;
};
struct D3: DdSpec<D3,int,2> { long cfg; int getRoot(int&); int getChild(int&, int, int); };
#define PODSPEC(NAME, T) struct NAME: DdSpec<NAME,T,2> { long cfg; int getRoot(T&); int getChild(T&, int, int); \
    bool equalTo(T const& x, T const& y) const { return this->rawEqualTo(x, y); } };
PODSPEC(D4, Pod12) PODSPEC(D5, Pod16) PODSPEC(D6, Pod6) PODSPEC(D7, Pod3)

#define ARR(NAME, T) struct NAME: PodArrayDdSpec<NAME,T,2> { NAME(int n) { this->setArraySize(n); } \
    int getRoot(T*); int getChild(T*, int, int); };
ARR(A1, long) ARR(A2, int) ARR(A3, short) ARR(A4, char) ARR(A5, Pod12)
struct A6: PodArrayDdSpec<A6,int,3> { A6(int n) { this->setArraySize(n); }
    int getRoot(int*); int getChild(int*, int, int); int mergeStates(int*, int*);
    size_t hashCodeAtLevel(int const*, int) const; bool equalToAtLevel(int const*, int const*, int) const; };

struct H1: HybridDdSpec<H1,Obj,int,2> { H1(int n) { this->setArraySize(n); }
    int getRoot(Obj&, int*); int getChild(Obj&, int*, int, int); int mergeStates(Obj&, int*, Obj&, int*);
    size_t hashCodeAtLevel(Obj const&, int) const; bool equalToAtLevel(Obj const&, Obj const&, int) const; };
struct H2: HybridDdSpec<H2,Obj,short,3> { H2(int n) { this->setArraySize(n); }
    int getRoot(Obj&, short*); int getChild(Obj&, short*, int, int);
    size_t hashCode(Obj const&) const; bool equalTo(Obj const&, Obj const&) const; };
#define HYB(NAME, B, TS, TA) struct NAME: B<NAME,TS,TA,2> { NAME(int n) { this->setArraySize(n); } \
    int getRoot(TS&, TA*); int getChild(TS&, TA*, int, int); };
HYB(H3, HybridDdSpec, int, char) HYB(H4, HybridDdSpec, Pod12, int) HYB(H5, PodHybridDdSpec, Pod3, long)
struct L1: StatelessDdSpec<L1,2> { long cfg; int getRoot(); int getChild(int, int); };
}
extern "C" {
void* vp_buf(int which);             // a raw buffer
int vp_branch(int arity);
int vp_choice();
void vp_area(void* p, int bytes);
void vp_begin(int op, void* p, int level, int value);
void vp_done(int op, void* p, int result);      // 0 root 1 child
void vp_copy(void* q, void* p);      // about to get_copy(q,p)
void vp_copied(void* q, void* p);
void vp_same(void* q, void* p);      // from here on q has exactly the contents of p
void vp_fill(void* p);               // p holds an arbitrary live state
void vp_cmp(void* p, void* q, int level);
void vp_compared(void* p, void* q, int level, int result);
void vp_hash(void* p, int level);
void vp_hashed(void* p, size_t h);
void vp_mergebegin(void* p, void* q);
void vp_merged(void* p, void* q, int result);
void vp_dead(void* p);
}

template<typename S> inline void life(S& s) {
    void* p = vp_buf(0); void* q = vp_buf(1);
    vp_area(p, s.datasize()); vp_area(q, s.datasize());
    vp_begin(0, p, 0, 0);
    int lv = s.get_root(p);
    vp_done(0, p, lv);
    while (lv > 0) {
        if (vp_choice()) {
            vp_copy(q, p);
            s.get_copy(q, p);
            vp_copied(q, p);
            s.destruct(p);
            vp_dead(p);
            void* t = p; p = q; q = t;
        }
        int b = vp_branch(S::ARITY);
        vp_begin(1, p, lv, b);
        lv = s.get_child(p, lv, b);
        vp_done(1, p, lv);
    }
    s.destruct(p);
    vp_dead(p);
}
template<typename S> inline void comp(S& s, int lv, bool same) {
    void* p = vp_buf(0); void* q = vp_buf(1);
    vp_area(p, s.datasize()); vp_area(q, s.datasize());
    vp_begin(0, p, 0, 0);
    lv = s.get_root(p);
    if (lv <= 0) return;
    if (same) {
        vp_copy(q, p);
        s.get_copy(q, p);
        vp_copied(q, p);
        vp_same(q, p);
    }
    else vp_fill(q);
    vp_cmp(p, q, lv);
    bool r = s.equal_to(p, q, lv);
    vp_compared(p, q, lv, r);
    vp_hash(q, lv);
    size_t h = s.hash_code(q, lv);
    vp_hashed(q, h);
    vp_mergebegin(p, q);
    int m = s.merge_states(p, q);
    vp_merged(p, q, m);
}
extern "C" {
#define CL(X, NARGS) \
void X##__life NARGS; void X##__diff NARGS; void X##__same NARGS;
#define PLAIN(X) void X##__life(vp::X& s) { life(s); } void X##__diff(vp::X& s) { comp(s, 0, false); } \
    void X##__same(vp::X& s) { comp(s, 0, true); } \
    void X##__cpy(vp::X& s) { vp::X t(s); life(t); }
#define SIZED(X) void X##__life(int n) { vp::X s(n); life(s); } void X##__diff(int n) { vp::X s(n); comp(s, 0, false); } \
    void X##__same(int n) { vp::X s(n); comp(s, 0, true); } \
    void X##__cpy(int n) { vp::X s(n); vp::X t(s); life(t); }
PLAIN(D1) PLAIN(D2) PLAIN(D3) PLAIN(D4) PLAIN(D5) PLAIN(D6) PLAIN(D7) PLAIN(L1)
SIZED(A1) SIZED(A2) SIZED(A3) SIZED(A4) SIZED(A5) SIZED(A6)
SIZED(H1) SIZED(H2) SIZED(H3) SIZED(H4) SIZED(H5)
}
