// Clients for the algorithms that walk over whole node tables.
#include <vector>
#include <algorithm>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include "opaque.hpp"
#include <tdzdd/DdStructure.hpp>
using namespace tdzdd;
extern "C" {
void vp_init(void* e, int level);
void vp_who(void const* e);
void vp_terminal(void* v, int id);
void vp_node2(void* v, int level, void const* v0, int l0, void const* v1, int l1);
void vp_node3(void* v, int level, void const* v0, int l0, void const* v1, int l1, void const* v2, int l2);
long vp_value(void const* v);
void vp_drop(int level);
void vp_result(long r);
}
namespace vp {
struct Val { long a, b; };
template<int AR>
struct Ev: public DdEval<Ev<AR>,Val,long> {
    long dummy;
    Ev(Ev const&);
    ~Ev();
    #ifdef VP_MP
    bool isThreadSafe() const { return true; }
#else
    bool isThreadSafe() const { return false; }
#endif
    bool showMessages() const { return false; }
    void initialize(int level) { vp_init(this, level); }
    void evalTerminal(Val& v, int id) { vp_who(this); vp_terminal(&v, id); }
    void evalNode(Val& v, int level, DdValues<Val,AR> const& t) {
        vp_who(this);
        if (AR == 2) vp_node2(&v, level, &t.get(0), t.getLevel(0), &t.get(1), t.getLevel(1));
        else vp_node3(&v, level, &t.get(0), t.getLevel(0), &t.get(1), t.getLevel(1), &t.get(AR - 1), t.getLevel(AR - 1));
    }
    long getValue(Val const& v) { vp_who(this); return vp_value(&v); }
    void destructLevel(int i) { vp_drop(i); }
};
}
extern "C" {
void eval2__run(DdStructure<2> const& d, vp::Ev<2> const& e) { vp_result(d.evaluate(e)); }
void eval3__run(DdStructure<3> const& d, vp::Ev<3> const& e) { vp_result(d.evaluate(e)); }
}
#include <tdzdd/dd/DdSweeper.hpp>
extern "C" {
void vp_havoc(void* s);
void vp_done(void* s);
void swp2__upd(NodeTableEntity<2>& e, MyVector<NodeBranchId>& ones, NodeId& root, int cur, int child, size_t n) {
    DdSweeper<2> s(e, ones); s.setRoot(root); vp_havoc(&s); s.update(cur, child, n); vp_done(&s);
}
void swp3__upd(NodeTableEntity<3>& e, MyVector<NodeBranchId>& ones, NodeId& root, int cur, int child, size_t n) {
    DdSweeper<3> s(e, ones); s.setRoot(root); vp_havoc(&s); s.update(cur, child, n); vp_done(&s);
}
void swp2__bare(NodeTableEntity<2>& e, NodeId& root, int cur, int child, size_t n) {
    DdSweeper<2> s(e); s.setRoot(root); vp_havoc(&s); s.update(cur, child, n); vp_done(&s);
}
extern unsigned long const vp_nbi_size = sizeof(NodeBranchId);
extern unsigned long const vp_nbi_row = offsetof(NodeBranchId, row);
extern unsigned long const vp_nbi_col = offsetof(NodeBranchId, col);
extern unsigned long const vp_nbi_val = offsetof(NodeBranchId, val);
}
extern "C" {
void vp_lower(MyVector<int> const* p, int level);
void vp_higher(MyVector<int> const* p, int level);
void idx2__run(NodeTableEntity<2>& e, int k) { vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); e.deleteIndex(); vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); }
void idx3__run(NodeTableEntity<3>& e, int k) { vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); e.deleteIndex(); vp_higher(&e.higherLevels(k), k); vp_lower(&e.lowerLevels(k), k); }
}
#ifdef VP_MP
extern "C" {
void idx2__mp(NodeTableEntity<2>& e, int k) { vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); e.deleteIndex(); e.makeIndex(true); vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); }
void idx3__mp(NodeTableEntity<3>& e, int k) { vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); e.deleteIndex(); e.makeIndex(true); vp_lower(&e.lowerLevels(k), k); vp_higher(&e.higherLevels(k), k); }
}
#endif
