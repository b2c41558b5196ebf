// Most general clients of the spec combinators: any walk, any copy, any
// comparison a correct user of the spec interface can make.
#include <tdzdd/DdSpecOp.hpp>
#include "opaque.hpp"
using namespace tdzdd;
typedef vp::Opaque<1,2> A;
typedef vp::Opaque<2,2> B;
typedef vp::Opaque<3,2> C;
typedef vp::Opaque<4,3> T;

template<typename S>
inline void walk(S& s, void* p, int ar) {
    vp_area(p, s.datasize());
    vp_begin(p);
    int lv = s.get_root(p);
    vp_rooted(p, lv);
    while (lv > 0) {
        int b = vp_branch(ar);
        vp_pre(p, lv, b);
        lv = s.get_child(p, lv, b);
        vp_post(p, lv);
    }
    s.destruct(p);
    vp_end();
}

template<typename S>
inline void copywalk(S& s, void* p, void* q, int ar) {
    vp_area(p, s.datasize());
    vp_area(q, s.datasize());
    vp_begin(p);
    int lv = s.get_root(p);
    vp_rooted(p, lv);
    while (lv > 0) {
        if (vp_choice()) {
            s.get_copy(q, p);
            vp_copied(q, p);
            s.destruct(p);
            vp_raw(p);
            void* t = p; p = q; q = t;
        }
        int b = vp_branch(ar);
        vp_pre(p, lv, b);
        lv = s.get_child(p, lv, b);
        vp_post(p, lv);
    }
    s.destruct(p);
    vp_end();
}

template<typename S>
inline void pairwalk(S& s, void* p, void* q, int ar, int mode) {
    vp_area(p, s.datasize());
    vp_area(q, s.datasize());
    vp_begin(p);
    int lp = s.get_root(p);
    vp_rooted(p, lp);
    while (lp > 0 && vp_choice()) {
        int b = vp_branch(ar);
        vp_pre(p, lp, b);
        lp = s.get_child(p, lp, b);
        vp_post(p, lp);
    }
    if (lp > 0) {
        s.get_copy(q, p);
        vp_copied(q, p);
        int lq = lp;
        int b = vp_branch(ar);
        vp_pre(p, lp, b);
        lp = s.get_child(p, lp, b);
        vp_post(p, lp);
        b = vp_branch(ar);
        vp_pre(q, lq, b);
        lq = s.get_child(q, lq, b);
        vp_post(q, lq);
        if (lp == lq && lp > 0) {
            if (mode == 0) {
                int e = s.equal_to(p, q, lp);
                vp_eq(p, q, lp, e);
                if (e) vp_hash(p, q, s.hash_code(p, lp), s.hash_code(q, lq));
            }
            else {
                vp_pre_merge(p, q);
                int r = s.merge_states(p, q);
                vp_merged(p, q, r);
            }
        }
        s.destruct(q);
        if (lp > 0) {
            vp_level_end(lp);
            s.destructLevel(lp);
            vp_level_done(lp);
        }
    }
    s.destruct(p);
    vp_end();
}

#define CLIENT(NAME, AR, TYPE, PARAMS, ARGS) \
extern "C" void NAME##__walk PARAMS { TYPE s ARGS; walk(s, p, AR); } \
extern "C" void NAME##__copy PARAMS { TYPE s ARGS; copywalk(s, p, q, AR); } \
extern "C" void NAME##__pair PARAMS { TYPE s ARGS; pairwalk(s, p, q, AR, 0); } \
extern "C" void NAME##__merge PARAMS { TYPE s ARGS; pairwalk(s, p, q, AR, 1); } \
extern "C" void NAME##__spec PARAMS { TYPE s0 ARGS; TYPE s(s0); walk(s, p, AR); }

#define CLIENT3(NAME, AR, TYPE, PARAMS, ARGS) \
extern "C" void NAME##__walk PARAMS { TYPE s ARGS; walk(s, p, AR); } \
extern "C" void NAME##__copy PARAMS { TYPE s ARGS; copywalk(s, p, q, AR); } \
extern "C" void NAME##__spec PARAMS { TYPE s0 ARGS; TYPE s(s0); walk(s, p, AR); }

#define P2 (A const& a, B const& b, void* p, void* q)
#define P3 (A const& a, B const& b, C const& c, void* p, void* q)
typedef BddAnd<A,B> And2; typedef BddAnd<A,B,C> And3;
typedef BddOr<A,B> Or2; typedef BddOr<A,B,C> Or3;
typedef ZddUnion<A,B> Union2; typedef ZddUnion<A,B,C> Union3;
typedef ZddIntersection<A,B> Inter2; typedef ZddIntersection<A,B,C> Inter3;
CLIENT(and2, 2, And2, P2, (a,b))
CLIENT3(and3, 2, And3, P3, (a,b,c))
CLIENT(or2, 2, Or2, P2, (a,b))
CLIENT3(or3, 2, Or3, P3, (a,b,c))
CLIENT(union2, 2, Union2, P2, (a,b))
CLIENT3(union3, 2, Union3, P3, (a,b,c))
CLIENT(inter2, 2, Inter2, P2, (a,b))
CLIENT3(inter3, 2, Inter3, P3, (a,b,c))
typedef BddLookahead<A> BL2; typedef BddLookahead<T> BL3;
typedef ZddLookahead<A> ZL2; typedef ZddLookahead<T> ZL3;
typedef BddUnreduction<A> BU2; typedef BddUnreduction<T> BU3;
typedef ZddUnreduction<A> ZU2; typedef ZddUnreduction<T> ZU3;
CLIENT(bddlook2, 2, BL2, (A const& a, void* p, void* q), (a))
CLIENT(bddlook3, 3, BL3, (T const& a, void* p, void* q), (a))
CLIENT(zddlook2, 2, ZL2, (A const& a, void* p, void* q), (a))
CLIENT(zddlook3, 3, ZL3, (T const& a, void* p, void* q), (a))
CLIENT(bddunred2, 2, BU2, (A const& a, int numVars, void* p, void* q), (a, numVars))
CLIENT(bddunred3, 3, BU3, (T const& a, int numVars, void* p, void* q), (a, numVars))
CLIENT(zddunred2, 2, ZU2, (A const& a, int numVars, void* p, void* q), (a, numVars))
CLIENT(zddunred3, 3, ZU3, (T const& a, int numVars, void* p, void* q), (a, numVars))
// the user-visible factory functions must name the right combinator
extern "C" void f_and2 P2 { auto s = bddAnd(a, b); walk(s, p, 2); }
extern "C" void f_or2 P2 { auto s = bddOr(a, b); walk(s, p, 2); }
extern "C" void f_union2 P2 { auto s = zddUnion(a, b); walk(s, p, 2); }
extern "C" void f_inter2 P2 { auto s = zddIntersection(a, b); walk(s, p, 2); }
extern "C" void f_and3 P3 { auto s = bddAnd(a, b, c); walk(s, p, 2); }
extern "C" void f_or3 P3 { auto s = bddOr(a, b, c); walk(s, p, 2); }
extern "C" void f_union3 P3 { auto s = zddUnion(a, b, c); walk(s, p, 2); }
extern "C" void f_inter3 P3 { auto s = zddIntersection(a, b, c); walk(s, p, 2); }
extern "C" void f_bddlook2(A const& a, void* p) { auto s = bddLookahead(a); walk(s, p, 2); }
extern "C" void f_zddlook2(A const& a, void* p) { auto s = zddLookahead(a); walk(s, p, 2); }
extern "C" void f_bddunred2(A const& a, int numVars, void* p) { auto s = bddUnreduction(a, numVars); walk(s, p, 2); }
extern "C" void f_zddunred2(A const& a, int numVars, void* p) { auto s = zddUnreduction(a, numVars); walk(s, p, 2); }
