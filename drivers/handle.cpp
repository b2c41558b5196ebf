// Most general client of the shared node tables: values must behave like values.
#include <vector>
#include <algorithm>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include "opaque.hpp"
#include <tdzdd/DdStructure.hpp>
using namespace tdzdd;
extern "C" {
void vp_made(void const* h, void const* e, int n);   // h is a new table e of its own with n rows
void vp_same(void const* h, void const* o);          // h now holds what o holds
void vp_priv(void const* h, void const* e);          // h asked for its private table and got e; e is then written
void vp_renew(void const* h, void const* e, int n);  // h was re-initialised with n rows, e is its table, then written
void vp_dropped(void const* h);                      // h gave up one row
void vp_look(void const* h, void const* e);          // h's table is e
void vp_gone(void const* h);
void vp_end();
}
template<typename H>
static inline void look(H const& a) {
    vp_look(&a, &*a);
    vp_look(&a, a.operator->());
}
template<typename H>
static inline void mgc(int i) {
    {
        H a, b(i), c;
        vp_made(&a, &*a, 1); vp_made(&b, &*b, i); vp_made(&c, &*c, 1);
        look(a); look(b);
        while (vp_choice()) {
            switch (vp_choice()) {
            case 0: a = b; vp_same(&a, &b); break;
            case 1: b = a; vp_same(&b, &a); break;
            case 2: c = b; vp_same(&c, &b); break;
            case 3: a = a; vp_same(&a, &a); break;
            case 4: vp_priv(&a, &a.privateEntity()); break;
            case 5: vp_priv(&b, &b.privateEntity()); break;
            case 6: vp_renew(&a, &a.init(i), i); break;
            case 7: a.derefLevel(i); vp_dropped(&a); break;
            case 8: {
                H t(a); vp_same(&t, &a);
                if (vp_choice()) vp_priv(&a, &a.privateEntity());
                else if (vp_choice()) vp_priv(&t, &t.privateEntity());
                look(t);
                if (vp_choice()) { b = t; vp_same(&b, &t); }
                else if (vp_choice()) vp_renew(&t, &t.init(), 1);
                look(a);
                vp_gone(&t);
                break;
            }
            default: break;
            }
            look(a); look(b); look(c);
        }
        vp_gone(&a); vp_gone(&b); vp_gone(&c);
    }
    vp_end();
}
extern "C" {
void h2__mgc(int i) { mgc<NodeTableHandler<2> >(i); }
void h3__mgc(int i) { mgc<NodeTableHandler<3> >(i); }
}
