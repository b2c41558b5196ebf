// Clients for the breadth-first builders: one arbitrary level of each, and the initial step.
#include <vector>
#include <algorithm>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include "opaque.hpp"
#include <tdzdd/DdStructure.hpp>
using namespace tdzdd;
typedef vp::Opaque<1,2> S2;
typedef vp::Opaque<1,3> S3;
extern "C" {
void vp_level(int i);           // level i is about to be built; its work list holds arbitrary scheduled nodes
void vp_level_built(int i);
void vp_init(void* root);       // builder in an arbitrary reusable state
void vp_init_done(void* root, int n);
void vp_gone();                 // builder destroyed
#define SER(X, S, A) \
    void X##__level(S const& spec, NodeTableHandler<A>& h, int i) { { DdBuilder<S> b(spec, h); vp_level(i); b.construct(i); vp_level_built(i); } vp_gone(); } \
    void X##__init(S const& spec, NodeTableHandler<A>& h, NodeId& root) { { DdBuilder<S> b(spec, h); vp_init(&root); int n = b.initialize(root); vp_init_done(&root, n); } vp_gone(); }
#define SUB(X, S, A) \
    void X##__level(S const& spec, NodeTableHandler<A> const& in, NodeTableHandler<A>& h, int i) { { ZddSubsetter<S> b(in, spec, h); vp_level(i); b.subset(i); vp_level_built(i); } vp_gone(); } \
    void X##__init(S const& spec, NodeTableHandler<A> const& in, NodeTableHandler<A>& h, NodeId& root) { { ZddSubsetter<S> b(in, spec, h); vp_init(&root); int n = b.initialize(root); vp_init_done(&root, n); } vp_gone(); }
SER(ser2, S2, 2)
SER(ser3, S3, 3)
SUB(sub2, S2, 2)
SUB(sub3, S3, 3)
}
