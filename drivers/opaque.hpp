// Opaque spec: every operation a library algorithm may invoke on a user spec is
// declared and left undefined, so the analysed IR contains one call per use.
#pragma once
#include <tdzdd/DdSpec.hpp>
namespace vp {
template<int TAG, int AR>
struct Opaque: public tdzdd::DdSpecBase<Opaque<TAG,AR>,AR> {
    long dummy;
    Opaque();
    Opaque(Opaque const&);
    Opaque& operator=(Opaque const&);
    ~Opaque();
    int datasize() const;
    int get_root(void* p);
    int get_child(void* p, int level, int value);
    void get_copy(void* to, void const* from);
    int merge_states(void* p1, void* p2);
    void destruct(void* p);
    void destructLevel(int level);
    size_t hash_code(void const* p, int level) const;
    bool equal_to(void const* p, void const* q, int level) const;
    void print_state(std::ostream& os, void const* p, int level) const;
    void printLevel(std::ostream& os, int level) const;
    void print_level(std::ostream& os, int level) const;
};
}
extern "C" {
int vp_branch(int arity);            // any branch value 0..arity-1
int vp_choice();                     // any int
void vp_area(void* p, int bytes);    // p is a raw state buffer of that many bytes
void vp_raw(void* p);                // the buffer holds no state any more
void vp_begin(void* p);              // about to call get_root on p
void vp_rooted(void* p, int result);
void vp_pre(void* p, int level, int value);
void vp_post(void* p, int result);
void vp_copied(void* q, void const* p);
void vp_eq(void* p, void* q, int level, int result);
void vp_hash(void* p, void* q, size_t h1, size_t h2);
void vp_pre_merge(void* p, void* q);
void vp_merged(void* p, void* q, int result);
void vp_end();                       // every state must have been destructed
void vp_level_end(int level);
void vp_level_done(int level);
}
