// Reference counted objects live exactly as long as somebody holds a reference.
// OPTS: steps=6000000
// BOUND: histories of 10 (quick) or 16 (thorough) take/drop/reset operations in any order on one object; counts up to 70000 reached by taking references in bulk
// ASSUME: callers never drop more references than they hold
#include "mpact/sim/generic/ref_count.h"
#include "vf.h"
using mpact::sim::generic::ReferenceCount;
namespace {
struct Deleted : ReferenceCount { int* dtor; explicit Deleted(int* d) : dtor(d) {} ~Deleted() override { ++*dtor; } };
struct Recycled : ReferenceCount { int zeros = 0; void OnRefCountIsZero() override { zeros++; } };
}
VF_ENTRY(rc_delete) {
  long base = vf_heap_live();
  int dtor = 0, refs = 1;
  ReferenceCount* r = new Deleted(&dtor);
  vf_check(r->ref_count() == 1, "a new object has one reference");
  for (int i = 0; i < VF_N(10, 16) && refs; i++) {
    if (vf_choose("inc", 0, 1)) { r->IncRef(); refs++; } else { r->DecRef(); refs--; }
    vf_check(dtor == (refs == 0), "the object is destroyed exactly when the last reference is dropped");
    if (refs) vf_check(r->ref_count() == refs, "the reported count is the number of references held");
  }
  while (refs) { vf_check(dtor == 0, "not destroyed while referenced"); r->DecRef(); refs--; }
  vf_check(dtor == 1, "destroyed once");
  vf_check(vf_heap_live() == base, "memory is released");
  vf_reach("end");
}
VF_ENTRY(rc_recycle) {
  Recycled r; int refs = 1, zeros = 0;
  for (int i = 0; i < VF_N(8, 11); i++) {
    switch (vf_choose("op", 0, 2)) {
      case 0: r.IncRef(); refs++; break;
      case 1: if (!refs) vf_prune(); r.DecRef(); if (!--refs) zeros++; break;
      default: r.ResetCounts(); refs = 1; break;
    }
    vf_check(r.zeros == zeros, "the zero hook runs exactly when the count reaches zero");
    vf_check(r.ref_count() == refs, "the reported count is the number of references held");
  }
  vf_reach("end");
}
VF_ENTRY(rc_bulk) {
  Recycled r; const int n = vf_choose("n", 0, 2) == 0 ? 300 : vf_choose("m", 0, 1) ? 70000 : 33000;
  for (int i = 0; i < n; i++) r.IncRef();
  vf_check(r.ref_count() == n + 1 && r.zeros == 0, "many references");
  for (int i = 0; i < n; i++) { r.DecRef(); if (r.zeros) break; }
  vf_check(r.zeros == 0 && r.ref_count() == 1, "one reference is left");
  r.DecRef();
  vf_check(r.zeros == 1 && r.ref_count() == 0, "zero after the last drop");
  // Once recycled, or reset while referenced, the object has one reference again.
  r.ResetCounts();
  vf_check(r.ref_count() == 1, "one reference after a reset");
  int more = vf_choose("more", 0, 2) * 150, less = vf_choose("less", 0, 2) * 60;
  for (int i = 0; i < more; i++) r.IncRef();
  for (int i = 0; i < less && i < more; i++) r.DecRef();
  r.ResetCounts();
  vf_check(r.ref_count() == 1 && r.zeros == 1, "one reference after a reset");
  r.DecRef();
  vf_check(r.zeros == 2, "zero after the last drop");
}
