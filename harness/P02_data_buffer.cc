// Data buffers: reference counting, recycling, contents and write-back.
// SRC: generic/data_buffer.cc
// OPTS: steps=3000000
// BOUND: 14 sizes of 0 to 5001 bytes for views, copies and reuse
// BOUND: histories of 4 (quick) or 6 (thorough) allocate/copy/ref/unref/clear operations over at most 6 buffers, sizes 1, 8, 4096, 4097 and 5000 bytes
// BOUND: 40 (quick) or 150 (thorough) buffers of one size alive at once, three release orders
// BOUND: element access over 16-byte buffers with unconstrained contents, indices and values
// BOUND: write-back latencies 0..9, three submissions
// ASSUME: the destination of a buffer is set (possibly to null) before it is submitted
#include <cstring>
#include "mpact/sim/generic/data_buffer.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
const int kSizes[] = {8, 4097, 4096, 5000, 1};
struct Slot { DataBuffer* db = nullptr; int refs = 0; int size = 0; uint8_t first = 0, last = 0; };
struct World {
  DataBufferFactory* f = new DataBufferFactory();
  Slot s[8]; int n = 0;
  void Check(int i) {
    vf_check(s[i].db->ref_count() == s[i].refs, "reference count matches the references held");
    vf_check(s[i].db->size<uint8_t>() == s[i].size, "buffer has the requested size");
    vf_check(s[i].db->Get<uint8_t>(0) == s[i].first, "contents survive while referenced");
    vf_check(s[i].db->Get<uint8_t>(s[i].size - 1) == s[i].last, "contents survive while referenced");
  }
  void Insert(DataBuffer* db, int size) {
    for (int i = 0; i < n; i++) if (s[i].refs) vf_check(s[i].db != db, "a referenced buffer is never handed out again");
    for (int i = 0; i < n; i++) if (s[i].refs) vf_check(s[i].db->raw_ptr() != db->raw_ptr(), "storage is not shared");
    s[n].db = db; s[n].refs = 1; s[n].size = size;
    n++;
    vf_check(db->ref_count() == 1, "a new buffer has one reference");
    vf_check(db->size<uint8_t>() == size, "buffer has the requested size");
  }
  void Fill(int i) {
    s[i].first = vf_u8("first"); s[i].last = s[i].first;
    s[i].db->Set<uint8_t>(0, s[i].first);
    if (s[i].size > 1) { s[i].last = vf_u8("last"); s[i].db->Set<uint8_t>(s[i].size - 1, s[i].last); }
  }
  int Pick() {
    int live[8], k = 0;
    for (int i = 0; i < n; i++) if (s[i].refs) live[k++] = i;
    if (!k) vf_prune();
    return live[k == 1 ? 0 : vf_choose("which", 0, k - 1)];
  }
  void Op(int nsizes) {
    switch (vf_choose("op", 0, 4)) {
      case 0: { int sz = kSizes[vf_choose("size", 0, nsizes - 1)]; Insert(f->Allocate(sz), sz); Fill(n - 1); break; }
      case 1: { int i = Pick(); s[i].db->IncRef(); s[i].refs++; break; }
      case 2: { int i = Pick(); s[i].db->DecRef(); s[i].refs--; break; }
      case 3: {
        int i = Pick();
        DataBuffer* c = f->MakeCopyOf(s[i].db);
        vf_check(std::memcmp(c->raw_ptr(), s[i].db->raw_ptr(), 1) == 0 && c->Get<uint8_t>(s[i].size - 1) == s[i].last, "a copy has the same contents");
        Insert(c, s[i].size);
        Fill(n - 1);
        break;
      }
      default: f->Clear(); break;
    }
    for (int i = 0; i < n; i++) if (s[i].refs) Check(i);
  }
};
void History(int ops, int nsizes) {
  long base = vf_heap_live();
  {
    World w;
    int sz = kSizes[vf_choose("size", 0, nsizes - 1)];
    w.Insert(w.f->Allocate(sz), sz); w.Fill(0);
    for (int i = 0; i < ops; i++) w.Op(nsizes);
    for (int i = 0; i < w.n; i++) while (w.s[i].refs) { w.s[i].db->DecRef(); w.s[i].refs--; }
    delete w.f;
  }
  vf_check(vf_heap_live() == base, "every buffer is freed once all references and the factory are gone");
  vf_reach("history");
}
}  // namespace
VF_ENTRY(db_history_mixed) { History(VF_N(3, 4), 2); }
VF_ENTRY(db_history_short) { kSizes[0] == 8 ? History(VF_N(4, 5), 1) : History(1, 1); }
VF_ENTRY(db_history_sizes) { History(2, 5); }

VF_ENTRY(db_empty) {
  long base = vf_heap_live();
  {
    DataBufferFactory f;
    DataBuffer* a = f.Allocate(0);
    DataBuffer* b = f.Allocate<uint64_t>(0);
    vf_check(a != b && a->size<uint8_t>() == 0 && b->size<uint64_t>() == 0 && a->ref_count() == 1, "empty buffers are buffers");
    DataBuffer* c = f.MakeCopyOf(a);
    a->DecRef(); c->DecRef();
    if (vf_choose("clear", 0, 1)) f.Clear();
    b->DecRef();
  }
  vf_check(vf_heap_live() == base, "empty buffers are freed");
}
// Many buffers of a size at once, released in different orders and handed out again.
VF_ENTRY(db_many) {
  long base = vf_heap_live();
  {
    const int kN = VF_N(40, 150);
    DataBufferFactory* f = new DataBufferFactory();
    int size = kSizes[vf_choose("size", 0, 4)];
    uint8_t key = vf_u8("key");
    std::vector<DataBuffer*> a(kN), b(kN);
    for (int i = 0; i < kN; i++) { a[i] = f->Allocate(size); a[i]->Set<uint8_t>(0, key + i); if (i % 3 == 0) a[i]->IncRef(); }
    int order = vf_choose("order", 0, 2);
    for (int i = 0; i < kN; i++) a[order == 0 ? i : order == 1 ? kN - 1 - i : i * 7 % kN]->DecRef();
    for (int i = 0; i < kN; i++) if (i % 3 == 0) vf_check(a[i]->ref_count() == 1 && a[i]->Get<uint8_t>(0) == (uint8_t)(key + i) && a[i]->size<uint8_t>() == size, "held buffers are untouched by the release of others");
    if (vf_choose("clear", 0, 1)) f->Clear();
    for (int i = 0; i < kN; i++) { b[i] = f->Allocate(size); b[i]->Set<uint8_t>(size - 1, key - 1 - i); }
    for (int i = 0; i < kN; i++) {
      vf_check(b[i]->ref_count() == 1 && b[i]->size<uint8_t>() == size && b[i]->Get<uint8_t>(size - 1) == (uint8_t)(key - 1 - i), "every buffer handed out is separate and has the requested size");
      if (i % 3 == 0) vf_check(a[i]->ref_count() == 1 && a[i]->Get<uint8_t>(0) == (uint8_t)(key + i), "held buffers are not handed out again");
    }
    for (int i = 0; i < kN; i++) { b[i]->DecRef(); if (i % 3 == 0) a[i]->DecRef(); }
    delete f;
  }
  vf_check(vf_heap_live() == base, "every buffer is freed");
  vf_reach("many");
}
template <typename T>
static void Elements() {
  DataBufferFactory* f = new DataBufferFactory();
  DataBuffer* db = f->Allocate<T>(16 / sizeof(T));
  vf_check(db->size<uint8_t>() == 16 && db->size<T>() == (int)(16 / sizeof(T)), "size in elements");
  uint8_t init[16];
  for (auto& b : init) b = vf_u8("byte");
  db->CopyFrom(init);
  unsigned i = vf_range("index", 0, 16 / sizeof(T) - 1), j = vf_range("other", 0, 16 / sizeof(T) - 1);
  T v = (T)vf_u64("value");
  T before; std::memcpy(&before, init + j * sizeof(T), sizeof(T));
  vf_check(db->Get<T>(j) == before, "typed read returns the stored bytes");
  db->Set<T>(i, v);
  vf_check(db->Get<T>(i) == v, "an element reads back what was written");
  vf_check(i == j || db->Get<T>(j) == before, "writing an element leaves the others unchanged");
  uint8_t out[16];
  db->CopyTo(out);
  unsigned k = vf_range("byteindex", 0, 15);
  uint8_t expect = (k / sizeof(T) == i) ? (uint8_t)((uint64_t)(typename std::make_unsigned<T>::type)v >> (8 * (k % sizeof(T)))) : init[k];
  vf_check(out[k] == expect, "elements are laid out consecutively, low byte first");
  DataBuffer* c = f->MakeCopyOf(db);
  vf_check(c->Get<T>(j) == db->Get<T>(j), "copy equals the original");
  c->Set<T>(j, (T)(v + 1));
  vf_check(db->Get<T>(i) == v, "copy is independent of the original");
  T vals[16 / sizeof(T)];
  for (auto& x : vals) x = (T)vf_u64("span");
  db->Set<T>(absl::Span<const T>(vals, 16 / sizeof(T)));
  vf_check(db->Get<T>()[j] == vals[j] && db->Get<T>().size() == 16 / sizeof(T), "span write and span read agree");
  using U = typename std::make_unsigned<T>::type;
  auto sized = db->template Get<(int)sizeof(T)>();
  vf_check(sized.size() == 16 / sizeof(T) && sized[j] == (U)vals[j] && (void*)sized.data() == db->raw_ptr(), "the accessor by element size reads the same elements");
  c->CopyFrom(db);
  vf_check(c->Get<T>(j) == vals[j] && db->Get<T>(j) == vals[j], "copying from a buffer takes over its contents");
  // A shorter span only writes its own elements.
  T part[16 / sizeof(T)];
  for (auto& x : part) x = (T)vf_u64("part");
  unsigned len = vf_choose("len", 0, 16 / sizeof(T));
  db->Set<T>(absl::Span<const T>(part, len));
  vf_check(db->Get<T>(j) == (j < len ? part[j] : vals[j]), "a span write changes exactly the elements of the span");
  vf_check(c->Get<T>(j) == vals[j], "a copied buffer is independent of its source");
  vf_observe("elem", (uint64_t)db->Get<T>(0));
}
VF_ENTRY(db_elem8) { Elements<uint8_t>(); }
VF_ENTRY(db_elem16) { Elements<int16_t>(); }
VF_ENTRY(db_elem32) { Elements<uint32_t>(); }
VF_ENTRY(db_elem64) { Elements<int64_t>(); }

namespace {
struct Dest : DataBufferDestination {
  DataBuffer* cur = nullptr; int sets = 0; int at = -1; int* now; uint64_t last = 0;
  void SetDataBuffer(DataBuffer* db) override { if (cur) cur->DecRef(); cur = db; db->IncRef(); sets++; at = *now; last = db->Get<uint64_t>(0); }
};
}
VF_ENTRY(db_submit) {
  long base = vf_heap_live();
  {
    int now = 0;
    DataBufferFactory* f = new DataBufferFactory();
    DataBufferDelayLine* dl = new DataBufferDelayLine(4);
    const int N = 2;
    Dest d[3];
    int due[3], issued[3]; uint64_t val[3]; DataBuffer* dbs[3]; bool held[3], null[3];
    for (int i = 0; i < N; i++) {
      d[i].now = &now;
      int c = vf_choose("cycles", 0, VF_N(1, 3));
      for (int k = 0; k < c; k++) { now++; dl->Advance(); }
      DataBuffer* db = f->Allocate<uint64_t>(1);
      dbs[i] = db;
      for (int k = 0; k < i; k++) if (d[k].cur || held[k] || (!null[k] && due[k] > now)) vf_check(dbs[k] != db, "a buffer waiting for write-back is not handed out");
      val[i] = vf_u64("value");
      int lat = vf_choose("latency", 0, VF_N(5, 9));
      issued[i] = now;
      due[i] = now + lat;
      held[i] = i ? false : vf_choose("hold", 0, 1);
      if (held[i]) db->IncRef();
      null[i] = vf_choose("null_dest", 0, 1);
      db->set_destination(null[i] ? nullptr : &d[i]);
      db->set_delay_line(dl);
      db->set_latency(lat);
      if (i == 1 && vf_choose("how", 0, 1)) db->SetSubmit<uint64_t>(0, val[i]);
      else { db->Set<uint64_t>(0, val[i]); db->Submit(lat); }
    }
    for (int i = 0; i < N; i++) if (due[i] > now) vf_check(d[i].sets == 0, "nothing is written back early");
    while (!dl->IsEmpty()) { now++; dl->Advance(); }
    for (int i = 0; i < N; i++) {
      vf_check(d[i].sets == (null[i] ? 0 : 1), "a buffer with a destination is written back exactly once");
      if (d[i].sets) {
        vf_check(d[i].at == due[i], "write-back happens exactly after the latency");
        vf_check(d[i].last == val[i], "write-back delivers the submitted value");
        vf_check(d[i].cur->ref_count() == 1 + held[i], "destination holds the only remaining reference");
        d[i].cur->DecRef();
      } else if (held[i]) vf_check(dbs[i]->ref_count() == 1, "a discarded buffer is released");
      if (held[i]) dbs[i]->DecRef();
    }
    delete dl;
    delete f;
    vf_reach("submitted");
  }
  vf_check(vf_heap_live() == base, "all buffers are freed");
}
// Every submitting call writes the values it is given and uses the latency of the buffer.
template <typename T>
static void SubmitForms() {
  int now = 0;
  DataBufferFactory* f = new DataBufferFactory();
  DataBufferDelayLine* dl = new DataBufferDelayLine(4);
  Dest d; d.now = &now;
  const int K = 16 / sizeof(T);
  T init[K], vals[K];
  for (auto& x : init) x = (T)vf_u64("init");
  for (auto& x : vals) x = (T)vf_u64("vals");
  DataBuffer* db = f->Allocate<T>(K);
  db->CopyFrom((const uint8_t*)init);
  db->set_destination(&d); db->set_delay_line(dl);
  int lat = vf_choose("latency", 0, 3);
  db->set_latency(lat);
  vf_check(db->latency() == lat, "latency reads back");
  unsigned len = K, at = 0;
  int form = vf_choose("form", 0, 3);
  switch (form) {
    case 0: len = vf_choose("len", 0, K); db->SetSubmit<T>(absl::Span<const T>(vals, len)); break;
    case 1: at = vf_choose("at", 0, K - 1); db->SetSubmit<T>(at, vals[at]); break;
    case 2: db->Set<T>(absl::Span<const T>(vals, K)); db->Submit(); break;
    default: db->Set<T>(absl::Span<const T>(vals, K)); db->set_latency(9); db->Submit(lat); break;
  }
  for (int t = 0; t < 5; t++) {
    vf_check(d.sets == (now >= lat ? 1 : 0), "the buffer is written back exactly when its latency has passed");
    now++; dl->Advance();
  }
  vf_check(d.sets == 1 && d.at == lat && d.cur == db && db->ref_count() == 1, "written back once");
  unsigned j = vf_range("which", 0, K - 1);
  bool written = form == 1 ? j == at : j < len;
  vf_check(d.cur->Get<T>(j) == (written ? vals[j] : init[j]), "the buffer carries the submitted values");
}
VF_ENTRY(db_forms8) { SubmitForms<uint8_t>(); }
VF_ENTRY(db_forms16) { SubmitForms<int16_t>(); }
VF_ENTRY(db_forms32) { SubmitForms<uint32_t>(); }
VF_ENTRY(db_forms64) { SubmitForms<int64_t>(); }
// A delay line holding buffers that are still in flight releases them when it grows or is destroyed.
VF_ENTRY(db_inflight) {
  long base = vf_heap_live();
  {
    int now = 0;
    DataBufferFactory* f = new DataBufferFactory();
    DataBufferDelayLine* dl = new DataBufferDelayLine(2);
    Dest d; d.now = &now;
    int pre = vf_choose("pre", 0, 2);
    for (int i = 0; i < pre; i++) dl->Advance();
    DataBuffer* db[3]; int lat[3];
    for (int i = 0; i < 3; i++) {
      db[i] = f->Allocate<uint64_t>(1);
      lat[i] = vf_choose("latency", 1, VF_N(5, 9));
      db[i]->set_destination(&d); db[i]->set_delay_line(dl); db[i]->Set<uint64_t>(0, i);
      db[i]->Submit(lat[i]);
      for (int k = 0; k <= i; k++) vf_check(db[k]->ref_count() == 1, "an in-flight buffer is held exactly once");
    }
    int adv = vf_choose("advance", 0, 3);
    for (int i = 0; i < adv; i++) { now++; dl->Advance(); }
    int want = -1, best = -1;
    for (int i = 0; i < 3; i++) if (lat[i] <= adv && lat[i] >= best) { best = lat[i]; want = i; }
    if (want >= 0) vf_check(d.cur == db[want] && d.last == (uint64_t)want, "the latest write-back determines the value");
    else vf_check(d.cur == nullptr, "no early write-back");
    delete dl;
    if (d.cur) { vf_check(d.cur->ref_count() == 1, "destination holds one reference"); d.cur->DecRef(); }
    delete f;
  }
  vf_check(vf_heap_live() == base, "all buffers are freed");
}
// Sizes that are not a multiple of the element, and large buffers.
VF_ENTRY(db_sizes) {
  static const int kLen[] = {0, 1, 2, 3, 5, 7, 9, 12, 15, 17, 4095, 4096, 4097, 5001};
  DataBufferFactory* f = new DataBufferFactory;
  int n = kLen[vf_choose("size", 0, 13)];
  DataBuffer* db = f->Allocate(n);
  vf_check(db->size<uint8_t>() == n && db->size<uint16_t>() == n / 2 && db->size<uint32_t>() == n / 4 && db->size<uint64_t>() == n / 8, "the number of whole elements");
  vf_check((int)db->Get<uint8_t>().size() == n && (int)db->Get<uint16_t>().size() == n / 2 && (int)db->Get<uint32_t>().size() == n / 4 && (int)db->Get<uint64_t>().size() == n / 8, "a view has the whole elements");
  vf_check((int)db->Get<1>().size() == n && (int)db->Get<2>().size() == n / 2 && (int)db->Get<4>().size() == n / 4 && (int)db->Get<8>().size() == n / 8, "a view has the whole elements");
  uint8_t* bytes = new uint8_t[n + 1]; uint8_t* back = new uint8_t[n + 1];
  static const int kAt[] = {0, 1, 6, 7, 8, 11, 14, 16, 63, 64, 4094, 4095, 4096, 5000};
  for (int i = 0; i < n; i++) bytes[i] = (uint8_t)(i * 37 + 11);
  for (int k = 0; k < 14; k++) if (kAt[k] < n) bytes[kAt[k]] = vf_u8("byte");
  back[n] = 0x5a;
  db->CopyFrom(bytes);
  DataBuffer* c = f->MakeCopyOf(db);
  DataBuffer* d = f->Allocate(n);
  d->CopyFrom(c);
  vf_check(c != db && d != db && c != d, "copies are buffers of their own");
  DataBuffer* who = vf_choose("who", 0, 1) ? d : db;
  who->CopyTo(back);
  bool same = back[n] == 0x5a;
  for (int i = 0; i < n; i++) same &= back[i] == bytes[i];
  vf_check(same, "a copy has every byte and nothing more");
  same = true;
  for (int i = 0; i < n; i++) same &= c->Get<uint8_t>(i) == bytes[i];
  vf_check(same, "a copy has every byte");
  db->DecRef(); c->DecRef(); d->DecRef();
  // Storage does not grow when buffers are used again and again.
  for (int i = 0; i < 3; i++) { DataBuffer* x = f->Allocate(n); DataBuffer* y = f->Allocate(n); vf_check(x != y, "two buffers"); x->DecRef(); y->DecRef(); }
  long live = vf_heap_live();
  for (int i = 0; i < 8; i++) { DataBuffer* x = f->Allocate(n); vf_check(x->ref_count() == 1 && x->size<uint8_t>() == n, "a buffer of the size"); x->DecRef(); }
  vf_check(vf_heap_live() <= live, "released buffers are used again");
  vf_reach("sizes");
}
