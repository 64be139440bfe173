// Threads for harnesses: coroutines that switch at every operation on a mutex and wherever the harness yields. Which
// thread continues is a choice of the path, so all interleavings of these points are explored.
#ifndef VF_THREADS_H_
#define VF_THREADS_H_
#include "vf.h"
struct VfMutex { int owner = 0; };  // 0: free
struct VfThread {
  int id = 0;
  void (*fn)() = nullptr;
  bool done = false, waiting = false;
  VfMutex* mutex = nullptr;          // waits for this mutex,
  bool (*cond)(void*) = nullptr;     // and this condition under it
  void* arg = nullptr;
};
inline VfThread vf_threads[4];  // 1..
inline int vf_thread_count = 0, vf_thread_now = 0;
inline void vf_thread_main(void* p) {
  VfThread* t = static_cast<VfThread*>(p);
  t->fn();
  t->done = true;
  vf_thread_now = 0;
  vf_co_switch(0);
}
inline int vf_thread_start(void (*fn)()) {
  VfThread* t = &vf_threads[++vf_thread_count];
  t->fn = fn;
  t->id = vf_co_create(vf_thread_main, t);
  return t->id;
}
inline void vf_thread_yield() {
  if (vf_thread_now == 0) return;
  vf_thread_now = 0;
  vf_co_switch(0);
}
// Waits until the mutex is free and the condition holds, and takes it.
inline void vf_mutex_lock(VfMutex* m, bool (*cond)(void*) = nullptr, void* arg = nullptr) {
  int me = vf_thread_now;
  if (me == 0) {  // outside of any thread: before they start, or after they end
    vf_check(m->owner == 0 && (cond == nullptr || cond(arg)), "no thread waits for itself");
    m->owner = -1;
    return;
  }
  VfThread* t = &vf_threads[me];
  vf_check(m->owner != me, "a mutex is not locked twice");
  t->waiting = true; t->mutex = m; t->cond = cond; t->arg = arg;
  vf_thread_yield();
  t->waiting = false;
  m->owner = me;
}
inline void vf_mutex_unlock(VfMutex* m) {
  vf_check(m->owner == (vf_thread_now ? vf_thread_now : -1), "a mutex is unlocked by the thread that holds it");
  m->owner = 0;
  vf_thread_yield();
}
inline void vf_mutex_await(VfMutex* m, bool (*cond)(void*), void* arg) {
  vf_check(m->owner == (vf_thread_now ? vf_thread_now : -1), "a mutex is held when waiting for a condition");
  if (cond(arg)) return;
  m->owner = 0;
  vf_mutex_lock(m, cond, arg);
}
inline bool vf_thread_runnable(int i) {
  VfThread& t = vf_threads[i];
  if (t.done) return false;
  if (!t.waiting) return true;
  return t.mutex->owner == 0 && (t.cond == nullptr || t.cond(t.arg));
}
// Runs the threads until none can continue. A thread that could continue is interrupted at most so many times.
inline void vf_threads_run(int preemptions) {
  int last = 0;
  for (;;) {
    int can[4], n = 0;
    for (int i = 1; i <= vf_thread_count; i++) if (vf_thread_runnable(i)) can[n++] = i;
    if (n == 0) return;
    bool could = last != 0 && vf_thread_runnable(last);
    int next = n == 1 ? can[0] : could && preemptions <= 0 ? last : can[vf_choose("thread", 0, n - 1)];
    if (could && next != last) preemptions--;
    last = next;
    vf_thread_now = next;
    vf_co_switch(vf_threads[next].id);
  }
}
#endif
