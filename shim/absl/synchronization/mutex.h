// Single-threaded stand-in; with VF_THREADS, one for the threads of harness/vf_threads.h.
#ifndef SHIM_ABSL_MUTEX_H_
#define SHIM_ABSL_MUTEX_H_
#include "absl/base/thread_annotations.h"
#ifdef VF_THREADS
#include "vf_threads.h"
#endif
namespace absl {
class Condition {
 public:
  explicit Condition(bool (*f)()) : call_([](void* p) { return reinterpret_cast<bool (*)()>(p)(); }), arg_(reinterpret_cast<void*>(f)) {}
  explicit Condition(const bool* c) : call_([](void* p) { return *static_cast<const bool*>(p); }), arg_(const_cast<bool*>(c)) {}
  template <typename T> Condition(bool (*f)(T*), T* arg) : fn_(reinterpret_cast<void (*)()>(f)), targ_(const_cast<void*>(static_cast<const void*>(arg))) {
    call_ = [](void* p) { auto* c = static_cast<Condition*>(p); return reinterpret_cast<bool (*)(T*)>(c->fn_)(static_cast<T*>(c->targ_)); };
    arg_ = this;
  }
  template <typename F, typename = decltype(&F::operator())> explicit Condition(const F* f) : call_([](void* p) -> bool { return (*static_cast<const F*>(p))(); }), arg_(const_cast<F*>(f)) {}
  bool Eval() const { return call_(arg_); }
  bool (*call_)(void*) = nullptr;
  void* arg_ = nullptr;
 private:
  void (*fn_)() = nullptr;
  void* targ_ = nullptr;
};
#ifdef VF_THREADS
class Mutex {
 public:
  void Lock() { vf_mutex_lock(&m_); }
  void lock() { Lock(); }
  void Unlock() { vf_mutex_unlock(&m_); }
  void unlock() { Unlock(); }
  bool TryLock() { vf_thread_yield(); if (m_.owner != 0) return false; vf_mutex_lock(&m_); return true; }
  void LockWhen(const Condition& c) { vf_mutex_lock(&m_, c.call_, c.arg_); }
  void Await(const Condition& c) { vf_mutex_await(&m_, c.call_, c.arg_); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const {}
 private:
  VfMutex m_;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); }
  explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); }
  MutexLock(Mutex* m, const Condition& c) : m_(m) { m_->LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  ~MutexLock() { m_->Unlock(); }
 private:
  Mutex* m_;
};
using ReaderMutexLock = MutexLock;
using WriterMutexLock = MutexLock;
#else
class Mutex { public: void Lock() {} void Unlock() {} void Await(const Condition&) {} void LockWhen(const Condition&) {} void ReaderLock() {} void ReaderUnlock() {} };
class MutexLock { public: explicit MutexLock(Mutex*) {} MutexLock(Mutex*, const Condition&) {} };
#endif
}
#endif
