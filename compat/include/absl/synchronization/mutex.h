// The real absl::Mutex for absl's own headers; once the prelude has included
// those, `absl::Mutex` in iamf-tools code names VMutex below, whose lock
// operations are scheduling points a harness can own. Without a scheduler it is
// a plain mutex.
#include_next "absl/synchronization/mutex.h"
#if defined(VERIF_PRELUDE_DONE) && !defined(VERIF_MUTEX_H_)
#define VERIF_MUTEX_H_
#include <mutex>
#include "absl/base/thread_annotations.h"
namespace vsched {
struct Hooks {
  void (*lock)(void* mutex);
  void (*unlock)(void* mutex);
};
inline Hooks* g_hooks = nullptr;
}
namespace absl {
class ABSL_LOCKABLE VMutex {
 public:
  VMutex() = default;
  VMutex(const VMutex&) = delete;
  VMutex& operator=(const VMutex&) = delete;
  void Lock() { if (vsched::g_hooks) vsched::g_hooks->lock(this); else m_.lock(); }
  void Unlock() { if (vsched::g_hooks) vsched::g_hooks->unlock(this); else m_.unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  void ReaderLock() { Lock(); }
  void ReaderUnlock() { Unlock(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
 private:
  std::mutex m_;
};
class VMutexLock {
 public:
  explicit VMutexLock(VMutex* m) : m_(m) { m_->Lock(); }
  explicit VMutexLock(VMutex& m) : m_(&m) { m_->Lock(); }
  VMutexLock(const VMutexLock&) = delete;
  VMutexLock& operator=(const VMutexLock&) = delete;
  ~VMutexLock() { if (m_) m_->Unlock(); }
  void Release() { m_->Unlock(); m_ = nullptr; }
 private:
  VMutex* m_;
};
}
#define Mutex VMutex
#define MutexLock VMutexLock
#define ReaderMutexLock VMutexLock
#define WriterMutexLock VMutexLock
#define ReleasableMutexLock VMutexLock
#endif
