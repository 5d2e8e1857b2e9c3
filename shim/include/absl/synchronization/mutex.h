#pragma once
#define MutexLock MutexLockOldShim_
#define ReaderMutexLock ReaderMutexLockOldShim_
#define WriterMutexLock WriterMutexLockOldShim_
#include_next "absl/synchronization/mutex.h"
#undef MutexLock
#undef ReaderMutexLock
#undef WriterMutexLock
namespace absl {
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) { mu_.Lock(); }
  explicit MutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(*mu) { mu_.Lock(); }
  explicit MutexLock(Mutex& mu, const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) { mu_.LockWhen(c); }
  MutexLock(const MutexLock&) = delete;
  MutexLock& operator=(const MutexLock&) = delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { mu_.Unlock(); }
 private:
  Mutex& mu_;
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock {
 public:
  explicit ReaderMutexLock(Mutex& mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(mu) { mu_.ReaderLock(); }
  explicit ReaderMutexLock(Mutex* mu) ABSL_SHARED_LOCK_FUNCTION(mu) : mu_(*mu) { mu_.ReaderLock(); }
  ReaderMutexLock(const ReaderMutexLock&) = delete;
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { mu_.ReaderUnlock(); }
 private:
  Mutex& mu_;
};
class ABSL_SCOPED_LOCKABLE WriterMutexLock {
 public:
  explicit WriterMutexLock(Mutex& mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(mu) { mu_.WriterLock(); }
  explicit WriterMutexLock(Mutex* mu) ABSL_EXCLUSIVE_LOCK_FUNCTION(mu) : mu_(*mu) { mu_.WriterLock(); }
  WriterMutexLock(const WriterMutexLock&) = delete;
  ~WriterMutexLock() ABSL_UNLOCK_FUNCTION() { mu_.WriterUnlock(); }
 private:
  Mutex& mu_;
};
}
