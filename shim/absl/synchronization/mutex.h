#pragma once
#include "absl/base/macros_shim.h"
#include "absl/base/thread_annotations.h"
#include "absl/time/time.h"
namespace absl {
class Mutex { public: Mutex() {} void Lock() { if (l_) verif_check_failed("mutex locked twice"); l_ = true; } void Unlock() { l_ = false; } void lock() { Lock(); } void unlock() { Unlock(); } void ReaderLock() { Lock(); } void ReaderUnlock() { Unlock(); } void AssertHeld() const {} private: bool l_ = false; };
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m_->Lock(); } explicit MutexLock(Mutex& m) : m_(&m) { m_->Lock(); } ~MutexLock() { m_->Unlock(); } MutexLock(const MutexLock&) = delete; private: Mutex* m_; };
using ReaderMutexLock = MutexLock; using WriterMutexLock = MutexLock;
class CondVar { public: void Signal() {} void SignalAll() {} void Wait(Mutex*) {} };
}
