// The mutex pool behind std::atomic_load/atomic_store of shared_ptr (part of libstdc++.so), as one mutex.
#include <memory>
#include <mutex>
static std::mutex guard;
namespace std { _Sp_locker::_Sp_locker(const void*) noexcept { guard.lock(); } _Sp_locker::_Sp_locker(const void*, const void*) noexcept { guard.lock(); } _Sp_locker::~_Sp_locker() { guard.unlock(); } }
