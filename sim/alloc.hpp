// Pre-included (-include) into every translation unit that sees arg_router: configures the library's
// allocator to be one the simulator owns.
#pragma once
#include <cstddef>
#include <new>
namespace sim
{
void* cfg_allocate(std::size_t bytes);                     // may throw std::bad_alloc when told to
void cfg_deallocate(void* p, std::size_t bytes) noexcept;  // checks facility and size
void std_alloc_seen(const char* type, std::size_t bytes) noexcept;
// What std::allocator<T> calls in the copy of <bits/new_allocator.h> made by check.py, in place of operator new.
template <typename T, typename... A>
inline void* std_new(std::size_t bytes, A... a)
{
    std_alloc_seen(__PRETTY_FUNCTION__, bytes);
    return ::operator new(bytes, a...);
}
template <typename T>
struct Alloc {
    using value_type = T;
    Alloc() noexcept = default;
    template <typename U>
    Alloc(const Alloc<U>&) noexcept
    {
    }
    T* allocate(std::size_t n) { return static_cast<T*>(cfg_allocate(n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { cfg_deallocate(p, n * sizeof(T)); }
    template <typename U>
    bool operator==(const Alloc<U>&) const noexcept
    {
        return true;
    }
    template <typename U>
    bool operator!=(const Alloc<U>&) const noexcept
    {
        return false;
    }
};
}  // namespace sim
#define AR_ALLOCATOR sim::Alloc
