"""Probe element and allocator: every operation on an element or on storage is an external call the analysis interprets."""
PROBE = r'''
#include <cstddef>
#include <new>
#include <memory>
#include <utility>
#include <iterator>
#include <initializer_list>
#ifndef E_NOEXCEPT
#define E_NOEXCEPT
#endif
extern "C" {
void e_def(void*) E_NOEXCEPT; void e_make(void*, long) E_NOEXCEPT; void e_copy(void*, const void*) E_NOEXCEPT; void e_move(void*, void*) E_NOEXCEPT;
void e_casg(void*, const void*) E_NOEXCEPT; void e_masg(void*, void*) E_NOEXCEPT; void e_dtor(void*) noexcept;
void* a_alloc(std::size_t n, std::size_t size); void a_free(void* p, std::size_t n, std::size_t size) noexcept;
void* a_allocg(long id, std::size_t n, std::size_t size); void a_freeg(long id, void* p, std::size_t n, std::size_t size) noexcept;
}
struct E {
    alignas(8) char d[24];
    E() E_NOEXCEPT { e_def(this); }
    E(long x) E_NOEXCEPT { e_make(this, x); }
    E(const E& o) E_NOEXCEPT { e_copy(this, &o); }
    E(E&& o) E_NOEXCEPT { e_move(this, &o); }
    E& operator=(const E& o) E_NOEXCEPT { e_casg(this, &o); return *this; }
    E& operator=(E&& o) E_NOEXCEPT { e_masg(this, &o); return *this; }
    ~E() noexcept { e_dtor(this); }
};
template<class T> struct Al {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using pointer = T*;
    constexpr Al() noexcept = default;
    template<class U> constexpr Al(const Al<U>&) noexcept {}
    constexpr T* allocate(std::size_t n) { return static_cast<T*>(a_alloc(n, sizeof(T))); }
    constexpr void deallocate(T* p, std::size_t n) noexcept { a_free(p, n, sizeof(T)); }
    bool operator==(const Al&) const = default;
};
// an allocator with an identity: storage is returned through an equal allocator
template<class T> struct Ag {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using pointer = T*;
    using is_always_equal = std::false_type; using propagate_on_container_swap = std::true_type;
    using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_move_assignment = std::true_type;
    long id = 0;
    constexpr Ag() noexcept = default;
    constexpr explicit Ag(long i) noexcept : id(i) {}
    template<class U> constexpr Ag(const Ag<U>& o) noexcept : id(o.id) {}
    constexpr T* allocate(std::size_t n) { return static_cast<T*>(a_allocg(id, n, sizeof(T))); }
    constexpr void deallocate(T* p, std::size_t n) noexcept { a_freeg(id, p, n, sizeof(T)); }
    bool operator==(const Ag&) const = default;
};
'''
