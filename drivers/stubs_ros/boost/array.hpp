// Stands for boost::array: an aggregate of N elements.
#pragma once
#include <cstddef>
namespace boost {
template<typename T, std::size_t N> struct array {
    T elems[N];
    T& operator[](std::size_t i) { return elems[i]; }
    const T& operator[](std::size_t i) const { return elems[i]; }
    static constexpr std::size_t size() { return N; }
    T* begin() { return elems; }
    const T* begin() const { return elems; }
    T* end() { return elems + N; }
    const T* end() const { return elems + N; }
    void fill(const T& v) { for (std::size_t i = 0; i < N; ++i) elems[i] = v; }
};
}
