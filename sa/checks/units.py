"""Uses of every public header through its documented interface (C31): (name, header, code).  Each unit is one namespace
u_<name>; the only inclusions it may rely on are its header and the C++ headers that the code itself names."""
_ = lambda s: s
M4 = "".join("template %s xme::math::Matrix<%s, %d, %d>;\n" % ("class", t, c, r) for t in ("float", "double") for c in (2, 3, 4) for r in (2, 3, 4))
V4 = "".join("template struct xme::math::Vector<%s, %d>;\n" % (t, n) for t in ("float", "double", "int", "unsigned") for n in (2, 3, 4, 5))
UNITS = [
 ("array", "xme/container/array.hpp", "", r'''
template class xme::Array<int>; template class xme::Array<A0>; template class xme::Array<char*>;
int use(xme::Array<A0>& a, const xme::Array<A0>& b, A0 x) {
    xme::Array<A0> c; xme::Array<A0> d(3); xme::Array<A0> e(3, x); xme::Array<A0> f(&x, &x + 1); xme::Array<A0> g{x, x}; xme::Array<A0> h(b); xme::Array<A0> i(static_cast<xme::Array<A0>&&>(c));
    a = b; a = static_cast<xme::Array<A0>&&>(d); a = {x, x}; a.push_back(x); a.emplace_back(1); a.insert(a.begin(), x); a.insert(a.begin(), &x, &x + 1); a.insert(a.begin(), b);
    a.erase(a.begin()); a.erase(a.begin(), a.end()); a.resize(3); a.reserve(9); a.pop_back(); a.push_back(&x, &x + 1); a.push_back(b); a.clear(); a.swap(i);
    int s = 0; for(auto& v: a) s += v.v; for(auto& v: b) s += v.v; return s + a[0].v + a.front().v + b.back().v + int(a.size()) + int(b.capacity()) + b.empty();
}'''),
 ("array_view", "xme/container/array_view.hpp", "", r'''
template class xme::ArrayView<int>; template class xme::ArrayView<const A0>; template class xme::ArrayView<int, 4>; template class xme::ArrayView<A0, 1>;
int use(int (&a)[4], xme::ArrayView<int, 4> w) {
    xme::ArrayView<int> v(a); xme::ArrayView v2(a); xme::ArrayView<const int> c(a); int s = 0; for(int x: v) s += x;
    auto f = v.first(2); auto l = v.last(2); auto m = v.subview(1, 2); auto f2 = w.first<2>(); auto l2 = w.last<2>(); auto m2 = w.subview<1, 2>();
    auto b = xme::as_bytes(v); auto wb = xme::as_writable_bytes(w);
    return s + v[0] + c.front() + c.back() + int(f.size() + l.size_bytes() + m.size()) + f2[0] + l2[0] + m2[0] + int(b.size()) + int(wb.size()) + v.empty();
}'''),
 ("linked_list", "xme/container/linked_list.hpp", "", r'''
template class xme::LinkedList<int>; template class xme::LinkedList<A0>;
int use(xme::LinkedList<A0>& a, const xme::LinkedList<A0>& b, A0 x) {
    xme::LinkedList<A0> c; xme::LinkedList<A0> h(b); xme::LinkedList<A0> i(static_cast<xme::LinkedList<A0>&&>(c)); a = b; a = static_cast<xme::LinkedList<A0>&&>(h);
    a.push_front(x); a.emplace_front(1); a.insert_after(a.begin(), x); a.emplace_after(a.begin(), 1); a.erase_after(a.begin()); a.insert_after(a.begin(), &x, &x + 1); a.insert_after(a.begin(), b); a.assign(&x, &x + 1); a.assign({x, x}); a.assign(b); a.reverse(); a.pop_front(); a.clear();
    int s = 0; for(auto& v: a) s += v.v; for(auto& v: b) s += v.v; return s + a.front().v + b.empty();
}'''),
 ("heap", "xme/container/heap.hpp", "#include <vector>\n#include <functional>\n", r'''
template class xme::Heap<int>; template class xme::Heap<int, std::vector<int>, std::greater<>>; template class xme::Heap<A0, std::vector<A0>, Less>;
int use(xme::Heap<int>& h) { h.push(1); h.emplace(2); h.pop(); int s = 0; for(auto& v: h) s += v; return s + h.front() + int(h.size()) + h.empty(); }'''),
 ("spsc_queue", "xme/container/spsc_queue.hpp", "#include <memory>\n", r'''
template class xme::SPSCQueue<int, std::allocator<int>>; template class xme::SPSCQueue<A0, std::allocator<A0>>; template class xme::SPSCQueue<int, xme::Capacity<8>>; template class xme::SPSCQueue<A0, xme::Capacity<16>>;
bool use(xme::SPSCQueue<A0, xme::Capacity<8>>& q, A0 x) { q.push(x); q.emplace(1); q.consume([](A0&& y) { y.v = 1; }); q.pop(); return q.read_available() && q.write_available(); }
bool use(xme::SPSCQueue<int, std::allocator<int>>& q, int x) { q.push(x); q.emplace(1); q.consume([](int) {}); q.pop(); return q.read_available() && q.write_available(); }'''),
 ("pair", "xme/container/pair.hpp", "", r'''
template struct xme::Pair<int, A0>; template struct xme::Pair<A0, A0>;
int use(xme::Pair<int, A0>& p, const xme::Pair<int, A0>& q) { auto r = xme::make_pair(1, 2l); auto [a, b] = r; p = q; p.swap(p); using xme::swap; swap(p, p); return xme::get<0>(p) + xme::get<1>(q).v + a + int(b) + (r == r) + (r < r) + int(std::tuple_size_v<xme::Pair<int, int>>); }'''),
 ("tuple", "xme/container/tuple.hpp", "", r'''
template struct xme::Tuple<int, A0>; template struct xme::Tuple<A0, A0, A0>; template struct xme::Tuple<int>;
int use(xme::Tuple<int, A0>& p, const xme::Tuple<int, A0>& q) {
    auto r = xme::make_tuple(1, 2l, 'c'); auto [a, b, c] = r; p = q; p.swap(p); using xme::swap; swap(p, p); int i = 1; long j = 2; char k = 3; xme::tie(i, j, k) = r; auto f = xme::forward_as_tuple(i, j);
    auto t = xme::tuple_cat(r, q); return xme::get<0>(p) + xme::get<1>(q).v + a + int(b) + c + xme::get<0>(f) + xme::get<0>(t) + xme::apply([](int x, long y, char z) { return int(x + y + z); }, r) + (r == r) + (r < r) + int(std::tuple_size_v<xme::Tuple<int, int>>) + i + int(j) + k; }'''),
 ("aligned_data", "xme/container/aligned_data.hpp", "", "template class xme::AlignedData<int>; template class xme::AlignedData<A0>;\nint use(xme::AlignedData<A0>& a) { return sizeof(a) == sizeof(A0) && alignof(xme::AlignedData<A0>) == alignof(A0); }"),
 ("container_concepts", "xme/container/concepts.hpp", "#include <memory>\n#include <tuple>\n", "static_assert(xme::CAllocator<std::allocator<int>> && !xme::CAllocator<int>); static_assert(xme::CTupleLike<std::tuple<int, int>> && xme::CPairLike<std::tuple<int, int>> && !xme::CTupleLike<int>);"),
 ("container_policy", "xme/container/container_policy.hpp", "", "xme::Capacity<8> c;"),
 ("icontainer", "xme/container/icontainer.hpp", "", r'''
struct C : xme::IContainer<C> { int a[2]; int* begin() { return a; } int* end() { return a + 2; } const int* begin() const { return a; } const int* end() const { return a + 2; } };
int use(C& c, const C& d) { return c.front() + d.back() + d.empty() + int(d.size()) + c[1]; }'''),
 ("container", "xme/container/container.hpp", "#include <memory>\n", r'''
template class xme::Array<int>; template class xme::ArrayView<int>; template class xme::LinkedList<int>; template class xme::SPSCQueue<int, std::allocator<int>>; template struct xme::Tuple<int, int>; template struct xme::Pair<int, int>; template class xme::AlignedData<int>;'''),
 ("find", "xme/core/algorithm/find.hpp", "#include <vector>\n", r'''
template<class T> long go(T* b, T* e, const T& v, std::vector<T>& r) { return (xme::find(b, e, v) - b) + (xme::find<std::execution::sequenced_policy>(b, e, v) - b) + (xme::find(r, v) - r.begin()); }
template long go(char*, char*, const char&, std::vector<char>&); template long go(short*, short*, const short&, std::vector<short>&); template long go(int*, int*, const int&, std::vector<int>&); template long go(long*, long*, const long&, std::vector<long>&); template long go(A0*, A0*, const A0&, std::vector<A0>&); template long go(double*, double*, const double&, std::vector<double>&);'''),
 ("reverse", "xme/core/algorithm/reverse.hpp", "#include <vector>\n", r'''
template<class T> bool go(T* b, T* e, std::vector<T>& r) { return xme::reverse(b, e) == e && xme::reverse(r) == r.end(); }
template bool go(char*, char*, std::vector<char>&); template bool go(short*, short*, std::vector<short>&); template bool go(int*, int*, std::vector<int>&); template bool go(A0*, A0*, std::vector<A0>&);'''),
 ("has_single_bit", "xme/core/bit/has_single_bit.hpp", "", "static_assert(xme::has_single_bit(8u) && !xme::has_single_bit(6ul));\nbool use(unsigned char a, unsigned short b, unsigned c, unsigned long d) { return xme::has_single_bit(a) + xme::has_single_bit(b) + xme::has_single_bit(c) + xme::has_single_bit(d); }"),
 ("arithmetic", "xme/core/concepts/arithmetic.hpp", "", "static_assert(xme::CFloatingPoint<float> && xme::CIntegral<int> && xme::CSignedIntegral<int> && xme::CUnsignedIntegral<unsigned> && xme::CArithmetic<int> && !xme::CArithmetic<int*>);"),
 ("concepts", "xme/core/concepts/concepts.hpp", "", "static_assert(xme::CFloatingPoint<float> && xme::CDifferentFrom<int, long> && !xme::CDifferentFrom<int, int>);"),
 ("different_from", "xme/core/concepts/different_from.hpp", "", "static_assert(xme::CDifferentFrom<int, long> && !xme::CDifferentFrom<int, int> && !xme::CDifferentFromSelf<const int&, int>);"),
 ("constant_iterator", "xme/core/concepts/constant_iterator.hpp", "", "static_assert(xme::CConstantIterator<const int*> && !xme::CConstantIterator<int*>);"),
 ("bind", "xme/core/functional/bind.hpp", "", r'''
struct F { int operator()(int a, int b, int c) const { return a + b * c; } }; inline int fn(int a, int b, int c) { return a - b - c; }
int use(int x) { F f; int y = 2; auto a = xme::bind_front(f, 1, x); auto b = xme::bind_back(f, 1);
#if defined(__cpp_explicit_this_parameter)
 auto c = xme::bindFront<&fn>(1, x); auto d = xme::bindBack<&fn>(y); y += c(4) + d(5, 6);
#endif
 return a(1) + b(2, 3) + y; }'''),
 ("delegate", "xme/core/functional/delegate.hpp", "", r'''
template class xme::Delegate<void()>; template class xme::Delegate<int(int)>; template class xme::Delegate<int&(int&, A0)>;
struct O { int m(int a) { return a; } int c(int a) const { return a; } }; inline int fn(int a) { return a; }
int use(O& o, int x) { xme::Delegate<int(int)> d; xme::Delegate<int(int)> e = [x](int y) { return x + y; }; d = e; d = &fn; xme::Delegate g = &fn; xme::Delegate k = [x](int y) { return x - y; }; xme::Delegate<int(O&, int)> m = &O::m; d.swap(e); return d(1) + e(2) + g(3) + k(4) + m(o, 5) + bool(d); }'''),
 ("scoped_delegate", "xme/core/functional/scoped_delegate.hpp", "", "int use(int& n) { int r = 0; { xme::ScopedDelegate s([&n, &r]() { ++n; ++r; }); } return r; }"),
 ("const_iterator", "xme/core/iterators/const_iterator.hpp", "#include <vector>\n#include <list>\n", r'''
template class xme::ConstIterator<int*>; template class xme::ConstIterator<std::vector<A0>::iterator>;
int use(std::vector<int>& v, std::list<int>& l) { auto i = xme::make_const_iterator(v.begin()); auto e = xme::make_const_sentinel(v.end()); int s = 0; for(; i != e; ++i) s += *i; auto j = xme::make_const_iterator(l.begin()); ++j; --j; j++; j--; return s + *j + int(e - i) + (i <= e) + i[0] + *(i + 1) + *(1 + i) + *(e - 1); }'''),
 ("iterator_traits", "xme/core/iterators/iterator_traits.hpp", "", "template<class T, class U> constexpr bool same_v = false; template<class T> constexpr bool same_v<T, T> = true; static_assert(same_v<xme::iter_const_reference_t<int*>, const int&> || same_v<xme::iter_const_reference_t<int*>, int&&>);"),
 ("reverse_iterator", "xme/core/iterators/reverse_iterator.hpp", "#include <vector>\n#include <list>\n", r'''
template struct xme::ReverseIterator<int*>; template struct xme::ReverseIterator<std::vector<A0>::iterator>;
int use(std::vector<int>& v, std::list<int>& l) { xme::ReverseIterator i(v.end()), e(v.begin()); int s = 0; for(; i != e; ++i) s += *i; xme::ReverseIterator j(l.end()); ++j; --j; j++; j--; return s + *j + int(e - i) + (i <= e) + i[0] + *(i + 1) + *(1 + i) + *(e - 1); }'''),
 ("is_initializer_list", "xme/core/type_traits/is_initializer_list.hpp", "", "static_assert(xme::is_initializer_list<std::initializer_list<int>> && !xme::is_initializer_list<int>);"),
 ("is_scoped_enum", "xme/core/type_traits/is_scoped_enum.hpp", "", "enum class E { a }; enum U { u };\nstatic_assert(xme::is_scoped_enum<E> && !xme::is_scoped_enum<U> && !xme::is_scoped_enum<int>);"),
 ("forward_like", "xme/core/utility/forward_like.hpp", "", "int&& use(int& a) { return xme::forward_like<int&&>(a); }\nint& use2(int& a) { return xme::forward_like<long&>(a); }"),
 ("to_unsigned", "xme/core/utility/to_unsigned.hpp", "", "unsigned use(int a) { return xme::to_unsigned(a) + xme::to_unsigned((short)a) + unsigned(xme::to_unsigned((__int128)a)); }"),
 ("shared_library", "xme/hal/shared_library.hpp", "#include <string_view>\n", "void* use(std::string_view n) { xme::hal::SharedLibrary l; l.open(n); xme::hal::SharedLibrary m(static_cast<xme::hal::SharedLibrary&&>(l)); l = static_cast<xme::hal::SharedLibrary&&>(m); void* p = (void*)l.proc_address<void (*)()>(\"f\"); l.close(); return p; }"),
 ("platform", "xme/hal/platform.hpp", "#include <string_view>\n", "char* use(std::string_view n) { xme::hal::set_environment_variable(n, n); return xme::hal::get_environment_variable(n); }"),
 ("platform_macros", "xme/hal/platform_macros.hpp", "", "DLLEXPORT int use(int a) { return a + XME_PLATFORM_LINUX; }\n#if XME_PLATFORM_WINDOWS + XME_PLATFORM_APPLE + XME_PLATFORM_LINUX != 1\n#error one platform\n#endif"),
 ("simd_detection", "xme/hal/simd_detection.hpp", "", "static_assert((xme::hal::supported_simd & xme::hal::ESimd::sse2) == xme::hal::ESimd::sse2 || XME_SIMD_HAS_SSE2 == false);"),
 ("setup", "xme/setup.hpp", "", "XME_INLINE XME_CONSTEXPR int f(int a) { return a; }\nint use(int a) { return f(a); }"),
 ("constants", "xme/math/constants.hpp", "", "double use() { return xme::math::pi + xme::math::e + xme::math::tau + xme::math::pi_v<float> + xme::math::zeta_four; }"),
 ("vector", "xme/math/vector.hpp", "", V4 + r'''
template<class T, std::size_t N> T go(const xme::math::Vector<T, N>& a, const xme::math::Vector<T, N>& b, T s) { using namespace xme::math; auto c = a + b - a * s; c += b; c -= a; c *= s; c /= s; return dot(c, b) + distance(a, b) + length(normalize(a)) + lerp(a, b, s)[0] + sign(a)[0] + reflect(a, b)[0] + faceforward(a, b, a)[0] + (a == b) + (-a)[0]; }
template float go(const xme::math::Vector<float, 2>&, const xme::math::Vector<float, 2>&, float); template float go(const xme::math::Vector<float, 3>&, const xme::math::Vector<float, 3>&, float); template double go(const xme::math::Vector<double, 4>&, const xme::math::Vector<double, 4>&, double); template double go(const xme::math::Vector<double, 5>&, const xme::math::Vector<double, 5>&, double);
float use(xme::math::Vector<float, 3> a) { return cross(a, a).x; }'''),
 ("vector2", "xme/math/vectors/vector2.hpp", "", "template struct xme::math::Vector<float, 2>;\nfloat use(xme::math::Vector<float, 2> a) { return (a + a * 2.f).x; }"),
 ("vector3", "xme/math/vectors/vector3.hpp", "", "template struct xme::math::Vector<float, 3>;\nfloat use(xme::math::Vector<float, 3> a) { return (a + a * 2.f).x; }"),
 ("vector4", "xme/math/vectors/vector4.hpp", "", "template struct xme::math::Vector<float, 4>;\nfloat use(xme::math::Vector<float, 4> a) { return (a + a * 2.f).x; }"),
 ("matrix", "xme/math/matrix.hpp", "", M4 + r'''
template<class T> T go(const xme::math::Matrix<T, 4, 4>& a, const xme::math::Matrix<T, 4, 4>& b, const xme::math::Vector<T, 4>& v, const xme::math::Vector<T, 3>& w, T s) {
    using namespace xme::math; auto c = a * b + a - b; c += a; c -= b; c *= s; return determinant(c) + transpose(c)[0][0] + hadamard_product(a, b)[0][0] + (a * v)[0] + outer_product(v, v)[0][0] + translate(a, w)[0][0] + scale(a, w)[0][0] + rotate(a, s, w)[0][0] + perspective(s, s, s, s)[0][0] + perspective(s, s, s, s, s, s)[0][0] + ortho(s, s, s, s, s, s)[0][0]; }
template float go(const xme::math::Matrix<float, 4, 4>&, const xme::math::Matrix<float, 4, 4>&, const xme::math::Vector<float, 4>&, const xme::math::Vector<float, 3>&, float); template double go(const xme::math::Matrix<double, 4, 4>&, const xme::math::Matrix<double, 4, 4>&, const xme::math::Vector<double, 4>&, const xme::math::Vector<double, 3>&, double);
float use(const xme::math::Matrix<float, 2, 2>& a, const xme::math::Matrix<float, 3, 3>& b, const xme::math::Matrix<float, 2, 3>& c, const xme::math::Matrix<float, 3, 2>& d) { return determinant(a) + determinant(b) + (c * d)[0][0] + transpose(c)[0][0]; }'''),
 ("matrix4x4", "xme/math/matrices/matrix4x4.hpp", "", "template class xme::math::Matrix<float, 4, 4>;"),
 ("perspective", "xme/math/matrices/perspective.hpp", "#include <xme/math/matrix.hpp>\n", "float use(float a) { return xme::math::perspective(a, a, a, a)[0][0] + xme::math::ortho_lh(a, a, a, a, a, a)[0][0]; }"),
 ("matrix_functions", "xme/math/matrices/functions.hpp", "#include <xme/math/matrix.hpp>\n", "float use(const xme::math::Matrix<float, 4, 4>& a) { return determinant(a) + transpose(a)[0][0]; }"),
 ("transformation", "xme/math/matrices/transformation.hpp", "#include <xme/math/matrix.hpp>\n", "float use(const xme::math::Matrix<float, 4, 4>& a, xme::math::Vector<float, 3> v) { return translate(a, v)[0][0] + scale(a, v)[0][0] + rotate(a, 1.f, v)[0][0]; }"),
 ("vector_functions", "xme/math/vectors/functions.hpp", "#include <xme/math/vector.hpp>\n", "float use(xme::math::Vector<float, 3> v) { return lerp(v, v, .5f)[0] + sign(v)[0]; }"),
 ("geometry", "xme/math/vectors/geometry.hpp", "#include <xme/math/vector.hpp>\n", "float use(xme::math::Vector<float, 3> v) { return dot(v, v) + length(cross(v, v)) + distance(v, v); }"),
 ("quaternion", "xme/math/quaternion.hpp", "", r'''
template class xme::math::Quaternion<float>; template class xme::math::Quaternion<double>;
float use(xme::math::Quaternion<float> a, xme::math::Quaternion<float> b) { auto c = a * b + a - b; return c[0] + (a == b); }'''),
 ("scalar_functions", "xme/math/scalars/functions.hpp", "", "int use(int a, float b) { return xme::math::sign(a) + int(xme::math::sign(b)); }"),
 ("trigonometry", "xme/math/scalars/trigonometry.hpp", "", "using namespace xme::math;\ndouble use(double a, float b) { return radians(a) + degrees(b) + xme::math::sin(a) + xme::math::cos(b) + xme::math::tan(a) + sec(a) + csc(b) + cot(a) + arcsin(a) + arccos(b) + arctan(a); }"),
 ("glsl", "xme/math/glsl_mapping.hpp", "#include <xme/math/math.hpp>\n", "float use(xme::math::vec3 a, xme::math::vec3 b, xme::math::bvec3 c) { return mix(a, b, .5f)[0] + mix(a, b, c)[0]; }"),
 ("math", "xme/math/math.hpp", "", r'''
float use(xme::math::vec3 a, xme::math::mat4 m, xme::math::Quaternion<float> q, xme::math::dmat2x3 d) { using namespace xme::math; return (m * vec4(1.f, 2.f, 3.f, 4.f))[0] + (a + a)[0] + q[0] + float(transpose(d)[0][0]) + mix(a, a, .5f)[0] + float(radians(pi)) + sign(1.f); }'''),
 ("destroy", "xme/ranges/destroy.hpp", "#include <vector>\n", "void use(A0* p, std::vector<A0>& v, std::allocator<A0> a) { xme::ranges::destroy_a(p, p + 1, a); xme::ranges::destroy_a(v, a); xme::ranges::destroy_n_a(p, 1, a); xme::ranges::destroy_at_a(p, a); }"),
 ("uninitialized", "xme/ranges/uninitialized.hpp", "#include <memory>\n", "void use(A0* p, A0* q, A0 x, std::allocator<A0> a) { xme::ranges::uninitialized_copy_a(p, p + 1, q, q + 1, a); xme::ranges::uninitialized_move_a(p, p + 1, q, a); xme::ranges::uninitialized_fill_n_a(p, 3, x, a); }"),
 ("architecture", "xme/hal/architecture_detection.hpp", "", "static_assert(XME_ARCH_X86 || XME_ARCH_ARM || true);"),
 ("compiler", "xme/hal/compiler_detection.hpp", "", "#if defined(XME_COMPILER_CLANG) + defined(XME_COMPILER_GCC) != 1\n#error one compiler\n#endif"),
 ("stdlib", "xme/hal/std_detection.hpp", "", "#if defined(XME_LIBSTD_CLANG) + defined(XME_LIBSTD_GCC) != 1\n#error one standard library\n#endif"),
]
PRE = "struct A0 { int v; A0(int a = 0); A0(const A0&); A0(A0&&) noexcept; A0& operator=(const A0&); A0& operator=(A0&&) noexcept; ~A0(); friend bool operator==(const A0& a, const A0& b) { return a.v == b.v; } friend bool operator<(const A0& a, const A0& b) { return a.v < b.v; } };\nstruct Less { bool operator()(const A0& a, const A0& b) const { return a.v < b.v; } };\n"
