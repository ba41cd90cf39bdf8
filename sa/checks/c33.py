"""C33: operations declared constexpr are usable in constant expressions.  A witness is a constexpr function whose call must be a core constant
expression; the front ends' constant evaluators (clang's and gcc's) decide, which also rejects undefined behaviour and leaked allocations on the path."""
from ..typ import TW, run_types
R1 = "containers in constant expressions"; R2 = "arithmetic in constant expressions"; R3 = "function objects and iterators in constant expressions"
R4 = "algorithms in constant expressions, in every configuration"; R5 = "constant initialisation"
ELEM = r'''
#include <cstddef>
#include <array>
#include <functional>
#include <iterator>
struct R {      // owns memory: a skipped or doubled destruction is not a constant expression
    int* p;
    constexpr R() : p(new int(0)) {}
    constexpr R(int v) : p(new int(v)) {}
    constexpr R(const R& o) : p(new int(*o.p)) {}
    constexpr R(R&& o) noexcept : p(o.p) { o.p = new int(-1); }
    constexpr R& operator=(const R& o) { if(this != &o) *p = *o.p; return *this; }
    constexpr R& operator=(R&& o) noexcept { int* t = p; p = o.p; o.p = t; return *this; }
    constexpr ~R() { delete p; }
    constexpr operator int() const { return *p; }
    friend constexpr bool operator==(const R& a, const R& b) { return *a.p == *b.p; }
    friend constexpr auto operator<=>(const R& a, const R& b) { return *a.p <=> *b.p; }
};
struct M {      // movable only
    int v; constexpr M(int x) : v(x) {} constexpr M(M&& o) noexcept : v(o.v) { o.v = -1; } constexpr M& operator=(M&& o) noexcept { v = o.v; o.v = -1; return *this; } constexpr ~M() {}
    constexpr operator int() const { return v; } friend constexpr auto operator<=>(const M& a, const M& b) { return a.v <=> b.v; } friend constexpr bool operator==(const M& a, const M& b) { return a.v == b.v; } };
struct In1 { using difference_type = std::ptrdiff_t; using value_type = int; using iterator_concept = std::input_iterator_tag; const int* p = nullptr;
    constexpr const int& operator*() const { return *p; } constexpr In1& operator++() { ++p; return *this; } constexpr void operator++(int) { ++p; } friend constexpr bool operator==(In1 a, In1 b) { return a.p == b.p; } };
struct Bi1 { using difference_type = std::ptrdiff_t; using value_type = int; using iterator_category = std::bidirectional_iterator_tag; using reference = const int&; using pointer = const int*; const int* p = nullptr;
    constexpr const int& operator*() const { return *p; } constexpr const int* operator->() const { return p; } constexpr Bi1& operator++() { ++p; return *this; } constexpr Bi1 operator++(int) { auto t = *this; ++p; return t; } constexpr Bi1& operator--() { --p; return *this; } constexpr Bi1 operator--(int) { auto t = *this; --p; return t; } friend constexpr bool operator==(Bi1 a, Bi1 b) = default; };
constexpr int src[] = {1, 2, 3, 4, 5, 6, 7};
'''
INC = "".join("#include <xme/%s.hpp>\n" % h for h in ("container/array", "container/heap", "container/linked_list", "container/array_view", "container/tuple", "container/pair", "core/functional/bind", "core/functional/delegate",
      "core/functional/scoped_delegate", "core/iterators/const_iterator", "core/iterators/reverse_iterator", "core/utility/forward_like", "core/utility/to_unsigned", "core/bit/has_single_bit", "hal/shared_library"))
MATH = "#include <xme/math/math.hpp>\n#include <xme/math/quaternion.hpp>\n"
ALG = "#include <xme/core/algorithm/find.hpp>\n#include <xme/core/algorithm/reverse.hpp>\n"
def w(pre, body): return "%sconstexpr bool w() { %s }\nstatic_assert(w());" % (pre, body)
A = "xme::Array<T> a{1, 2, 3}; "
ARRAY = [("default construction", "xme::Array<T> a; return a.empty() && a.size() == 0 && a.capacity() == 0 && a.begin() == a.end();"),
         ("construction with a capacity", "xme::Array<T> a(std::size_t(5)); return a.empty() && a.capacity() >= 5;"),
         ("construction of n values", "T v(7); xme::Array<T> a(3, v); return a.size() == 3 && a[2] == v;"),
         ("construction of no values", "T v(7); xme::Array<T> a(0, v); return a.empty();"),
         ("construction from a list", A + "return a.size() == 3 && a.front() == T(1) && a.back() == T(3);"),
         ("construction from iterators", "xme::Array<T> a(src, src + 4); return a.size() == 4 && a[3] == T(4);"),
         ("construction from single-pass iterators", "xme::Array<T> a(In1{src}, In1{src + 5}); return a.size() == 5 && a[4] == T(5);"),
         ("construction from ranges", A + "xme::Array<T> b(std::array<int, 3>{1, 2, 3}), c(src); return b.size() == 3 && b[2] == T(3) && c.size() == 7 && a[1] == b[1];"),
         ("copy and move construction", A + "xme::Array<T> b(a); xme::Array<T> c(std::move(b)); return b.empty() && c.size() == 3 && c[1] == a[1];"),
         ("copy assignment", A + "xme::Array<T> b{9}; b = a; a = a; return b.size() == 3 && a.size() == 3 && b[2] == T(3);"),
         ("move assignment", A + "xme::Array<T> b{9}; b = std::move(a); return b.size() == 3 && b[0] == T(1);"),
         ("list assignment", A + "a = {5, 6}; return a.size() == 2 && a[1] == T(6);"),
         ("swap", A + "xme::Array<T> b; b.swap(a); return a.empty() && b.size() == 3;"),
         ("push_back with and without growth", "xme::Array<T> a; for(int i = 0; i < 9; ++i) a.push_back(T(i)); T v(9); a.push_back(v); a.push_back(10); return a.size() == 11 && a[9] == v && a[10] == T(10) && a[0] == T(0);"),
         ("push_back of an own element", "xme::Array<T> a; a.push_back(T(4)); for(int i = 0; i < 4; ++i) a.push_back(a[0]); return a[4] == T(4);"),
         ("emplace_back", "xme::Array<T> a; auto& r = a.emplace_back(3); return &r == &a[0] && a.emplace_back(4) == T(4);"),
         ("push_back of a range", A + "a.push_back(src, src + 7); a.push_back(std::array<int, 2>{8, 9}); a.push_back(In1{src}, In1{src + 2}); return a.size() == 14 && a[13] == T(2) && a[3] == T(1);"),
         ("insert one in the middle, growing", A + "auto i = a.insert(a.begin() + 1, T(9)); return i - a.begin() == 1 && *i == T(9) && a[2] == T(2) && a.size() == 4;"),
         ("insert one in the middle, in place", A + "a.reserve(10); auto i = a.insert(a.begin(), T(9)); return i == a.begin() && a[0] == T(9) && a[3] == T(3);"),
         ("insert one at the end", A + "auto i = a.insert(a.end(), T(9)); return *i == T(9) && a.back() == T(9);"),
         ("insert an own element", A + "a.reserve(10); a.insert(a.begin(), a[2]); return a[0] == T(3) && a[3] == T(3);"),
         ("insert a range, growing", A + "auto i = a.insert(a.begin() + 1, src, src + 7); return i - a.begin() == 1 && a.size() == 10 && a[7] == T(7) && a[8] == T(2);"),
         ("insert a range in place, longer than the tail", A + "a.reserve(20); a.insert(a.begin() + 2, src, src + 5); return a.size() == 8 && a[2] == T(1) && a[7] == T(3);"),
         ("insert a range in place, shorter than the tail", A + "a.reserve(20); a.insert(a.begin(), src, src + 1); return a.size() == 4 && a[0] == T(1) && a[3] == T(3);"),
         ("insert single-pass iterators", A + "a.insert(a.begin(), In1{src}, In1{src + 2}); return a.size() == 5 && a[2] == T(1);"),
         ("insert an empty range", A + "auto i = a.insert(a.begin() + 1, src, src); return i - a.begin() == 1 && a.size() == 3;"),
         ("pop_back", A + "a.pop_back(); return a.size() == 2;"),
         ("erase one", A + "auto i = a.erase(a.begin()); return *i == T(2) && a.size() == 2;"),
         ("erase a range", A + "auto i = a.erase(a.begin(), a.begin() + 2); return *i == T(3) && a.size() == 1;"),
         ("erase nothing", A + "a.erase(a.begin() + 1, a.begin() + 1); return a.size() == 3;"),
         ("clear", A + "a.clear(); a.push_back(T(1)); return a.size() == 1 && a.capacity() >= 3;"),
         ("reserve", A + "a.reserve(2); a.reserve(50); return a.capacity() >= 50 && a[2] == T(3);"),
         ("resize", A + "a.resize(40); a.resize(2); return a.size() == 2 && a[1] == T(2);"),
         ("iterators", A + "int s = 0; for(const auto& e : a) s += int(e); auto b = a.begin(), e = a.end(); const auto& c = a; return s == 6 && e - b == 3 && b < e && *(b + 1) == T(2) && *(e - 1) == T(3) && b[2] == T(3) && c.begin() == b && *--e == T(3) && b++ == a.begin();"),
         ("accessors", A + "const auto& c = a; return !c.empty() && c.size() == 3 && *c.data() == T(1) && c[1] == T(2) && c.front() == T(1) && c.back() == T(3);"),
         ("reverse iterators", A + "xme::ReverseIterator r(a.end()); return *r == T(3) && *++r == T(2);")]
MOVEONLY = ("default construction", "construction with a capacity", "swap", "pop_back", "clear")
HEAP = [("push, pop and front", "xme::Heap<T> h; for(int i : src) h.push(T(i)); h.emplace(9); bool ok = h.front() == T(9); h.pop(); ok = ok && h.front() == T(7); while(h.size() > 1) h.pop(); return ok && h.front() == T(1);"),
        ("a minimum heap", "xme::Heap<T, xme::Array<T>, std::greater<>> h; h.push(T(3)); h.push(T(1)); h.push(T(2)); bool ok = h.front() == T(1); h.pop(); return ok && h.front() == T(2);"),
        ("construction from a range and from iterators", "xme::Heap<T> h(src); xme::Heap<T> g(src, src + 3); return h.front() == T(7) && g.front() == T(3) && g.size() == 3 && !g.empty() && *g.begin() == T(3);"),
        ("copy and move", "xme::Heap<T> h(src); auto g = h; auto k = std::move(h); return g.size() == 7 && k.front() == T(7);")]
VIEW = [("construction", "xme::ArrayView v(src); xme::ArrayView<const int> d = v.first(2); std::array<int, 3> s{1, 2, 3}; xme::ArrayView<int> m(s); return v.size() == 7 && d.size() == 2 && m[2] == 3 && v.data() == src;"),
        ("parts", "xme::ArrayView<const int> v(src, 7); return v.first(2).back() == 2 && v.last(2).front() == 6 && v.subview(2, 3)[1] == 4 && v.first<3>().size() == 3 && v.last<2>()[1] == 7 && v.subview<1, 2>()[0] == 2;"),
        ("parts of a static view", "xme::ArrayView<const int, 7> v(src, 7); return v.first<3>().size() == 3 && v.last<2>()[1] == 7 && v.subview<1, 2>()[0] == 2 && v.size_bytes() == 7 * sizeof(int) && v.first(0).empty();"),
        ("writing through a view", "int x[3]{1, 2, 3}; xme::ArrayView v(x); v[1] = 5; for(auto& e : v) ++e; return x[0] == 2 && x[1] == 6;"),
        ("an Array's view", "xme::Array<int> a{1, 2}; xme::ArrayView<int> v(a.data(), a.size()); v[0] = 4; return a[0] == 4 && v.end() - v.begin() == 2;")]
TUPLE = [("tuples", "xme::Tuple<T, int> t{T(1), 2}; auto u = t; get<0>(u) = T(5); t = u; return get<0>(t) == T(5) && get<1>(t) == 2;"),
         ("make_tuple, tie and forward_as_tuple", "T a(1); int b = 2; auto t = xme::make_tuple(a, b); xme::tie(a, b) = xme::make_tuple(T(3), 4); auto f = xme::forward_as_tuple(a, 5); return get<0>(t) == T(1) && a == T(3) && b == 4 && get<0>(f) == T(3);"),
         ("tuple_cat", "auto t = xme::tuple_cat(xme::make_tuple(T(1)), xme::make_tuple(2, 3L)); return get<0>(t) == T(1) && get<2>(t) == 3;"),
         ("apply", "return xme::apply([](const T& a, int b) { return int(a) + b; }, xme::make_tuple(T(1), 2)) == 3;"),
         ("tuple swap", "xme::Tuple<T, int> t{T(1), 2}, u{T(3), 4}; t.swap(u); swap(t, u); t.swap(u); return get<0>(t) == T(3) && get<1>(u) == 2;"),
         ("tuple conversion", "struct S { T a; int b; }; xme::Tuple<T, int> t{T(1), 2}; S s = t; return s.a == T(1) && s.b == 2;"),
         ("pairs", "auto p = xme::make_pair(T(1), 2); xme::Pair<T, int> q{T(3), 4}; p.swap(q); swap(p, q); q = p; const auto [x, y] = q; return get<0>(q) == T(1) && x == T(1) && y == 2 && std::move(q)[std::integral_constant<std::size_t, 1>{}] == 2;"),
         ("pair assignment from a tuple", "xme::Pair<T, int> p{T(1), 2}; p = xme::make_tuple(T(3), 4); return get<0>(p) == T(3) && get<1>(p) == 4;")]
CMP = [("tuple comparison", "xme::Tuple<int, long> t{1, 2}, u{1, 3}; xme::Tuple<T, int> a{T(1), 2}, b{T(1), 3}; return t == t && t != u && t < u && u >= t && a == a && a != b;"),
       ("pair comparison", "xme::Pair<int, long> t{1, 2}, u{1, 3}; xme::Pair<T, int> a{T(1), 2}, b{T(1), 3}; return t == t && t != u && t < u && u >= t && a == a && a != b;")]
FUN = [("bind_front", "constexpr int sub(int a, int b) { return a - b; }\n", "auto f = xme::bind_front(sub, 3); const auto& c = f; auto g = f; g = f; return f(1) == 2 && c(2) == 1 && xme::bind_front(sub, 3)(1) == 2 && std::move(c)(1) == 2 && xme::bind_front(sub, 5, 1)() == 4;"),
       ("bind_back", "constexpr int sub(int a, int b) { return a - b; }\n", "auto f = xme::bind_back(sub, 3); const auto& c = f; auto g = f; g = f; return f(1) == -2 && c(2) == -1 && xme::bind_back(sub, 3)(4) == 1 && std::move(c)(4) == 1 && xme::bind_back(sub, 5, 1)() == 4;"),
       ("binding arguments that own memory", "", "auto f = xme::bind_front([](const R& a, const R& b, int c) { return int(a) * 100 + int(b) * 10 + c; }, R(1), R(2)); auto g = f; return f(3) == 123 && std::move(g)(4) == 124 && xme::bind_back([](int c, R a) { return c - int(a); }, R(2))(5) == 3;"),
       ("binding members", "struct S { int v; constexpr int f(int a) const { return v + a; } };\n", "S s{4}; return xme::bind_front(&S::f, s)(2) == 6 && xme::bind_front(&S::f, &s, 1)() == 5 && xme::bind_back(&S::f, 3)(s) == 7 && xme::bind_front(&S::v, s)() == 4;"),
       ("ScopedDelegate", "", "int n = 0; { xme::ScopedDelegate d([&] { ++n; }); auto f = [&] { n += 10; }; xme::ScopedDelegate e(f); if(n) return false; } return n == 11;"),
       ("forward_like", "", "int a = 1; const int b = 2; return xme::forward_like<int&>(a) == 1 && xme::forward_like<const int&>(a) == 1 && xme::forward_like<int>(b) == 2 && xme::forward_like<const int&&>(a) == 1;"),
       ("to_unsigned and has_single_bit", "", "return xme::to_unsigned(-1) == ~0u && xme::to_unsigned((signed char)-1) == 255 && xme::to_unsigned(__int128(-1)) == ~(unsigned __int128)0 && xme::has_single_bit(8u) && !xme::has_single_bit(6ul) && !xme::has_single_bit(0u);"),
       ("ConstIterator", "", "int x[]{1, 2, 3}; auto i = xme::make_const_iterator(x + 0), e = xme::make_const_iterator(x + 3); auto j = i++; --i; i += 2; i -= 1; return *j == 1 && i[1] == 3 && e - i == 2 && (i + 1) - 1 == i && 1 + i > i && i < e && i <= e && e >= i && (i <=> e) < 0 && i == x + 1 && i.operator->() == x + 1 && *i-- == 2;"),
       ("ConstIterator over bidirectional iterators", "", "auto i = xme::ConstIterator<Bi1>(Bi1{src}); auto j = i++; ++i; --i; return *i == 2 && *j == 1 && j != i && i-- != j && i == j && *i.operator->() == 1;"),
       ("ConstIterator over single-pass iterators", "", "xme::ConstIterator<In1> i(In1{src}); ++i; i++; return *i == 3 && i == xme::make_const_sentinel(In1{src + 2});"),
       ("ReverseIterator", "", "int x[]{1, 2, 3}; xme::ReverseIterator<int*> i(x + 3), e(x); auto j = i++; --i; i += 2; i -= 1; xme::ReverseIterator<const int*> c(i); return *j == 3 && i[1] == 1 && e - i == 2 && (i + 1) - 1 == i && 1 + i > i && i < e && i <= e && (i <=> e) < 0 && *i-- == 2 && c == xme::ReverseIterator<int*>(x + 2) && *i.operator->() == 3;"),
       ("ReverseIterator over bidirectional iterators", "", "xme::ReverseIterator<Bi1> i(Bi1{src + 3}); auto j = i++; ++i; --i; return *i == 2 && *j == 3 && j != i && i-- != j && i == j && *i.operator->() == 3;")]
VEC = [("construction, conversion and indexing", "constexpr auto a = mk<T, N>(); Vector<int, N> i(a); Vector<T, N> b(T(3)); b = i; return b == a && a[0] == T(1) && a[N - 1] == T(N) && b[N - 1] == a[N - 1];"),
       ("operators", "constexpr auto a = mk<T, N>(); auto b = a + a; b -= a; b = b * T(6) / T(2); b *= T(2); b /= a; b += T(1); b = b + T(1) - T(1); return b[0] == T(7) && b[N - 1] == T(7);"),
       ("comparison", "constexpr auto a = mk<T, N>(); auto b = a; b[N - 1] += T(1); return a == a && a != b && a < b && (b <=> a) > 0;"),
       ("dot and reflect", "constexpr auto a = mk<T, N>(); Vector<T, N> z(T(0)); return dot(a, a) > T(0) && reflect(a, z) == a;")]
VSIGNED = [("negation, sign and faceforward", "constexpr auto a = mk<T, N>(); return sign(-a)[N - 1] == T(-1) && faceforward(a, -a, a) == a && sign(T(-3)) == T(-1) && -(-a) == a;")]
VFLOAT = [("glsl mix", "constexpr auto a = mk<T, N>(); Vector<bool, N> m(true); return mix(a, -a, T(1)) == -a && mix(a, -a, a)[0] == T(-1) && mix(a, -a, true) == -a && mix(a, -a, m) == -a;"),
         ("lerp and mix", "constexpr auto a = mk<T, N>(); Vector<bool, N> m(true); return lerp(a, -a, T(1)) == -a && lerp(a, -a, a)[0] == T(-1) && lerp(a, -a, true) == -a && lerp(a, -a, m) == -a && lerp(a, -a, 0u) == a;")]
MAT = [("construction and indexing", "Matrix<T, C, Q> a(2); auto b = a; b = Matrix<T, C, Q>(Matrix<double, C, Q>(a)); const auto& c = b; return b == a && c[0][0] == T(2) && c[0][1] == T(0) && c.row(0)[0] == T(2) && c.column(1)[0] == T(0);"),
       ("operators", "Matrix<T, C, Q> a(2); auto b = a + a; b -= a; b *= T(3); b /= T(2); b = -(-b * T(2) / T(2)); b += a; b = b - a; return b[1][1] == T(3) && a != b && a < b;"),
       ("products", "Matrix<T, C, Q> a(2); auto t = transpose(a); auto p = a * t; auto v = a * mk<T, C>(); return p[0][0] == T(4) && v[1] == T(4) && t[1][1] == T(2);"),
       ("outer and Hadamard products", "Matrix<T, C, Q> a(2); auto o = outer_product(mk<T, Q>(), mk<T, C>()); return hadamard_product(o, a)[1][1] == T(8);")]
MISC = [("determinants", "return determinant(Matrix<float, 2, 2>(2)) == 4 && determinant(Matrix<float, 3, 3>(2)) == 8 && determinant(Matrix<double, 4, 4>(2)) == 16;"),
        ("a 4x4 matrix from a 3x3 one", "Matrix<float, 4, 4> m(Matrix<float, 3, 3>(2)); return m[3][3] == 1 && m[2][2] == 2;"),
        ("translate and scale", "Vector<float, 3> v(1, 2, 3); return translate(Matrix<float, 4, 4>(1), v)[3][2] == 3 && scale(Matrix<float, 4, 4>(1), v)[2][2] == 3;"),
        ("cross", "return cross(mk<float, 3>(), mk<float, 3>()) == Vector<float, 3>(0);"),
        ("quaternions", "Quaternion<float> q(1, 2, 3, 4), i(1, 0, 0, 0); const auto p = q * i; return p == q && p[3] == 4 && (q + i - i) == q && (q <=> i) > 0;"),
        ("radians and degrees", "return radians(180.0) == pi_v<double> && degrees(pi_v<double>) == 180.0;"),
        ("swizzling constructors", "Vector<float, 4> a(1, Vector<float, 3>(2, 3, 4)), b(Vector<float, 3>(1, 2, 3), 4), c(Vector<float, 2>(1, 2), Vector<float, 2>(3, 4)); Vector<float, 3> d(1, Vector<float, 2>(2, 3)), e(Vector<float, 2>(1, 2), 3); return a == b && b == c && d == e && c[2] == 3 && e[2] == 3;")]
FINDS = [("find in pointers", "return xme::find(a.data(), a.data() + N, T(N - 1)) == a.data() + N - 1 && xme::find(a.data(), a.data() + N, T(0)) == a.data();"),
         ("find in a range", "return xme::find(a, T(N / 2)) == a.begin() + N / 2;"),
         ("find nothing", "return xme::find(a.data(), a.data() + N, T(N)) == a.data() + N;"),
         ("reverse pointers", "xme::reverse(a.data(), a.data() + N); for(int i = 0; i < N; ++i) if(a[i] != T(N - 1 - i)) return false; return true;"),
         ("reverse a range", "xme::reverse(a); return a[0] == T(N - 1) && a[N - 1] == T(0);")]
CONST = [("Array", "constinit xme::Array<int> a; constexpr xme::Array<R> b; static_assert(b.empty());"), ("LinkedList", "constinit xme::LinkedList<int> a; constexpr xme::LinkedList<R> b; static_assert(b.begin() == b.end() && b.empty());"),
         ("Delegate", "constinit xme::Delegate<int(int)> a; constexpr xme::Delegate<void()> b; static_assert(!b);"), ("SharedLibrary", "constinit xme::hal::SharedLibrary l;"), ("Heap", "constinit xme::Heap<int> h;"),
         ("ArrayView", "constinit xme::ArrayView<int> v; int g[3]; constinit xme::ArrayView<int> w(g); constexpr xme::ArrayView<int, 3> s(g); static_assert(s.size() == 3);"),
         ("find's and reverse's headers", "")]
def run(chk, thorough):
    H = ELEM + INC; items = []; HM = ELEM + MATH + "using namespace xme::math;\ntemplate<class T, std::size_t N> constexpr auto mk() { Vector<T, N> v(T(0)); for(std::size_t i = 0; i < N; ++i) v[i] = T(i + 1); return v; }\n"
    modes = [dict(gcc=False, ndebug=False), dict(gcc=True, ndebug=False), dict(gcc=False, ndebug=True)] + ([dict(gcc=True, ndebug=True), dict(gcc=False, flags=("-std=c++23",)), dict(gcc=True, flags=("-std=c++23",))] if thorough else [])
    def nm(m): return "%s%s%s" % ("g++" if m["gcc"] else "clang++", ", NDEBUG" if m.get("ndebug") else "", ", " + m["flags"][0] if m.get("flags") else "")
    by = {R1: [], R2: [], R3: [], R4: [], R5: []}
    for m in modes:
        for T in ("int", "R"):
            for d, b in ARRAY: by[R1].append(TW("Array<%s>: %s (%s)" % (T, d, nm(m)), w("using T = %s;\n" % T, b), **m))
            for d, b in HEAP: by[R1].append(TW("Heap<%s>: %s (%s)" % (T, d, nm(m)), w("using T = %s;\n" % T, b), **m))
            for d, b in TUPLE: by[R1].append(TW("%s of %s (%s)" % (d, T, nm(m)), w("using T = %s;\n" % T, b), **m))
        by[R1].append(TW("Array of a movable type (%s)" % nm(m), w("", "xme::Array<M> a; a.push_back(M(1)); a.emplace_back(2); a.insert(a.begin(), M(3)); a.reserve(20); a.insert(a.begin() + 1, M(4)); auto b = std::move(a); b.erase(b.begin()); return b.size() == 3 && b[0] == M(4) && b[1] == M(1) && b[2] == M(2);"), **m))
        by[R1].append(TW("Heap of a movable type (%s)" % nm(m), w("", "xme::Heap<M> h; h.push(M(1)); h.emplace(5); h.push(M(3)); h.pop(); return h.front() == M(3);"), **m))
        for d, b in VIEW: by[R1].append(TW("ArrayView: %s (%s)" % (d, nm(m)), w("", b), **m))
        if m["gcc"]:      # XME_CONSTEXPR20 is empty for clang in C++20
            for T in ("int", "R"):
                for d, b in CMP: by[R1].append(TW("%s of %s (%s)" % (d, T, nm(m)), w("using T = %s;\n" % T, b), **m))
        for d, p, b in FUN: by[R3].append(TW("%s (%s)" % (d, nm(m)), w(p, b), **m))
        for d, b in CONST:
            if b: by[R5].append(TW("%s (%s)" % (d, nm(m)), b, **m))
        for T in ("int", "float", "double") + (("short", "unsigned") if thorough else ()):
            for N in (2, 3, 4, 5):
                for d, b in VEC + (VSIGNED if T not in ("unsigned", "short") else []) + (VFLOAT if T in ("float", "double") else []):
                    by[R2].append(TW("Vector<%s, %d>: %s (%s)" % (T, N, d, nm(m)), w("using T = %s; constexpr std::size_t N = %d;\n" % (T, N), b), header=HM, **m))
        for T in ("float", "double"):
            for C, Q in (2, 2), (3, 3), (4, 4), (3, 2), (2, 4), (5, 5):
                for d, b in MAT: by[R2].append(TW("Matrix<%s, %d, %d>: %s (%s)" % (T, C, Q, d, nm(m)), w("using T = %s; constexpr std::size_t C = %d, Q = %d;\n" % (T, C, Q), b), header=HM, **m))
        for d, b in MISC: by[R2].append(TW("%s (%s)" % (d, nm(m)), w("", b), header=HM, **m))
    for cf, fl in (("scalar", ()), ("AVX2", ("-mavx2", "-DXME_SIMD_ENABLE_AVX2")), ("SSE2", ("-msse2", "-DXME_SIMD_ENABLE_SSE2")), ("SSSE3", ("-mssse3", "-DXME_SIMD_ENABLE_SSSE3")), ("SSE4.1", ("-msse4.1", "-DXME_SIMD_ENABLE_SSE41"))):
        for g in (False, True):
            for T in ("signed char", "unsigned char", "short", "int", "long", "char"):
                for N in (5, 37, 100):
                    for d, b in FINDS: by[R4].append(TW("%s: %s, %d elements of %s (%s)" % (cf, d, N, T, "g++" if g else "clang++"), w("using T = %s; constexpr int N = %d;\n" % (T, N), "std::array<T, N> a{}; for(int i = 0; i < N; ++i) a[i] = T(i); " + b), header=ELEM + ALG, flags=fl, gcc=g))
    for r, ts in by.items():
        run_types(chk, r, H, ts); chk.need(r, 5)
