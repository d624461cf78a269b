// Values as text, C++ side (the notation of harness/common/val.rs).
#pragma once
#include "vf.hpp"
#ifdef BOOST
#include <boost/optional.hpp>
#include <boost/utility/string_view.hpp>
#include <boost/variant.hpp>
#endif
#include <cstring>
#include <deque>
#include <tuple>
#include <variant>
#include <type_traits>
extern "C" void vf_put(const char *, size_t);
namespace val {
struct P {
    std::string s;
    size_t i = 0;
    char ch() { return s.at(i++); }
    unsigned byte()
    {
        auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        unsigned h = d(ch());
        return h * 16 + d(ch());
    }
    std::string bytes()
    {
        std::string r;
        while (s.at(i) != '.')
            r.push_back((char)byte());
        ++i;
        return r;
    }
    size_t count()
    {
        size_t n = 0;
        for (char c = ch(); c != ':'; c = ch())
            n = n * 10 + (c - '0');
        return n;
    }
};
inline void hex(std::string &o, const void *p, size_t n)
{
    char b[4];
    for (size_t i = 0; i < n; ++i) {
        snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]);
        o += b;
    }
    o += '.';
}
inline std::deque<std::string> &store()
{
    static std::deque<std::string> s;
    return s;
}
template <class T, class = void>
struct Cod;
template <class T>
void enc(const T &x, std::string &o) { Cod<T>::enc(x, o); }
template <class T>
T dec(P &p) { return Cod<T>::dec(p); }
template <class T>
std::string text(const T &x)
{
    std::string o;
    enc(x, o);
    return o;
}
template <class T>
struct Cod<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> {
    static void enc(const T &x, std::string &o) { hex(o, &x, sizeof x); }
    static T dec(P &p)
    {
        std::string b = p.bytes();
        T x;
        if (b.size() != sizeof x)
            abort();
        memcpy(&x, b.data(), sizeof x);
        return x;
    }
};
template <class T>
struct Cod<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static void enc(const T &x, std::string &o)
    {
        unsigned char b = (unsigned char)x;
        if ((long)x != (long)b)
            b = 255;
        hex(o, &b, 1);
    }
    static T dec(P &p) { return static_cast<T>((unsigned char)p.bytes().at(0)); }
};
template <>
struct Cod<std::string_view> {
    static void enc(const std::string_view &x, std::string &o) { hex(o, x.data(), x.size()); }
    static std::string_view dec(P &p)
    {
        store().push_back(p.bytes());
        return store().back();
    }
};
template <class T>
struct Cod<std::optional<T>> {
    static void enc(const std::optional<T> &x, std::string &o)
    {
        o += x.has_value() ? 'S' : 'N';
        if (x)
            val::enc(*x, o);
    }
    static std::optional<T> dec(P &p)
    {
        if (p.ch() == 'N')
            return {};
        return std::optional<T>(val::dec<T>(p));
    }
};
template <class A, class B>
struct Cod<std::pair<A, B>> {
    static void enc(const std::pair<A, B> &x, std::string &o)
    {
        o += '(';
        val::enc(x.first, o);
        val::enc(x.second, o);
    }
    static std::pair<A, B> dec(P &p)
    {
        p.ch();
        A a = val::dec<A>(p);
        B b = val::dec<B>(p);
        return std::pair<A, B>(std::move(a), std::move(b));
    }
};
template <class A, class B, class C>
struct Cod<std::tuple<A, B, C>> {
    static void enc(const std::tuple<A, B, C> &x, std::string &o)
    {
        o += '[';
        val::enc(std::get<0>(x), o);
        val::enc(std::get<1>(x), o);
        val::enc(std::get<2>(x), o);
    }
    static std::tuple<A, B, C> dec(P &p)
    {
        p.ch();
        A a = val::dec<A>(p);
        B b = val::dec<B>(p);
        C c = val::dec<C>(p);
        return std::tuple<A, B, C>(std::move(a), std::move(b), std::move(c));
    }
};
template <class A, class B>
struct Cod<std::variant<A, B>> {
    static void enc(const std::variant<A, B> &x, std::string &o)
    {
        if (x.index() == 0) {
            o += 'O';
            val::enc(std::get<0>(x), o);
        } else {
            o += 'E';
            val::enc(std::get<1>(x), o);
        }
    }
    static std::variant<A, B> dec(P &p)
    {
        if (p.ch() == 'O')
            return std::variant<A, B>(std::in_place_index<0>, val::dec<A>(p));
        return std::variant<A, B>(std::in_place_index<1>, val::dec<B>(p));
    }
};
// Result<(), E>: an optional error
template <class O>
struct ResU {
    O o;
};
template <class O>
struct Cod<ResU<O>> {
    static void enc(const ResU<O> &x, std::string &o)
    {
        o += x.o ? "E" : "U";
        if (x.o)
            val::enc(*x.o, o);
    }
    static ResU<O> dec(P &p)
    {
        typedef typename std::decay<decltype(*std::declval<O &>())>::type E;
        if (p.ch() == 'U')
            return ResU<O>{ O() };
        return ResU<O>{ O(val::dec<E>(p)) };
    }
};
template <class O>
std::string textu(const O &x)
{
    std::string o = x ? "E" : "U";
    if (x)
        val::enc(*x, o);
    return o;
}
template <class V>
void enc_seq(const V &x, std::string &o)
{
    o += "V" + std::to_string(x.size()) + ":";
    for (size_t i = 0; i < x.size(); ++i)
        val::enc(x[i], o);
}
#ifdef BOOST
template <>
struct Cod<boost::string_view> {
    static void enc(const boost::string_view &x, std::string &o) { hex(o, x.data(), x.size()); }
    static boost::string_view dec(P &p)
    {
        store().push_back(p.bytes());
        return store().back();
    }
};
template <class T>
struct Cod<boost::optional<T>> {
    static void enc(const boost::optional<T> &x, std::string &o)
    {
        o += x ? 'S' : 'N';
        if (x)
            val::enc(*x, o);
    }
    static boost::optional<T> dec(P &p)
    {
        if (p.ch() == 'N')
            return {};
        return boost::optional<T>(val::dec<T>(p));
    }
};
template <class A, class B>
struct Cod<boost::variant<A, B>> {
    static void enc(const boost::variant<A, B> &x, std::string &o)
    {
        if (x.which() == 0) {
            o += 'O';
            val::enc(boost::get<A>(x), o);
        } else {
            o += 'E';
            val::enc(boost::get<B>(x), o);
        }
    }
    static boost::variant<A, B> dec(P &p)
    {
        if (p.ch() == 'O')
            return boost::variant<A, B>(val::dec<A>(p));
        return boost::variant<A, B>(val::dec<B>(p));
    }
};
#endif
} // namespace val
