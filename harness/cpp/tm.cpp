// Driver for TypeMap: values given as text cross through rules written by the user.
#include "vf.hpp"
#include "tm.hpp"
#include <future>
#include <type_traits>
#include <optional>
#include <variant>
#ifdef BOOST
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#endif
#ifdef BOOSTOPT
template <class T> using Optional = boost::optional<T>;
#else
template <class T> using Optional = std::optional<T>;
#endif
namespace tmv {
struct Src {
    const char *p;
    int num()
    {
        char *e;
        long v = strtol(p, &e, 10);
        if (e == p)
            exit(3);
        p = e;
        return int(v);
    }
    void eat(char c)
    {
        if (*p++ != c)
            exit(3);
    }
};
inline void mk(Src &s, int32_t &x) { x = s.num(); }
inline void mk(Src &s, bool &x) { x = s.num() != 0; }
inline std::string text(int32_t x) { return std::to_string(x); }
inline std::string text(int64_t x) { return std::to_string(x); }
inline std::string text(bool x) { return x ? "1" : "0"; }
} // namespace tmv
namespace tmv {
template <class F> struct Arg;
template <class R, class A> struct Arg<R (*)(A)> { typedef std::decay_t<A> type; };
template <class R, class A> struct Arg<R (*)(A) noexcept> { typedef std::decay_t<A> type; };
template <class C, class R, class A> struct Arg<R (C::*)(A) const noexcept> { typedef std::decay_t<A> type; };
template <class F> struct Ret;
template <class C, class R> struct Ret<R (C::*)() const noexcept> { typedef R type; };
} // namespace tmv
#include "tm_head.inc"
namespace tmv {
template <class T> std::string text(const Optional<T> &x);
template <class T, class U> std::string text(const std::pair<T, U> &x);
template <class T> void mk(Src &s, Optional<T> &x);
#ifdef BOOSTOPT
template <class T> std::string text(const std::optional<T> &x);
template <class T> void mk(Src &s, std::optional<T> &x);
#endif
template <class T, class U> void mk(Src &s, std::pair<T, U> &x);
template <class T, class U> std::string text(const utm::Duo<T, U> &x);
template <class T, class U> void mk(Src &s, utm::Duo<T, U> &x);
template <class T> std::string text(const Optional<T> &x) { return x ? "S" + text(*x) : std::string("N"); }
template <class T, class U> std::string text(const std::pair<T, U> &x) { return "(" + text(x.first) + "," + text(x.second) + ")"; }
#ifdef BOOSTOPT
// the rules of the user for some Options name std::optional in every configuration
template <class T> std::string text(const std::optional<T> &x) { return x ? "S" + text(*x) : std::string("N"); }
template <class T> void mk(Src &s, std::optional<T> &x)
{
    boost::optional<T> y;
    mk(s, y);
    x = y ? std::optional<T>(*y) : std::optional<T>();
}
#endif
template <class T> void mk(Src &s, Optional<T> &x)
{
    if (*s.p == 'N') {
        ++s.p;
        x = Optional<T>();
        return;
    }
    s.eat('S');
    T v;
    mk(s, v);
    x = v;
}
template <class T, class U> void mk(Src &s, std::pair<T, U> &x)
{
    s.eat('(');
    mk(s, x.first);
    s.eat(',');
    mk(s, x.second);
    s.eat(')');
}
template <class T, class U> std::string text(const utm::Duo<T, U> &x) { return "(" + text(x.a) + "," + text(x.b) + ")"; }
template <class T, class U> void mk(Src &s, utm::Duo<T, U> &x)
{
    s.eat('(');
    mk(s, x.a);
    s.eat(',');
    mk(s, x.b);
    s.eat(')');
}
template <class T> T make(const std::string &t)
{
    Src s { t.c_str() };
    T x;
    mk(s, x);
    if (*s.p)
        exit(3);
    return x;
}
} // namespace tmv
using namespace NS;
static std::vector<std::string> said;
static void say(const std::string &s) { said.push_back(vf::quote(s)); }
#ifdef BOOST
template <class T, class U> static void said_result(const boost::variant<T, U> &r)
{
    if (auto *p = boost::get<T>(&r))
        return say(tmv::text(*p));
    say("error " + boost::get<U>(r).to_std_string());
}
#endif
template <class T, class U> static void said_result(const std::variant<T, U> &r)
{
    if (auto *p = std::get_if<0>(&r))
        return say(tmv::text(*p));
    say("error " + std::get<1>(r).to_std_string());
}
template <class F> static bool ready(const F &f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
template <class F> static void said_future(F f)
{
    if (!ready(f))
        return say("not ready");
    say(tmv::text(f.get()));
}
static void unknown(const std::string &op)
{
    fprintf(stderr, "driver: unknown operation %s\n", op.c_str());
    exit(3);
}
#include "tm_body.inc"
int main()
{
    return vf::loop(
        [&](const vf::Cmd &c) {
            said.clear();
            size_t k = (size_t)vf::num(c[2]);
            if (k == 0 || k >= sizeof RUN / sizeof *RUN)
                exit(3);
            RUN[k](c[0], c[1], c);
            return "\"said\":[" + vf::join(said) + "]";
        },
        [&] {
            for (size_t k = 1; k < sizeof RUN / sizeof *RUN; ++k)
                RUN[k]("reset", "", vf::Cmd());
            said.clear();
            said.shrink_to_fit();
        },
        [] {});
}
