// Driver for SmartPtr.tla. Classes A (handles 1, 2) and B (handles 3, 4) chosen by the first argument: the index of A's kind.
#include <csignal>
#include <memory>
#include <optional>
#include <unistd.h>
#include "vf.hpp"
#include "sp_includes.hpp"
using namespace NS;
extern "C" size_t vf_probes(char *buf, size_t cap);
struct Lambda : NCb {
    std::function<int()> f;
    explicit Lambda(std::function<int()> x) : f(std::move(x)) {}
    int32_t run() const noexcept override { return f(); }
};
template <class C, bool COPY> struct Ops {
    static C dup(const C &c) { return C(c); }
    static void assign(std::optional<C> &d, const C &s, int n)
    {
        if constexpr (COPY) {
            if (d && n % 2)
                *d = s;
            else {
                C t(s);
                d.reset();
                d.emplace(std::move(t));
            }
        }
    }
    static void keep(std::optional<C> &h, const std::string &how)
    {
        if constexpr (COPY) {
            if (how == "val")
                C::keep(C(*h));
            else
                C::keep_opt(OPT<C>(C(*h)));
        } else {
            if (how == "val")
                C::keep(std::move(*h));
            else
                C::keep_opt(OPT<C>(std::move(*h)));
            h.reset();
        }
    }
};
template <class A, class B, bool CA, bool CB> struct Drv {
    std::optional<A> a[3];
    std::optional<B> b[3];
    int n = 0;
    static bool isa(long i) { return i <= 2; }
    long get(long i) { return isa(i) ? a[i]->get() : b[i - 2]->get(); }
    long set(long i, int v) { return isa(i) ? a[i]->set(v) : b[i - 2]->set(v); }
    std::string step(const vf::Cmd &c)
    {
        alarm(30);
        ++n;
        const std::string &op = c[0];
        long i = c.size() > 1 ? vf::num(c[1]) : 0, j = c.size() > 2 ? vf::num(c[2]) : 0;
        int v = c.size() > 3 ? vf::num(c[3]) : 0;
        std::string how = c.size() > 4 ? c[4] : "";
        long ret = -1;
        if (op == "new") {
            if (isa(i)) {
                if (n % 2)
                    a[i].emplace(v);
                else
                    a[i] = A(v);
            } else
                b[i - 2].emplace(v);
        } else if (op == "drop") {
            if (isa(i))
                a[i].reset();
            else
                b[i - 2].reset();
        } else if (op == "copy") {
            if (isa(i))
                Ops<A, CA>::assign(a[i], *a[j], n);
            else
                Ops<B, CB>::assign(b[i - 2], *b[j - 2], n);
        } else if (op == "get") {
            if (how == "self")
                ret = get(i);
            else
                ret = isa(i) ? A::arg_get(*a[i]) : B::arg_get(*b[i - 2]);
        } else if (op == "set") {
            if (how == "self")
                ret = set(i, v);
            else if (how == "inline")
                ret = isa(i) ? a[i]->inl(v) : b[i - 2]->inl(v);
            else
                ret = isa(i) ? A::arg_set(*a[i], v) : B::arg_set(*b[i - 2], v);
        } else if (op == "two") {
            bool self = how == "self";
            if (isa(i) && isa(j))
                ret = self ? a[i]->two(*a[j]) : A::arg_two(*a[i], *a[j]);
            else if (isa(i))
                ret = a[i]->two_q(*b[j - 2]);
            else if (isa(j))
                ret = A::twr_q(*b[i - 2], *a[j]);
            else
                ret = self ? b[i - 2]->two(*b[j - 2]) : B::arg_two(*b[i - 2], *b[j - 2]);
        } else if (op == "xfer") {
            if (isa(i) && isa(j))
                ret = a[i]->xfer(*a[j]);
            else if (isa(i))
                ret = a[i]->xfer_q(*b[j - 2]);
            else if (isa(j))
                ret = A::xfr_q(*b[i - 2], *a[j]);
            else
                ret = b[i - 2]->xfer(*b[j - 2]);
        } else if (op == "swap") {
            if (isa(i) && isa(j))
                ret = A::swap(*a[i], *a[j]);
            else if (isa(i))
                ret = A::swap_q(*a[i], *b[j - 2]);
            else if (isa(j)) {
                long r = A::swap_q(*a[j], *b[i - 2]);
                ret = r % 10 * 10 + r / 10;
            } else
                ret = B::swap(*b[i - 2], *b[j - 2]);
        } else if (op == "nestget" || op == "nestset") {
            std::unique_ptr<NCb> cb(new Lambda([=] { return op == "nestget" ? get(j) : set(j, v); }));
            ret = isa(i) ? a[i]->nest(std::move(cb)) : b[i - 2]->nest(std::move(cb));
        } else if (op == "dup") {
            if (isa(j)) {
                A t = a[j]->dup();
                a[i].reset();
                a[i].emplace(std::move(t));
            } else {
                B t = b[j - 2]->dup();
                b[i - 2].reset();
                b[i - 2].emplace(std::move(t));
            }
        } else if (op == "keep")
            Ops<A, CA>::keep(a[i], how);
        else if (op == "keepnone")
            A::keep_opt(OPT<A>());
        else if (op == "kept") {
            if (how == "val") {
                A t = A::kept();
                a[i].reset();
                a[i].emplace(std::move(t));
            } else {
                auto t = A::kept_opt();
                a[i].reset();
                if (t)
                    a[i].emplace(std::move(*t));
            }
        } else if (op == "keptget")
            ret = A::kept_get();
        else if (op == "keptset")
            ret = A::kept_set(v);
        else
            return "\"err\":\"unknown " + op + "\"";
        std::vector<std::string> hs;
        for (long k = 1; k <= 4; ++k) {
            bool has = isa(k) ? bool(a[k]) : bool(b[k - 2]);
            hs.push_back(has ? "[" + std::to_string(isa(k) ? a[k]->id() : b[k - 2]->id()) + "," + std::to_string(get(k)) + "]" : "[0,-1]");
        }
        std::string kept = A::kept_has() ? "[" + std::to_string(A::kept_id()) + "," + std::to_string(A::kept_get()) + "]" : "[0,-1]";
        static char buf[65536];
        std::string pr(buf, vf_probes(buf, sizeof buf));
        return "\"ret\":" + std::to_string(ret) + ",\"h\":[" + vf::join(hs) + "],\"kept\":" + kept + ",\"probe\":[" + pr + "]";
    }
    void clean()
    {
        A::keep_opt(OPT<A>());
        for (int k = 0; k < 3; ++k) {
            a[k].reset();
            b[k].reset();
        }
        static char buf[65536];
        vf_probes(buf, sizeof buf);
    }
};
template <class A, class B, bool CA, bool CB> int run()
{
    Drv<A, B, CA, CB> d;
    return vf::loop([&](const vf::Cmd &c) { return d.step(c); }, [&] { d.clean(); }, [&] { d.n = 0; });
}
int main(int argc, char **argv)
{
    int k = argc > 1 ? atoi(argv[1]) : 0;
    switch (k) {
#include "sp_cases.inc"
    }
    return 2;
}
