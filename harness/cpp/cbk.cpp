// Driver for CppCallback.

#include "Cb.hpp"
#include "Boo.hpp"
#include "Foo.hpp"
#include "K.hpp"
#include "vf.hpp"
#include <mutex>
#include <thread>
using namespace NS;
static std::mutex mu;
static std::vector<std::string> events;
static std::map<long, int> alive;
static long serials;
static std::thread::id main_thread = std::this_thread::get_id();
static std::function<void()> *nested;
static void ev(const std::string &s)
{
    std::lock_guard<std::mutex> g(mu);
    events.push_back(vf::quote(s));
}
// the callback is not the first base class
struct Pad {
    long pad[3] = { 11, 12, 13 };
    virtual ~Pad() {}
    virtual long padding() const { return pad[0]; }
};
struct Impl : public Pad, public Cb {
    long serial;
    int cnt = 0;
    std::string canary = "a string too long to be kept inside the object itself";
    Impl()
    {
        std::lock_guard<std::mutex> g(mu);
        serial = ++serials;
        alive[serial] = 1;
    }
    ~Impl() noexcept override
    {
        check();
        std::lock_guard<std::mutex> g(mu);
        alive.erase(serial);
        events.push_back(vf::quote("del " + std::to_string(serial)));
    }
    void check() const
    {
        if (pad[0] != 11 || pad[2] != 13 || canary.size() != 53)
            ev("bad object");
    }
    void called(const std::string &m) const
    {
        check();
        ev("call " + std::to_string(serial) + " " + m + " " + (std::this_thread::get_id() == main_thread ? "0" : "1"));
    }
    int32_t onA(int32_t a, int32_t b) const noexcept override
    {
        if (a == 3 && b == 5)
            called("a");
        else if (a != 0 || b != 0)
            ev("bad arguments");
        if (nested) {
            std::function<void()> *f = nested;
            nested = nullptr;
            (*f)();
        }
        return a * 10 + b + cnt;
    }
    Foo onFoo(Foo f, SV s) const noexcept override
    {
        called("f");
        if (f.get() != 1000 || std::string(s.data(), s.size()) != "\xc3\xa9x")
            ev("bad arguments");
        return Foo(f.get() + cnt);
    }
    int32_t onM(int32_t k) noexcept override
    {
        called("m");
        if (k != 9)
            ev("bad arguments");
        cnt = (cnt + 1) % MODULUS;
        return cnt;
    }
    void onE() const noexcept override { called("e"); }
};
struct BooImpl : public Boo {
    int32_t g(const C_Cb &x) const noexcept override { return x.onA(3, 5, x.opaque) - 35; }
    int32_t h(int8_t k, C_Cb &x) const noexcept override { return k == -7 ? x.onM(9, x.opaque) : -99; }
};
static int method(const std::string &m)
{
    return m == "a" ? 0 : m == "f" ? 1 : m == "e" ? 2 : 3;
}
int main()
{
    std::unique_ptr<Impl> mine;
    long last = 0;
    auto fresh = [&] {
        std::unique_ptr<Impl> p(new Impl);
        last = p->serial;
        return p;
    };
    return vf::loop(
        [&](const vf::Cmd &c) {
            events.clear();
            last = 0;
            std::string ret = "null";
            const std::string &op = c[0];
            auto n = [&](size_t i) { return (int)vf::num(c[i]); };
            if (op == "set") {
                auto p = fresh();
                if (c[2] == "box")
                    K::set(n(1), std::move(p));
                else
                    K::set_struct(n(1), Cb::to_c_interface(std::move(p)));
            } else if (op == "make")
                mine = fresh();
            else if (op == "lend")
                K::set_struct(n(1), Cb::reference_to_c_interface(*mine));
            else if (op == "unmake")
                mine.reset();
            else if (op == "once")
                ret = std::to_string(K::once(fresh(), n(1), method(c[2])));
            else if (op == "with" && c[3] == "ref")
                ret = std::to_string(K::with(Cb::reference_to_c_interface(*mine), n(1), method(c[2])));
            else if (op == "with")
                ret = std::to_string(K::with_mut(Cb::reference_to_c_interface(*mine), n(1), method(c[2])));
            else if (op == "call")
                ret = std::to_string(c[3] == "1" ? K::tcall(n(1), method(c[2])) : K::call(n(1), method(c[2])));
            else if (op == "pass")
                ret = std::to_string(K::pass(c[1] == "own" ? Cb::to_c_interface(fresh()) : Cb::reference_to_c_interface(*mine), std::make_unique<BooImpl>()));
            else if (op == "swap")
                K::swap();
            else if (op == "clear") {
                if (c[2] == "1")
                    K::tclear(n(1));
                else if (n(2) == 2)
                    K::uclear(n(1));
                else
                    K::clear(n(1));
            } else if (op == "par")
                ret = std::to_string(K::par(method(c[1]), n(2)));
            else if (op == "nest") {
                std::function<void()> f = [&] { K::call(1 - n(1), method(c[2])); };
                nested = &f;
                ret = std::to_string(K::call(n(1), 0));
            } else if (op == "nestset") {
                std::function<void()> f = [&] { K::set(1 - n(1), fresh()); };
                nested = &f;
                ret = std::to_string(K::call(n(1), 0));
            } else {
                fprintf(stderr, "driver: unknown operation %s\n", op.c_str());
                exit(3);
            }
            std::string al;
            for (auto &x : alive)
                al += (al.empty() ? "" : ",") + std::to_string(x.first);
            return "\"ret\":" + ret + ",\"new\":" + std::to_string(last) + ",\"ev\":[" + vf::join(events) + "],\"alive\":[" + al + "]";
        },
        [&] {
            K::clear(0);
            K::clear(1);
            mine.reset();
            if (!alive.empty()) {
                fprintf(stderr, "panic: callback objects are left\n");
                exit(4);
            }
            events.clear();
            events.shrink_to_fit();
        },
        [&] { serials = 0; });
}
