// Driver for CppOwn: executes one step of the model on real generated wrapper objects.
#include "vf.hpp"
#include "Foo.hpp"
#include "Cp.hpp"
#include "Rr.hpp"
#include "Am.hpp"
#include "HoldFoo.hpp"
#include "HoldCp.hpp"
#include "HoldRr.hpp"
#include "HoldAm.hpp"
using namespace NS;

struct IWorld {
    virtual ~IWorld() {}
    virtual std::string step(const vf::Cmd &c) = 0;
    virtual void clean() = 0;
    virtual void fresh() = 0;
};

template <class W, class R, class H, bool COPY, bool SHARED, bool SAME>
struct World : IWorld {
    std::vector<W *> s;
    typename W::CForeignType *raw = nullptr;
    H *h = nullptr;
    R *ref = nullptr;
    static typename W::SelfType null() { return nullptr; }
    void clean() override
    {
        dropref();
        for (auto p : s)
            delete p;
        s.clear();
        if (raw)
            delete new W(raw);
        raw = nullptr;
        delete h;
        h = nullptr;
    }
    void fresh() override
    {
        for (int i = 0; i < 3; ++i)
            s.push_back(new W(null()));
        h = new H();
    }
    void dropref()
    {
        delete ref;
        ref = nullptr;
    }
    static bool empty(const W &w) { return static_cast<typename W::SelfType>(w) == nullptr; }
    std::string step(const vf::Cmd &c) override
    {
        const std::string &op = c[0];
        auto at = [&](size_t i) -> W & { return *s[c[i][0] - 'A']; };
        auto idx = [&](size_t i) { return c[i][0] - 'A'; };
        auto replace = [&](size_t i, W *n) { delete s[idx(i)]; s[idx(i)] = n; };
        long ret = -99;
        if (op == "new") {
            W n((int)vf::num(c[2]));
            at(1) = std::move(n);
        } else if (op == "make")
            at(1) = W::make((int)vf::num(c[2]));
        else if (op == "makeOpt") {
            auto o = W::make_opt((int)vf::num(c[2]), true);
            if (!o)
                ret = -1;
            else
                at(1) = std::move(*o);
        } else if (op == "makeNone") {
            auto o = W::make_opt(3, false);
            ret = o ? 1 : 0;
        } else if (op == "ignore")
            W::make((int)vf::num(c[1]));
        else if (op == "ignoreOpt")
            W::make_opt((int)vf::num(c[1]), true);
        else if (op == "moveAssign")
            at(1) = std::move(at(2));
        else if (op == "moveCtor")
            replace(1, new W(std::move(at(2))));
        else if (op == "swap") {
            std::swap(at(1), at(2));
        } else if (op == "destroy")
            replace(1, new W(null()));
        else if (op == "scope") {
            W x(std::move(at(1)));
        } else if (op == "release")
            raw = at(1).release();
        else if (op == "adopt") {
            W n(raw);
            raw = nullptr;
            at(1) = std::move(n);
        } else if (op == "get")
            ret = at(1).get();
        else if (op == "set")
            at(1).set((int)vf::num(c[2]));
        else if (op == "peek")
            ret = W::peek(77, at(1));
        else if (op == "poke")
            W::poke(at(1), (int)vf::num(c[2]));
        else if (op == "asRref") {
            dropref();
            ref = new R(at(1).as_rref());
        } else if (op == "asCref") {
            dropref();
            const W &r = at(1).as_cref();
            ref = new R(r.as_rref());
        } else if (op == "readRef")
            ret = ref->get();
        else if (op == "passRef")
            ret = W::peek(77, ref->as_cref());
        else if (op == "moveRef") {
            R x(std::move(*ref));
            ret = x.get();
            R y(nullptr);
            y = std::move(x);
            ret = y.get();
            dropref();
        } else if (op == "dropRef")
            dropref();
        else if (op == "consume")
            ret = W::consume(std::move(at(1)));
        else if (op == "consumeOpt") {
            OPTNS::optional<W> o(std::move(at(1)));
            ret = W::consume_opt(std::move(o));
        } else if (op == "optNone")
            ret = W::consume_opt({});
        else if (op == "pass")
            at(2) = W::pass(std::move(at(1)));
        else if (op == "passOpt") {
            OPTNS::optional<W> o(std::move(at(1)));
            auto r = W::pass_opt(std::move(o));
            if (!r)
                ret = -1;
            else
                at(2) = std::move(*r);
        } else if (op == "put")
            h->put(std::move(at(1)));
        else if (op == "take") {
            auto o = h->take();
            if (!o)
                ret = -1;
            else
                at(1) = std::move(*o);
        } else if (op == "takeNone") {
            auto o = h->take();
            ret = o ? 1 : 0;
        } else if (op == "replace")
            at(1) = h->replace(std::move(at(1)));
        else if (op == "holdDrop") {
            delete h;
            h = new H();
        } else if (op == "holdMove") {
            H *n = new H(std::move(*h));
            delete h;
            h = n;
        } else if (op == "same") {
            if constexpr (SAME)
                ret = at(1).same(at(2));
            else
                ret = at(1).serial() == at(2).serial();
        } else
            ret = more(c, at, replace);
        // what is now where
        std::vector<std::string> own, val;
        for (W *w : s) {
            own.push_back(empty(*w) ? "0" : std::to_string(w->serial()));
            val.push_back(empty(*w) ? "-1" : std::to_string(w->get()));
        }
        std::string r = "\"own\":[" + vf::join(own) + "],\"val\":[" + vf::join(val) + "]";
        r += ",\"raw\":" + std::to_string(raw ? R(raw).serial() : 0) + ",\"rawval\":" + std::to_string(raw ? R(raw).get() : -1);
        r += ",\"hold\":" + std::to_string(h->serial()) + ",\"holdval\":" + std::to_string(h->value());
        // the model says (last word of the command) whether the reference is still usable
        if (c.back() == "ref")
            r += ",\"ref\":" + std::to_string(ref ? ref->serial() : 0) + ",\"refval\":" + std::to_string(ref ? ref->get() : -1);
        r += ",\"ret\":" + std::to_string(ret);
        return r;
    }
    template <class At, class Re>
    long more(const vf::Cmd &c, At at, Re replace)
    {
        const std::string &op = c[0];
        if constexpr (!SHARED) {
            if (op == "optRef")
                return W::opt_ref(&at(1));
            if (op == "optRefNone")
                return W::opt_ref(nullptr);
            if (op == "holdGet") {
                dropref();
                ref = new R(h->get());
                return ref->get();
            }
            if (op == "holdGetOpt") {
                dropref();
                auto o = h->get_opt();
                if (!o)
                    return -1;
                ref = new R(std::move(*o));
                return ref->get();
            }
            if (op == "holdGetNone") {
                auto o = h->get_opt();
                return o ? 1 : 0;
            }
        }
        if constexpr (SHARED)
            if (op == "holdShare") {
                at(1) = h->share();
                return -99;
            }
        if constexpr (COPY) {
            if (op == "copyAssign") {
                at(1) = at(2);
                return -99;
            }
            if (op == "copyCtor") {
                replace(1, new W(at(2)));
                return -99;
            }
            if (op == "copySelf") {
                W &x = at(1);
                at(1) = x;
                return -99;
            }
            if (op == "consumeCopy")
                return W::consume(at(1));
            if (op == "consumeOptCopy") {
                OPTNS::optional<W> o(at(1));
                return W::consume_opt(std::move(o));
            }
            if (op == "putCopy") {
                h->put(at(1));
                return -99;
            }
        }
        fprintf(stderr, "driver: unknown operation %s\n", op.c_str());
        exit(3);
    }
};

int main(int argc, char **argv)
{
    std::string k = argc > 1 ? argv[1] : "";
    IWorld *w = nullptr;
    if (k == "Foo")
        w = new World<Foo, FooRef, HoldFoo, false, false, true>();
    else if (k == "Cp")
        w = new World<Cp, CpRef, HoldCp, true, false, true>();
    else if (k == "Rr")
        w = new World<Rr, RrRef, HoldRr, true, true, true>();
    else if (k == "Am")
        w = new World<Am, AmRef, HoldAm, true, true, false>();
    int rc = vf::loop([&](const vf::Cmd &c) { return w->step(c); }, [&] { w->clean(); }, [&] { w->fresh(); });
    delete w;
    return rc;
}
