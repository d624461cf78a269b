// Driver for CppSeq: executes one step of the model on real containers.
#include "vf.hpp"
#include <algorithm>
#include <cstring>
#include <iterator>
#include <limits>
#include "seq_includes.hpp" // all generated class headers
using namespace NS;

static std::string err;
static void bad(const std::string &s)
{
    if (err.size() < 2000)
        err += s + "; ";
}
// every way of walking over [b, e) sees n elements, in the order given by same(iterator, index)
template <class It, class Same>
void arith(It b, It e, size_t n, Same same, const char *what)
{
    std::string w(what);
    size_t i = 0;
    for (It x = b; x != e; ++x, ++i) {
        if (i >= n) {
            bad(w + ": iteration yields more than size() elements");
            return;
        }
        if (!same(x, i))
            bad(w + ": iteration yields another element at " + std::to_string(i));
        if (x == e)
            bad(w + ": == and != agree");
    }
    if (i != n) {
        bad(w + ": iteration yields fewer than size() elements");
        return;
    }
    for (size_t k = n; k > 0; --k) {
        It x = e;
        for (size_t j = n; j >= k; --j)
            --x;
        if (!same(x, k - 1))
            bad(w + ": going backwards yields another element at " + std::to_string(k - 1));
    }
    if (e - b != (std::ptrdiff_t)n || b - e != -(std::ptrdiff_t)n || std::distance(b, e) != (std::ptrdiff_t)n)
        bad(w + ": end - begin is not the size");
    for (size_t k = 0; k <= n; ++k) {
        It x = b + (std::ptrdiff_t)k, y = e - (std::ptrdiff_t)(n - k), z = b, u = e, v = e;
        z += (std::ptrdiff_t)k;
        u -= (std::ptrdiff_t)(n - k);
        v += -(std::ptrdiff_t)(n - k);
        if (!(x == y) || !(x == z) || !(x == u) || !(x == v) || x != y)
            bad(w + ": positions reached in different ways differ at " + std::to_string(k));
        if (k < n && (!same(x, k) || !same(v, k)))
            bad(w + ": begin + k denotes another element at " + std::to_string(k));
        for (size_t m = 0; m <= n; ++m) {
            It o = b + (std::ptrdiff_t)m;
            if (x - o != (std::ptrdiff_t)k - (std::ptrdiff_t)m)
                bad(w + ": difference of positions " + std::to_string(k) + " and " + std::to_string(m) + " is " + std::to_string((long)(x - o)));
            if ((x < o) != (k < m) || (x > o) != (k > m) || (x <= o) != (k <= m) || (x >= o) != (k >= m) || (x == o) != (k == m))
                bad(w + ": comparison of positions " + std::to_string(k) + " and " + std::to_string(m));
        }
    }
}

struct IWorld {
    virtual ~IWorld() {}
    virtual std::string step(const vf::Cmd &c) = 0;
    virtual void clean() = 0;
    virtual void fresh() = 0;
};
// one command: op slot slot i v n vs..
struct Args {
    std::string op;
    int s, t, i, v, n, a, b;
    explicit Args(const vf::Cmd &c)
    {
        op = c[0];
        s = (int)vf::num(c[1]);
        t = (int)vf::num(c[2]);
        i = (int)vf::num(c[3]);
        v = (int)vf::num(c[4]);
        n = (int)vf::num(c[5]);
        a = (int)vf::num(c[6]);
        b = (int)vf::num(c[7]);
    }
};

// operations every container has
template <class V>
bool common(const Args &c, std::vector<V *> &q)
{
    auto rep = [&](int i, V *n) { delete q[i]; q[i] = n; };
    if (c.op == "default")
        *q[c.s] = V();
    else if (c.op == "moveAssign")
        *q[c.s] = std::move(*q[c.t]);
    else if (c.op == "moveCtor")
        rep(c.s, new V(std::move(*q[c.t])));
    else if (c.op == "swap")
        std::swap(*q[c.s], *q[c.t]);
    else if (c.op == "scope") {
        V x(std::move(*q[c.s]));
    } else
        return false;
    return true;
}

template <class C, class Ref, class H, class V>
struct ObjWorld : IWorld {
    std::vector<V *> q;
    H *h = nullptr;
    C *e = nullptr;
    void clean() override
    {
        for (auto p : q)
            delete p;
        q.clear();
        delete h;
        h = nullptr;
        drope();
    }
    void fresh() override
    {
        q.push_back(new V());
        q.push_back(new V());
        h = new H();
    }
    void drope()
    {
        delete e;
        e = nullptr;
    }
    template <class Con>
    static std::string look(const Con &c, const char *what)
    {
        std::vector<std::string> r;
        std::vector<unsigned long> ser;
        size_t n = c.size();
        if (n > 1000) {
            bad(std::string(what) + ": size is " + std::to_string(n));
            return "[]";
        }
        if (c.empty() != (n == 0))
            bad(std::string(what) + ": empty() contradicts size()");
        for (size_t i = 0; i < n; ++i) {
            Ref x = c[i];
            ser.push_back(x.serial());
            r.push_back("[" + std::to_string(x.serial()) + "," + std::to_string(x.get()) + "]");
        }
        arith(c.begin(), c.end(), n, [&](const typename Con::const_iterator &it, size_t i) { return (*it).serial() == ser[i]; }, what);
        for (size_t i = 0; i < n; ++i)
            for (size_t k = 0; k < n; ++k)
                if ((c.begin() + i)[(std::ptrdiff_t)k - (std::ptrdiff_t)i].serial() != ser[k])
                    bad(std::string(what) + ": iterator[k] denotes another element");
        size_t m = 0;
        for (auto x : c)
            m += x.serial() == ser[m < n ? m : 0];
        if (m != n)
            bad(std::string(what) + ": range-for sees other elements");
        return "[" + vf::join(r) + "]";
    }
    std::string step(const vf::Cmd &cmd) override
    {
        Args c(cmd);
        long ret = -99;
        err.clear();
        if (common(c, q))
            ;
        else if (c.op == "make")
            *q[c.s] = H::vec_make(c.n, c.a, c.b);
        else if (c.op == "makeHold")
            h->make(c.n, c.a, c.b);
        else if (c.op == "clear")
            q[c.s]->clear();
        else if (c.op == "rewrap") {
            V n(q[c.s]->release());
            if (!q[c.s]->empty())
                bad("a released vector is not empty");
            *q[c.s] = std::move(n);
        } else if (c.op == "newE") {
            drope();
            e = new C(c.v);
        } else if (c.op == "dropE")
            drope();
        else if (c.op == "pushE") {
            q[c.s]->push(std::move(*e));
            drope();
        } else if (c.op == "pushNew")
            q[c.s]->push(C(c.v));
        else if (c.op == "remove") {
            C x = q[c.s]->remove(c.i - 1);
            drope();
            e = new C(std::move(x));
        } else if (c.op == "removeDrop")
            q[c.s]->remove(c.i - 1);
        else if (c.op == "put")
            h->put(std::move(*q[c.s]));
        else if (c.op == "take")
            *q[c.s] = h->take();
        else if (c.op == "consume")
            ret = H::vec_consume(std::move(*q[c.s]));
        else if (c.op == "pass" || c.op == "passRev")
            *q[c.t] = H::vec_pass(c.op == "passRev", std::move(*q[c.s]));
        else if (c.op == "sum") {
            auto sl = q[c.s]->as_slice();
            look(sl, "slice of a vector");
            auto s2 = std::move(sl);
            if (!sl.empty() || sl.size() != 0 || sl.begin() != sl.end())
                bad("a moved-from slice is not empty");
            ret = H::sum(77, std::move(s2));
        } else if (c.op == "sumDefault")
            ret = H::sum(77, RustForeignSliceConst<Ref>{});
        else if (c.op == "sumHold")
            ret = H::sum(77, h->slice());
        else if (c.op == "sumMoved") {
            auto s1 = h->slice();
            RustForeignSliceConst<Ref> s2(std::move(s1)), s3;
            s3 = std::move(s2);
            look(s3, "slice");
            if (s1.size() != 0 || s2.size() != 0)
                bad("a moved-from slice is not empty");
            ret = H::sum(77, std::move(s2));
        } else if (c.op == "bump")
            H::bump(q[c.s]->as_slice_mut(), c.i - 1, c.v);
        else if (c.op == "bumpHold")
            H::bump(h->mslice(), c.i - 1, c.v);
        else {
            fprintf(stderr, "driver: unknown operation %s\n", c.op.c_str());
            exit(3);
        }
        std::string r = "\"q\":[" + look(*q[0], "vector") + "," + look(*q[1], "vector") + "]";
        auto sl = h->slice();
        std::string hs = look(sl, "slice");
        auto msl = h->mslice();
        if (look(msl, "mutable slice") != hs)
            bad("slice and mutable slice differ");
        r += ",\"hold\":" + hs + ",\"e\":";
        r += e ? "[" + std::to_string(e->serial()) + "," + std::to_string(e->get()) + "]" : "null";
        r += ",\"ret\":" + std::to_string(ret) + ",\"err\":" + vf::quote(err);
        return r;
    }
};

template <class T>
struct Val {
    static T of(int v);
};
template <class T>
T conc(int v)
{
    if constexpr (std::is_floating_point<T>::value)
        return v == 0 ? -T(0) : std::numeric_limits<T>::max();
    else
        return v == 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max() - T(1);
}
template <class T>
int absv(const T &x)
{
    for (int v = 0; v < 2; ++v) {
        T y = conc<T>(v);
        if (memcmp(&x, &y, sizeof x) == 0)
            return v;
    }
    return -7;
}
template <class P, class H, class V, class T>
struct PrimWorld : IWorld {
    std::vector<V *> q;
    H *h = nullptr;
    void clean() override
    {
        for (auto p : q)
            delete p;
        q.clear();
        delete h;
        h = nullptr;
    }
    void fresh() override
    {
        q.push_back(new V());
        q.push_back(new V());
        h = new H();
    }
    template <class Con>
    static std::string look(const Con &c, const char *what)
    {
        std::vector<std::string> r;
        std::vector<int> val;
        size_t n = c.size();
        if (n > 1000) {
            bad(std::string(what) + ": size is " + std::to_string(n));
            return "[]";
        }
        if (c.empty() != (n == 0))
            bad(std::string(what) + ": empty() contradicts size()");
        for (size_t i = 0; i < n; ++i) {
            val.push_back(absv<T>(c[i]));
            r.push_back(std::to_string(val.back()));
        }
        arith(c.begin(), c.end(), n, [&](const typename Con::const_iterator &it, size_t i) { return absv<T>(*it) == val[i]; }, what);
        return "[" + vf::join(r) + "]";
    }
    static long hash(const std::vector<T> &v)
    {
        long r = 0;
        for (const T &x : v)
            r = r * 3 + absv<T>(x) + 1;
        return r;
    }
    std::string step(const vf::Cmd &cmd) override
    {
        Args c(cmd);
        long ret = -99;
        err.clear();
        T one = conc<T>(1);
        std::vector<T> arr;
        if (c.n > 0)
            arr.push_back(conc<T>(c.a));
        if (c.n > 1)
            arr.push_back(conc<T>(c.b));
        if (common(c, q))
            ;
        else if (c.op == "make")
            *q[c.s] = P::vec_make(c.n, conc<T>(c.a), conc<T>(c.b));
        else if (c.op == "makeHold")
            h->make(c.n, conc<T>(c.a), conc<T>(c.b));
        else if (c.op == "clear")
            q[c.s]->clear();
        else if (c.op == "rewrap") {
            V n(q[c.s]->release());
            if (!q[c.s]->empty())
                bad("a released vector is not empty");
            *q[c.s] = std::move(n);
        } else if (c.op == "put")
            h->put(std::move(*q[c.s]));
        else if (c.op == "take")
            *q[c.s] = h->take();
        else if (c.op == "consume")
            ret = P::vec_consume(std::move(*q[c.s]), one);
        else if (c.op == "pass" || c.op == "passRev")
            *q[c.t] = P::vec_pass(c.op == "passRev", std::move(*q[c.s]));
        else if (c.op == "sumHold")
            ret = P::sum(one, h->slice());
        else if (c.op == "sumMoved") {
            auto s1 = h->slice();
            RustSlice<const T> s2(std::move(s1));
            auto s3 = h->slice();
            s3 = std::move(s2);
            look(s3, "slice");
            if (s1.size() != 0 || s2.size() != 0 || !s1.empty() || s1.begin() != s1.end())
                bad("a moved-from slice is not empty");
            ret = P::sum(one, std::move(s2));
        } else if (c.op == "poke") {
            auto it = q[c.s]->begin();
            if (q[c.s]->end() - it != (std::ptrdiff_t)q[c.s]->size())
                bad("end - begin is not the size");
            it += c.i - 1;
            *it = conc<T>(c.v);
        } else if (c.op == "bumpHold")
            P::bump(h->mslice(), c.i - 1, conc<T>(c.v));
        else if (c.op == "pokeHold") {
            auto m = h->mslice();
            if (c.i % 2)
                m[c.i - 1] = conc<T>(c.v);
            else
                *(m.begin() + (c.i - 1)) = conc<T>(c.v);
        } else if (c.op == "sumArr")
            ret = P::sum(one, RustSlice<const T>{ arr.data(), arr.size() });
        else if (c.op == "bumpArr") {
            P::bump(RustSlice<T>{ arr.data(), arr.size() }, c.i - 1, conc<T>(c.v));
            ret = hash(arr);
        } else if (c.op == "revArr") {
            P::rev(RustSlice<T>{ arr.data(), arr.size() });
            ret = hash(arr);
        } else if (c.op == "nullArr")
            ret = P::sum(one, RustSlice<const T>{ nullptr, 0 });
        else {
            fprintf(stderr, "driver: unknown operation %s\n", c.op.c_str());
            exit(3);
        }
        std::string r = "\"q\":[" + look(*q[0], "vector") + "," + look(*q[1], "vector") + "]";
        auto sl = h->slice();
        std::string hs = look(sl, "slice");
        auto msl = h->mslice();
        if (look(msl, "mutable slice") != hs)
            bad("slice and mutable slice differ");
        r += ",\"hold\":" + hs + ",\"ret\":" + std::to_string(ret) + ",\"err\":" + vf::quote(err);
        return r;
    }
};

struct AccessWorld : IWorld {
    typedef decltype(HoldArcd::vec_make(0, 0, 0)) V;
    std::vector<V *> q;
    HoldArcd *h = nullptr;
    void clean() override
    {
        for (auto p : q)
            delete p;
        q.clear();
        delete h;
        h = nullptr;
    }
    void fresh() override
    {
        q.push_back(new V());
        q.push_back(new V());
        h = new HoldArcd();
    }
    template <class Con>
    static std::string look(const Con &c, const char *what)
    {
        std::vector<std::string> r;
        size_t n = c.size();
        if (n > 1000) {
            bad(std::string(what) + ": size is " + std::to_string(n));
            return "[]";
        }
        if (c.empty() != (n == 0))
            bad(std::string(what) + ": empty() contradicts size()");
        for (size_t i = 0; i < n; ++i)
            r.push_back("[" + std::to_string(c[i].serial()) + "," + std::to_string(c[i].get()) + "]");
        return "[" + vf::join(r) + "]";
    }
    std::string step(const vf::Cmd &cmd) override
    {
        Args c(cmd);
        err.clear();
        if (common(c, q))
            ;
        else if (c.op == "make")
            *q[c.s] = HoldArcd::vec_make(c.n, c.a, c.b);
        else if (c.op == "makeHold")
            h->make(c.n, c.a, c.b);
        else {
            fprintf(stderr, "driver: unknown operation %s\n", c.op.c_str());
            exit(3);
        }
        std::string r = "\"q\":[" + look(*q[0], "vector") + "," + look(*q[1], "vector") + "]";
        auto sl = h->slice();
        std::string hs = look(sl, "slice");
        decltype(sl) s2(std::move(sl)), s3;
        if (look(sl, "moved-from slice") != "[]" || look(s3, "default slice") != "[]")
            bad("a moved-from or default slice is not empty");
        s3 = std::move(s2);
        if (look(s3, "slice") != hs || look(s2, "moved-from slice") != "[]")
            bad("moving a slice changes it");
        r += ",\"hold\":" + hs + ",\"e\":null,\"ret\":-99,\"err\":" + vf::quote(err);
        return r;
    }
};

struct StrWorld : IWorld {
    typedef decltype(Str::make(0, 0, 0)) V;
    std::vector<V *> q;
    void clean() override
    {
        for (auto p : q)
            delete p;
        q.clear();
    }
    void fresh() override
    {
        q.push_back(new V());
        q.push_back(new V());
    }
    static std::string look(const V &c)
    {
        std::vector<std::string> r;
        std::string s = c.to_std_string();
        if (c.size() != s.size() || c.empty() != s.empty())
            bad("string: size() or empty() contradicts the text");
        auto v = c.VIEWFN();
        if (std::string(v.data(), v.size()) != s)
            bad("string: the view differs from the text");
        for (char x : s)
            r.push_back(x == '\0' ? "0" : x == 'z' ? "1" : "-7");
        return "[" + vf::join(r) + "]";
    }
    std::string step(const vf::Cmd &cmd) override
    {
        Args c(cmd);
        err.clear();
        if (common(c, q))
            ;
        else if (c.op == "make")
            *q[c.s] = Str::make(c.n, c.a, c.b);
        else if (c.op == "copyAssign")
            *q[c.s] = *q[c.t];
        else if (c.op == "copyCtor") {
            V *n = new V(*q[c.t]);
            delete q[c.s];
            q[c.s] = n;
        } else if (c.op == "copySelf") {
            V &x = *q[c.s];
            *q[c.s] = x;
        } else {
            fprintf(stderr, "driver: unknown operation %s\n", c.op.c_str());
            exit(3);
        }
        return "\"q\":[" + look(*q[0]) + "," + look(*q[1]) + "],\"hold\":[],\"ret\":-99,\"err\":" + vf::quote(err);
    }
};

int main(int argc, char **argv)
{
    std::string k = argc > 1 ? argv[1] : "";
    IWorld *w = nullptr;
#define O(C) if (k == #C) w = new ObjWorld<C, C##Ref, Hold##C, decltype(Hold##C::vec_make(0, 0, 0))>();
#define P(T, CT) if (k == #T) w = new PrimWorld<P##T, Hold##T, decltype(P##T::vec_make(0, 0, 0)), CT>();
    OBJS
    PRIMS
    if (k == "Arcd")
        w = new AccessWorld();
    if (k == "Str")
        w = new StrWorld();
    int rc = vf::loop([&](const vf::Cmd &c) { return w->step(c); }, [&] { w->clean(); }, [&] { w->fresh(); });
    delete w;
    return rc;
}
