// Driver for Values and Compound: moves values given as text across the border and reports what arrived.
#include "val_head.inc"
static std::vector<std::string> said;
static std::string &input()
{
    static std::string s;
    return s;
}
static void say_text(const char *what, const std::string &s) { said.push_back(vf::quote(std::string(what) + " " + s)); }
template <class T>
static void say(const char *what, const T &x) { say_text(what, val::text(x)); }
// without the identities of objects
static std::string strip(const std::string &s)
{
    std::string r;
    bool skip = false;
    for (char c : s) {
        if (c == '@')
            skip = true;
        if (c == '.')
            skip = false;
        if (!skip)
            r += c;
    }
    return r;
}
static void unknown(const std::string &op)
{
    fprintf(stderr, "driver: unknown operation %s\n", op.c_str());
    exit(3);
}
#include "val_body.inc"
int main()
{
    const size_t NT = sizeof TFS / sizeof *TFS - 1, NM = sizeof MFS / sizeof *MFS - 1;
    std::vector<bool> kept(NT);
    return vf::loop(
        [&](const vf::Cmd &c) {
            said.clear();
            val::store().clear();
            size_t k = (size_t)vf::num(c[1]);
            if (c[0] == "sig") {
                if (k >= NM)
                    exit(3);
                MFS[k](c);
            } else {
                if (k >= NT)
                    exit(3);
                TFS[k](c[0], c);
                kept[k] = kept[k] || c[0] == "in" || c[0] == "cbret";
            }
            Mk::drop_refs();
            return "\"said\":[" + vf::join(said) + "]";
        },
        [&] {
            for (size_t k = 0; k < NT; ++k)
                if (kept[k] && CANDROP[k])
                    TFS[k]("dropr", { "dropr", "0" });
            kept.assign(NT, false);
            said.clear();
            said.shrink_to_fit();
        },
        [] {});
}
