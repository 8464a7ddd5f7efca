// C23: assigning a recursive variant from a variant-typed part of itself.
// Run with the id of one input; exit 0: the tree holds what that part held.
#include <boost/variant.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
struct Th { std::string s; static int live; Th(const char* c) : s(c) { ++live; } Th(const Th& o) : s(o.s) { ++live; } Th& operator=(const Th& o) { s = o.s; return *this; } ~Th() { --live; } };
int Th::live = 0;
typedef boost::make_recursive_variant<int, std::string, std::vector<boost::recursive_variant_>, Th>::type R;
typedef std::vector<R> RV;
static const char* LONG = "a string longer than the small buffer of std::string";
int main(int, char** argv) {
    std::string id = argv[1]; bool ok;
    {
        RV sub; sub.push_back(R(7)); sub.push_back(R(Th(LONG))); sub.push_back(R(std::string(LONG)));
        RV top; top.push_back(R(42)); top.push_back(R(std::string(LONG))); top.push_back(R(sub)); top.push_back(R(Th(LONG)));
        R t(top);
        if (id == "copy-int-child") { t = boost::get<RV>(t)[0]; ok = t.which() == 0 && boost::get<int>(t) == 42; }
        else if (id == "copy-string-child") { t = boost::get<RV>(t)[1]; ok = t.which() == 1 && boost::get<std::string>(t) == LONG; }
        else if (id == "copy-throwing-child") { t = boost::get<RV>(t)[3]; ok = t.which() == 3 && boost::get<Th>(t).s == LONG; }
        else if (id == "move-int-child") { t = std::move(boost::get<RV>(t)[0]); ok = t.which() == 0 && boost::get<int>(t) == 42; }
        else if (id == "move-string-child") { t = std::move(boost::get<RV>(t)[1]); ok = t.which() == 1 && boost::get<std::string>(t) == LONG; }
        else if (id == "move-subtree-child") { t = std::move(boost::get<RV>(t)[2]); ok = t.which() == 2 && boost::get<RV>(t).size() == 3; }
        else return 9;
    }
    if (!ok) { std::printf("wrong value\n"); return 1; }
    if (Th::live != 0) { std::printf("%d objects never destroyed\n", Th::live); return 1; }
    return 0;
}
