// Property-based testing engine: a case is a function of a byte choice
// sequence.  Random driving, shrinking, replay and libFuzzer all go through
// the same entry, so every failing case is one byte string.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstddef>
#include <cstdint>
#include <string>
#include <sstream>

namespace pbt {

class Source {
    const uint8_t* p_;
    size_t n_, i_;
    uint64_t h_;
public:
    Source(const uint8_t* p, size_t n) : p_(p), n_(n), i_(0), h_(1469598103934665603ull) {}
    // uniform-ish choice in [0,n); an exhausted source yields 0
    uint32_t below(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v = 0;
        if (n <= 256) v = byte();
        else { v = byte(); v |= uint32_t(byte()) << 8; if (n > 65536) { v |= uint32_t(byte()) << 16; v |= uint32_t(byte()) << 24; } }
        v %= n;
        h_ = (h_ ^ (v + 0x9e37u)) * 1099511628211ull;
        return v;
    }
    bool flip() { return below(2) != 0; }
    // true with probability num/den; false when exhausted
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    bool more() const { return i_ < n_; }
    size_t used() const { return i_; }
    uint64_t hash() const { return h_; }
private:
    uint8_t byte() { return i_ < n_ ? p_[i_++] : (++i_, 0); }
};

typedef void (*CaseFn)(Source&);
struct Registrar { Registrar(const char* name, CaseFn fn, unsigned weight, uint64_t props); };

extern bool g_trace;                       // replay / sample mode
void trace_line(const std::string& s);
void nontrivial();                         // marks the current case
void label(const char* static_name);       // classification counter
inline uint64_t P(int n) { return uint64_t(1) << n; }
static const uint64_t ALL = ~uint64_t(0);
// ends the case (process): failure when `props` covers the property under
// test, otherwise the case is dropped as belonging to another property
[[noreturn]] void fail(uint64_t props, const char* file, int line, const std::string& msg);
bool active(uint64_t props);

// operator new accounting (engine.cpp replaces the global operators)
extern long g_new_live;                    // blocks live
extern long g_new_calls;                   // calls ever
extern bool (*g_new_fault)();              // asked on each call; true: throw bad_alloc

} // namespace pbt

#define PBT_CASE(name, fn, weight, props) \
    static ::pbt::Registrar pbt_reg_##fn(name, fn, weight, props)
#define TRACE(expr) \
    do { if (::pbt::g_trace) { std::ostringstream pbt_o_; pbt_o_ << expr; ::pbt::trace_line(pbt_o_.str()); } } while (0)
#define CHECK(props, cond, expr) \
    do { if (!(cond)) { std::ostringstream pbt_o_; pbt_o_ << expr; \
         ::pbt::fail((props), __FILE__, __LINE__, std::string(#cond) + ": " + pbt_o_.str()); } } while (0)
#endif
