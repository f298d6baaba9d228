// C22: the output stream writes numbers and pointers exactly, and nothing when it is off; the environment turns tracing on only when it is "1".
#include "world.hpp"
#include <boost/openmethod/detail/ostdstream.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
using om::detail::ostdstream;
static size_t text(const char** p) { return rt_written(p); }
static uint8_t pairs[100], tens[100], units[100]; // looked up, so that the engine sees a hundred cases
static void number() {
    uint64_t len = 1 + sym_pick("length", CFG_LEN), pat = sym_pick("pattern", 3), i = len == 1 ? 0 : sym_pick("i", len - 1), j = len == 1 ? 0 : i + 1;
    char d[20]; for (uint64_t k = 0; k < len; k++) d[k] = (char)(pat == 0 ? (k == 0 ? 1 : 0) : pat == 1 ? (len == 20 && k == 0 ? 1 : len == 20 && k == 1 ? 7 : 9) : (k + 1) % 10); // most significant first
    for (int k = 0; k < 100; k++) { pairs[k] = (uint8_t)k; tens[k] = (uint8_t)(k / 10); units[k] = (uint8_t)(k % 10); }
    uint64_t two = sym_u64("digits", i == 0 && len > 1 ? 10 : 0, len == 1 ? 9 : len == 20 && i == 0 ? 17 : len == 20 && i == 1 ? 79 : 99);
    uint64_t rest = 0, weight = 1; for (uint64_t k = 0; k < len; k++) { bool sym = k == i || k == j; rest = rest * 10 + (sym ? 0 : (uint64_t)d[k]); if (k > j) weight *= 10; }
    d[i] = (char)tens[two]; d[j] = (char)units[two];
    uint64_t v = rest + weight * pairs[two];
    ostdstream os(rt_stream()); os << "<" << (std::size_t)v << ">";
    const char* t; size_t n = text(&t);
    sym_assert(n == len + 2 && t[0] == '<' && t[n - 1] == '>', "a number is written with its digits only");
    unsigned diff = 0; for (uint64_t k = 0; k < len; k++) diff |= (unsigned)(t[1 + k] ^ ('0' + d[k]));
    sym_assert(diff == 0, "a number is written in decimal, exactly");
    sym_reach("decimal");
}
static void top() { // the largest numbers
    uint64_t k = sym_u64("below", 0, 255); std::size_t v = ~0ull - k;
    ostdstream os(rt_stream()); os << v; const char* t; size_t n = text(&t);
    sym_assert(n == 20, "twenty digits"); uint64_t r = 0; for (size_t i = 0; i < 20; i++) { sym_assert(t[i] >= '0' && t[i] <= '9', "digits"); r = r * 10 + (uint64_t)(t[i] - '0'); }
    sym_assert(r == v, "a number is written in decimal, exactly");
}
static void pointer() { // any 64-bit value
    uint64_t v = sym_u64("pointer", 0, ~0ull); bool fn = sym_flag("function");
    ostdstream os(rt_stream()); if (fn) os << (void (*)())(uintptr_t)v; else os << (const void*)(uintptr_t)v;
    const char* t; size_t n = (size_t)sym_concretize(text(&t));
    sym_assert(n >= 1 && n <= 16, "one to sixteen digits"); uint64_t r = 0;
    for (size_t i = 0; i < n; i++) { char c = t[i]; uint64_t h = c >= 'a' ? (uint64_t)(c - 'a' + 10) : (uint64_t)(c - '0'); sym_assert((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "hexadecimal digits"); r = r << 4 | h; }
    sym_assert(r == v && (n == 1 || t[0] != '0'), "a pointer is written in hexadecimal, exactly"); sym_reach("hexadecimal");
}
static void onoff() {
    uint64_t v = sym_u64("value", 0, ~0ull); size_t how = sym_pick("how", 4); FILE* f = rt_stream(); const char* t;
    ostdstream off; ostdstream os(f); os.off(); sym_assert(!off.is_on() && !os.is_on(), "off");
    auto put = [&](ostdstream& o) { switch (how) { case 0: o << "text"; break; case 1: o << (std::size_t)v; break; case 2: o << (const void*)(uintptr_t)v; break; default: o << std::string_view("text", 3); } };
    put(off); put(os); sym_assert(text(&t) == 0, "nothing is written when the stream is off");
    os.on(f); sym_assert(os.is_on(), "on"); if (how == 0 || how == 3) { put(os); sym_assert(text(&t) == (how ? 3u : 4u) && t[0] == 't' && t[2] == 'x', "text is written as it is"); }
    os.off(); os << "more"; sym_assert(!os.is_on() && text(&t) <= 4, "nothing is written when the stream is off"); sym_reach("off");
}
static void env() {
    static char value[4]; bool set = sym_flag("set"); size_t n = sym_pick("length", 4);
    for (size_t i = 0; i < n; i++) value[i] = (char)sym_u64(nm("char", (int)i), 1, 255);
    rt_setenv("BOOST_OPENMETHOD_TRACE", set ? value : nullptr);
    bool one = set && n == 1 && value[0] == '1';
    sym_assert(om::trace::from_env().on == one, "the environment turns tracing on only when it is 1");
    rt_setenv("BOOST_OPENMETHOD_TRACES", "1"); if (!sym_engine()) rt_setenv("BOOST_OPENMETHOD_TRACE", nullptr);
    sym_assert(!om::trace::from_env().on, "another variable does not");
    sym_assert(om::trace().on && om::trace(true).on && !om::trace(false).on, "trace(bool)");
    sym_reach("environment");
}
extern "C" void sym_main() {
    
#ifdef CFG_WHAT
    switch (CFG_WHAT)
#else
    switch (sym_pick("what", 5))
#endif
    { case 0: number(); break; case 1: top(); break; case 2: pointer(); break; case 3: onoff(); break; default: env(); }
}
