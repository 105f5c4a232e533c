// C18: text queries.
#include "spotx.hpp"
#ifdef LICENSE
static const char *const LIC = LICENSE;
#else
static const char *const LIC = "LGPL-3.0-or-later";
#endif
enum { GUARD = 64, MAXSZ = 140000 };
static unsigned char arena[MAXSZ + 2 * GUARD];

static int kind_; // 0 version, 1 license, 2 error
static long code_;
static void call(char *b, unsigned long size) {
    if (kind_ == 0)
        libspot_version(b, size);
    else if (kind_ == 1)
        libspot_license(b, size);
    else
        libspot_error((enum LibspotError)(int)code_, b, size);
    mc::trans();
}
static std::string full() {
    memset(arena, 0x6B, sizeof arena);
    call((char *)arena + GUARD, 2000);
    char *b = (char *)arena + GUARD;
    bool touched = false;
    for (int i = 0; i < 2000; i++)
        if ((unsigned char)b[i] != 0x6B)
            touched = true;
    if (!touched)
        return "\1untouched";
    MC_CHECK(memchr(b, 0, 2000), "no terminator in a buffer of 2000 bytes");
    return b;
}
static void sizes(const std::string &text, unsigned long from, unsigned long to) {
    bool known = text != "\1untouched";
    for (unsigned long size = from; size <= to; size++)
        for (int fill : {0x6B, 0x00, 0xFF}) {
            // bytes looked at beyond the buffer
            size_t end = std::min<size_t>(sizeof arena, 2 * GUARD + size + 2000);
            memset(arena, fill, end);
            char *b = (char *)arena + GUARD;
            call(b, size);
            const char *w = kind_ == 0 ? "version" : kind_ == 1 ? "license" : "error text";
            mc::log("%s (code %ld) size %lu fill %02x -> \"%.20s\"", w, code_, size, fill, size ? b : "");
            for (int i = 0; i < GUARD; i++)
                MC_CHECK(arena[i] == fill, "%s: byte %d before a buffer of %lu bytes was written", w,
                         GUARD - i, size);
            for (size_t i = GUARD + size; i < end; i++)
                MC_CHECK(arena[i] == fill, "%s: byte %zu after a buffer of %lu bytes was written", w,
                         i - GUARD - size, size);
            if (!known) {
                for (unsigned long i = 0; i < size; i++)
                    MC_CHECK((unsigned char)b[i] == fill, "unknown code %ld writes to the buffer", code_);
                continue;
            }
            if (size == 0)
                continue;
            size_t len = std::min<size_t>(text.size(), size - 1);
            for (unsigned long i = 0; i < size; i++) {
                char want = i < len ? text[i] : 0;
                MC_CHECK(b[i] == want,
                         "%s (code %ld): byte %lu of a buffer of %lu bytes is %02x, expected %02x", w,
                         code_, i, size, (unsigned char)b[i], (unsigned char)want);
            }
            mc::state(mc::mix(mc::mix(mc::mix(kind_, code_), size), fill));
            mc::trace();
        }
    call(nullptr, 0);
    call(nullptr, 1);
    call(nullptr, 256);
}
static void setup() {
    set_allocators(malloc, free);
    int N = mc::thorough ? 1500 : 340;
    static std::vector<long> codes;
    for (long c = 900; c <= 1100; c++)
        codes.push_back(c);
    for (long c : {0l, 1l, -1l, -1000l, -1005l, -1001l, 2000l, 65536l + 1000, (long)INT32_MAX, (long)INT32_MIN,
                   (1l << 31) + 1000 - (1l << 32), 256l, 744l, 745l, 746l, 1256l, 5000l, 100l})
        codes.push_back(c);
    mc::add(mc::fmt("version and license x sizes 0..%d", N), 2 * 8, [=](uint64_t i) {
        kind_ = i % 2;
        code_ = 0;
        std::string t = full();
        MC_CHECK(kind_ ? t == LIC || t == "LGPL-3.0-or-later" : t == REPO_VERSION, "%s is \"%s\"",
                 kind_ ? "license" : "version", t.c_str());
        int part = i / 2;
        sizes(t, (N + 1) * part / 8, (N + 1) * (part + 1) / 8 - 1);
    });
    mc::add(mc::fmt("%zu error codes x sizes 0..%d", codes.size(), N), codes.size(), [=](uint64_t i) {
        kind_ = 2;
        code_ = codes[i];
        std::string t = full();
        bool known = code_ >= 1000 && code_ <= 1005;
        if (known)
            MC_CHECK(t != "\1untouched" && !t.empty(), "error code %ld has no message", code_);
        else
            MC_CHECK(t == "\1untouched", "unknown error code %ld gives \"%s\"", code_, t.c_str());
        sizes(t, 0, N);
    });
    // large buffers: around the powers of two
    static std::vector<unsigned long> LS;
    for (unsigned long b = 512; b <= 131072; b *= 2)
        for (unsigned long k : {b - 1, b, b + 1, b + b / 4 + 3})
            if (k > (unsigned long)N && k <= 139000)
                LS.push_back(k);
    mc::add(mc::fmt("version, license and 8 error codes x %zu large sizes up to %lu", LS.size(), LS.back()), 10 * LS.size(),
            [=](uint64_t i) {
                int w = i % 10;
                kind_ = w < 2 ? w : 2;
                code_ = w < 2 ? 0 : 997 + w;
                sizes(full(), LS[i / 10], LS[i / 10]);
            });
    mc::add("messages are distinct and about the right subject", 1, [](uint64_t) {
        kind_ = 2;
        std::vector<std::string> m;
        for (int c = 1000; c <= 1005; c++) {
            code_ = c;
            m.push_back(full());
            mc::log("%d: %s", c, m.back().c_str());
        }
        static const char *key[] = {"emory", "level", "q", "xcess", "nomaly", "ata"};
        for (int i = 0; i < 6; i++) {
            MC_CHECK(m[i].find(key[i]) != std::string::npos, "message of code %d is \"%s\"", 1000 + i,
                     m[i].c_str());
            for (int j = 0; j < i; j++)
                MC_CHECK(m[i] != m[j], "codes %d and %d have the same message", 1000 + i, 1000 + j);
        }
        MC_CHECK(ERR_MEMORY_ALLOCATION_FAILED == 1000 && ERR_LEVEL_OUT_OF_BOUNDS == 1001 &&
                     ERR_Q_OUT_OF_BOUNDS == 1002 && ERR_EXCESS_THRESHOLD_IS_NAN == 1003 &&
                     ERR_ANOMALY_THRESHOLD_IS_NAN == 1004 && ERR_DATA_IS_NAN == 1005,
                 "documented error codes");
        // the q message is not the level one and vice versa
        MC_CHECK(m[2].find("q parameter") != std::string::npos || m[2].find("q ") != std::string::npos,
                 "message of code 1002 is \"%s\"", m[2].c_str());
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
