// random strings through the real decoder, under the address sanitizer, against an independent decoder
#include "nat.h"
#include <string>
#include <cstring>
#include <cstdlib>
#include "str.h"
#include "error.h"
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string ref(const std::string& s, bool& err, bool& open)
{
    std::string o; err = open = false;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] != '\\') { o += s[i++]; continue; }
        if (i + 1 >= s.size()) { o += '?'; err = true; break; }
        char e = s[i + 1];
        const char* from = "abfvrntABFVRNT"; const char* to = "\a\b\f\v\r\n\t\a\b\f\v\r\n\t";
        if (e == 'x' || e == 'X')
        {
            i += 2;
            if (i >= s.size()) { err = open = true; break; }
            while (i + 1 < s.size() && hexv(s[i]) >= 0 && hexv(s[i + 1]) >= 0) { o += (char)(hexv(s[i]) * 16 + hexv(s[i + 1])); i += 2; }
            continue;
        }
        const char* p = strchr(from, e);
        if (p) o += to[p - from];
        else if (e == '\'' || e == '"' || e == '\\') o += e;
        else { o += '?'; err = true; }
        i += 2;
    }
    return o;
}
extern FILE* console; extern FILE* console_error;
int main(int argc, char** argv)
{
    nat_init(argc, argv);
    console = console_error = fopen("/dev/null", "w");
    
    const char* alpha = "\\\\\\\\xxX0123456789abcdefgABFVRNTq'\"?zn";
    for (long k = 0; k < 60000L * effort; k++)
    {
        size_t len = rng() % (k % 50 == 0 ? 300 : 14);
        std::string s;
        while (s.size() < len) s += rng() % 8 ? alpha[rng() % strlen(alpha)] : (char)(1 + rng() % 255);
        bool err, open; std::string want = ref(s, err, open);
        char* buf = (char*)malloc(s.size() + 1); memcpy(buf, s.c_str(), s.size() + 1);
        int e0 = error_count, n = -1;
        char* r = sanitize_string_length(buf, &n);
        cases++;
        std::string got(r, n < 0 ? 0 : n);
        std::string h; for (char c : s) { char t[8]; sprintf(t, c >= 32 && c < 127 ? "%c" : "<%02x>", c & 255); h += t; }
        if (open) { if (error_count == e0) { FAIL("no error for \"%s\"", h.c_str()); break; } }
        else if (got != want) { FAIL("\"%s\" decodes to %d bytes, expected %zu, or to other bytes", h.c_str(), n, want.size()); break; }
        else if ((error_count > e0) != err) { FAIL("\"%s\": %s", h.c_str(), err ? "no error reported" : "an error reported"); break; }
        free(buf); free(r);
    }
    DONE();
    return 0;
}
