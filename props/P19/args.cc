// random argument lists through the real parse_arguments (in a child process), against an independent reading of the list
#include "nat.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "parseargs.h"
#include "pasm.h"
#include "error.h"
#include "expand.h"
#include "opcodes.h"
#include "sym.h"
#include "genoutput.h"
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
struct st { std::string out, sym, dir, log, list; bool c64 = false, v = false, ill = false, now = false; int cpu = 0; std::vector<std::string> files; std::vector<std::pair<std::string, long>> defs; };
static bool number(const std::string& s, long& v)
{
    std::string d = s; int base = 10;
    if (s[0] == '$') d = s.substr(1), base = 16;
    else if (s[0] == '%') d = s.substr(1), base = 2;
    else if (s.substr(0, 2) == "0x") d = s.substr(2), base = 16;
    else if (s.substr(0, 2) == "0b") d = s.substr(2), base = 2;
    if (d.empty()) return false;
    v = 0;
    for (char c : d)
    {
        int k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
        if (k >= base) return false;
        v = v * base + k; if (v > 65535) return false;
    }
    return true;
}
// 0 help, 1 parsed, -1 error
static int ref(const std::vector<std::string>& a, st& s)
{
    bool cpu = false;
    for (size_t i = 0; i < a.size(); i++)
    {
        std::string o = lower(a[i]);
        if (o[0] == '/') o[0] = '-';
        std::string* t = o == "-o" ? &s.out : o == "-s" ? &s.sym : o == "-dir" ? &s.dir : o == "-log" ? &s.log : o == "-l" ? &s.list : nullptr;
        if (o == "-?" || o == "-h") return 0;
        if (t) { if (i + 1 >= a.size() || !t->empty()) return -1; *t = a[++i]; }
        else if (o == "-c64") { if (s.c64) return -1; s.c64 = true; }
        else if (o == "-v") { if (s.v) return -1; s.v = true; }
        else if (o == "-i") { if (s.ill) return -1; s.ill = true; }
        else if (o == "-nowarn") { if (s.now) return -1; s.now = true; }
        else if (o == "-65c02" || o == "-6502") { if (cpu) return -1; cpu = true; s.cpu = o == "-65c02"; }
        else if (o == "-d")
        {
            if (i + 2 >= a.size()) return -1;
            long v; if (!number(a[i + 2], v)) return -1;
            s.defs.push_back({ a[i + 1], v }); i += 2;
        }
        else s.files.push_back(a[i]);
    }
    return s.files.empty() ? -1 : 1;
}
int main(int argc, char** argv)
{
    nat_init(argc, argv);
    console = console_error = fopen("/dev/null", "w");
    char* shared = (char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static const char* opts[] = { "-o", "-s", "-dir", "-log", "-l", "-c64", "-v", "-65c02", "-6502", "-i", "-nowarn", "-d", "-?", "-h" };
    static const char* nums[] = { "0", "1", "9", "10", "255", "256", "65535", "65536", "$0", "$ff", "$FFFF", "$10000", "0x10", "0xabcd", "0x1G", "%101", "0b11", "0b2", "12a", "", "$", "99999999999", "4294967297", "007", "$12", "0xFFFF", "32768" };
    for (long k = 0; k < 3000L * effort && nfail < 3; k++)
    {
        std::vector<std::string> a;
        int n = rnd(k % 10 ? 8 : 20), fn = 0, dn = 0; bool used[14] = {};
        for (int i = 0; i < n; i++)
        {
            if (rnd(4) == 0) { a.push_back("f" + std::to_string(fn++) + ".asm"); continue; }
            int w = rnd(rnd(12) ? 12 : 14);
            if (used[w] && w != 11 && rnd(8)) continue;
            used[w] = true;
            std::string o = opts[w];
            if (rnd(6) == 0) o[0] = '/';
            if (rnd(6) == 0) for (auto& c : o) c = (char)toupper(c);
            a.push_back(o);
            if (rnd(25) == 0) continue;
            if (w < 5) a.push_back(rnd(12) ? "n" + std::to_string(fn++) : std::string(opts[rnd(14)]));
            if (w == 11) { a.push_back("sym" + std::to_string(dn++)); if (rnd(30)) { if (rnd(3)) a.push_back(nums[rnd(27)]); else { char t[32]; sprintf(t, rnd(2) ? "%u" : rnd(2) ? "$%x" : "0x%X", rnd(65536)); a.push_back(t); } } }
        }
        st want; int code = ref(a, want);
        std::vector<std::vector<char>> store; std::vector<char*> av;
        auto put = [&](const std::string& s) { store.emplace_back(s.begin(), s.end()); store.back().push_back(0); };
        put("pasm"); for (auto& s : a) put(s);
        for (auto& s : store) av.push_back(s.data());
        std::string all; for (auto& s : a) all += " " + s;
        memset(shared, 0, 4096);
        cases++;
        pid_t pid = fork();
        if (!pid)
        {
            char** ex = (char**)malloc(av.size() * sizeof(char*));      // exactly as many as there are: the sanitizer sees reads outside
            memcpy(ex, av.data(), av.size() * sizeof(char*));
            int r = parse_arguments((int)av.size(), ex);
            std::string w; int e = 0;
            auto str = [&](const char* what, const char* g, const std::string& x) { if ((g ? std::string(g) : "") != x) w = std::string(what) + " is \"" + (g ? g : "") + "\", expected \"" + x + "\""; };
            auto num = [&](const char* what, long g, long x) { if (g != x) w = std::string(what) + " is " + std::to_string(g) + ", expected " + std::to_string(x); };
            str("output", output_file_name, want.out); str("symbol file", sym_file_name, want.sym); str("directories", directories, want.dir); str("log", log_file_name, want.log); str("listing", list_file_name, want.list);
            num("c64 format", output_file_format == c64, want.c64); num("verbose", verbose, want.v); num("undocumented instructions", !!allow_illegal_op_codes, want.ill); num("no warnings", ignore_warnings, want.now);
            num("65C02", cpu_mode == cpu_65C02, want.cpu); num("files", input_file_count, (long)want.files.size()); num("errors", error_count, 0);
            for (size_t i = 0; w.empty() && i < want.files.size(); i++) str("source file", input_files[i], want.files[i]);
            for (auto& d : want.defs)
            {
                bool later = false; for (auto& q : want.defs) if (&q > &d && q.first == d.first) later = true;
                symbol_table_ptr s = look_up_symbol(d.first.c_str());
                if (!s || !s->is_initialized) w = "symbol " + d.first + " is not defined";
                else if (!later) num(d.first.c_str(), s->value, d.second);
            }
            snprintf(shared + 1, 2000, "%s", w.c_str()); shared[0] = (char)(r >= 1 ? 1 : 2);
            _exit(0);
        }
        int status; waitpid(pid, &status, 0);
        if (WIFSIGNALED(status)) { FAIL("crash for arguments:%s", all.c_str()); continue; }
        int rc = WEXITSTATUS(status);
        if (shared[0]) 
        {
            if (code != 1) FAIL("accepted%s:%s", code ? " although not valid" : " where help is asked for", all.c_str());
            else if (shared[0] != 1 || shared[1]) FAIL("%s for arguments:%s", shared + 1, all.c_str());
        }
        else if (code == 1) FAIL("rejected (exit %d):%s", rc, all.c_str());
        else if ((rc == 0) != (code == 0)) FAIL("exit %d for%s:%s", rc, code ? " bad arguments" : " help", all.c_str());
    }
    DONE();
}
