/* C49 diagnostics: error(), warn(), die(), and the exceptions that describe failed system calls. */
#include "mc.h"
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <string>
#include "error.h"
#include "syserror.h"
using std::string;
static jmp_buf out; static int code, exited;
extern "C" void __wrap_exit(int c) { code = c; exited = 1; longjmp(out, 1); }
static char *eb; static size_t en; static FILE *old, *cap;
static void cap_on() { old = stderr; cap = open_memstream(&eb, &en); stderr = cap; exited = 0; code = -1; }
static string cap_off() { stderr = old; fclose(cap); string s(eb, en); free(eb); return s; }
static void after() { if (old) stderr = old; program_name = 0; }
static void init() { mc_after = after; }
__attribute__((constructor)) static void start() { mc_worker_init = init; }
static void smudge() { volatile char b[8192]; for (unsigned i = 0; i < sizeof b; i++) b[i] = 'Z'; }
static string show(const string &s) { string o; for (char c : s.size() > 80 ? s.substr(s.size() - 80) : s) { if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += "?"; else o += c; } return s.size() > 80 ? "[" + std::to_string(s.size()) + " bytes] .." + o : o; }
static string text(int len, int nl) { string m; for (int i = 0; i < len; i++) m += (char)('a' + i % 26); if (nl && len) m[len - 1] = '\n'; return m; }
static const char *PN[] = { 0, "p", "prog name" };
/* what is printed must be: the program's name, the message (which may be cut when it is long), the reason, one newline */
static void judge(const char *what, const string &got, const char *pn, const string &msg, const string &tail)
{
    string m = msg; if (!m.empty() && m.back() == '\n') m.pop_back();
    string head = pn ? string(pn) + ": " : "", full = head + m + tail + "\n";
    if (got == full) return;
    MC_ASSERT(m.size() >= 1000, "text", "%s of %zu bytes%s: prints '%s', not '%s'", what, msg.size(), m.size() != msg.size() ? " with a newline" : "", show(got).c_str(), show(full).c_str());
    MC_ASSERT(!got.empty() && got.back() == '\n', "newline", "%s of %zu bytes: the line is not ended: '%s'", what, msg.size(), show(got).c_str());
    size_t need = head.size() + tail.size() + 1; MC_ASSERT(got.size() >= need + 1000 && got.compare(0, head.size(), head) == 0 && got.compare(got.size() - tail.size() - 1, tail.size() + 1, tail + "\n") == 0, "long", "%s of %zu bytes: prints '%s'", what, msg.size(), show(got).c_str());
    string mid = got.substr(head.size(), got.size() - need); MC_ASSERT(mid == m.substr(0, mid.size()), "long-text", "%s of %zu bytes: prints '%s'", what, msg.size(), show(got).c_str());
    MC_ASSERT(m.size() >= 2000, "cut", "%s of %zu bytes is cut to %zu", what, msg.size(), mid.size());
}
static int len_of(int big) { return big ? 2030 + mc_choose(40) : mc_choose(40); }
static const int ERRS[] = { 0, 1, ENOENT, EINVAL, ETIMEDOUT, 133, 134, 4000, 99999 };
static void r_error(long big)
{
    int len = len_of(big), nl = mc_choose(2), pni = mc_choose(3), e = ERRS[mc_choose(9)], st = (const int[]){ 0, 1, 2, 255, -1 }[mc_choose(5)], neg = e && mc_choose(2), form = mc_choose(2); string m = text(len, nl); program_name = PN[pni]; smudge(); cap_on(); mc_site("error");
    if (!setjmp(out)) { if (form) error(st, neg ? -e : e, "%s", m.c_str()); else error(st, neg ? -e : e, m.c_str()); } string got = cap_off(); mc_op(); mc_state(mc_mix(mc_hash(e, got.data(), got.size()), st));
    string tail = e ? string(": ") + strerror(e) + " [" + std::to_string(e) + "]" : ""; judge("error()", got, PN[pni], m, tail);
    MC_ASSERT(exited == (st != 0), "exit", "error(%d, ...) %s", st, exited ? "ends the program" : "returns"); if (st) MC_ASSERT((code & 255) == (st & 255), "status", "error(%d, ...) exits with %d", st, code);
}
static void r_warn(long big)
{
    int len = len_of(big), nl = mc_choose(2), pni = mc_choose(3), die_ = mc_choose(2), form = mc_choose(2); string m = text(len, nl); program_name = PN[pni]; smudge(); cap_on(); mc_site(die_ ? "die" : "warn");
    if (!setjmp(out)) { if (die_) { if (form) die("%s", m.c_str()); else die(m.c_str()); } else { if (form) warn("%s", m.c_str()); else warn(m.c_str()); } } string got = cap_off(); mc_op(); mc_state(mc_hash(die_, got.data(), got.size()));
    judge(die_ ? "die()" : "warn()", got, PN[pni], m, ""); MC_ASSERT(exited == die_, "exit", "%s", exited ? "warn() ends the program" : "die() returns"); if (die_) MC_ASSERT(code != 0, "status", "die() exits with success");
}
static void r_args(long)
{   /* arguments reach the format */
    int a = (const int[]){ 0, -1, 2147483647 }[mc_choose(3)], w = mc_choose(3), k = mc_choose(3); program_name = PN[w]; cap_on(); char want[200]; snprintf(want, sizeof want, "x%d %s %5.2f%% %lld", a, "str", 2.5, 1ll << 40); smudge();
    if (!setjmp(out)) { if (k == 0) error(0, 0, "x%d %s %5.2f%% %lld", a, "str", 2.5, 1ll << 40); else if (k == 1) warn("x%d %s %5.2f%% %lld", a, "str", 2.5, 1ll << 40); else die("x%d %s %5.2f%% %lld", a, "str", 2.5, 1ll << 40); } string got = cap_off(); mc_op(); mc_state(mc_hash(k, got.data(), got.size())); judge("message", got, PN[w], want, "");
}
static void r_many(long)
{   /* several messages in a row are several lines, in order */
    int n = 1 + mc_choose(3); string want; program_name = "p"; cap_on(); for (int i = 0; i < n; i++) { int len = mc_choose(4), nl = mc_choose(2), k = mc_choose(2); string m = text(len, nl); if (k) warn("%s", m.c_str()); else error(0, 0, "%s", m.c_str()); mc_op(); if (len && nl) m.pop_back(); want += "p: " + m + "\n"; } string got = cap_off(); mc_state(mc_hash(n, got.data(), got.size())); MC_ASSERT(got == want, "lines", "prints '%s', not '%s'", show(got).c_str(), show(want).c_str());
}
/* --- exceptions --- */
using namespace putils;
static const char *PF[] = { "", "x", "open file", 0 };
static void r_geterror(long)
{
    int e = ERRS[mc_choose(9)], pi = mc_choose(4), how = mc_choose(3); string pre = PF[pi] ? PF[pi] : ""; errno = how == 2 ? e : 0; mc_site("geterror"); syserror s = how == 0 ? geterror(e, PF[pi]) : how == 1 ? geterror(e, pre) : PF[pi] && mc_choose(2) ? geterror(string(PF[pi])) : geterror(PF[pi]); mc_op();
    string want = (pre.empty() ? "" : pre + ": ") + strerror(e); MC_ASSERT(s.err == e, "code", "error %d is described as %d", e, s.err); MC_ASSERT(s.errstr == want, "reason", "error %d with '%s': '%s', not '%s'", e, pre.c_str(), show(s.errstr).c_str(), show(want).c_str()); mc_state(mc_hash(e, s.errstr.data(), s.errstr.size()));
    sys_exception x(s); MC_ASSERT(x.errcode() == e && want == x.what(), "what", "the exception says '%s' (%d), not '%s'", x.what(), x.errcode(), want.c_str()); sys_exception y = x; MC_ASSERT(y.errcode() == e && want == y.what(), "copy", "a copy says '%s'", y.what()); errno = e; MC_ASSERT(geterrno() == e, "errno", "geterrno");
}
static void r_exc(long big)
{   /* message and reason of any length: nothing is overrun, what fits is there */
    int l1 = big ? 1000 + mc_choose(40) : mc_choose(30), l2 = big && mc_choose(2) ? 1000 + mc_choose(40) : (const int[]){ 0, 1, 2, 20, 25 }[mc_choose(5)], e = mc_choose(2) ? ENOENT : 0, how = mc_choose(4); string m = text(l1, 0), r; for (int i = 0; i < l2; i++) r += (char)('A' + i % 26); mc_site("sys_exception"); string got, want; int ec = -1;
    smudge(); syserror s(e, r);
    switch (how) {
    case 0: { sys_exception x(s, "%s", m.c_str()); got = x.what(); ec = x.errcode(); want = m + ":" + r; break; }
    case 1: { sys_exception x(s); got = x.what(); ec = x.errcode(); want = r; break; }
    case 2: { sys_exception x("%s", m.c_str()); got = x.what(); ec = x.errcode(); e = 0; want = m; break; }
    default: { syscall_interrupted x("%s", m.c_str()); got = x.what(); ec = x.errcode(); e = EINTR; want = m; break; } }
    mc_op(); mc_state(mc_hash(how, got.data(), got.size())); MC_ASSERT(ec == e, "exc-code", "error code %d, not %d", ec, e);
    if (got == want) return; MC_ASSERT(want.size() > 1000, "exc-text", "'%s', not '%s'", show(got).c_str(), show(want).c_str()); bool ok = got == want.substr(0, got.size()); if (how == 0 && m.size() >= 1000) for (size_t p = 1000; p < got.size() && !ok; p++) ok = got[p] == ':' && got.substr(0, p) == m.substr(0, p) && got.substr(p + 1) == r.substr(0, got.size() - p - 1);
    MC_ASSERT(got.size() >= 1000 && ok, "exc-long", "a description of %zu bytes becomes '%s'", want.size(), show(got).c_str());
}
static void r_named(long)
{
    int k = mc_choose(3), l = (const int[]){ 0, 1, 8, 900, 990, 1000, 1010, 1020, 1100 }[mc_choose(9)]; string n = text(l, 0), got; mc_site("named exception"); errno = ENOENT; smudge();
    if (k == 0) { dll_not_found x(n.c_str()); got = x.what(); MC_ASSERT(x.errcode() == ENOENT, "exc-code", "code %d", x.errcode()); } else if (k == 1) { dll_symbol_not_found x("lib", n.c_str()); got = x.what(); } else { lock_owner_died x(n); got = x.what(); }
    mc_op(); mc_state(mc_hash(k, got.data(), got.size())); MC_ASSERT(got.find(n.substr(0, 880)) != string::npos, "named", "'%s' does not name '%s'", show(got).c_str(), show(n).c_str()); if (k < 2 && l < 900) MC_ASSERT(got.find(strerror(ENOENT)) != string::npos, "named-reason", "'%s' does not say why", show(got).c_str());
}
extern const mc_scenario mc_scenarios[] = { { "error", r_error, 0, 0, 2, 0 }, { "error, long", r_error, 1, 0, 2, 0 }, { "warn and die", r_warn, 0, 0, 2, 0 }, { "warn and die, long", r_warn, 1, 0, 2, 0 }, { "arguments", r_args, 0, 0, 1, 0 }, { "several messages", r_many, 0, 0, 2, 0 }, { "geterror", r_geterror, 0, 0, 2, 0 }, { "exceptions", r_exc, 0, 0, 2, 0 }, { "exceptions, long", r_exc, 1, 0, 2, 0 }, { "named exceptions", r_named, 0, 0, 2, 0 }, { 0 } };
