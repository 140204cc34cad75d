/* C48 interfaces and hosts: the system's answers (interface list, name lookup) are enumerated. */
#include "mc.h"
#include <arpa/inet.h>
#include <errno.h>
#include <ifaddrs.h>
#include <linux/if_packet.h>
#include <net/if.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include "utils/resolve.h"
#define MAXI 6
static struct ifaddrs IF[MAXI]; static struct sockaddr_storage SA[MAXI]; static char NM[MAXI][IFNAMSIZ]; static int nif, fail_if, given_if, fd_open;
/* names that exist as interfaces (with or without an address) */
static const char *NAMES[] = { "lo", "eth0", "eth", "eth0:1", "abcdefghijklmno" };
static unsigned up;    /* bit per name */
int __wrap_getifaddrs(struct ifaddrs **o) { mc_op(); if (fail_if) { errno = ENOBUFS; return -1; } *o = nif ? &IF[0] : 0; given_if++; return 0; }
void __wrap_freeifaddrs(struct ifaddrs *p) { (void)p; given_if--; }
int __real_socket(int, int, int); int __real_close(int);
int __wrap_socket(int d, int t, int p) { int r = __real_socket(d, t, p); if (r >= 0) fd_open++; return r; }
int __wrap_close(int fd) { fd_open--; return __real_close(fd); }
static int exists(const char *n) { for (int i = 0; i < 5; i++) if ((up >> i & 1) && !strcmp(n, NAMES[i])) return i + 1; return 0; }
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
    va_list ap; va_start(ap, rq); struct ifreq *r = va_arg(ap, struct ifreq *); va_end(ap); (void)fd; mc_op(); char n[IFNAMSIZ + 1]; memcpy(n, r->ifr_name, IFNAMSIZ); n[IFNAMSIZ] = 0; if (exists(n)) { r->ifr_mtu = 1500; return 0; } errno = ENODEV; return -1;
}
unsigned __wrap_if_nametoindex(const char *n) { mc_op(); int i = exists(n); if (!i) errno = ENODEV; return i; }
static struct addrinfo AI[MAXI]; static struct sockaddr_storage AS[MAXI]; static int nai, gai_rc, given_ai; static char gai_name[300];
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **o) { (void)s; (void)h; mc_op(); snprintf(gai_name, sizeof gai_name, "%s", n); if (gai_rc) { if (gai_rc == EAI_SYSTEM) errno = ENETDOWN; return gai_rc; } *o = &AI[0]; given_ai++; return 0; }
void __wrap_freeaddrinfo(struct addrinfo *p) { (void)p; given_ai--; }

static size_t sal(int f) { return f == AF_INET ? sizeof(struct sockaddr_in) : f == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_ll); }
static void sa_make(struct sockaddr_storage *s, int f, int k)
{
    memset(s, 0, sizeof *s); s->ss_family = f; if (f == AF_INET) ((struct sockaddr_in *)s)->sin_addr.s_addr = htonl(0x0a000001 + k); else if (f == AF_INET6) { struct sockaddr_in6 *a = (void *)s; for (int i = 0; i < 16; i++) a->sin6_addr.s6_addr[i] = 0x20 + i + k; a->sin6_scope_id = 5 + k; } else { struct sockaddr_ll *l = (void *)s; l->sll_halen = 6; l->sll_ifindex = 3 + k; for (int i = 0; i < 8; i++) l->sll_addr[i] = 0xa0 + 8 * k + i; }
}
static int fam(int c) { return c == 0 ? AF_INET : c == 1 ? AF_INET6 : AF_PACKET; }
static unsigned bit(int f) { return f == AF_INET ? F_INET : f == AF_INET6 ? F_INET6 : F_LINK; }
static int IFam[MAXI], IName[MAXI];
/* a list of interfaces and addresses: every combination */
static void world(int maxn, int nnames)
{
    nif = mc_choose(maxn + 1); up = mc_choose(2) ? 31 : 0; for (int i = 0; i < nif; i++) { IName[i] = mc_choose(nnames); int c = mc_choose(4); IFam[i] = c == 3 ? 0 : fam(c); strcpy(NM[i], NAMES[IName[i]]); memset(&IF[i], 0, sizeof IF[i]); IF[i].ifa_name = NM[i]; IF[i].ifa_flags = 0x40 + i; if (c < 3) { sa_make(&SA[i], IFam[i], i); IF[i].ifa_addr = (struct sockaddr *)&SA[i]; } IF[i].ifa_next = i + 1 < nif ? &IF[i + 1] : 0; up |= 1u << IName[i]; } fail_if = given_if = fd_open = given_ai = 0; gai_name[0] = 0;
}
static int same_addr(const if_addr *a, int i) { return !memcmp(&a->sa, &SA[i], sal(IFam[i])) && a->flags == IF[i].ifa_flags; }
static int wanted(int i, unsigned mask) { if (!mask) mask = F_INET | F_INET6; return IFam[i] && (bit(IFam[i]) & mask); }
/* [v] holds exactly the wanted addresses of interface [name] */
static void judge_if(const char *what, if_addr_vect *v, int name, unsigned mask)
{
    int n = 0; for (int i = 0; i < nif; i++) if (IName[i] == name && wanted(i, mask)) { n++; int c = 0; for (size_t j = 0; j < VECT_LEN(v); j++) c += same_addr(&VECT_ELEM(v, j), i); MC_ASSERT(c == 1, "address", "%s: an address of %s (family %d) is there %d times", what, NAMES[name], IFam[i], c); } MC_ASSERT((int)VECT_LEN(v) == n, "extra", "%s: %s has %d addresses, not %zu", what, NAMES[name], n, VECT_LEN(v));
}
static void clean(const char *what) { MC_ASSERT(given_if == 0, "list-leak", "%s: the interface list is not given back", what); MC_ASSERT(given_ai == 0, "list-leak", "%s: the address list is not given back", what); MC_ASSERT(fd_open == 0, "socket-leak", "%s: a socket is left open", what); }
static void r_all(long arg)
{
    world((int)(arg & 15), (int)(arg >> 4)); unsigned mask = mc_choose(8); fail_if = mc_choose(2) && nif < 2; if_address_vect v; VECT_INIT(&v, 4); mc_site("get_all_if_address"); int r = get_all_if_address(&v, mask); mc_op(); clean("get_all_if_address"); if (fail_if) { MC_ASSERT(r == -ENOBUFS, "failure", "the system fails with ENOBUFS, the result is %d", r); free_all_if_address(&v); return; } MC_ASSERT(r == 0, "result", "result %d", r);
    int want = 0; uint64_t h = 0; for (int n = 0; n < 5; n++) { int has = 0, c = 0; for (int i = 0; i < nif; i++) has |= IName[i] == n && wanted(i, mask); want += has; for (size_t j = 0; j < VECT_LEN(&v); j++) { if_address *a = &VECT_ELEM(&v, j); if (!strcmp(a->if_name, NAMES[n])) { c++; judge_if("get_all_if_address", &a->if_addr, n, mask); } } MC_ASSERT(c == has, "interface", "%s is listed %d times, not %d", NAMES[n], c, has); h = mc_mix(h, c); } MC_ASSERT((int)VECT_LEN(&v) == want, "interfaces", "%zu interfaces, not %d", VECT_LEN(&v), want); free_all_if_address(&v); mc_state(mc_mix(h, mask * 100 + nif)); for (int i = 0; i < nif; i++) h = mc_mix(h, IFam[i] * 8 + IName[i]); mc_state(h);
}
static const char *ASK[] = { "lo", "eth0", "eth", "eth0:1", "abcdefghijklmno", "abcdefghijklmnop", "abcdefghijklmnoq.example.org", "eth1", "l" };
static void r_one(long arg)
{
    world((int)(arg & 15), (int)(arg >> 4)); int k = mc_choose(9); unsigned mask = mc_choose(8); fail_if = mc_choose(2) && nif < 2; if_addr_vect v; VECT_INIT(&v, 4); if (mc_choose(2)) { if_addr z; memset(&z, 7, sizeof z); VECT_PUSH_BACK(&v, z); } mc_site("get_interface_address"); int r = get_interface_address(ASK[k], &v, mask); mc_op(); clean("get_interface_address");
    if (!exists(ASK[k])) { MC_ASSERT(r == -ENOENT, "unknown", "'%s' is no interface: result %d", ASK[k], r); VECT_FINI(&v); mc_state(k); return; } if (fail_if) { MC_ASSERT(r == -ENOBUFS, "failure", "the system fails with ENOBUFS, the result is %d", r); VECT_FINI(&v); return; }
    MC_ASSERT(r == 0, "result", "%s: result %d", ASK[k], r); judge_if("get_interface_address", &v, k, mask); mc_state(mc_mix(mc_mix(k, VECT_LEN(&v)), mask)); VECT_FINI(&v);
}
static void r_resolve(long arg)
{
    static const char *Q[] = { "", "*", "*.example", "10.1.2.3", "0.0.0.0", "255.255.255.255", "1.2.3.256", "1.2.3.4.5", "host", "host.example.org", "::1", "lo", "eth0", "abcdefghijklmno", "abcdefghijklmnoq.example.org" }; static const int RC[] = { 0, EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY };
    world((int)(arg & 15), 2); unsigned mask = mc_choose(8); int q = mc_choose(15); const char *n = Q[q]; gai_rc = RC[mc_choose(6)]; nai = 1 + mc_choose(2); int af[4]; for (int i = 0; i < nai; i++) { af[i] = fam(mc_choose(2)); sa_make(&AS[i], af[i], 20 + i); memset(&AI[i], 0, sizeof AI[i]); AI[i].ai_family = af[i]; AI[i].ai_addr = (struct sockaddr *)&AS[i]; AI[i].ai_addrlen = sal(af[i]); AI[i].ai_next = i + 1 < nai ? &AI[i + 1] : 0; }
    if_addr_vect v; VECT_INIT(&v, 4); if (mc_choose(2)) { if_addr z; memset(&z, 7, sizeof z); VECT_PUSH_BACK(&v, z); } errno = mc_choose(2) ? 0 : EINTR; mc_site("resolve_host_or_ifname"); int r = resolve_host_or_ifname(n, &v, mask); mc_op(); clean("resolve_host_or_ifname"); mc_state(mc_mix(mc_mix(q, r), VECT_LEN(&v)));
    if (q <= 5) { MC_ASSERT(r == 0 && VECT_LEN(&v) == 1, "address", "'%s': result %d with %zu addresses", n, r, VECT_LEN(&v)); struct sockaddr_in *a = (void *)&VECT_ELEM(&v, 0).sa; struct in_addr w = { 0 }; if (q > 2) inet_aton(n, &w); MC_ASSERT(a->sin_family == AF_INET && a->sin_addr.s_addr == w.s_addr, "literal", "'%s' becomes %s", n, inet_ntoa(a->sin_addr)); VECT_FINI(&v); return; }
    int x = exists(n); if (x) { MC_ASSERT(r == 0, "result", "interface %s: result %d", n, r); judge_if("resolve", &v, x - 1, mask); VECT_FINI(&v); return; }
    MC_ASSERT(!strcmp(gai_name, n), "asked", "'%s' is looked up as '%s'", n, gai_name); if (gai_rc) { MC_ASSERT(r < 0, "failed", "'%s' cannot be looked up (%s), yet the result is %d", n, gai_strerror(gai_rc), r); if (gai_rc == EAI_SYSTEM) MC_ASSERT(r == -ENETDOWN, "failed-why", "the lookup fails with ENETDOWN, the result is %d", r); VECT_FINI(&v); return; }
    unsigned m = mask ? mask : F_INET | F_INET6; int w = 0; for (int i = 0; i < nai; i++) if (bit(af[i]) & m) { MC_ASSERT(w < (int)VECT_LEN(&v) && !memcmp(&VECT_ELEM(&v, w).sa, &AS[i], sal(af[i])), "host-address", "'%s': address %d is missing or not in order", n, i); w++; } MC_ASSERT(r == 0 && (int)VECT_LEN(&v) == w, "host", "'%s': result %d with %zu addresses, not %d", n, r, VECT_LEN(&v), w); VECT_FINI(&v);
}
static void r_text(long arg)
{   /* addresses as text, in buffers of every size */
    (void)arg; int f = mc_choose(4), k = mc_choose(6), z = mc_choose(64); struct sockaddr_storage s; char want[64] = ""; if (f < 3) { sa_make(&s, fam(f), 0); static const uint32_t A4[] = { 0, 0x7f000001, 0xffffffff, 0x0a0b0c0d, 0xc0a80164, 1 }; static const char *A6[] = { "::", "::1", "fe80::1", "2001:db8:1:2:3:4:5:6", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::ffff:1.2.3.4" }; static const unsigned char M[6][6] = { { 0 }, { 255, 255, 255, 255, 255, 255 }, { 1, 2, 3, 4, 5, 6 }, { 0xab, 0xcd, 0xef, 0x10, 0x0f, 0xf0 }, { 0x80, 0, 0x7f, 9, 0xa, 0x90 }, { 0, 0, 0, 0, 0, 1 } };
        if (f == 0) { ((struct sockaddr_in *)&s)->sin_addr.s_addr = htonl(A4[k]); snprintf(want, sizeof want, "%u.%u.%u.%u", A4[k] >> 24, A4[k] >> 16 & 255, A4[k] >> 8 & 255, A4[k] & 255); } if (f == 1) { inet_pton(AF_INET6, A6[k], &((struct sockaddr_in6 *)&s)->sin6_addr); strcpy(want, A6[k]); } if (f == 2) { memcpy(((struct sockaddr_ll *)&s)->sll_addr, M[k], 6); for (int i = 0; i < 6; i++) sprintf(want + 3 * i, "%02x%s", M[k][i], i < 5 ? ":" : ""); } }
    else { memset(&s, 0, sizeof s); s.ss_family = 200 + k; snprintf(want, sizeof want, "unknown-AF %d", 200 + k); }
    char *b = malloc(z ? z : 1); memset(b, 'Z', z ? z : 1); char *lo = b; mc_site("sockaddr_to_string"); const char *r = sockaddr_to_string(b, z, (struct sockaddr *)&s); mc_op(); if (z > (int)strlen(want)) MC_ASSERT(r && !strcmp(r, want), "text", "'%s' becomes '%s'", want, r ? r : "(null)"); else if (r && z && f < 3) MC_ASSERT(strcmp(r, want) && strnlen(b, z) < (size_t)z, "text-short", "'%s' into %d bytes: '%.*s'", want, z, z, b); mc_state(mc_mix(f * 8 + k, z)); free(lo);
}
const mc_scenario mc_scenarios[] = { { "all interfaces", r_all, 3 | 3 << 4, 0, 3, MC_F_LEAK }, { "all interfaces, more", r_all, 4 | 2 << 4, 0, 3, MC_F_LEAK }, { "all interfaces, many", r_all, 5 | 3 << 4, 1, 3, MC_F_LEAK }, { "one interface", r_one, 2 | 5 << 4, 0, 3, MC_F_LEAK }, { "one interface, more", r_one, 4 | 2 << 4, 1, 3, MC_F_LEAK }, { "any name", r_resolve, 1, 0, 3, MC_F_LEAK }, { "any name, more", r_resolve, 2, 1, 3, MC_F_LEAK }, { "as text", r_text, 0, 0, 2, 0 }, { 0 } };
