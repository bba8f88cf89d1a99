// C24: Mmap vs file contents; faults, fd and mapping census.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "inject.hpp"
#include <cybozu/mmap.hpp>
using namespace vf;
static int maps(const std::string& name) { FILE *f = fopen("/proc/self/maps", "r"); char l[4096]; int n = 0; while (fgets(l, sizeof(l), f)) if (strstr(l, name.c_str())) n++; fclose(f); return n; }
VF_PART(map, 2500, 60000)
{
	std::string name = st().scratch + fmt("/m%d", (int)rng.below(4)); size_t sz; switch (rng.below(6)) { case 0: sz = 0; break; case 1: sz = 4096 * (1 + rng.below(4)); break; case 2: sz = 4096 * (1 + rng.below(4)) + 1; break; case 3: sz = 4096 * (1 + rng.below(4)) - 1; break; case 4: sz = 1 + rng.below(10); break; default: sz = rng.below(70000); } std::string c = rng.bytes(sz), d = fmt("size %zu", sz); FILE *f = fopen(name.c_str(), "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); if (wantSample()) sample(d); note(d); int fd0 = inj::fdCount();
	{ cybozu::Mmap m(name); VF_EQ(m.size(), (uint64_t)sz, "size", d); if (sz) { VF_CHECK(!memcmp(m.get(), c.data(), sz), "content", d); VF_CHECK(maps(name) == 1, "mapped", d); } else { VF_CHECK(std::string(m.get(), (size_t)m.size()).empty(), "empty", d); count("empty"); } VF_EQ(inj::fdCount(), fd0, "fd", d); cybozu::Mmap m2(name); VF_CHECK(m2.size() == sz && (!sz || !memcmp(m2.get(), m.get(), sz)), "twice", d); if (rng.chance(1, 2)) { unlink(name.c_str()); if (sz) VF_CHECK(!memcmp(m.get(), c.data(), sz), "after-unlink", d); } }
	VF_EQ(maps(name), 0, "unmapped", d); count("mapped"); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::Mmap m(st().scratch + "/none"); }), "missing", d);
	f = fopen(name.c_str(), "wb"); fwrite("abc", 1, 3, f); fclose(f); inj::arm(1, 0, 0); static const int k[] = { inj::Open, inj::Stat, inj::Map }; inj::fail(k[idx % 3], 0, idx % 3 == 2 ? ENOMEM : EACCES); uint64_t nf = inj::nFail; bool t = throws<cybozu::Exception>([&] { cybozu::Mmap m(name); inj::off(); }); bool hit = inj::nFail > nf; inj::off(); if (hit) { VF_CHECK(t, "fault", d + fmt(" kind %d", (int)(idx % 3))); count("fault"); } VF_EQ(inj::fdCount(), fd0, "fault-fd", d + fmt(" kind %d", (int)(idx % 3))); VF_EQ(maps(name), 0, "fault-unmapped", d); VF_CHECK(throws<cybozu::Exception>([&] { cybozu::Mmap m(st().scratch); }), "directory", d); VF_EQ(inj::fdCount(), fd0, "dir-fd", d); if (idx % 4 == 0) { int keep = fcntl(0, F_DUPFD, 10); if (keep >= 0) { close(0); bool t0 = throws<cybozu::Exception>([&] { cybozu::Mmap m(st().scratch); }), left = fcntl(0, F_GETFD) != -1; bool same; { cybozu::Mmap m(name); same = m.size() == 3 && !memcmp(m.get(), "abc", 3); } left |= fcntl(0, F_GETFD) != -1; dup2(keep, 0); close(keep); VF_CHECK(t0 && same && !left, "descriptor-zero", d); count("descriptor-zero"); } } unlink(name.c_str()); evals(); distinct(hashStr(c));
}
VF_PART(large, 4, 12) { std::string name = st().scratch + fmt("/L%d", (int)idx); uint64_t sz = (5ull << 30) + rng.below(100000); int fd = open(name.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); if (ftruncate(fd, sz)) { count("nospace"); return; } uint64_t p1 = (1ull << 32) + rng.below(1 << 20); pwrite(fd, "mark", 4, p1); pwrite(fd, "E", 1, sz - 1); close(fd); { cybozu::Mmap m(name); VF_EQ(m.size(), sz, "large-size", ""); VF_CHECK(!memcmp(m.get() + p1, "mark", 4) && m.get()[sz - 1] == 'E' && m.get()[0] == 0, "large-content", fmt("%llu", (unsigned long long)sz)); } VF_EQ(maps(name), 0, "large-unmapped", ""); unlink(name.c_str()); count("large"); evals(); distinct(sz); }
