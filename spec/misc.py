"""C16/C19/C14: hardware generator, entropy source, bulk fills (C level)."""
from .common import *

CONTRACTS = []

# -- rdrand: the instruction is replaced by a stub with arbitrary outcomes; everything around it is the real text
PRE = r"""
#include <stdint.h>
#include <immintrin.h>
unsigned char vp_ok[4096]; uint64_t vp_word[4096]; int vp_n, vp_per;
__attribute__((noinline, weak)) int vp_step(unsigned long long *p) {
  int i = vp_n & 4095, ok = vp_ok[i] & 1;
  vp_n = ok ? (vp_n / vp_per + 1) * vp_per : vp_n + 1;
  *p = ok ? vp_word[i] : 0; return ok; }
#define _rdrand64_step(p) vp_step(p)
#define _mm_pause() ((void)0)
"""
RF = {"buffer": 64, "buffer_loc": 32, "status": 32, "retries": 32}
tu_rd = TU("rdrand", ["rdrand/rdrand.h"], ["int rdrand_fill_buffer(rdrand_state *state)", "int rdrand_next64(rdrand_state *state, uint64_t *val)"], {"rdrand_state": list(RF)}, flags=["-mrdrnd"], pre=PRE)


def outcomes(k, groups, per):
    """ok[g][a], word[g][a] for attempt a of word g; the stub moves to the next word after a success or per failures"""
    n = groups * per
    ok = [k.word(f"ok[{i}]", 8, hi=1) for i in range(n)]
    wd = [k.word(f"w[{i}]", 64) for i in range(n)]
    if not k.symbolic:
        k.glob("vp_ok", 8, 4096, ok + [0] * (4096 - n))
        k.glob("vp_word", 64, 4096, wd + [0] * (4096 - n))
        k.glob("vp_n", 32, 1, 0)
        k.glob("vp_per", 32, 1, per)
    cnt = [0]

    def step(ex, st, args):
        i = cnt[0]
        cnt[0] += 1
        if i >= n:
            from vp.llsym import Unsupported

            raise Unsupported("more attempts than the configured number")
        o = ok[i].trunc(1)
        k.ex.store(st.mem, ("i", 64), ite(o, wd[i], BV(64, 0)), args[0])
        return o.zext(32)

    k.override("vp_step", step)
    good, val = [], []
    for g in range(groups):
        a, v = BV(1, 0), BV(64, 0)
        for j in reversed(range(per)):
            o = ok[g * per + j].trunc(1)
            v = ite(o, wd[g * per + j], v)
            a = a | o
        good.append(a)
        val.append(v)
    return good, val


def rd_state(k):
    r = k.case["retries"]
    return k.obj("state", "rdrand_state", RF, retries=r, status=k.word("status", 32, hi=1), buffer_loc=k.word("loc", 32, hi=256), buffer=[0xA5A5] * 256), r + 1


def rd_fill(k):
    st, per = rd_state(k)
    good, val = outcomes(k, 256, per)
    r = k.call("rdrand_fill_buffer", st)
    allok = st.old["status"][0].eq(1)
    now = k.now(st, "buffer")
    for g in range(256):
        allok = allok & good[g]
        k.ensure(f"buffer[{g}] is the word the instruction delivered", ~good[g] | now[g].eq(val[g]))
    k.ensure("the status stays good exactly while every word was delivered", k.now(st, "status")[0].ne(0).eq(allok))
    k.ensure("the status is returned", r.ne(0).eq(allok))
    k.same("the buffer is read from its start", k.now(st, "buffer_loc")[0], BV(32, 0))
    k.post(st, {}, skip=("buffer", "buffer_loc", "status"))
    k.frame(st)


def rd_next(k):
    st, per = rd_state(k)
    out = k.array("val", 64, 1)
    good, val = outcomes(k, 1, per)
    r = k.call("rdrand_next64", st, out)
    allok = st.old["status"][0].eq(1) & good[0]
    k.ensure("the word delivered is stored", ~good[0] | k.now(out, "a")[0].eq(val[0]))
    k.ensure("the status reports the failure", k.now(st, "status")[0].ne(0).eq(allok))
    k.ensure("the status is returned", r.ne(0).eq(allok))
    k.post(st, {}, skip=("status",))
    k.frame(st, out)


CONTRACTS.append(Contract("rdrand.fill_buffer", tu_rd, rd_fill, cases=[{"retries": 0}], props=("C16", "C14"), samples=40, note="every outcome sequence of the instruction; no retries"))
CONTRACTS.append(Contract("rdrand.fill_buffer.retries1", tu_rd, rd_fill, cases=[{"retries": 1}], props=("C16",), samples=40, note="every outcome sequence of the instruction; one retry"))
CONTRACTS[-1].tlimit = 450
CONTRACTS.append(Contract("rdrand.next64", tu_rd, rd_next, cases=[{"retries": n} for n in (0, 1, 2, 10, 50)], props=("C16",), note="every outcome sequence of the instruction; retries 0, 1, 2, 10, 50"))

# -- entropy: the system calls are stubs with arbitrary results
PRE2 = r"""
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
int vp_fd, vp_cl, vp_opens, vp_closes, vp_reads, vp_bad; int64_t vp_sz[8], vp_total; uint64_t vp_size; char *vp_base;
__attribute__((noinline, weak)) int vp_open(void) { vp_opens++; return vp_fd; }
__attribute__((noinline, weak)) int vp_close(int fd) { vp_closes++; if (fd != vp_fd) vp_bad = 1; return vp_cl; }
__attribute__((noinline, weak)) ssize_t vp_read(int fd, void *d, size_t n) {
  int64_t k = vp_reads < 8 ? vp_sz[vp_reads] : 0; vp_reads++;
  if (fd != vp_fd || d != (void *)(vp_base + vp_total) || n > vp_size - (uint64_t)vp_total) vp_bad = 2;
  if (k > (int64_t)n) k = (int64_t)n;
  if (k > 0) vp_total += k;
  return k; }
#define open(...) vp_open()
#define read(a, b, c) vp_read(a, b, c)
#define close(a) vp_close(a)
"""
POST2 = r"""
static int vp_get(unsigned char *dest, uint64_t n) { vp_base = (char *)dest; vp_size = n; vp_total = 0; vp_opens = vp_closes = vp_reads = vp_bad = 0; return entropy_getbytes(dest, n) != 0; }
"""
tu_en = TU("entropy", ["entropy/entropy.c"], ["int vp_get(unsigned char *dest, uint64_t n)"], pre=PRE2, post=POST2)


def en_get(k):
    n = k.case["size"]
    d = k.array("dest", 8, max(n, 1))
    fd, cl = k.word("fd", 32), k.word("cl", 32)
    # -1 is the only failure value of open and close
    k.requires(fd.eq(0xFFFFFFFF) | ~fd.slt(BV(32, 0)))
    k.requires(cl.eq(0xFFFFFFFF) | cl.eq(0))
    sz = [k.word(f"sz[{i}]", 64) for i in range(8)]
    for s in sz:
        k.requires(s.eq((1 << 64) - 1) | ~BV(64, n).ult(s))
    k.glob("vp_fd", 32, 1, fd)
    k.glob("vp_cl", 32, 1, cl)
    k.glob("vp_sz", 64, 8, sz)
    tot, op, clo, bad = (k.glob(g, w, 1, 0) for g, w in (("vp_total", 64), ("vp_opens", 32), ("vp_closes", 32), ("vp_bad", 32)))
    r = k.call("vp_get", d, BV(64, n)).ne(0)
    opened = ~fd.slt(BV(32, 0))
    T = k.now(tot, "a")[0]
    k.ensure("success means every byte was delivered", ~r | (T.eq(n) & opened))
    k.ensure("a complete delivery is a success", r | ~(opened & sz[0].eq(n) & cl.eq(0)))
    k.same("the source is opened once", k.now(op, "a")[0], BV(32, 1))
    k.same("it is closed exactly when it was opened", k.now(clo, "a")[0], ite(opened, BV(32, 1), BV(32, 0)))
    k.same("reads stay inside the destination", k.now(bad, "a")[0], BV(32, 0))


CONTRACTS.append(Contract("entropy.getbytes", tu_en, en_get, cases=[{"size": n} for n in (0, 4, 8, 40, 4000)], props=("C19",), note="every result of open, read and close; sizes 0, 4, 8, 40, 4000"))
