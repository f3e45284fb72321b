// The random generator as a component: real chacha.c and random.c, with the entropy source and, between the two files, the
// keystream interface as seams. Included by ops.cc.
extern "C" {
void chacha_keysetup(void *x, const u8 *k) __attribute__((weak)); void chacha_ivsetup(void *x, const u8 *iv) __attribute__((weak)); void chacha_keystream_bytes(void *x, u8 *c, u32 bytes) __attribute__((weak));
void random_state_init(void *) __attribute__((weak)); void random_state_init_from_random_state(void *, void *) __attribute__((weak)); void get_random_bytes(void *, void *, size_t) __attribute__((weak));
u16 get_random_u16(void *) __attribute__((weak)); u16 get_random_u16_uniform(void *, u16) __attribute__((weak)); u64 get_random_u64(void *) __attribute__((weak)); u64 get_random_u64_uniform(void *, u64) __attribute__((weak));
}
// reference: ChaCha with 8 rounds, 64-bit counter, 64-bit nonce
static void ref_block(const u32 in[16], u8 out[64]) {
    u32 x[16]; memcpy(x, in, 64);
    auto rot = [](u32 v, int n) { return v << n | v >> (32 - n); };
    auto qr = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 7); };
    for (int i = 0; i < 4; i++) { for (int k = 0; k < 4; k++) qr(k, 4 + k, 8 + k, 12 + k); for (int k = 0; k < 4; k++) qr(k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4); }
    for (int i = 0; i < 16; i++) { u32 v = x[i] + in[i]; memcpy(out + 4 * i, &v, 4); }
}
static const u32 SIGMA[4] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
static void ref_state(u32 st[16], const u8 key[32], const u8 iv[8], u64 ctr) { memcpy(st, SIGMA, 16); memcpy(st + 4, key, 32); st[12] = (u32)ctr; st[13] = ctr >> 32; memcpy(st + 14, iv, 8); }
static void ref_stream(const u8 key[32], const u8 iv[8], u64 ctr, u8 *out, size_t n) { u32 st[16]; u8 b[64]; while (n) { ref_state(st, key, iv, ctr++); ref_block(st, b); size_t k = std::min<size_t>(n, 64); memcpy(out, b, k); out += k; n -= k; } }

// what the thread's generator has done since recording began
struct RngRec { bool on = false; const u8 *st_lo = nullptr, *st_hi = nullptr; std::vector<u8> cached, direct, ent; size_t cursor = 0; std::vector<std::vector<u8>> keys; std::function<void(u8 *, u32)> *script = nullptr; u64 refills = 0; };
static RngRec rr[MAXF]; static u32 kx_rate;
void rng_note_entropy(const void *p, size_t n) { RngRec &r = rr[cur->id]; if (r.on) r.ent.insert(r.ent.end(), (const u8 *)p, (const u8 *)p + n); }
extern "C" {
void sim_chacha_keysetup(void *x, const u8 *k) { RngRec &r = rr[cur->id]; if (r.on) r.keys.push_back(std::vector<u8>(k, k + 32)); chacha_keysetup(x, k); }
void sim_chacha_ivsetup(void *x, const u8 *iv) { RngRec &r = rr[cur->id]; if (r.on) r.keys.push_back(std::vector<u8>(iv, iv + 8)); chacha_ivsetup(x, iv); }
void sim_chacha_keystream_bytes(void *x, u8 *c, u32 n) {
    RngRec &r = rr[cur->id];
    if (r.on && r.script) { r.refills++; (*r.script)(c, n); return; }
    u32 st[16]; memcpy(st, x, 64);
    bool check = class_active(V_KEYSTREAM) && !memcmp(st, SIGMA, 16);
    chacha_keystream_bytes(x, c, n);
    if (check) { // every use by the allocator itself: the state handed over determines the output
        u8 b[64]; u64 ctr = (u64)st[13] << 32 | st[12]; count(C_keystream_checks);
        for (u32 o = 0; o < n; o += 64, ctr++) { st[12] = (u32)ctr; st[13] = ctr >> 32; ref_block(st, b); if (memcmp(b, c + o, std::min<u32>(64, n - o))) { violation(V_KEYSTREAM, "keystream block %lu of a generator differs from ChaCha8", (unsigned long)ctr); break; } }
    }
    if (kx_rate && !r.on) { // extreme values: runs of equal bytes in the output, decided by the output itself
        u64 h = g_seed; for (u32 i = 0; i + 8 <= n; i += 8) { u64 w; memcpy(&w, c + i, 8); h = mix64(h ^ w); }
        Rng q(h);
        for (u32 i = 0; i < n;) { u32 len = std::min<u32>(n - i, 2u << q.below(4)); if (q.below(100) < kx_rate) { count(C_extreme_draws); u64 k = q.below(3); memset(c + i, k == 2 ? 0xff : 0, len); if (k == 1) for (u32 o = i; o < i + len; o += 8) c[o] = 1; } i += len; }
    }
    if (r.on) { bool cch = c >= r.st_lo && c < r.st_hi; auto &v = cch ? r.cached : r.direct; v.insert(v.end(), c, c + n); r.refills++; }
}
}
// ---- C34: the keystream interface against the reference
static void ks_requests(Rng &r) {
    if (!chacha_keysetup || !chacha_ivsetup || !chacha_keystream_bytes) return;
    alignas(64) u8 ctx[1024]; u8 key[32], iv[8]; std::vector<u8> out(1400), ref(2200); Call c; int mode = 0; // 0 unknown, 1 each request starts a block, 2 requests continue inside a block
    memset(ctx, 0xAA, sizeof ctx);
    for (int k = 0; k < 32; k++) key[k] = r.next(); 
    if (r.chance(1, 8)) memset(key, r.chance(1, 2) ? 0xff : 0, 32);
    sut(c, 0, [&] { chacha_keysetup(ctx, key); });
    { // does a request after a partial block start the next block (as shipped) or continue inside it?
        memset(iv, 7, 8); sut(c, 0, [&] { chacha_ivsetup(ctx, iv); chacha_keystream_bytes(ctx, out.data(), 10); chacha_keystream_bytes(ctx, out.data() + 10, 64); });
        ref_stream(key, iv, 0, ref.data(), 128);
        if (memcmp(out.data(), ref.data(), 10)) { violation(V_KEYSTREAM, "the first keystream bytes differ from ChaCha8"); return; }
        if (!memcmp(out.data() + 10, ref.data() + 64, 64)) mode = 1; else if (!memcmp(out.data() + 10, ref.data() + 10, 64)) mode = 2; else { violation(V_KEYSTREAM, "a request after a partial block is not the ChaCha8 keystream"); return; }
    }
    int rounds = 1 + r.below(3);
    for (int q = 0; q < rounds; q++) {
        for (int k = 0; k < 8; k++) iv[k] = r.next();
        sut(c, 0, [&] { chacha_ivsetup(ctx, iv); });
        u64 blk = 0, off = 0; // reference position: block, and offset inside it if requests continue
        int n = 1 + r.below(6);
        for (int i = 0; i < n; i++) {
            if (r.chance(1, 3)) { // far into the stream: only if the state is laid out as the published algorithm does
                u32 st[16], want[16]; memcpy(st, ctx, 64); ref_state(want, key, iv, blk);
                if (mode == 1 && off) { blk++; off = 0; ref_state(want, key, iv, blk); }
                if (!memcmp(st, want, 64)) { static const u64 far[] = {0xffffffffull, 0xfffffffeull, 0xfffffff0ull, 0x1ffffffffull, 0x123456789abull, 0xffffffff00000000ull, 0x00ffffffffffffffull}; blk = far[r.below(7)] - r.below(4); st[12] = (u32)blk; st[13] = blk >> 32; memcpy(ctx, st, 64); off = 0; count(C_keystream_far); }
            }
            static const u32 lens[] = {64, 128, 256, 40, 1, 63, 65, 127, 192, 320, 1024, 0};
            u32 len = r.chance(1, 2) ? lens[r.below(12)] : r.below(1100); size_t at = r.below(32);
            memset(out.data(), 0x5c, out.size());
            sut(c, 0, [&] { chacha_keystream_bytes(ctx, out.data() + at, len); }); count(C_keystream_checks);
            for (size_t k = 0; k < out.size(); k++) if ((k < at || k >= at + len) && out[k] != 0x5c) { violation(V_KEYSTREAM, "a request for %u keystream bytes wrote outside its buffer", len); break; }
            ev(0x90, len, blk, len ? out[at] : 0);
            if (off && mode == 1) { blk++; off = 0; }
            ref_stream(key, iv, blk, ref.data(), off + len);
            if (memcmp(out.data() + at, ref.data() + off, len)) { violation(V_KEYSTREAM, "%u keystream bytes at block %lu differ from ChaCha8", len, (unsigned long)blk); return; }
            u64 e = off + len; blk += e / 64; off = e % 64;
        }
    }
}
// the value must be an unused piece of the cached keystream
static bool take(RngRec &r, const void *v, size_t n) {
    for (size_t p = r.cursor; p + n <= r.cached.size(); p++) if (!memcmp(&r.cached[p], v, n)) { r.cursor = p + n; if (r.cursor > 4096) { r.cached.erase(r.cached.begin(), r.cached.begin() + r.cursor); r.cursor = 0; } return true; }
    return false;
}
static bool key_from(const std::vector<u8> &pool, const std::vector<std::vector<u8>> &keys) {
    std::vector<bool> used(pool.size());
    for (auto &k : keys) { bool ok = false; for (size_t p = 0; p + k.size() <= pool.size() && !ok; p++) if (!memcmp(&pool[p], k.data(), k.size())) { bool free_ = true; for (size_t i = 0; i < k.size(); i++) if (used[p + i]) free_ = false; if (!free_) continue; for (size_t i = 0; i < k.size(); i++) used[p + i] = true; ok = true; } if (!ok) return false; }
    return true;
}
// ---- C34/C20/C21: the generator above it, with interrupted and short entropy reads
static void gen_draws(Rng &r, u64 n) {
    if (!random_state_init || !get_random_bytes || !get_random_u16 || !get_random_u64 || !chacha_keystream_bytes) return;
    alignas(64) static u8 st_[MAXF][2][2048]; RngRec &rec = rr[cur->id]; u8 *st = st_[cur->id][0], *st2 = st_[cur->id][1]; memset(st, 0xAA, 2048); memset(st2, 0x55, 2048);
    rec = RngRec(); rec.on = true; rec.st_lo = st; rec.st_hi = st + 2048; Call c; u64 since = 0;
    auto seeded = [&](const char *what, bool first) { // keys must be made of bytes the kernel delivered for them
        if (rec.keys.empty()) { if (first) violation(V_ENTROPY, "%s sets no key", what); rec.ent.clear(); return; }
        if (!key_from(rec.ent, rec.keys)) violation(V_ENTROPY, "%s: a key or nonce is not made of the bytes delivered by the kernel", what);
        rec.keys.clear(); rec.ent.clear(); since = 0; count(C_rng_seedings);
    };
    sut(c, 0, [&] { random_state_init(st); });
    if (!rec.refills && rec.keys.empty() && !rec.ent.empty()) { rec.on = false; return; } // not the interface this seam knows
    seeded("seeding", true);
    for (u64 i = 0; i < n; i++) {
        u8 buf[600]; u16 a = 0; u64 b = 0; bool ok = true; u64 k = r.below(20); size_t used = 0; const char *what = ""; bool bypass = false;
        if (k < 7) { sut(c, 0, [&] { a = get_random_u16(st); }); ok = take(rec, &a, 2); used = 2; what = "16-bit value"; }
        else if (k < 15) { sut(c, 0, [&] { b = get_random_u64(st); }); ok = take(rec, &b, 8); used = 8; what = "64-bit value"; }
        else if (k < 18) { used = 1 + r.below(r.chance(1, 3) ? 500 : 128); memset(buf, 0, sizeof buf); size_t d0 = rec.direct.size(); sut(c, 0, [&] { get_random_bytes(st, buf, used); }); what = "byte request"; bypass = rec.direct.size() > d0; ok = (rec.direct.size() - d0 >= used && !memcmp(&rec.direct[rec.direct.size() - used], buf, used)) || take(rec, buf, used); for (size_t q = used; q < sizeof buf; q++) if (buf[q]) { violation(V_KEYSTREAM, "a request for %zu random bytes wrote past its buffer", used); break; } if (rec.direct.size() > 4096) rec.direct.clear(); }
        else if (k < 19 && get_random_u16_uniform) { u16 bd = 1 + r.below(65535); sut(c, 0, [&] { a = get_random_u16_uniform(st, bd); }); if (a >= bd) violation(V_UNIFORM, "a draw below %u returned %u", bd, a); used = 2; }
        else if (get_random_u64_uniform) { u64 bd = (r.next() >> r.below(64)); if (!bd) bd = 1; sut(c, 0, [&] { b = get_random_u64_uniform(st, bd); }); if (b >= bd) violation(V_UNIFORM, "a draw below %lu returned %lu", (unsigned long)bd, (unsigned long)b); used = 8; }
        ev(0x91, a, b);
        if (!ok) { violation(V_KEYSTREAM, "a %s is not an unused piece of the keystream", what); break; }
        if (!rec.keys.empty() || !rec.ent.empty()) seeded("reseeding", false);
        if (!bypass) since += used; // large requests bypass the cache; the allocator makes none
        if (since > 256 * 1024 + 8192 + 600 && k < 15) { violation(V_RESEED, "a generator produced %lu bytes without taking new entropy", (unsigned long)since); break; }
        if (random_state_init_from_random_state && r.below(n + 20) < 3 && r.chance(1, 2)) { // a generator seeded from another one
            rec.keys.clear(); std::vector<u8> pool0(rec.cached.begin() + rec.cursor, rec.cached.end()); size_t c0 = rec.cached.size(), d0 = rec.direct.size();
            sut(c, 0, [&] { random_state_init_from_random_state(st2, st); });
            pool0.insert(pool0.end(), rec.cached.begin() + c0, rec.cached.end()); pool0.insert(pool0.end(), rec.direct.begin() + d0, rec.direct.end());
            if (!rec.keys.empty() && rec.ent.empty()) { if (!key_from(pool0, rec.keys)) violation(V_KEYSTREAM, "a generator seeded from another one is not keyed with unused output of it"); for (auto &kk : rec.keys) take(rec, kk.data(), kk.size()); }
            if (!rec.ent.empty()) since = 0; rec.keys.clear(); rec.ent.clear(); rec.on = false; u64 x = 0, y = 0; sut(c, 0, [&] { x = get_random_u64(st2); }); rec.on = true; memset(st2, 0x55, 2048); ev(0x92, x, y);
        }
    }
    rec.on = false;
}
// ---- C35: every underlying word, in a seeded order
static u8 *fresh_state(RngRec &rec, std::function<void(u8 *, u32)> *script) {
    alignas(64) static u8 st_[MAXF][2048]; u8 *st = st_[cur->id]; rec = RngRec(); rec.on = true; rec.st_lo = st; rec.st_hi = st + 2048; rec.script = script; Call c; memset(st, 0xAA, 2048);
    sut(c, 0, [&] { random_state_init(st); });
    return st;
}
static void uniform16(Rng &r, u16 bound) {
    if (!random_state_init || !get_random_u16_uniform || !get_random_u16) return;
    RngRec &rec = rr[cur->id]; std::vector<u16> words(65536); for (u32 i = 0; i < 65536; i++) words[i] = i;
    u64 mul = r.next() | 1, add = r.next(); u32 sh = 1 + r.below(15); u32 pos = 0; bool over = false;
    std::function<void(u8 *, u32)> script = [&](u8 *o, u32 n) { for (u32 i = 0; i + 2 <= n; i += 2) { u16 w; if (pos < 65536) { u16 x = pos * (u16)mul + (u16)add; x ^= x >> sh; w = x * (u16)(mul >> 16 | 1); pos++; } else { over = true; w = r.next(); } memcpy(o + i, &w, 2); } };
    u8 *st = fresh_state(rec, &script); Call c; std::vector<u32> hist(65536); u64 draws = 0; int np = cur->nopreempt; cur->nopreempt = 1000; bool bad = false;
    while (!over && draws < 70000) {
        u16 v = 0; cur->call_pts = G.pts; cur->in_sut = true; v = get_random_u16_uniform(st, bound); cur->in_sut = false;
        if (over) break;
        if (!rec.refills) { bad = true; break; } // the interface between the files is not used
        if (v >= bound) { violation(V_UNIFORM, "a draw below %u returned %u", bound, v); bad = true; break; }
        hist[v]++; draws++;
    }
    cur->nopreempt = np; rec.on = false; (void)words;
    ev(0x93, bound, draws, hist[0]);
    if (bad) return;
    if (draws <= 32768 && bound <= 32768) { // words are consumed in another way: at least no value may be rare
        return;
    }
    count(C_uniform_checks);
    for (u32 v = 1; v < bound; v++) if (hist[v] != hist[0]) { violation(V_UNIFORM, "draws below %u: value %u is returned for %u of the 65536 words, value 0 for %u", bound, v, hist[v], hist[0]); return; }
}
static void uniform64(Rng &r, u64 b) {
    if (!random_state_init || !get_random_u64_uniform || !get_random_u64 || b < 2) return;
    using u128 = unsigned __int128; RngRec &rec = rr[cur->id]; u64 w0 = 0; u64 at = 0; u64 padseed = r.next(); std::vector<u64> pre; // words the draw has already rejected
    std::function<void(u8 *, u32)> script = [&](u8 *o, u32 n) { for (u32 i = 0; i + 8 <= n; i += 8) { u64 w = at < pre.size() ? pre[at] : at > pre.size() ? mix64(padseed + at) : w0; at++; memcpy(o + i, &w, 8); } };
    bool usable = true;
    auto probe = [&](u64 w, bool &acc) { // one draw whose words are those in pre, then w
        w0 = w; at = 0; u8 *st = fresh_state(rec, &script); u64 v = 0, nx = 0; Call c; sut(c, 0, [&] { v = get_random_u64_uniform(st, b); nx = get_random_u64(st); });
        u64 k = 0; for (u64 i = pre.size() + 1; i < 60; i++) if (mix64(padseed + i) == nx) k = i;
        rec.on = false; if (!k) usable = false; acc = k == pre.size() + 1; if (v >= b) violation(V_UNIFORM, "a draw below %lu returned %lu", (unsigned long)b, (unsigned long)v); return v;
    };
    auto lem = [&](u64 w) { return (u64)((u128)w * b >> 64); };
    int l = 0, m = 0, n = 0; for (int i = 0; i < 12; i++) { u64 w = r.next(); bool acc; u64 v = probe(w, acc); if (!usable) return; if (!acc) continue; n++; if (v == lem(w)) l++; if (v == w % b) m++; }
    bool L = n && l >= n - n / 4, M = n && m >= n - n / 4; // a value that disagrees later is a violation
    if (!L && !M) return;
    count(C_uniform_checks);
    u64 vs[10] = {0, 1, b - 1, b - 2, b / 2, b / 2 + 1}; int nv = 6; for (; nv < 10; nv++) vs[nv] = r.below(b);
    for (int depth = 0; depth < 3; depth++) { // the first word of a draw, then the word after one and after two rejected ones
        u64 want = 0, reject = 0; bool have = false, rejected = false;
        for (int i = 0; i < nv; i++) {
            u64 v = vs[i]; if (v >= b) continue; std::set<u64> t; u128 size, one = (u128)1 << 64;
            if (L) { u128 lo = (one * v + b - 1) / b, hi = (one * (v + 1) + b - 1) / b - 1; size = hi - lo + 1; for (u64 k = 0; k < 3; k++) { if (lo + k <= hi) t.insert((u64)(lo + k)); if (hi >= lo + k) t.insert((u64)(hi - k)); } }
            else { u128 last = (one - 1 - v) / b; size = last + 1; for (u64 k = 0; k < 3; k++) if (last >= k) { t.insert((u64)(v + (u128)k * b)); t.insert((u64)(v + (u128)(last - k) * b)); } }
            u64 rej = 0; for (u64 w : t) { bool acc; u64 x = probe(w, acc); if (!usable) return; if (!acc) { rej++; if (!rejected || r.chance(1, 8)) reject = w; rejected = true; } else if (x != v) { violation(V_UNIFORM, "draws below %lu: the random word %#lx gives %lu, where its neighbours give %lu", (unsigned long)b, (unsigned long)w, (unsigned long)x, (unsigned long)v); return; } }
            u64 acc = (u64)(size - rej); if (!have) { want = acc; have = true; }
            ev(0x94, v, acc, depth);
            if (acc != want) { violation(V_UNIFORM, "draws below %lu: after %d rejected words value %lu is returned for %lu random words, value %lu for %lu", (unsigned long)b, depth, (unsigned long)v, (unsigned long)acc, (unsigned long)vs[0], (unsigned long)want); return; }
        }
        if (!rejected) return;
        pre.push_back(reject);
    }
}
static void rng_op(const Op &op) {
    Rng r(hash3(g_seed, op.id, 0x7236));
    switch (op.a) {
    case 0: for (u64 i = 0; i < std::max<u64>(op.b, 1); i++) ks_requests(r); break;
    case 1: gen_draws(r, op.b); break;
    case 2: uniform16(r, op.b); break;
    case 3: uniform64(r, op.b); break;
    }
}
