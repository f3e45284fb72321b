#pragma once
struct FreeInfo { u64 base, inflight; int serial; int cls, arena; bool corrupt, purged; u64 corrupt_off, usable; };
struct StalePtr { u64 p, addr, usable, req; bool small; int cls, arena; bool zero; };
struct ClsState { u64 live = 0, inflight = 0, tent = 0, maxlive = 0, frees_inv = 0, nslabs = 0, released = 0, reused = 0; }; // released/reused: slabs given back to the system, taken into use again
struct SlabRec { u64 lo, len; int arena, cls, gen; bool rw; u64 canary; bool have_canary; u64 prev_canary; u64 rel_no = 0, rel_ahead = 0, rel_reused = 0; };
struct Piece { int region; u64 lo, hi, addr, size, base, inflight; bool exempt, gone, touched; };
extern std::map<u64, Blk *> live; extern std::unordered_map<u64, FreeInfo> freed; extern std::vector<StalePtr> stale;
extern std::vector<ClsState> CS; extern std::map<u64, SlabRec> slabs; extern std::vector<Piece> pieces;
extern u64 large_frees_inv, large_inflight, large_tent, g_inflight_alloc, g_settling, live_large, live_large_bytes; extern int thread_arena_seen[MAXF]; extern int serial_no;
extern std::vector<u64> trim_released, trim_purged; extern std::set<std::pair<int, int>> trim_refused; extern bool in_trim_watch;
extern std::map<std::pair<int, int>, std::pair<u64, u64>> nmd;
ClsState &cs(int arena, int c); u64 cls_real(int c); u64 slab_len(int c); u64 q_total(int c); u64 q_min(int c); u64 qlen(u64 base, int c);
bool in_slab(u64 a); SlabRec *slab_of(u64 a);
extern u64 race_addr; extern bool race_reused; void check_tags(Blk *b); void fill(Blk *b); bool verify(Blk *b, const char *when); i64 pattern_bad(u64 addr, u64 tag, u64 usable, u64 limit); i64 first_nonzero(u64 a, u64 n);
void live_insert(Blk *b); void live_remove(Blk *b);
void large_extent(u64 addr, int region, u64 *lo, u64 *hi); bool check_guards(Blk *b, const char *when);
Blk *register_block(u64 p, u64 req, u64 align, bool calloc_like, u64 preserve, bool aligned_api); void finish_block(Blk *b, bool calloc_like, u64 preserve);
void retire_small_invoke(Blk *b, u64 base = 0, u64 inflight = 0, bool given = false); void retire_small_done(Blk *b); void after_small_free(Blk *b); void retire_large(Blk *b, u64 base, u64 inflight);
u64 piece_bytes(const Piece &p);
void check_released(int region, u64 lo, u64 hi, u64 tag, u64 blk_addr, u64 usable, bool had_faults, bool purge_failed, bool must_be_gone, const char *what);
void quiescent_structural(bool final_phase);
u64 large_level();
