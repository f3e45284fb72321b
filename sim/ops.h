#pragma once
#include <functional>
enum { AF_FORCE = 1 << 16 };   // every memory call made by the operation is refused
Blk *do_alloc(int api, u64 size, u64 align, u64 nmemb, u64 flags); void do_free(Blk *b, int kind); Blk *do_realloc(Blk *b, u64 n, u64 flags);
void ops_init();
