// The explorer owns the address order of edge-list nodes: while an arena is armed on this thread,
// operator new(nodeSize) returns arena slots in the chosen order.
#pragma once
#include <cstddef>
#include <cstdint>
namespace vf {
struct Arena {
    char *base = nullptr; size_t slotsz = 0, n = 0, next = 0, nodesz = 0; const int *order = nullptr; // order[i] = slot of the i-th allocation
    bool contains(const void *p) const { return base && (const char*) p >= base && (const char*) p < base + slotsz * n; }
};
extern thread_local Arena *tl_armed;        // armed arena or null
bool arena_owned(const void *p);
char *arena_alloc(size_t bytes);            // bump region (recycled by arena_reset)
size_t arena_mark(); void arena_release(size_t);
}
