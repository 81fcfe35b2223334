// Single-threaded size-class allocator: the analyser allocates very many
// small short-lived vectors and map nodes.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace {
const size_t STEP = 16, MAXC = 1024, CHUNK = 1 << 20;
struct Node { Node* next; };
Node* freeList[MAXC / STEP + 1];
char *cur = nullptr, *end_ = nullptr;
struct Header { size_t cls; size_t pad; };

void* get(size_t n) {
    size_t c = (n + STEP - 1) / STEP;
    if (c == 0) c = 1;
    if (c > MAXC / STEP) {
        Header* h = (Header*)malloc(n + sizeof(Header));
        if (!h) abort();
        h->cls = 0;
        return h + 1;
    }
    if (Node* f = freeList[c]) { freeList[c] = f->next; return f; }
    size_t sz = c * STEP + sizeof(Header);
    if ((size_t)(end_ - cur) < sz) {
        cur = (char*)malloc(CHUNK);
        if (!cur) abort();
        end_ = cur + CHUNK;
    }
    Header* h = (Header*)cur;
    cur += sz;
    h->cls = c;
    return h + 1;
}
void put(void* p) {
    if (!p) return;
    Header* h = (Header*)p - 1;
    if (h->cls == 0) { free(h); return; }
    Node* f = (Node*)p;
    f->next = freeList[h->cls];
    freeList[h->cls] = f;
}
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
