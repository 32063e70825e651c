#include "elem.hpp"
namespace sim {
template <typename T>
struct MA2 {
    typedef T value_type;
    MA2() {}
    template <typename U> MA2(const MA2<U>&) {}
    T* allocate(size_t n) { return (T*)::malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { ::free(p); }
    template <typename U> bool operator==(const MA2<U>&) const { return true; }
    template <typename U> bool operator!=(const MA2<U>&) const { return false; }
};
typedef std::unordered_map<const void*, int, std::hash<const void*>, std::equal_to<const void*>, MA2<std::pair<const void* const, int>>> Life;
static Life& life() { static Life* l = new (::malloc(sizeof(Life))) Life; return *l; }

void life_born(const void* p, int tag, size_t align) {
    Host h;
    if (reinterpret_cast<uintptr_t>(p) % align) fail("alignment", "an object is constructed at a misaligned address (needs %zu)", align);
    auto r = life().emplace(p, tag);
    if (!r.second) fail("object", "an object is constructed over a live one (types %d, %d)", r.first->second, tag);
}
void life_died(const void* p, int tag) {
    Host h;
    auto f = life().find(p);
    if (f == life().end() || f->second != tag) fail("object", "an object is destroyed which is not alive (type %d)", tag);
    life().erase(f);
}
void life_use(const void* p, int tag) {
    auto f = life().find(p);
    if (f == life().end() || f->second != tag) fail("object", "an object is used which is not alive (type %d)", tag);
}
size_t life_count() { return life().size(); }
void life_check_none(const char* where) {
    if (!life().empty()) fail("leak", "%zu object(s) never destroyed at %s", life().size(), where);
}
}
