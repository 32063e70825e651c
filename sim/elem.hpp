// Element types whose every construction, destruction, copy, assignment and
// read is observed. Copies may throw (F_ELEM); moves never do.
#pragma once
#include "core.hpp"
#include <unordered_map>
#include <initializer_list>

namespace sim {
// the registry of live objects, keyed by address and type tag
void life_born(const void* p, int tag, size_t align);
void life_died(const void* p, int tag);
void life_use(const void* p, int tag);
size_t life_count();
void life_check_none(const char* where);

const i64 MOVED = -7777777;

enum { COPYABLE = 1, MOVABLE = 2, BOTH = 3 };

// Tag distinguishes types; Pad grows the object; Align over-aligns it
template <int Tag, int Ops = BOTH, size_t Pad = 0, size_t Align = 8>
struct alignas(Align) Elem {
    i64 v;
    const void* self;
    char pad[Pad + 1];

    Elem() : v(0) { point(); born(); }
    /*implicit*/ Elem(i64 x) : v(x) { point(); born(); }
    Elem(const Elem& o) : v(o.get()) {
        static_assert(Ops & COPYABLE, "");
        point();
        born();
    }
    Elem(Elem&& o) noexcept(true) : v(o.get()) {
        born();
        o.v = MOVED;
    }
    Elem& operator=(const Elem& o) {
        static_assert(Ops & COPYABLE, "");
        i64 x = o.get();
        life_use(this, Tag);
        point();
        v = x;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept(true) {
        i64 x = o.get();
        life_use(this, Tag);
        o.v = MOVED;
        v = x;
        return *this;
    }
    ~Elem() { life_died(this, Tag); v = -888888; self = nullptr; }
    i64 get() const {
        life_use(this, Tag);
        if (self != this) fail("object", "an element was relocated by copying its bytes");
        return v;
    }
    void set(i64 x) { life_use(this, Tag); v = x; }
    friend bool operator==(const Elem& a, const Elem& b) { return a.get() == b.get(); }
    friend bool operator<(const Elem& a, const Elem& b) { return a.get() < b.get(); }
private:
    void point() { if (fault(F_ELEM)) throw Injected{F_ELEM}; }
    void born() {
        self = this;
        for (size_t i = 0; i <= Pad; ++i) pad[i] = char(i);
        life_born(this, Tag, Align);
    }
};

// as small as an int, yet observed all the same (by address only)
template <int Tag>
struct Small {
    int v;
    Small() : v(0) { point(); life_born(this, Tag, alignof(int)); }
    /*implicit*/ Small(i64 x) : v(int(x)) { point(); life_born(this, Tag, alignof(int)); }
    Small(const Small& o) : v(int(o.get())) { point(); life_born(this, Tag, alignof(int)); }
    Small(Small&& o) noexcept : v(int(o.get())) { life_born(this, Tag, alignof(int)); o.v = int(MOVED); }
    Small& operator=(const Small& o) {
        i64 x = o.get();
        life_use(this, Tag);
        point();
        v = int(x);
        return *this;
    }
    Small& operator=(Small&& o) noexcept {
        i64 x = o.get();
        life_use(this, Tag);
        o.v = int(MOVED);
        v = int(x);
        return *this;
    }
    ~Small() { life_died(this, Tag); v = -888888; }
    i64 get() const { life_use(this, Tag); return v; }
    void set(i64 x) { life_use(this, Tag); v = int(x); }
    friend bool operator==(const Small& a, const Small& b) { return a.get() == b.get(); }
    friend bool operator<(const Small& a, const Small& b) { return a.get() < b.get(); }
private:
    void point() { if (fault(F_ELEM)) throw Injected{F_ELEM}; }
};

// move-only
template <int Tag, size_t Pad = 0>
struct MoveOnly {
    Elem<Tag, MOVABLE, Pad> e;
    MoveOnly() : e() {}
    /*implicit*/ MoveOnly(i64 x) : e(x) {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    i64 get() const { return e.get(); }
    void set(i64 x) { e.set(x); }
    friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.get() == b.get(); }
    friend bool operator<(const MoveOnly& a, const MoveOnly& b) { return a.get() < b.get(); }
};

// copy-only: relocation copies and may throw
template <int Tag, size_t Pad = 0>
struct CopyOnly {
    Elem<Tag, COPYABLE, Pad> e;
    CopyOnly() : e() {}
    /*implicit*/ CopyOnly(i64 x) : e(x) {}
    CopyOnly(const CopyOnly& o) : e(o.e) {}
    CopyOnly& operator=(const CopyOnly& o) { e = o.e; return *this; }
    i64 get() const { return e.get(); }
    void set(i64 x) { e.set(x); }
    friend bool operator==(const CopyOnly& a, const CopyOnly& b) { return a.get() == b.get(); }
    friend bool operator<(const CopyOnly& a, const CopyOnly& b) { return a.get() < b.get(); }
};

// moving may throw, and leaves the source as it was then
template <int Tag, size_t Pad = 0>
struct ThrowMove {
    Elem<Tag, BOTH, Pad> e;
    ThrowMove() : e() {}
    /*implicit*/ ThrowMove(i64 x) : e(x) {}
    ThrowMove(const ThrowMove& o) : e(o.e) {}
    ThrowMove(ThrowMove&& o) noexcept(false) : e((point(), std::move(o.e))) {}
    ThrowMove& operator=(const ThrowMove& o) { e = o.e; return *this; }
    ThrowMove& operator=(ThrowMove&& o) noexcept(false) { point(); e = std::move(o.e); return *this; }
    i64 get() const { return e.get(); }
    void set(i64 x) { e.set(x); }
    friend bool operator==(const ThrowMove& a, const ThrowMove& b) { return a.get() == b.get(); }
    friend bool operator<(const ThrowMove& a, const ThrowMove& b) { return a.get() < b.get(); }
private:
    static void point() { if (fault(F_ELEM)) throw Injected{F_ELEM}; }
};
template <typename T> struct throwing_move : std::false_type {};
template <int Tag, size_t Pad> struct throwing_move<ThrowMove<Tag, Pad>> : std::true_type {};

// trivial elements
struct Pod {
    i64 v;
    int w;
    char c[3];
    Pod() = default;
    /*implicit*/ Pod(i64 x) : v(x), w(++made()), c{1, 2, 3} {}
    static int& made() { static int n; return n; } // equal elements differ in bytes which do not matter
    friend bool operator==(const Pod& a, const Pod& b) { return a.v == b.v; }
    friend bool operator<(const Pod& a, const Pod& b) { return a.v < b.v; }
};

// destroyed trivially, but neither copied nor moved by bytes; braces mean something else than parentheses;
// operator& and the comma operator are nobody's business
struct Selfy {
    i64 v;
    const void* self;
    Selfy() : v(0), self(this) {}
    /*implicit*/ Selfy(i64 x) : v(x), self(this) {}
    Selfy(std::initializer_list<i64>) : v(-31337), self(this) { fail("object", "an element was constructed from a list, not from the arguments given"); }
    Selfy(const Selfy& o) : v(o.get()), self(this) {}
    Selfy(Selfy&& o) noexcept : v(o.get()), self(this) { o.v = MOVED; }
    Selfy& operator=(const Selfy& o) { v = o.get(); return *this; }
    Selfy& operator=(Selfy&& o) noexcept { i64 x = o.get(); o.v = MOVED; v = x; return *this; }
    i64 get() const {
        if (self != this) fail("object", "an element was relocated by copying its bytes, or never constructed");
        return v;
    }
    void set(i64 x) { get(); v = x; }
    friend bool operator==(const Selfy& a, const Selfy& b) { return a.get() == b.get(); }
    friend bool operator<(const Selfy& a, const Selfy& b) { return a.get() < b.get(); }
};

template <typename T> auto val_of(const T& t) -> decltype(t.get()) { return t.get(); }
inline i64 val_of(const Pod& p) {
    return p.v;
}
inline i64 val_of(i64 x) { return x; }
inline i64 val_of(int x) { return x; }
inline i64 val_of(short x) { return x; }
inline i64 val_of(char x) { return x; }
inline i64 val_of(unsigned char x) { return x; }

// Allocator with identity. Counts, may fail, must get its own blocks back.
template <typename T, int Kind = 0>
struct TAlloc {
    typedef T value_type;
    int id;
    explicit TAlloc(int i = 100) : id(i) {}
    template <typename U> struct rebind { typedef TAlloc<U, Kind> other; };
    template <typename U> TAlloc(const TAlloc<U, Kind>& o) : id(o.id) {}
    T* allocate(size_t n) {
        if (n > max_alloc) throw std::bad_alloc();
        void* p = sut_alloc(n * sizeof(T), alignof(T) < 16 ? 16 : alignof(T), id);
        if (!p) throw std::bad_alloc();
        return static_cast<T*>(p);
    }
    void deallocate(T* p, size_t n) { sut_free(p, i64(n * sizeof(T)), alignof(T) < 16 ? 16 : alignof(T), id); }
    size_t max_size() const { return size_t(1) << 40; }
    TAlloc select_on_container_copy_construction() const { return Kind ? TAlloc(id % 1000 + 1000) : *this; }
    template <typename U> bool operator==(const TAlloc<U, Kind>& o) const { return id == o.id; }
    template <typename U> bool operator!=(const TAlloc<U, Kind>& o) const { return id != o.id; }
};
}
