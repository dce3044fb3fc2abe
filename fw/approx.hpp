#pragma once
#include <vector>
#include <iterator>
namespace vf {
// output iterator that, like a pointer into a buffer, carries its position
template<class T> struct Slots { std::vector<T> v; };
template<class T> struct SlotIt {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    Slots<T> *s; size_t pos;
    explicit SlotIt(Slots<T> *s) : s(s), pos(0) {}
    struct Ref { Slots<T> *s; size_t pos; Ref &operator=(const T &x) { if (s->v.size() <= pos) s->v.resize(pos + 1); s->v[pos] = x; return *this; } };
    Ref operator*() const { return Ref{s, pos}; }
    SlotIt &operator++() { ++pos; return *this; }
    SlotIt operator++(int) { SlotIt o = *this; ++pos; return o; }
};
}
