// Plain bodies for the library's hand-unrolled search loops, so that code using
// std::find_if and friends is analysed like the loop it stands for.
#pragma once
#include <algorithm>
#include <cassert>
#include <functional>
#include <iterator>
#include <memory>
#include <numeric>
#include <utility>
namespace std {
    template<class I, class P>
    I __find_if(I f, I l, __gnu_cxx::__ops::_Iter_pred<P> p, random_access_iterator_tag) { while (f != l && !p(f)) ++f; return f; }
    template<class I, class P>
    I __find_if(I f, I l, __gnu_cxx::__ops::_Iter_negate<P> p, random_access_iterator_tag) { while (f != l && !p(f)) ++f; return f; }
    template<class I, class P>
    I __find_if(I f, I l, __gnu_cxx::__ops::_Iter_equals_val<P> p, random_access_iterator_tag) { while (f != l && !p(f)) ++f; return f; }
}
