// model: the definition is in bits/vs_streams.h
#ifndef VS_OSTREAM_INSERT
#define VS_OSTREAM_INSERT 1
#include <iosfwd>
namespace std
{
template <class C, class T> basic_ostream<C, T> &__ostream_insert (basic_ostream<C, T> &, const C *, streamsize);
}
#endif
