#pragma once
// The library uses the rapidjson of an old cereal, which did not ask streams for a type of characters: to be seen before <rapidjson/stream.h>.
#include <type_traits>
namespace rapidjson {
template <typename S> struct shim_has_ch
{
  template <typename T> static char test(typename T::Ch*);
  template <typename T> static long test(...);
  static constexpr bool value = sizeof(test<S>(nullptr)) == 1;
};
template <typename S> inline typename std::enable_if<!shim_has_ch<S>::value>::type PutUnsafe(S& s, char c) { s.Put(c); }
}
