// Minimal stand-in for camp (https://github.com/LLNL/camp): only what LvArray uses.
#pragma once

#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace camp
{

using idx_t = std::ptrdiff_t;

template< typename T, T... vals >
struct int_seq
{
  using type = int_seq;
  using value_type = T;
  static constexpr idx_t size = sizeof...( vals );
};

template< idx_t... vals >
using idx_seq = int_seq< idx_t, vals... >;

namespace detail
{
template< typename T, typename SEQ > struct from_std;
template< typename T, T... I > struct from_std< T, std::integer_sequence< T, I... > > { using type = int_seq< T, I... >; };

template< idx_t N, typename SEQ > struct seq_at_impl;
template< idx_t N, typename T, T HEAD, T... TAIL >
struct seq_at_impl< N, int_seq< T, HEAD, TAIL... > > : seq_at_impl< N - 1, int_seq< T, TAIL... > > {};
template< typename T, T HEAD, T... TAIL >
struct seq_at_impl< 0, int_seq< T, HEAD, TAIL... > > { static constexpr T value = HEAD; };
} // namespace detail

template< idx_t N >
using make_idx_seq_t = typename detail::from_std< idx_t, std::make_integer_sequence< idx_t, N > >::type;

template< typename T, T N >
using make_int_seq_t = typename detail::from_std< T, std::make_integer_sequence< T, N > >::type;

template< idx_t N, typename SEQ >
using seq_at = detail::seq_at_impl< N, SEQ >;

template< typename ... TS >
using tuple = std::tuple< TS... >;

template< typename ... TS >
constexpr std::tuple< std::decay_t< TS >... > make_tuple( TS && ... ts )
{ return std::tuple< std::decay_t< TS >... >( std::forward< TS >( ts )... ); }

template< idx_t I, typename TUPLE >
constexpr auto & get( TUPLE & t )
{ return std::get< I >( t ); }

template< idx_t I, typename TUPLE >
constexpr auto const & get( TUPLE const & t )
{ return std::get< I >( t ); }

namespace concepts
{
namespace metalib
{
template< bool ... > struct bool_list {};

template< bool ... BS >
using all_of = std::is_same< bool_list< true, BS... >, bool_list< BS..., true > >;

template< typename ... TS >
using all_of_t = all_of< TS::value... >;
} // namespace metalib
} // namespace concepts

} // namespace camp
