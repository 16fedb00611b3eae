// Field-by-field view of the public score structures: flatten to (path, value) leaves, compare with a tolerance,
// mutate exactly one leaf. Independent of the library's own operator==.
#pragma once
#include "common.h"
#include "reflect_gen.h"
#include <cmath>
#include <optional>
#include <type_traits>

namespace rf
{
template<class T> struct IsVec : std::false_type {};
template<class T> struct IsVec<std::vector<T>> : std::true_type {};
template<class T> struct IsOpt : std::false_type {};
template<class T> struct IsOpt<std::optional<T>> : std::true_type {};
template<class T> struct IsMap : std::false_type {};
template<class T> struct IsMap<std::map<int, T>> : std::true_type {};

struct Leaf { std::string path; std::string value; bool real = false; long double num = 0; };

template<class E> inline const char* enumName( E e )
{
    for( auto& p : EnumInfo<E>::all() ) if( p.first == e ) return p.second;
    return "?";
}

template<class T> inline void flatten( const T& x, const std::string& p, std::vector<Leaf>& out )
{
    if constexpr( IsStruct<T>::value )
        fields( x, [&]( const char* n, const auto& m ) { flatten( m, p.empty() ? std::string( n ) : p + "." + n, out ); } );
    else if constexpr( IsVec<T>::value )
    {
        out.push_back( Leaf{ p + ".size", std::to_string( x.size() ) } );
        for( size_t i = 0; i < x.size(); ++i ) flatten( x[i], p + "[" + std::to_string( i ) + "]", out );
    }
    else if constexpr( IsMap<T>::value )
    {
        std::string keys;
        for( auto& k : x ) keys += std::to_string( k.first ) + ",";
        out.push_back( Leaf{ p + ".keys", keys } );
        for( auto& k : x ) flatten( k.second, p + "{" + std::to_string( k.first ) + "}", out );
    }
    else if constexpr( IsOpt<T>::value )
    {
        out.push_back( Leaf{ p + ".has", x ? "1" : "0" } );
        if( x ) flatten( *x, p, out );
    }
    else if constexpr( std::is_enum_v<T> )
    {
        const char* n = enumName( x );
        out.push_back( Leaf{ p, *n == '?' ? "?" + std::to_string( (long)x ) : n } );
    }
    else if constexpr( std::is_same_v<T, bool> ) 
    {
        unsigned char raw; memcpy( &raw, &x, 1 );
        out.push_back( Leaf{ p, raw == 0 ? "false" : raw == 1 ? "true" : "badbool" } );
    }
    else if constexpr( std::is_floating_point_v<T> )
    {
        char b[64]; snprintf( b, sizeof b, "%.15Lg", (long double)x );
        out.push_back( Leaf{ p, b, true, (long double)x } );
    }
    else if constexpr( std::is_integral_v<T> )
        out.push_back( Leaf{ p, std::to_string( (long long)x ) } );
    else
        out.push_back( Leaf{ p, "\"" + x + "\"" } );
}
template<class T> inline std::vector<Leaf> flat( const T& x, const std::string& p = "" )
{
    std::vector<Leaf> v; flatten( x, p, v ); return v;
}
template<class T> inline std::string text( const T& x )
{
    std::string s;
    for( auto& l : flat( x ) ) s += l.path + "=" + l.value + "\n";
    return s;
}
template<class T> inline uint64_t hashOf( const T& x )
{
    uint64_t h = 1469598103934665603ull;
    for( auto& l : flat( x ) ) { h = vf::hashStr( l.path, h ); h = vf::hashStr( l.value, h ); }
    return h;
}
struct Difference { std::string path, a, b; };
inline bool sameLeaf( const Leaf& a, const Leaf& b, long double eps )
{
    if( a.value == b.value ) return true;
    if( a.real && b.real )
    {
        long double d = fabsl( a.num - b.num );
        return d <= eps * std::max( 1.0L, fabsl( a.num ) );
    }
    return false;
}
// differences between two values, aligned by path
template<class T> inline std::vector<Difference> diff( const T& a, const T& b, long double eps = 1e-6L, size_t max = 50 )
{
    auto x = flat( a ), y = flat( b );
    std::vector<Difference> out;
    std::map<std::string, const Leaf*> my;
    for( auto& l : y ) my[l.path] = &l;
    for( auto& l : x )
    {
        if( out.size() >= max ) return out;
        auto it = my.find( l.path );
        if( it == my.end() ) continue;  // the container size or optional flag already differs
        if( !sameLeaf( l, *it->second, eps ) ) out.push_back( { l.path, l.value, it->second->value } );
    }
    return out;
}
inline std::string generic( const std::string& path )
{
    std::string s; bool in = false;
    for( char c : path )
    {
        if( c == '[' || c == '{' ) { s += c; in = true; }
        else if( c == ']' || c == '}' ) { s += c; in = false; }
        else if( !in ) s += c;
    }
    return s;
}
inline std::string show( const std::vector<Difference>& d, size_t n = 12 )
{
    std::string s;
    for( size_t i = 0; i < d.size() && i < n; ++i ) s += d[i].path + ": " + d[i].a + " -> " + d[i].b + "; ";
    return s;
}

// ---- single-leaf mutation -------------------------------------------------------------------------------------
// Each call site of `at` is one possible mutation. In counting mode `target` is -1.
struct Mutator
{
    long target = -1, n = 0;
    uint64_t salt = 1;
    std::string where;
    long double delta = 0.001L;
    bool at( const std::string& p ) { if( n++ == target ) { where = p; return true; } return false; }
};
template<class T> inline void mutate( T& x, const std::string& p, Mutator& m )
{
    if( m.target >= 0 && m.n > m.target ) return;
    if constexpr( IsStruct<T>::value )
        fields( x, [&]( const char* n, auto& f ) { mutate( f, p.empty() ? std::string( n ) : p + "." + n, m ); } );
    else if constexpr( IsVec<T>::value )
    {
        if( !x.empty() )
        {
            if( m.at( p + ".pop_back" ) ) { x.pop_back(); return; }
            if( m.at( p + ".dup_back" ) ) { auto c = x.back(); x.push_back( c ); return; }
            if( x.size() > 1 && m.at( p + ".pop_front" ) ) { x.erase( x.begin() ); return; }
        }
        else if constexpr( std::is_default_constructible_v<typename T::value_type> )
        {
            if( m.at( p + ".push" ) ) { x.push_back( typename T::value_type{} ); return; }
        }
        for( size_t i = 0; i < x.size(); ++i ) mutate( x[i], p + "[" + std::to_string( i ) + "]", m );
    }
    else if constexpr( IsMap<T>::value )
    {
        if( m.at( p + ".add" ) ) { int k = 0; while( x.count( k ) ) ++k; x[k]; return; }
        if( !x.empty() )
        {
            if( m.at( p + ".remove" ) ) { x.erase( x.begin() ); return; }
            if( m.at( p + ".rekey" ) )
            {
                auto it = std::prev( x.end() ); int k = it->first + 3; auto v = it->second; x.erase( it ); x[k] = v; return;
            }
        }
        for( auto& k : x ) mutate( k.second, p + "{" + std::to_string( k.first ) + "}", m );
    }
    else if constexpr( IsOpt<T>::value )
    {
        if( m.at( p + ".toggle" ) ) { if( x ) x.reset(); else x.emplace(); return; }
        if( x ) mutate( *x, p, m );
    }
    else if constexpr( std::is_enum_v<T> )
    {
        if( m.at( p ) )
        {
            auto& all = EnumInfo<T>::all();
            size_t i = (size_t)( m.salt % all.size() );
            while( all[i].first == x ) i = ( i + 1 ) % all.size();
            x = all[i].first;
        }
    }
    else if constexpr( std::is_same_v<T, bool> ) { if( m.at( p ) ) x = !x; }
    else if constexpr( std::is_floating_point_v<T> )
    {
        if( m.at( p ) ) x = (T)( x + ( m.salt % 3 == 0 ? 1.0L : m.salt % 3 == 1 ? -m.delta : m.delta ) );
    }
    else if constexpr( std::is_integral_v<T> )
    {
        if( m.at( p ) ) x = (T)( x + ( m.salt % 2 && x > 0 ? -1 : 1 ) );
    }
    else
    {
        if( m.at( p ) )
        {
            if( m.salt % 3 == 0 || x.empty() ) x += "x";
            else if( m.salt % 3 == 1 ) x.back() = x.back() == 'q' ? 'r' : 'q';
            else x.front() = x.front() == 'q' ? 'r' : 'q';
        }
    }
}
template<class T> inline long countMutations( T& x ) { Mutator m; mutate( x, "", m ); return m.n; }
}
