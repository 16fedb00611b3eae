// Arbitrary values for every public structure, ignoring musical sense (used where any value must behave).
#pragma once
#include "reflect.h"
namespace rf
{
struct Arb
{
    vf::Rng& r;
    int budget;
    int maxVec = 3;
    explicit Arb( vf::Rng& rng, int b = 400 ) : r( rng ), budget( b ) {}
    std::string str()
    {
        static const std::vector<std::string> pool{ "", "a", "Fl\xC3\xB6te", "x y", "<&>\"'", "1", "\xE6\xBC\xA2", "  lead", "abc", "42" };
        return r.pick( pool );
    }
    template<class T> void fill( T& x )
    {
        if constexpr( IsStruct<T>::value ) { --budget; fields( x, [&]( const char*, auto& f ) { fill( f ); } ); }
        else if constexpr( IsVec<T>::value )
        {
            x.clear();
            int n = budget > 0 ? r.range( 0, maxVec ) : 0;
            for( int i = 0; i < n; ++i ) add( x );
        }
        else if constexpr( IsMap<T>::value )
        {
            x.clear();
            int n = budget > 0 ? r.range( 0, maxVec ) : 0;
            for( int i = 0; i < n; ++i ) fill( x[r.range( 0, 5 )] );
        }
        else if constexpr( IsOpt<T>::value ) { if( r.flip() ) { x.emplace(); fill( *x ); } else x.reset(); }
        else if constexpr( std::is_enum_v<T> ) x = r.pick( EnumInfo<T>::all() ).first;
        else if constexpr( std::is_same_v<T, bool> ) x = r.flip();
        else if constexpr( std::is_floating_point_v<T> ) x = (T)( r.range( -4000, 4000 ) / 16.0 );
        else if constexpr( std::is_same_v<T, uint8_t> ) x = (uint8_t)r.below( 256 );
        else if constexpr( std::is_integral_v<T> ) x = r.range( -3, 40 );
        else x = str();
    }
    void add( std::vector<mx::api::CurveStart>& v ) { v.emplace_back( mx::api::CurveType::slur ); fill( v.back() ); }
    void add( std::vector<mx::api::CurveContinue>& v ) { v.emplace_back( mx::api::CurveType::slur ); fill( v.back() ); }
    void add( std::vector<mx::api::CurveStop>& v ) { v.emplace_back( mx::api::CurveType::slur ); fill( v.back() ); }
    void add( std::vector<mx::api::MiscellaneousField>& v ) { v.emplace_back( "", "" ); fill( v.back() ); }
    template<class T> void add( std::vector<T>& v ) { v.emplace_back(); fill( v.back() ); }
};
}
