// What elements<k>.inc registers: the public accessors of every element class, without their types (C16).
#pragma once
#include "common.h"
#include "mx/core/AttributesInterface.h"
#include "mx/core/ElementInterface.h"
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
namespace el
{
using Elem = mx::core::ElementInterface;
using Ptr = std::shared_ptr<Elem>;
using Any = std::shared_ptr<void>;
struct Single { const char* name; const char* type; void* ( *get )( Elem* ); void ( *set )( Elem*, const Ptr& ); bool ( *has )( Elem* ); void ( *setHas )( Elem*, bool ); Ptr ( *make )(); };
struct Coll { const char* name; const char* type; int lo, hi; size_t ( *size )( Elem* ); void* ( *at )( Elem*, size_t ); void* ( *byIter )( Elem*, size_t ); void ( *add )( Elem*, const Ptr& ); void ( *remove )( Elem*, size_t ); void ( *clear )( Elem* ); Ptr ( *make )(); };
struct Choice { const char* name; int value; };
// a field of the attributes: its flag (or none, when it is always written), and how to give it another value
struct Field { const char* name; bool ( *has )( Elem* ); void ( *setHas )( Elem*, bool ); void ( *change )( Elem*, vf::Rng& ); std::string ( *text )( Elem* ); };
struct Klass
{
    const char* name = ""; Ptr ( *make )() = nullptr;
    std::vector<Single> singles; std::vector<Coll> colls; std::vector<Choice> choices; std::vector<Field> fields;
    int ( *choice )( Elem* ) = nullptr; void ( *setChoice )( Elem*, int ) = nullptr;
    void* ( *attributes )( Elem* ) = nullptr; void ( *nullAttributes )( Elem* ) = nullptr; void* ( *newAttributes )( Elem*, bool set ) = nullptr;
    // gives the element a random value; the text of the value given and that of the value then held
    void ( *change )( Elem*, vf::Rng&, std::string& given, std::string& held ) = nullptr;
};

template<class V, class = void> struct Printed { static std::string of( const V& ) { return ""; } };
template<class V> struct Printed<V, std::void_t<decltype( std::declval<std::ostream&>() << std::declval<const V&>() )>> { static std::string of( const V& v ) { std::ostringstream o; o << v; return o.str(); } };
template<class V> std::string text( const V& v ) { return Printed<V>::of( v ); }
inline std::string word( vf::Rng& r ) { static const char* const w[] = { "a", "word", "Flute 1", "C major", "x-y", "10", "7.5", "text" }; return std::string( w[r.below( 8 )] ) + std::to_string( r.below( 1000 ) ); }
// another value of a type: by its number, its text or its enumerators, whichever it takes
template<class V> void change( V& v, vf::Rng& r )
{
    if constexpr( std::is_const_v<V> ) (void)r;
    else if constexpr( std::is_enum_v<V> ) v = static_cast<V>( (int)r.below( 2 ) );
    else if constexpr( std::is_constructible_v<V, int> && !std::is_constructible_v<V, std::string> ) v = V( r.range( 1, 90 ) );
    else if constexpr( std::is_constructible_v<V, std::string> ) v = V( word( r ) );
    else (void)r;
}
}
#define E_( T ) static_cast<mx::core::T*>( e )
#define KLASS( T ) { el::Klass k; k.name = #T; k.make = []() -> el::Ptr { return make##T(); };
#define END all.push_back( k ); }
#define ONE( T, G, C ) k.singles.push_back( { #G, #C, []( el::Elem* e ) -> void* { return static_cast<el::Elem*>( E_( T )->get##G().get() ); }, []( el::Elem* e, const el::Ptr& c ) { E_( T )->set##G( std::static_pointer_cast<C>( c ) ); }, nullptr, nullptr, []() -> el::Ptr { return make##C(); } } );
#define READ( T, G ) k.singles.push_back( { #G, #G, []( el::Elem* e ) -> void* { return static_cast<el::Elem*>( E_( T )->get##G().get() ); }, nullptr, nullptr, nullptr, nullptr } );
#define OPT( T, G, C ) k.singles.push_back( { #G, #C, []( el::Elem* e ) -> void* { return static_cast<el::Elem*>( E_( T )->get##G().get() ); }, []( el::Elem* e, const el::Ptr& c ) { E_( T )->set##G( std::static_pointer_cast<C>( c ) ); }, []( el::Elem* e ) -> bool { return E_( T )->getHas##G(); }, []( el::Elem* e, bool v ) { E_( T )->setHas##G( v ); }, []() -> el::Ptr { return make##C(); } } );
#define COLL( T, G, C, LO, HI ) COLL_( T, G, C, LO, HI, []( el::Elem* e, size_t i ) -> void* { return static_cast<el::Elem*>( E_( T )->get##G( E_( T )->get##G##Set().cbegin() + (long)i ).get() ); } )
#define COLLN( T, G, C, LO, HI ) COLL_( T, G, C, LO, HI, nullptr )
#define COLL_( T, G, C, LO, HI, BY ) k.colls.push_back( { #G, #C, LO, HI, []( el::Elem* e ) -> size_t { return E_( T )->get##G##Set().size(); }, []( el::Elem* e, size_t i ) -> void* { return static_cast<el::Elem*>( E_( T )->get##G##Set().at( i ).get() ); }, \
    BY, []( el::Elem* e, const el::Ptr& c ) { E_( T )->add##G( std::static_pointer_cast<C>( c ) ); }, \
    []( el::Elem* e, size_t i ) { E_( T )->remove##G( E_( T )->get##G##Set().cbegin() + (long)i ); }, []( el::Elem* e ) { E_( T )->clear##G##Set(); }, []() -> el::Ptr { return make##C(); } } );
#define CHOICE( T, ... ) k.choices = { __VA_ARGS__ }; k.choice = []( el::Elem* e ) { return static_cast<int>( E_( T )->getChoice() ); }; k.setChoice = []( el::Elem* e, int c ) { E_( T )->setChoice( static_cast<T::Choice>( c ) ); };
#define ATTRS( T, A ) k.attributes = []( el::Elem* e ) -> void* { return E_( T )->getAttributes().get(); }; k.nullAttributes = []( el::Elem* e ) { E_( T )->setAttributes( nullptr ); }; \
    k.newAttributes = []( el::Elem* e, bool set ) -> void* { auto a = std::make_shared<A>(); if( set ) E_( T )->setAttributes( a ); return a.get(); };
#define FIELD( T, A, F, H ) k.fields.push_back( { #F, []( el::Elem* e ) -> bool { return E_( T )->getAttributes()->H; }, []( el::Elem* e, bool v ) { E_( T )->getAttributes()->H = v; }, []( el::Elem* e, vf::Rng& r ) { el::change( E_( T )->getAttributes()->F, r ); }, []( el::Elem* e ) { return el::text( E_( T )->getAttributes()->F ); } } );
#define FIELD0( T, A, F ) k.fields.push_back( { #F, nullptr, nullptr, []( el::Elem* e, vf::Rng& r ) { el::change( E_( T )->getAttributes()->F, r ); }, []( el::Elem* e ) { return el::text( E_( T )->getAttributes()->F ); } } );
#define VALUE( T, V ) k.change = []( el::Elem* e, vf::Rng& r, std::string& given, std::string& held ) { auto v = E_( T )->get##V(); el::change( v, r ); E_( T )->set##V( v ); given = el::text( v ); held = el::text( E_( T )->get##V() ); };
