// The value types of the document model against independent models of their documented ranges and texts (C15).
#include "common.h"
#include "mx/api/SoundID.h"
#include "mx/core/Color.h"
#include "mx/core/CommaSeparatedPositiveIntegers.h"
#include "mx/core/CommaSeparatedText.h"
#include "mx/core/Date.h"
#include "mx/core/Decimals.h"
#include "mx/core/Enums.h"
#include "mx/core/EnumsBuiltin.h"
#include "mx/core/FontSize.h"
#include "mx/core/Integers.h"
#include "mx/core/NumberOrNormal.h"
#include "mx/core/PlaybackSound.h"
#include "mx/core/PositiveIntegerOrEmpty.h"
#include "mx/core/XsID.h"
#include "mx/core/XsIDREF.h"
#include "mx/core/XsToken.h"
#include "mx/core/YesNoNumber.h"
#include "mx/utility/StringToInt.h"
#include <cmath>
#include <iomanip>
#include <memory>
#include <optional>
#include <sstream>
using namespace mx::core;
using LD = long double;
using Q = __float128;
static vf::App app;
static void no( const std::string& key, const std::string& why ) { app.fail( key, why ); }
static std::string sh( LD v ) { std::ostringstream o; o << std::setprecision( 25 ) << v; return o.str(); }
template<class T> static std::string streamed( const T& v ) { std::ostringstream o; o.fill( '*' ); toStream( o, v ); o << std::hex << 0; const std::string s = o.str(); return s.substr( 0, s.size() - 1 ); }
template<class T> static std::string shifted( const T& v ) { std::ostringstream o; o << v; return o.str(); }
// toString, toStream and << say the same
template<class T> static std::string printed( const char* type, const T& v )
{
    const std::string s = toString( v );
    if( streamed( v ) != s || shifted( v ) != s ) no( std::string( "print:" ) + type, std::string( type ) + " prints '" + s + "', '" + streamed( v ) + "' and '" + shifted( v ) + "'" );
    app.count( "evaluations" ); return s;
}
// numbers, and texts that are numbers or nearly so
static long anyInt( vf::Rng& r )
{
    static const long edges[] = { 0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 127, 128, 129, 180, 181, -180, -181, 254, 255, 256, 16383, 16384, 16385, 2147483646L, 2147483647L, -2147483647L, -2147483648L };
    return r.chance( 1, 2 ) ? edges[r.below( 32 )] : r.chance( 1, 2 ) ? r.range( -20, 300 ) : (long)(int)r.next();
}
static std::string spaces( vf::Rng& r ) { static const char* const s[] = { "", "", "", "", " ", "\n", "\t ", "  " }; return s[r.below( 8 )]; }
struct IntText { std::string text; std::optional<long> value; };
static IntText intText( vf::Rng& r )
{
    IntText t;
    switch( r.below( 6 ) )
    {
        case 0: { static const char* const bad[] = { "", " ", "-", "+", "--1", "+-1", "1-", "1.0", "1.", ".5", "1e3", "0x10", "1 2", "1,000", "one", "a1", "1a", "1\xC2\xA0", "\xD9\xA1", "nan", "inf", "2147483648", "-2147483649", "99999999999999999999999", "-99999999999999999999999", "4294967297", "18446744073709551617" }; t.text = bad[r.below( sizeof bad / sizeof *bad )]; return t; }
        case 1: { const long v = r.flip() ? 2147483648L + (long)r.below( 5000000000ul ) : -2147483649L - (long)r.below( 5000000000ul ); t.text = std::to_string( v ); return t; }
        default: { const long v = anyInt( r ); t.value = v; std::string d = std::to_string( v < 0 ? -v : v ); if( r.chance( 1, 6 ) ) d = std::string( r.below( 12 ) + 1, '0' ) + d; t.text = spaces( r ) + ( v < 0 ? "-" : r.chance( 1, 6 ) ? "+" : "" ) + d + spaces( r ); return t; }
    }
}
static LD anyDecimal( vf::Rng& r )
{
    switch( r.below( 9 ) )
    {
        case 0: return (LD)anyInt( r );
        case 1: return (LD)r.range( -2000000, 2000000 ) / 1000000.0L;
        case 2: { static const LD e[] = { 0.0000005L, 0.0000004L, 0.000001L, 0.00000149L, 0.9999994L, 0.9999996L, 0.9999999999L, 99.9999999L, 100.0000001L, 179.9999999L, 180.0000001L, 1.9999999L, 2.0000001L, 1e18L, 9999999999.999999L, 9999999999.9999999L, 999999999999999999.0L, 9999999999999999999.0L, 1e19L, 1e20L, 1e300L, 1e4000L, 4e-4000L, 0.L }; const LD v = e[r.below( sizeof e / sizeof *e )]; return r.flip() ? v : -v; }
        case 3: return (LD)( (double)(int64_t)r.next() / 4096.0 );
        case 4: return std::ldexp( (LD)( r.next() >> 1 ), r.range( -80, 10 ) ) * ( r.flip() ? 1 : -1 );
        case 5: { static const LD e[] = { std::numeric_limits<LD>::infinity(), -std::numeric_limits<LD>::infinity(), std::numeric_limits<LD>::quiet_NaN(), std::numeric_limits<LD>::max(), std::numeric_limits<LD>::min(), std::numeric_limits<LD>::denorm_min(), std::numeric_limits<LD>::lowest() }; return e[r.below( 7 )]; }
        case 6: return (LD)r.range( -300, 300 ) + (LD)r.below( 1000000 ) / 1000000.0L;
        case 7: return (LD)( r.next() % 10000000000000ull ) / 1000000.0L;
        default: return (LD)r.range( 0, 1000 ) / (LD)r.range( 1, 1000 );
    }
}
struct DecText { std::string text; int valid = 0; LD value = 0; }; // valid: 1 a decimal number, 0 none, 2 either
static DecText decText( vf::Rng& r )
{
    DecText t;
    if( r.chance( 1, 4 ) ) { static const char* const bad[] = { "", " ", "-", "+", ".", "-.", "--1", "+-1.5", "1-", "1.2.3", "1,5", "1 2", "one", "a1", "1a", "1.5a", "nan", "inf", "-inf", "infinity", "NaN", "0x1p3", "0x10", "1.5e", "e5", "1e99999", "1\xC2\xA0", "1.5 .", "1_000" }; t.text = bad[r.below( sizeof bad / sizeof *bad )]; return t; }
    if( r.chance( 1, 10 ) ) { static const char* const e[] = { "1e3", "1.5e-2", "2E2", "1e+1" }; t.text = e[r.below( 4 )]; t.valid = 2; return t; }
    std::string i, f; for( int n = r.range( 0, r.chance( 1, 8 ) ? 40 : 5 ); n > 0; --n ) i += (char)( '0' + r.below( 10 ) ); for( int n = r.range( 0, r.chance( 1, 8 ) ? 40 : 8 ); n > 0; --n ) f += (char)( '0' + r.below( 10 ) );
    if( i.empty() && f.empty() ) i = "0";
    const std::string sign = r.chance( 1, 3 ) ? "-" : r.chance( 1, 8 ) ? "+" : "";
    const std::string body = sign + i + ( !f.empty() || r.chance( 1, 9 ) ? "." + f : "" );
    t.text = spaces( r ) + body + spaces( r ); t.valid = 1; t.value = strtold( body.c_str(), nullptr ); return t;
}
// what a decimal of d digits behind the point may hold for a number
static bool near( LD got, LD want, int digits, LD max )
{
    if( want != want ) want = 0;
    if( want > max ) want = max; if( want < -max ) want = -max;
    const Q scale = (Q)std::pow( 10.0L, (LD)digits ), d = ( (Q)got - (Q)want ) * scale, a = d < 0 ? -d : d;
    const Q big = (Q)want < 0 ? -(Q)want : (Q)want;
    return a <= (Q)0.5000002 + big * scale * (Q)1.1e-19L;
}
struct Range { const char* name; bool hasMin, exclusive; LD min; bool hasMax; LD max; };
static const LD decimalMax = 9999999999999999999.999999L;
static void inRange( const Range& g, LD v, const std::string& how )
{
    if( !( v == v ) || ( g.hasMin && ( g.exclusive ? v <= g.min : v < g.min ) ) || ( g.hasMax && v > g.max ) || v > decimalMax || v < -decimalMax )
        no( std::string( "range:" ) + g.name, std::string( g.name ) + " holds " + sh( v ) + " after " + how );
}
static LD clampTo( const Range& g, LD v ) { if( v != v ) v = 0; if( g.hasMax && v > g.max ) v = g.max; const LD low = g.exclusive ? g.min + 0.000001L : g.min; if( g.hasMin && v < low ) v = low; return v; }
template<class T> static void decimalType( vf::Rng& r, const Range& g )
{
    T value; inRange( g, value.getValue(), "default construction" ); LD model = value.getValue(); std::string how = "default construction";
    for( int i = r.range( 1, 8 ); i > 0; --i )
    {
        const LD v = anyDecimal( r );
        switch( r.below( 6 ) )
        {
            case 0: value = T{ v }; model = clampTo( g, v ); how = "construction from " + sh( v ); break;
            case 1: value.setValue( v ); model = clampTo( g, v ); how = "setValue " + sh( v ); break;
            case 2: { Decimal& base = value; base.setValue( v ); model = clampTo( g, v ); how = "setValue through the base of " + sh( v ); break; }
            case 3: { const T copy{ value }; T other{ v }; other = copy; value = std::move( other ); how += ", copied"; break; }
            default: { const DecText t = decText( r ); const LD before = value.getValue(); const bool done = value.parse( t.text ); how = "parsing '" + t.text + "'"; app.count( t.valid == 1 ? "decimal-texts-accepted" : "decimal-texts-refused" ); if( t.valid == 1 ) { if( !done ) no( std::string( "refused:" ) + g.name, std::string( g.name ) + " refuses '" + t.text + "'" ); model = clampTo( g, t.value ); } else if( t.valid == 0 ) { if( done ) no( std::string( "accepted:" ) + g.name, std::string( g.name ) + " accepts '" + t.text + "'" ); if( value.getValue() != before ) no( std::string( "failed-parse:" ) + g.name, "a failed parse of '" + t.text + "' changes " + g.name ); model = before; } else model = value.getValue(); }
        }
        const LD now = value.getValue(); inRange( g, now, how ); app.count( "evaluations" );
        if( !near( now, model, 6, decimalMax ) ) no( std::string( "value:" ) + g.name, std::string( g.name ) + " holds " + sh( now ) + " and not " + sh( model ) + " after " + how );
        const std::string s = value.toString(); std::ostringstream o; o << value;
        if( o.str() != s || toString( value, (unsigned short)6 ) != s || printed( g.name, static_cast<const Decimal&>( value ) ) != s ) no( std::string( "print:" ) + g.name, std::string( g.name ) + " prints differently in different ways: " + s );
        size_t k = s[0] == '-'; bool shape = k < s.size() && s.find_first_not_of( "0123456789.", k ) == std::string::npos && s.find( '.' ) == s.rfind( '.' ); const size_t dot = s.find( '.' ); if( dot != std::string::npos ) shape = shape && dot > k && dot + 1 < s.size() && s.back() != '0' && s.size() - dot <= 7; if( s.size() > k + 1 && s[k] == '0' && s[k + 1] != '.' ) shape = false;
        if( !shape || s == "-0" ) no( std::string( "print-shape:" ) + g.name, std::string( g.name ) + " prints '" + s + "'" );
        if( !near( strtold( s.c_str(), nullptr ), now, 6, decimalMax ) ) no( std::string( "print-value:" ) + g.name, std::string( g.name ) + " holds " + sh( now ) + " and prints " + s );
        T again; if( !again.parse( s ) || again.getValue() != now || again.toString() != s ) no( std::string( "print-parse:" ) + g.name, std::string( g.name ) + " prints '" + s + "' which is read as " + again.toString() );
        T fixed{ now }; if( fixed.getValue() != now ) no( std::string( "stable:" ) + g.name, std::string( g.name ) + " given its own value " + sh( now ) + " holds " + sh( fixed.getValue() ) );
        app.seen( vf::hashStr( s, vf::hashStr( g.name ) ) );
    }
}
static void precise( vf::Rng& r )
{
    const short i = (short)( r.chance( 1, 8 ) ? r.range( -3, 25 ) : r.range( 1, 19 ) ), d = (short)( r.chance( 1, 8 ) ? r.range( -3, 25 ) : r.range( 1, 19 ) );
    const int wi = i < 1 ? 1 : i > 19 ? 19 : i, wd = d < 1 ? 1 : d > 19 ? 19 : d;
    PreciseDecimal p = r.flip() ? PreciseDecimal( i, d, anyDecimal( r ) ) : PreciseDecimal( i, d ); const std::string what = "a decimal of " + std::to_string( i ) + "." + std::to_string( d ) + " digits";
    if( p.getMaxIntegerDigits() != wi || p.getMaxDecimalDigits() != wd ) no( "digits", what + " has others" );
    const Q bound = (Q)std::pow( 10.0L, (LD)wi ) - 1 / (Q)std::pow( 10.0L, (LD)wd ); const LD max = (LD)bound;
    for( int k = 0; k < 5; ++k )
    {
        LD v = anyDecimal( r ); if( r.chance( 1, 3 ) ) { v = std::pow( 10.0L, (LD)r.range( 0, wi ) ) - (LD)r.below( 12 ) * std::pow( 10.0L, (LD)-r.range( 0, wd + 1 ) ) / 4; if( r.flip() ) v = -v; }
        p.setValue( v ); const LD now = p.getValue(); app.count( "evaluations" );
        if( p.getMaxExpressibleNumber() < p.getMinExpressibleNumber() ) no( "expressible", what + " holding " + sh( now ) + " has the largest number " + sh( p.getMaxExpressibleNumber() ) + " and the smallest " + sh( p.getMinExpressibleNumber() ) );
        if( now > p.getMaxExpressibleNumber() || now < p.getMinExpressibleNumber() ) no( "precise-range", what + " holds " + sh( now ) + " after " + sh( v ) );
        if( !near( now, v, wd, max ) ) no( "precise-value", what + " holds " + sh( now ) + " after " + sh( v ) );
        const std::string s = p.toString(); const size_t dot = s.find( '.' ), neg = s[0] == '-';
        const size_t ni = ( dot == std::string::npos ? s.size() : dot ) - neg, nd = dot == std::string::npos ? 0 : s.size() - dot - 1;
        if( s.find_first_not_of( "-0123456789." ) != std::string::npos || (int)ni > wi || ni < 1 || (int)nd > wd || !near( strtold( s.c_str(), nullptr ), now, wd, max ) ) no( "precise-print", what + " holding " + sh( now ) + " prints " + s );
        app.seen( vf::hashStr( s, (uint64_t)( wi * 32 + wd ) ) );
    }
}
template<class T> static void integerType( vf::Rng& r, const char* name, long min, long max )
{
    auto clamp = [&]( long v ) { return v < min ? min : v > max ? max : v; };
    T value; long model = clamp( 0 ); std::string how = "default construction";
    if( value.getValue() < min || value.getValue() > max ) no( std::string( "range:" ) + name, std::string( name ) + " starts with " + std::to_string( value.getValue() ) ); model = value.getValue();
    for( int i = r.range( 1, 10 ); i > 0; --i )
    {
        const long v = anyInt( r );
        switch( r.below( 6 ) )
        {
            case 0: value = T{ (int)v }; model = clamp( v ); how = "construction from " + std::to_string( v ); break;
            case 1: value.setValue( (int)v ); model = clamp( v ); how = "setValue " + std::to_string( v ); break;
            case 2: { Integer& base = value; base.setValue( (int)v ); model = clamp( v ); how = "setValue through the base of " + std::to_string( v ); break; }
            case 3: { const T copy{ value }; T other{ (int)v }; other = copy; value = std::move( other ); break; }
            default: { const IntText t = intText( r ); how = "parsing '" + t.text + "'"; const bool done = value.parse( t.text ); app.count( t.value ? "integer-texts-accepted" : "integer-texts-refused" ); if( done != t.value.has_value() ) no( std::string( done ? "accepted:" : "refused:" ) + name, std::string( name ) + ( done ? " accepts '" : " refuses '" ) + t.text + "'" ); if( t.value ) model = clamp( *t.value ); }
        }
        app.count( "evaluations" );
        if( value.getValue() != model ) no( std::string( "value:" ) + name, std::string( name ) + " holds " + std::to_string( value.getValue() ) + " and not " + std::to_string( model ) + " after " + how );
        const std::string s = printed( name, static_cast<const Integer&>( value ) ); if( s != std::to_string( model ) ) no( std::string( "print:" ) + name, std::string( name ) + " prints '" + s + "' for " + std::to_string( model ) );
        T again; if( !again.parse( s ) || again.getValue() != model ) no( std::string( "print-parse:" ) + name, std::string( name ) + " prints '" + s + "' which is read as " + std::to_string( again.getValue() ) );
        app.seen( vf::hashStr( s, vf::hashStr( name ) ) );
    }
}
// texts near to a documented one
static std::string nearly( vf::Rng& r, const std::string& s )
{
    std::string t = s;
    switch( r.below( 8 ) )
    {
        case 0: t += ' '; break;
        case 1: t = " " + t; break;
        case 2: for( auto& c : t ) c = (char)toupper( c ); break;
        case 3: if( !t.empty() ) t.pop_back(); break;
        case 4: t += t.empty() ? 'x' : t.back(); break;
        case 5: if( !t.empty() ) t[r.below( t.size() )] ^= 1; break;
        case 6: for( auto& c : t ) if( c == '-' || c == ' ' || c == '.' ) { c = r.flip() ? '_' : '-'; } break;
        default: t += std::string( 1, '\0' );
    }
    return t;
}
template<class E> static void enumType( vf::Rng& r, const char* name, const std::vector<std::pair<E, std::string>>& all, E ( *parse )( const std::string& ), std::optional<E> ( *tryParse )( const std::string& ), std::string ( *text )( E ) )
{
    std::set<std::string> texts; for( auto& v : all ) texts.insert( v.second );
    auto is = [&]( const std::string& s, bool known, E want )
    {
        app.count( "evaluations" ); app.count( known ? "enum-texts-known" : "enum-texts-unknown" ); app.seen( vf::hashStr( s, vf::hashStr( name ) ) );
        if( tryParse ) { const auto t = tryParse( s ); if( t.has_value() != known || ( known && *t != want ) ) no( std::string( "enum:" ) + name, std::string( "'" ) + s + "' as " + name + ( known ? " is not read as itself" : " is accepted" ) ); }
        if( parse ) { const E got = parse( s ); if( known ? got != want : !texts.count( text( got ) ) ) no( std::string( "enum:" ) + name, std::string( "'" ) + s + "' as " + name + " is read as " + text( got ) ); }
    };
    for( auto& v : all )
    {
        if( text( v.first ) != v.second ) no( std::string( "enum-print:" ) + name, std::string( name ) + " prints '" + text( v.first ) + "' for '" + v.second + "'" );
        is( v.second, true, v.first );
    }
    for( int i = 0; i < 6; ++i ) { const std::string s = i ? nearly( r, all[r.below( all.size() )].second ) : ""; const auto at = texts.find( s ); E want = all[0].first; if( at != texts.end() ) for( auto& v : all ) if( v.second == s ) want = v.first; is( s, at != texts.end(), want ); }
}
template<class E> static void enumPrints( const char* name, E e ) { (void)printed( name, e ); }
static std::string token( vf::Rng& r ) { static const char* const t[] = { "a", "word", "x-1", "\xC3\xA9", "Bb", "7", "_", "q.r" }; std::string s = t[r.below( 8 )]; while( r.chance( 1, 3 ) ) s += t[r.below( 8 )]; return s; }
static bool leap( int y ) { return ( y % 4 == 0 && y % 100 != 0 ) || y % 400 == 0; }
static int monthDays( int y, int m ) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap( y ) ? 29 : d[m - 1]; }
static long dayNumber( long y, long m, long d ) { y -= m <= 2; const long era = y / 400, yoe = y - era * 400, doy = ( 153 * ( m + ( m > 2 ? -3 : 9 ) ) + 2 ) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe; }
static void fromDays( long z, int& y, int& m, int& d ) { const long era = z / 146097, doe = z - era * 146097, yoe = ( doe - doe / 1460 + doe / 36524 - doe / 146096 ) / 365, doy = doe - ( 365 * yoe + yoe / 4 - yoe / 100 ), mp = ( 5 * doy + 2 ) / 153; d = (int)( doy - ( 153 * mp + 2 ) / 5 + 1 ); m = (int)( mp < 10 ? mp + 3 : mp - 9 ); y = (int)( yoe + era * 400 + ( m <= 2 ) ); }
static void dates( vf::Rng& r )
{
    Date date; int y = 1900, m = 1, d = 1; std::string how = "default construction";
    auto range = []( long v, long lo, long hi ) { return (int)( v < lo ? lo : v > hi ? hi : v ); };
    auto any = [&]( int lo, int hi ) -> int { return r.chance( 1, 6 ) ? (int)anyInt( r ) : r.range( lo, hi ); };
    for( int i = r.range( 2, 14 ); i > 0; --i )
    {
        app.count( "evaluations" );
        const std::string was = std::to_string( y ) + "-" + std::to_string( m ) + "-" + std::to_string( d ) + " ";
        switch( r.below( 12 ) )
        {
            case 0: { const int a = any( 1, 9999 ), b = any( 1, 12 ), c = any( 1, 31 ); how = "Date( " + std::to_string( a ) + ", " + std::to_string( b ) + ", " + std::to_string( c ) + " )"; date = Date( a, b, c ); y = range( a, 1, 9999 ); m = range( b, 1, 12 ); d = range( c, 1, monthDays( y, m ) ); break; }
            case 1: { const int a = any( 1, 9999 ); how = was + "setYear " + std::to_string( a ); date.setYear( a ); y = range( a, 1, 9999 ); d = range( d, 1, monthDays( y, m ) ); break; }
            case 2: { const int a = any( 1, 12 ); how = was + "setMonth " + std::to_string( a ); date.setMonth( a ); m = range( a, 1, 12 ); d = range( d, 1, monthDays( y, m ) ); break; }
            case 3: { const int a = any( 1, 31 ); how = was + "setDay " + std::to_string( a ); date.setDay( a ); d = range( a, 1, monthDays( y, m ) ); break; }
            case 4: { const int a = any( 1, 9999 ), b = any( 1, 12 ), c = any( 1, 31 ); how = was + "setValue( " + std::to_string( a ) + ", " + std::to_string( b ) + ", " + std::to_string( c ) + " )"; const bool valid = a >= 1 && a <= 9999 && b >= 1 && b <= 12 && c >= 1 && c <= monthDays( a, b ); if( date.setValue( a, b, c ) != valid ) no( "date-set", how + " reports the contrary" ); if( valid ) { y = a; m = b; d = c; } break; }
            case 5: case 6:
            {
                const int a = r.range( 0, 9999 ), b = r.range( r.chance( 1, 5 ) ? 0 : 1, 13 ), c = r.range( r.chance( 1, 5 ) ? 0 : 1, 32 ); char buf[40]; snprintf( buf, sizeof buf, "%04d-%02d-%02d", a, b, c ); std::string t = buf; bool shape = true;
                if( r.chance( 1, 4 ) ) { shape = false; switch( r.below( 8 ) ) { case 0: t += "Z"; break; case 1: t = " " + t; break; case 2: t[4] = '/'; break; case 3: t = t.substr( 2 ); break; case 4: t[r.below( 4 )] = 'x'; break; case 5: t[8] = '+'; break; case 6: t = ""; break; default: t[7] = ' '; } }
                const bool valid = shape && a >= 1 && b >= 1 && b <= 12 && c >= 1 && c <= monthDays( a, b ); how = was + "parse '" + t + "'"; app.count( valid ? "dates-accepted" : "dates-refused" );
                if( r.chance( 1, 5 ) ) { date = Date( t ); if( !valid ) { y = 1900; m = d = 1; } } else if( date.parse( t ) != valid ) no( "date-parse", how + " reports the contrary" );
                if( valid ) { y = a; m = b; d = c; } break;
            }
            case 7: case 8:
            {
                const int n = r.chance( 1, 12 ) ? r.range( -4000000, 4000000 ) : r.range( -1500, 1500 ); how = was + "addDays " + std::to_string( n ); const int k = n == 1 || n == -1 || r.chance( 1, 6 ) ? (int)r.below( 4 ) : 4; long by = n;
                if( k == 0 ) { how = was + "++"; const Date& x = ++date; by = 1; (void)x; } else if( k == 1 ) { how = was + "post ++"; const Date old = date; if( ( date++ ) != old ) no( "date-step", how + " gives another date" ); by = 1; } else if( k == 2 ) { how = was + "--"; --date; by = -1; } else if( k == 3 ) { how = was + "post --"; const Date old = date; if( ( date-- ) != old ) no( "date-step", how + " gives another date" ); by = -1; } else date.addDays( n );
                const long z = dayNumber( y, m, d ) + by, lo = dayNumber( 1, 1, 1 ), hi = dayNumber( 9999, 12, 31 ); fromDays( z < lo ? lo : z > hi ? hi : z, y, m, d ); break;
            }
            case 9:
            {
                const int n = r.chance( 1, 8 ) ? (int)anyInt( r ) : r.range( -300, 300 ); how = was + "addMonths " + std::to_string( n ); date.addMonths( n ); const long q = (long)y * 12 + m - 1 + n; long ny = q / 12, nm = q % 12; if( nm < 0 ) { nm += 12; --ny; }
                if( ny < 1 ) { y = 1; m = 1; d = 1; } else if( ny > 9999 ) { y = 9999; m = 12; d = 31; } else { y = (int)ny; m = (int)nm + 1; d = range( d, 1, monthDays( y, m ) ); } break;
            }
            case 10:
            {
                const int n = r.chance( 1, 8 ) ? (int)anyInt( r ) : r.range( -300, 300 ); how = was + "addYears " + std::to_string( n ); date.addYears( n ); const long ny = (long)y + n; if( m == 2 && d == 29 && !( ny >= 1 && ny <= 9999 && leap( (int)ny ) ) ) { m = 3; d = 1; } y = range( ny, 1, 9999 ); break;
            }
            default: { const Date copy( date ); Date other( 5, 5, 5 ); other = copy; date = std::move( other ); how = was + "copied"; }
        }
        if( date.getYear() != y || date.getMonth() != m || date.getDay() != d ) { no( "date", how + " gives " + toString( date ) + " and not " + std::to_string( y ) + "-" + std::to_string( m ) + "-" + std::to_string( d ) ); return; }
        char buf[40]; snprintf( buf, sizeof buf, "%04d-%02d-%02d", y, m, d );
        const std::string s = printed( "Date", date ); if( s != buf ) no( "date-print", s + " is printed for " + buf );
        Date again( 7, 7, 7 ); if( !again.parse( s ) || again != date || !( again == date ) || again < date || again > date || !( again <= date ) || !( again >= date ) ) no( "date-print-parse", s + " is not read as itself" );
        if( date.isLeapYear() != leap( y ) || date.daysInMonth() != monthDays( y, m ) ) no( "date-facts", std::string( "leap year or days of " ) + buf );
        const int oy = r.range( 1, 9999 ), om = r.range( 1, 12 ), od = r.range( 1, 28 ); const Date o( oy, om, od ); const long df = dayNumber( y, m, d ) - dayNumber( oy, om, od );
        if( ( date < o ) != ( df < 0 ) || ( date > o ) != ( df > 0 ) || ( date == o ) != ( df == 0 ) || ( date != o ) != ( df != 0 ) || ( date <= o ) != ( df <= 0 ) || ( date >= o ) != ( df >= 0 ) ) no( "date-order", std::string( buf ) + " and " + toString( o ) + " are ordered wrongly" );
        app.seen( vf::hashStr( s ) );
    }
}
static void colors( vf::Rng& r )
{
    Color c; int v[4] = { 255, 255, 255, 255 }; bool argb = false; std::string how = "default construction"; auto byte = []( long x ) { return (int)( x < 0 ? 0 : x > 255 ? 255 : x ); };
    for( int i = r.range( 2, 12 ); i > 0; --i )
    {
        int n[4]; for( auto& x : n ) x = r.chance( 1, 4 ) ? (int)anyInt( r ) : r.range( 0, 255 );
        switch( r.below( 10 ) )
        {
            case 0: { const Color k( n[0], n[1], n[2], n[3] ); c = k; for( int q = 0; q < 4; ++q ) v[q] = byte( n[q] ); argb = true; how = "ARGB construction"; break; }
            case 1: { const Color k( n[1], n[2], n[3] ); c = k; v[0] = 255; for( int q = 1; q < 4; ++q ) v[q] = byte( n[q] ); argb = false; how = "RGB construction"; break; }
            case 2: c.setAlpha( n[0] ); v[0] = byte( n[0] ); argb = true; how = "setAlpha " + std::to_string( n[0] ); break;
            case 3: c.setRed( n[1] ); v[1] = byte( n[1] ); how = "setRed " + std::to_string( n[1] ); break;
            case 4: c.setGreen( n[2] ); v[2] = byte( n[2] ); how = "setGreen " + std::to_string( n[2] ); break;
            case 5: c.setBlue( n[3] ); v[3] = byte( n[3] ); how = "setBlue " + std::to_string( n[3] ); break;
            case 6: { const bool a = r.flip(); c.setColorType( a ? Color::ColorType::ARGB : Color::ColorType::RGB ); argb = a; if( !a ) v[0] = 255; how = "setColorType"; break; }
            default:
            {
                char b[40]; const bool wide = r.flip(); for( auto& x : n ) x &= 255; if( wide ) snprintf( b, sizeof b, "#%02X%02X%02X%02X", n[0], n[1], n[2], n[3] ); else snprintf( b, sizeof b, "#%02X%02X%02X", n[1], n[2], n[3] ); std::string t = b; bool good = true;
                if( r.chance( 1, 3 ) ) { good = false; switch( r.below( 8 ) ) { case 0: t = t.substr( 1 ); break; case 1: t += " "; break; case 2: t[1 + r.below( t.size() - 1 )] = 'G'; break; case 3: t = "red"; break; case 4: t.pop_back(); break; case 5: t = ""; break; case 6: t += "00FF"; break; default: t[0] = '0'; } }
                how = "parse " + t; c.parse( t ); app.count( good ? "colors-accepted" : "colors-refused" ); if( good ) { argb = wide; v[0] = wide ? n[0] : 255; for( int q = 1; q < 4; ++q ) v[q] = n[q]; }
            }
        }
        app.count( "evaluations" ); char b[40]; if( argb ) snprintf( b, sizeof b, "#%02X%02X%02X%02X", v[0], v[1], v[2], v[3] ); else snprintf( b, sizeof b, "#%02X%02X%02X", v[1], v[2], v[3] );
        if( c.getAlpha() != v[0] || c.getRed() != v[1] || c.getGreen() != v[2] || c.getBlue() != v[3] || ( c.getColorType() == Color::ColorType::ARGB ) != argb ) { no( "color", "the colour is not " + std::string( b ) + " after " + how ); return; }
        const std::string s = printed( "Color", c ); if( s != b ) no( "color-print", s + " is printed for " + b );
        const Color again( s ); if( toString( again ) != s || again.getAlpha() != c.getAlpha() || again.getColorType() != c.getColorType() ) no( "color-print-parse", s + " is not read as itself" );
        app.seen( vf::hashStr( s ) );
    }
}
static void unions( vf::Rng& r )
{
    // yes, no or a number
    {
        YesNoNumber v; int kind = 0; bool yes = true; LD num = 0;
        for( int i = 0; i < 5; ++i )
        {
            app.count( "evaluations" ); std::string how;
            if( r.chance( 1, 4 ) ) { yes = r.flip(); kind = 0; if( r.flip() ) v.setYesNo( yes ? YesNo::yes : YesNo::no ); else v = YesNoNumber( yes ? YesNo::yes : YesNo::no ); how = "set"; }
            else if( r.chance( 1, 3 ) ) { const Decimal d( anyDecimal( r ) ); num = d.getValue(); kind = 1; if( r.flip() ) v.setDecimal( d ); else v = YesNoNumber( d ); how = "set number"; }
            else { DecText t = decText( r ); bool yn = false; if( r.chance( 1, 3 ) ) { static const char* const w[] = { "yes", "no", "Yes", "NO", "yes ", "" }; const int at = (int)r.below( 6 ); t.text = w[at]; t.valid = at < 2; yn = at < 2; if( yn ) yes = at == 0; } const bool done = v.parse( t.text ); how = "parse '" + t.text + "'"; if( t.valid != 2 && done != ( t.valid == 1 ) ) no( "yes-no-number", how + " reports the contrary" ); if( t.valid == 2 ) { kind = v.getIsDecimal(); num = v.getValueDecimal().getValue(); yes = v.getValueYesNo() == YesNo::yes; } else if( done ) { kind = !yn; if( !yn ) num = Decimal( t.value ).getValue(); } }
            if( v.getIsDecimal() != ( kind == 1 ) || v.getIsYesNo() != ( kind == 0 ) || ( kind ? v.getValueDecimal().getValue() != num : ( v.getValueYesNo() == YesNo::yes ) != yes ) ) { no( "yes-no-number", "the value is wrong after " + how ); break; }
            const std::string s = printed( "YesNoNumber", v ); const YesNoNumber again( s ); if( toString( again ) != s || again.getIsDecimal() != v.getIsDecimal() || again.getValueDecimal().getValue() != v.getValueDecimal().getValue() ) no( "yes-no-number-print", s + " is not read as itself" );
        }
    }
    {
        FontSize v; int kind = 0; CssFontSize css = CssFontSize::medium; LD num = 0; static const char* const names[] = { "xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large" };
        for( int i = 0; i < 5; ++i )
        {
            app.count( "evaluations" ); std::string how;
            if( r.chance( 1, 4 ) ) { css = *tryParseCssFontSize( names[r.below( 7 )] ); kind = 1; if( r.flip() ) v.setCssFontSize( css ); else v = FontSize( css ); how = "set"; }
            else if( r.chance( 1, 3 ) ) { const Decimal d( anyDecimal( r ) ); num = d.getValue(); kind = 0; if( r.flip() ) v.setDecimal( d ); else v = FontSize( d ); how = "set number"; }
            else { DecText t = decText( r ); bool word = false; if( r.chance( 1, 3 ) ) { t.text = names[r.below( 7 )]; word = true; t.valid = 1; if( r.chance( 1, 3 ) ) { t.text += "er"; word = false; t.valid = 0; } } const bool done = v.parse( t.text ); how = "parse '" + t.text + "'"; if( t.valid != 2 && done != ( t.valid == 1 ) ) no( "font-size", how + " reports the contrary" ); if( t.valid == 2 ) { kind = v.getIsCssFontSize(); num = v.getValueDecimal().getValue(); css = v.getValueCssFontSize(); } else if( done ) { kind = word; if( word ) css = *tryParseCssFontSize( t.text ); else num = Decimal( t.value ).getValue(); } }
            if( v.getIsCssFontSize() != ( kind == 1 ) || v.getIsDecimal() != ( kind == 0 ) || ( kind ? v.getValueCssFontSize() != css : v.getValueDecimal().getValue() != num ) ) { no( "font-size", "the value is wrong after " + how ); break; }
            const std::string s = printed( "FontSize", v ); const FontSize again( s ); if( toString( again ) != s || again.getIsDecimal() != v.getIsDecimal() ) no( "font-size-print", s + " is not read as itself" );
        }
    }
    {
        NumberOrNormal v; PositiveIntegerOrEmpty e;
        for( int i = 0; i < 6; ++i )
        {
            app.count( "evaluations" ); std::string how; int normal = -1; LD num = 0; bool known = true;
            switch( r.below( 4 ) ) { case 0: v.setValueNormal(); normal = 1; how = "normal"; break; case 1: { const Decimal d( anyDecimal( r ) ); num = d.getValue(); normal = 0; if( r.flip() ) v.setValue( d ); else v = NumberOrNormal( d ); how = "number"; break; } case 2: v.parse( "normal" ); normal = 1; how = "parse normal"; break; default: { const DecText t = decText( r ); v.parse( t.text ); how = "parse '" + t.text + "'"; known = t.valid == 1; normal = 0; num = Decimal( t.value ).getValue(); } }
            if( known && ( v.getIsNormal() != ( normal == 1 ) || ( normal == 0 && v.getValueNumber().getValue() != num ) ) ) no( "number-or-normal", "the value is wrong after " + how );
            if( v.getIsNormal() == v.getIsNumber() ) no( "number-or-normal", "it is neither or both" );
            std::string s = printed( "NumberOrNormal", v ); NumberOrNormal again( s ), copy( v ); NumberOrNormal third; third = copy; if( toString( again ) != s || toString( third ) != s || again.getIsNormal() != v.getIsNormal() ) no( "number-or-normal-print", s + " is not read as itself" );
            long n = 0; int empty = -1; known = true;
            switch( r.below( 4 ) ) { case 0: e.setValueEmpty(); empty = 1; how = "empty"; break; case 1: { const PositiveInteger d( (int)anyInt( r ) ); n = d.getValue(); empty = 0; if( r.flip() ) e.setValue( d ); else e = PositiveIntegerOrEmpty( d ); how = "number"; break; } case 2: e.parse( "" ); empty = 1; how = "parse ''"; break; default: { const IntText t = intText( r ); e.parse( t.text ); how = "parse '" + t.text + "'"; known = t.value.has_value() || t.text.empty(); empty = t.text.empty(); if( t.value ) n = *t.value < 1 ? 1 : *t.value; } }
            if( known && ( e.getIsEmpty() != ( empty == 1 ) || ( empty == 0 && e.getValueNumber().getValue() != n ) ) ) no( "positive-or-empty", "the value is wrong after " + how );
            if( e.getValueNumber().getValue() < 1 || e.getIsEmpty() == e.getIsNumber() ) no( "positive-or-empty", "the value is out of range after " + how );
            s = printed( "PositiveIntegerOrEmpty", e ); const PositiveIntegerOrEmpty b( s ), c2( e ); PositiveIntegerOrEmpty t3; t3 = c2; if( toString( b ) != s || toString( t3 ) != s || b.getIsEmpty() != e.getIsEmpty() ) no( "positive-or-empty-print", s + " is not read as itself" );
        }
    }
}
template<class C, class E> static void openEnum( vf::Rng& r, const char* name, E other, const std::vector<std::pair<E, std::string>>& all, C ( *parse )( const std::string& ) )
{
    for( int i = 0; i < 6; ++i )
    {
        app.count( "evaluations" ); const auto& k = all[r.below( all.size() )]; std::string t = r.flip() ? k.second : r.flip() ? nearly( r, k.second ) : token( r ) + " " + token( r ); if( t.find( '\0' ) != std::string::npos ) t.pop_back();
        E want = other; for( auto& x : all ) if( x.second == t ) want = x.first;
        C v( all[r.below( all.size() )].first ); if( r.flip() ) v.setValue( token( r ) ); if( r.flip() ) v.setValue( t ); else v = r.flip() ? C( t ) : parse( t );
        if( v.getValue() != want ) no( std::string( "open-enum:" ) + name, std::string( name ) + " takes '" + t + "' for another" );
        if( v.getValueString() != t || toString( v ) != t ) no( std::string( "open-enum:" ) + name, std::string( name ) + " given '" + t + "' prints '" + toString( v ) + "'" );
        if( t.find_first_of( "<>&\"" ) == std::string::npos && printed( name, v ) != t ) no( std::string( "open-enum:" ) + name, "printing" );
        const auto& k2 = all[r.below( all.size() )]; if( k2.first != other ) { v.setValue( k2.first ); if( v.getValue() != k2.first || toString( v ) != k2.second ) no( std::string( "open-enum:" ) + name, std::string( name ) + " set to " + k2.second + " prints " + toString( v ) ); }
    }
}
static std::string unescaped( const std::string& s ) { std::string o; for( size_t i = 0; i < s.size(); ++i ) { if( s[i] != '&' ) { o += s[i]; continue; } const size_t e = s.find( ';', i ); const std::string n = s.substr( i + 1, e - i - 1 ); o += n == "lt" ? "<" : n == "gt" ? ">" : n == "amp" ? "&" : n == "quot" ? "\"" : n == "apos" ? "'" : n == "#13" ? "\r" : "?"; i = e; } return o; }
static void strings( vf::Rng& r )
{
    std::string t; for( int n = (int)r.below( 14 ); n > 0; --n ) { static const char* const p[] = { " ", "\t", "\n", "a", "B", "9", "0", "-", ".", "_", ":", "<", ">", "&", "\"", "'", "\xC3\xA9", ",", "&amp;", "\r", "z" }; t += p[r.below( 21 )]; }
    app.count( "evaluations" ); app.seen( vf::hashStr( t ) );
    XsString s( r.flip() ? t : "x" ); s.setValue( t ); std::ostringstream e, p; toStream( e, s, true ); toStream( p, s, false );
    if( s.getValue() != t || toString( s ) != t || p.str() != t ) no( "string", "a string of '" + t + "' is '" + s.getValue() + "'" );
    if( e.str().find_first_of( "<>\"" ) != std::string::npos || unescaped( e.str() ) != t ) no( "string-escape", "'" + t + "' is escaped as '" + e.str() + "'" );
    // tokens
    std::string want; { std::string w; for( char c : t + " " ) if( strchr( " \t\n\r", c ) ) { if( !w.empty() ) { want += ( want.empty() ? "" : " " ) + w; w.clear(); } } else w += c; }
    XsToken k( t ), k2; k2.setValue( t ); XsString& base = k2; base.setValue( t ); if( k.getValue() != want || k2.getValue() != want ) no( "token", "a token of '" + t + "' is '" + k.getValue() + "'" );
    // identifiers
    XsID id( t ); const std::string v = id.getValue(); bool ok = !v.empty() && ( isalpha( (unsigned char)v[0] ) || v[0] == '_' ); for( unsigned char c : v ) ok = ok && ( isalnum( c ) || strchr( "-._", c ) );
    if( !ok ) no( "id", "an identifier of '" + t + "' is '" + v + "'" );
    XsID id2; id2.setValue( v ); if( id2.getValue() != v ) no( "id-stable", "an identifier of '" + v + "' is '" + id2.getValue() + "'" );
    // lists
    std::set<int> in; for( int n = (int)r.below( 6 ); n > 0; --n ) in.insert( r.chance( 1, 5 ) ? (int)anyInt( r ) : r.range( 1, 30 ) ); std::set<int> pos; for( int x : in ) if( x > 0 ) pos.insert( x );
    CommaSeparatedListOfPositiveIntegers l( in ), l2; l2.setValues( in ); if( l.getValues() != pos || l2.getValues() != pos ) no( "list-range", "a list holds other numbers than it was given" );
    l.setUseSpaceBetweenItems( r.flip() ); const std::string lt = printed( "CommaSeparatedListOfPositiveIntegers", l ); const CommaSeparatedListOfPositiveIntegers again( lt ); if( again.getValues() != pos ) no( "list-print", "'" + lt + "' is not read as itself" );
    { std::string x; for( int q : in ) x += ( x.empty() ? "" : r.flip() ? "," : " , " ) + std::to_string( q ); l2.parse( x ); if( l2.getValues() != pos ) no( "list-parse", "'" + x + "' is read as " + toString( l2 ) ); }
    XsTokenSet ts; for( int n = (int)r.below( 5 ); n > 0; --n ) ts.push_back( XsToken( token( r ) + ( r.chance( 1, 3 ) ? " " + token( r ) : "" ) ) ); CommaSeparatedText ct( ts ), ct2; for( auto& x : ts ) ct2.addValue( x ); const std::string cs = printed( "CommaSeparatedText", ct ); const CommaSeparatedText ct3( cs ); if( ct3.getValues().size() != ts.size() || toString( ct3 ) != cs || toString( ct2 ) != cs ) no( "text-list", "'" + cs + "' is not read as itself" ); else for( size_t i = 0; i < ts.size(); ++i ) if( ct3.getValues()[i].getValue() != ts[i].getValue() ) no( "text-list", "'" + cs + "' is not read as itself" );
    // plain integers of the text helpers
    const IntText it = intText( r ); int out = 77; const bool done = mx::utility::stringToInt( it.text, out ); const bool canonical = it.value && std::to_string( *it.value ) == it.text; if( done != canonical || out != ( canonical ? (int)*it.value : 77 ) ) no( "string-to-int", "'" + it.text + "' is read as " + std::to_string( out ) );
}
static void sounds( vf::Rng& r, const std::vector<std::pair<PlaybackSound, std::string>>& all )
{
    using mx::api::SoundID; std::set<SoundID> had; std::set<std::string> texts;
    for( auto& v : all )
    {
        app.count( "evaluations" ); texts.insert( v.second ); std::string why;
        try { if( PlaybackSoundToString( v.first ) != v.second ) why = "prints"; else if( PlaybackSoundFromString( v.second ) != v.first ) why = "reads"; const SoundID id = mx::api::SoundIDFromString( v.second ); if( id == SoundID::unspecified || id == SoundID::errorBadString || !had.insert( id ).second ) why = "has the same identifier as another as"; else if( mx::api::SoundIDToString( id ) != v.second ) why = "has an identifier that prints"; }
        catch( const std::exception& e ) { why = std::string( "throws " ) + e.what(); }
        if( !why.empty() ) no( "sound", "the sound " + v.second + " " + why );
    }
    for( int i = 0; i < 12; ++i )
    {
        const std::string s = nearly( r, all[r.below( all.size() )].second ); if( texts.count( s ) ) continue; app.count( "evaluations" );
        bool thrown = false; try { (void)PlaybackSoundFromString( s ); } catch( const std::exception& ) { thrown = true; }
        if( !thrown || mx::api::SoundIDFromString( s ) != SoundID::errorBadString ) no( "sound", "the sound '" + s + "' is accepted" );
    }
}
int main( int argc, char** argv )
{
    app.parse( argc, argv );
    app.run( [&]( long id, vf::Rng& r ) {
        app.stage( "integers" );
#define INT( T, lo, hi ) integerType<T>( r, #T, lo, hi )
        const long lo = -2147483648L, hi = 2147483647L;
        INT( AccordionMiddleValue, 0, 3 ); INT( BeamLevel, 1, 8 ); INT( Byte, 0, 255 ); INT( FifthsValue, lo, hi ); INT( Midi128, 1, 128 ); INT( Midi16, 1, 16 ); INT( Midi16384, 1, 16384 ); INT( NonNegativeInteger, 0, hi ); INT( NumberLevel, 1, 6 ); INT( NumberOfLines, 0, 3 ); INT( OctaveValue, 0, 9 ); INT( PositiveInteger, 1, hi ); INT( StaffLine, lo, hi ); INT( StaffNumber, 1, hi ); INT( StringNumber, 1, hi ); INT( TremoloMarks, 0, 8 ); INT( Integer, lo, hi );
        app.stage( "decimals" );
#define DEC( T, ... ) decimalType<T>( r, Range{ #T, __VA_ARGS__ } )
        DEC( DivisionsValue, false, false, 0, false, 0 ); DEC( MillimetersValue, false, false, 0, false, 0 ); DEC( NonNegativeDecimal, true, false, 0, false, 0 ); DEC( Percent, true, false, 0, true, 100 ); DEC( PositiveDecimal, true, true, 0, false, 0 ); DEC( PositiveDivisions, true, true, 0, false, 0 ); DEC( PositiveDivisionsValue, true, true, 0, false, 0 ); DEC( RotationDegrees, true, false, -180, true, 180 ); DEC( Semitones, false, false, 0, false, 0 ); DEC( TenthsValue, false, false, 0, false, 0 ); DEC( TrillBeats, true, false, 2, false, 0 ); DEC( Decimal, false, false, 0, false, 0 );
        app.stage( "precise decimals" ); for( int i = 0; i < 6; ++i ) precise( r );
        app.stage( "dates" ); dates( r ); app.stage( "colors" ); colors( r ); app.stage( "unions" ); unions( r );
        app.stage( "strings" ); for( int i = 0; i < 8; ++i ) strings( r );
        app.stage( "enums" );
        const int turn = (int)( id % 8 ); int at = 0;
#define V( E, e, t ) { E::e, t },
#define ENUM( E, ... ) if( at++ % 8 == turn ) { const std::vector<std::pair<E, std::string>> all{ __VA_ARGS__ }; enumType<E>( r, #E, all, &parse##E, &tryParse##E, []( E x ) { return toString( x ); } ); for( auto& v : all ) enumPrints( #E, v.first ); }
#define PLAIN( E, ... ) if( at++ % 8 == turn ) { const std::vector<std::pair<E, std::string>> all{ __VA_ARGS__ }; enumType<E>( r, #E, all, &parse##E, nullptr, []( E x ) { return toString( x ); } ); for( auto& v : all ) enumPrints( #E, v.first ); }
#define SOUND( E, ... ) if( turn == 7 ) { static const std::vector<std::pair<E, std::string>> all{ __VA_ARGS__ }; sounds( r, all ); }
#include "enums.inc"
#undef ENUM
#undef PLAIN
#undef SOUND
#define ENUM( E, ... ) static const std::vector<std::pair<E, std::string>> all##E{ __VA_ARGS__ };
#define PLAIN( E, ... )
#define SOUND( E, ... )
#include "enums.inc"
        openEnum<DistanceType, DistanceTypeEnum>( r, "DistanceType", DistanceTypeEnum::other, allDistanceTypeEnum, &parseDistanceType );
        openEnum<LineWidthType, LineWidthTypeEnum>( r, "LineWidthType", LineWidthTypeEnum::other, allLineWidthTypeEnum, &parseLineWidthType );
        openEnum<ModeValue, ModeEnum>( r, "ModeValue", ModeEnum::other, allModeEnum, &parseModeValue );
        openEnum<DynamicsValue, DynamicsEnum>( r, "DynamicsValue", DynamicsEnum::otherDynamics, allDynamicsEnum, &parseDynamicsValue );
        app.sample( "17 integer types, 12 decimal types, dates, colours, unions, strings, lists and an eighth of the enumerations" );
    } );
}
