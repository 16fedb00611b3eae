// An independent interpreter of the MusicXML timeline, over a document read by libxml2.
#pragma once
#include "xmlio.h"
#include <numeric>
namespace tl
{
struct Q   // an exact position or length in quarters
{
    long long n = 0, d = 1;
    Q() {}
    Q( long long a, long long b ) { long long g = std::gcd( a < 0 ? -a : a, b < 0 ? -b : b ); if( g == 0 ) g = 1; n = a / g; d = b / g; if( d < 0 ) { n = -n; d = -d; } }
    Q operator+( const Q& o ) const { return Q( n * o.d + o.n * d, d * o.d ); }
    Q operator-( const Q& o ) const { return Q( n * o.d - o.n * d, d * o.d ); }
    bool operator<( const Q& o ) const { return n * o.d < o.n * d; }
    bool is( long long ticks, long long perQuarter ) const { return (__int128)n * perQuarter == (__int128)ticks * d; }
    std::string s() const { return std::to_string( n ) + ( d == 1 ? "" : "/" + std::to_string( d ) ); }
};
struct Note { int staff = 1; std::string voice; Q pos, dur; bool chord = false, grace = false, rest = false, unpitched = false; std::string step, octave; int run = 0; size_t at = 0; const xg::El* el = nullptr; };
struct Event { int staff = 1; bool staffGiven = false; Q pos; const xg::El* el = nullptr; };
struct Measure { std::vector<Note> notes; std::vector<Event> directions, harmonies, clefs, keys; std::vector<std::string> bad; Q longest; };
struct Part { std::string id; std::vector<Measure> measures; };
inline const xg::El* kid( const xg::El& e, const char* n ) { for( auto& k : e.kids ) if( k.name == n ) return &k; return nullptr; }
inline std::string kidText( const xg::El& e, const char* n, const char* none = "" ) { auto* k = kid( e, n ); return k ? k->text : none; }
// whole part and places of a decimal text; false when it is no decimal
inline bool decimal( const std::string& t, Q& q )
{
    size_t i = 0, e = t.size(); while( i < e && strchr( " \t\r\n", t[i] ) ) ++i; while( e > i && strchr( " \t\r\n", t[e - 1] ) ) --e;
    bool neg = false; if( i < e && ( t[i] == '-' || t[i] == '+' ) ) neg = t[i++] == '-';
    long long n = 0, d = 1; bool dot = false, any = false;
    for( ; i < e; ++i ) { if( t[i] == '.' && !dot ) dot = true; else if( t[i] >= '0' && t[i] <= '9' ) { if( n > 100000000000LL || d > 1000000 ) return false; n = n * 10 + ( t[i] - '0' ); if( dot ) d *= 10; any = true; } else return false; }
    if( !any ) return false;
    q = Q( neg ? -n : n, d ); return true;
}
struct Reader
{
    bool strict = false;      // negative positions and fractional movements are faults
    bool usable = true;       // false when the document leaves whole numbers
    std::vector<long long> divisions;
    void measure( const xg::El& m, Measure& out, Q& div )
    {
        Q pos, last, lastDur; int run = 0;
        size_t at = 0;
        auto amount = [&]( const xg::El& e, const char* what ) {
            Q v; const std::string t = kidText( e, "duration" );
            if( !decimal( t, v ) || v.n < 0 ) { usable = false; out.bad.push_back( std::string( what ) + " duration is '" + t + "'" ); return Q(); }
            if( v.d != 1 ) { usable = false; out.bad.push_back( std::string( what ) + " duration '" + t + "' is no whole number" ); }
            if( v.n == 0 && strict ) out.bad.push_back( std::string( what ) + " duration is zero" );
            return Q( v.n * div.d, v.d * div.n );
        };
        auto staffOf = [&]( const xg::El& e, bool* given = nullptr ) { auto* s = kid( e, "staff" ); if( given ) *given = s; return s ? atoi( s->text.c_str() ) : 1; };
        auto event = [&]( const xg::El& e, std::vector<Event>& v ) {
            Event d; d.el = &e; d.staff = staffOf( e, &d.staffGiven ); d.pos = pos; Q o;
            if( auto* k = kid( e, "offset" ) ) { if( !decimal( k->text, o ) || o.d != 1 ) usable = false; else d.pos = pos + Q( o.n * div.d, o.d * div.n ); }
            v.push_back( d );
        };
        for( auto& e : m.kids )
        {
            ++at;
            if( e.name == "attributes" )
            {
                if( auto* d = kid( e, "divisions" ) ) { Q v; if( !decimal( d->text, v ) || v.n <= 0 || v.d != 1 ) { usable = false; } else { div = v; divisions.push_back( v.n ); } }
                for( auto& k : e.kids )
                {
                    if( k.name != "clef" && k.name != "key" ) continue;
                    Event c; c.el = &k; c.pos = pos; auto* a = k.attr( "number" ); c.staffGiven = a; c.staff = a ? atoi( a->c_str() ) : 1;
                    ( k.name == "clef" ? out.clefs : out.keys ).push_back( c );
                }
            }
            else if( e.name == "backup" )
            {
                pos = pos - amount( e, "a backup" ); ++run;
                if( pos.n < 0 ) { if( strict ) out.bad.push_back( "the position goes below zero" ); pos = Q(); }
            }
            else if( e.name == "forward" ) { pos = pos + amount( e, "a forward" ); }
            else if( e.name == "direction" ) event( e, out.directions );
            else if( e.name == "harmony" ) event( e, out.harmonies );
            else if( e.name == "note" )
            {
                Note n; n.at = at; n.el = &e; n.run = run; n.staff = staffOf( e ); n.voice = kidText( e, "voice" );
                n.grace = kid( e, "grace" ); n.chord = kid( e, "chord" );
                auto* rest = kid( e, "rest" ); auto* unp = kid( e, "unpitched" ); auto* pitch = kid( e, "pitch" );
                n.rest = rest; n.unpitched = unp;
                if( pitch ) { n.step = kidText( *pitch, "step" ); n.octave = kidText( *pitch, "octave" ); if( n.step.size() != 1 || !strchr( "ABCDEFG", n.step[0] ) || n.octave.size() != 1 ) usable = false; }
                else { auto* p = rest ? rest : unp; if( p ) { n.step = kidText( *p, "display-step" ); n.octave = kidText( *p, "display-octave" ); if( !n.step.empty() && ( n.step.size() != 1 || !strchr( "ABCDEFG", n.step[0] ) || n.octave.size() != 1 ) ) usable = false; } }
                if( !n.grace ) n.dur = amount( e, "a note" );
                if( n.chord )
                {
                    if( out.notes.empty() ) { out.bad.push_back( "a chord without a first note" ); n.pos = pos; }
                    else n.pos = last;
                }
                else { n.pos = last = pos; pos = pos + n.dur; }
                out.notes.push_back( n );
            }
            if( out.longest < pos ) out.longest = pos;
        }
    }
    std::vector<Part> read( const xg::El& root )
    {
        std::vector<Part> out;
        if( root.name == "score-partwise" )
        {
            for( auto& p : root.kids ) if( p.name == "part" )
            {
                Part q; if( auto* a = p.attr( "id" ) ) q.id = *a;
                Q div( 1, 1 );
                for( auto& m : p.kids ) if( m.name == "measure" ) { q.measures.emplace_back(); measure( m, q.measures.back(), div ); }
                out.push_back( q );
            }
            return out;
        }
        std::vector<Q> div;
        for( auto& m : root.kids ) if( m.name == "measure" )
        {
            for( auto& p : m.kids ) if( p.name == "part" )
            {
                auto* a = p.attr( "id" ); size_t i = 0;
                while( i < out.size() && ( !a || out[i].id != *a ) ) ++i;
                if( i == out.size() ) { out.emplace_back(); if( a ) out[i].id = *a; div.push_back( Q( 1, 1 ) ); }
                out[i].measures.emplace_back(); measure( p, out[i].measures.back(), div[i] );
            }
        }
        return out;
    }
};
}
