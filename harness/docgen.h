// Changes to generated documents: away from known losses, processing instructions, damage.
#pragma once
#include "xsdgen.h"
#include <algorithm>
// documents the library is known to refuse or to lose parts of are met by the probes and the wild cases; the rest of the exploration stays clear of them
inline bool hasKid( const xg::El& e, const std::string& n ) { for( auto& k : e.kids ) if( k.name == n ) return true; return false; }
inline xg::El mk( const xg::Xsd& x, const xg::El& parent, const std::string& n, const std::string& text = "" ) { xg::El k; k.name = n; k.text = text; k.type = x.childType( parent.type, n ); return k; }
inline void tame( const xg::Xsd& x, xg::El& e )
{
    auto keepFirst = [&]( const std::string& n ) { bool had = false; std::vector<xg::El> k; for( auto& c : e.kids ) { if( c.name == n ) { if( had ) continue; had = true; } k.push_back( c ); } e.kids = k; };
    if( e.name == "dynamics" || e.name == "play" ) { if( e.kids.size() > 1 ) e.kids.resize( 1 ); if( e.kids.empty() ) e.kids.push_back( e.name == "play" ? mk( x, e, "ipa", "a" ) : mk( x, e, "mf" ) ); }
    if( e.name == "instrument-sound" ) { static const char* const f[] = { "wind.flutes.flute", "strings.violin", "keyboard.piano", "pluck.guitar" }; e.text = f[e.text.size() % 4]; }
    if( ( e.name == "slash" || e.name == "beat-repeat" ) && !hasKid( e, "slash-type" ) ) e.kids.insert( e.kids.begin(), mk( x, e, "slash-type", "quarter" ) );
    if( e.name == "page-layout" && !hasKid( e, "page-height" ) ) { e.kids.insert( e.kids.begin(), mk( x, e, "page-width", "100" ) );  e.kids.insert( e.kids.begin(), mk( x, e, "page-height", "200" ) ); }
    if( e.name == "key" && !hasKid( e, "fifths" ) && !hasKid( e, "key-step" ) ) e.kids.insert( e.kids.begin(), mk( x, e, "fifths", "-1" ) );
    if( e.name == "interchangeable" ) { keepFirst( "beats" ); keepFirst( "beat-type" ); }
    if( e.name == "sound" )
    {
        std::vector<xg::El> k;
        for( const char* n : { "midi-device", "midi-instrument", "play", "offset" } ) for( auto& c : e.kids ) if( c.name == n ) { k.push_back( c ); break; }
        e.kids = k;
    }
    if( e.name == "ornaments" ) std::stable_partition( e.kids.begin(), e.kids.end(), []( const xg::El& k ) { return k.name != "accidental-mark"; } );
    if( e.name == "ornaments" && !e.kids.empty() && e.kids[0].name == "accidental-mark" ) e.kids.clear();
    if( e.name == "metronome" ) { bool after = false, had = false; std::vector<xg::El> k; for( auto& c : e.kids ) { if( c.name == "metronome-relation" ) after = true; if( after && c.name == "metronome-note" ) { if( had ) continue; had = true; } k.push_back( c ); } e.kids = k; }
    for( auto& k : e.kids ) tame( x, k );
}
inline void addPi( const xg::Xsd& x, vf::Rng& r, xg::El& e, int pct )
{
    for( auto& k : e.kids ) addPi( x, r, k, pct );
    if( !e.kids.empty() || ( e.text.empty() && e.type >= 0 && x.types[e.type].node >= 0 && x.nodes[x.types[e.type].node].kids.size() ) )
        for( size_t i = 0; i <= e.kids.size(); ++i ) if( r.chance( pct, 100 ) )
        {
            xg::El p; static const char* const n[] = { "?hint", "?DoletSibelius", "?app" }, * const t[] = { "", "Unknown", "layout=\"wide\" n='2'", "a < b & c" };
            p.name = n[r.below( 3 )]; p.text = t[r.below( 4 )]; e.kids.insert( e.kids.begin() + (long)i, p ); ++i;
        }
}
// damage that may still be tolerated: values, order, repetition and presence that the schema does not allow
inline void damage( vf::Rng& r, xg::El& e, int& left )
{
    for( size_t i = 0; i < e.kids.size() && left > 0; ++i ) if( r.chance( 1, 12 ) )
    {
        --left;
        switch( r.below( 5 ) )
        {
            case 0: e.kids.erase( e.kids.begin() + (long)i ); if( i ) --i; break;
            case 1: { xg::El k = e.kids[i]; e.kids.insert( e.kids.begin() + (long)r.below( e.kids.size() + 1 ), k ); break; }
            case 2: std::swap( e.kids[i], e.kids[r.below( e.kids.size() )] ); break;
            case 3: { xg::El k; k.name = r.flip() ? "unknown" : e.kids[i].name; k.text = r.flip() ? "x" : ""; e.kids.insert( e.kids.begin() + (long)i, k ); break; }
            default: { static const char* const t[] = { "", "abc", "-5", "99999999999", "1e3", " 7 ", "+3", "0x10", ".5", "5.", "NaN", "yes no", "007", "-0", "0.00000001", "  " }; if( e.kids[i].kids.empty() ) e.kids[i].text = t[r.below( 16 )]; }
        }
        if( e.kids.empty() ) return;
    }
    for( auto& a : e.attrs ) if( left > 0 && r.chance( 1, 12 ) ) { --left; static const char* const t[] = { "", "abc", "-5", "99999999999", "1e3", " 7 ", "+3", ".5", "5.", "yes", "#12345", "-0", "0.00000001" }; a.second = t[r.below( 13 )]; }
    if( left > 0 && r.chance( 1, 40 ) ) { --left; e.attrs.push_back( { "unknown", "1" } ); }
    for( auto& k : e.kids ) if( k.name != "part-list" || r.chance( 1, 8 ) ) damage( r, k, left );
}
