// Documents of other programs: everything the public structures can hold, in the spellings the schema allows.
#pragma once
#include "common.h"
#include <map>
#include <functional>
struct MeaningDocs
{
    vf::Rng& r; int serial = 0, bookmarks = 0;
    using S = std::string;
    bool rare = false;
    S n( long long v ) { return std::to_string( v ); }
    S tenths() { char b[32]; snprintf( b, sizeof b, "%g", r.range( -4000, 4000 ) / 16.0 ); return b; }
    S posTenths() { char b[32]; snprintf( b, sizeof b, "%g", r.range( 1, 4000 ) / 16.0 ); return b; }
    S pick( std::initializer_list<const char*> l ) { return l.begin()[r.below( l.size() )]; }
    S escape( const S& t ) { S o; for( char c : t ) if( c == '<' ) o += "&lt;"; else if( c == '&' ) o += "&amp;"; else if( c == '"' ) o += "&quot;"; else o += c; return o; }
    S word() { static const char* const w[] = { "dolce", "a tempo", "Tutti", "div. & unis.", "q < r", "Zart", "solo", "ganz \xc3\xbc" "ber", "pi\xc3\xb9", "1.", "\"x\"" }; return escape( S( w[r.below( 11 )] ) + " " + n( ++serial ) ); }
    // attributes in any order
    struct Set { std::vector<std::pair<S, S>> v; };
    S text( Set a ) { for( size_t i = a.v.size(); i > 1; --i ) std::swap( a.v[i - 1], a.v[r.below( i )] ); S o; for( auto& x : a.v ) o += " " + x.first + ( rare && r.chance( 1, 5 ) ? "='" : "=\"" ) + x.second + ( o.empty() ? "" : "" ) + "\""; return fix( o ); }
    // a value opened with an apostrophe closes with one
    S fix( const S& t ) { S o; char q = 0; for( char c : t ) { if( !q && ( c == '\'' || c == '"' ) ) { q = c; o += c; } else if( q && c == '"' ) { o += q; q = 0; } else o += c; } return o; }
    int density = 30;
    bool opt() { return r.chance( (uint64_t)density, 100 ); }
    void position( Set& a ) { for( auto* x : { "default-x", "default-y", "relative-x", "relative-y" } ) if( opt() ) a.v.push_back( { x, tenths() } ); }
    void placement( Set& a ) { if( opt() ) a.v.push_back( { "placement", pick( { "above", "below" } ) } ); }
    void color( Set& a ) { if( opt() ) { static const char* h = "0123456789ABCDEF"; S s = "#"; for( int i = r.flip() ? 6 : 8; i > 0; --i ) s += h[r.below( 16 )]; a.v.push_back( { "color", s } ); } }
    void font( Set& a )
    {
        if( opt() ) a.v.push_back( { "font-family", pick( { "Times", "Arial, serif", "Opus,Petrucci , music" } ) } );
        if( opt() ) a.v.push_back( { "font-style", pick( { "normal", "italic" } ) } );
        if( opt() ) a.v.push_back( { "font-size", r.flip() ? pick( { "xx-small", "x-small", "small", "medium", "large", "x-large", "xx-large" } ) : posTenths() } );
        if( opt() ) a.v.push_back( { "font-weight", pick( { "normal", "bold" } ) } );
    }
    void lines( Set& a ) { for( auto* x : { "underline", "overline", "line-through" } ) if( opt() ) a.v.push_back( { x, n( r.range( 1, 3 ) ) } ); }
    void aligns( Set& a ) { if( opt() ) a.v.push_back( { "halign", pick( { "left", "center", "right" } ) } ); if( opt() ) a.v.push_back( { "valign", pick( { "top", "middle", "bottom", "baseline" } ) } ); }
    void level( Set& a ) { if( opt() ) a.v.push_back( { "number", n( r.range( 1, 6 ) ) } ); }
    void lineType( Set& a ) { if( opt() ) a.v.push_back( { "line-type", pick( { "solid", "dashed", "dotted", "wavy" } ) } ); }
    void dashes( Set& a ) { for( auto* x : { "dash-length", "space-length" } ) if( opt() ) a.v.push_back( { x, posTenths() } ); }
    void yes( Set& a, const char* name ) { if( opt() ) a.v.push_back( { name, pick( { "yes", "no" } ) } ); }
    S el( const S& name, const S& attrs, const S& body ) { return "<" + name + attrs + ( body.empty() && r.flip() ? "/>" : ">" + body + "</" + name + ">" ); }
    S leaf( const S& name, const S& body ) { return el( name, "", body ); }
    // what the element classes lack is recorded with C02
    S printStyle( const S& name ) { Set a; position( a ); font( a ); if( name == "strong-accent" || name == "harmonic" || name == "heel" || name == "toe" || name == "mordent" || name == "inverted-mordent" ) color( a ); placement( a ); return text( a ); }
    S type() { return pick( { "1024th", "512th", "256th", "128th", "64th", "32nd", "16th", "eighth", "quarter", "half", "whole", "breve", "long", "maxima" } ); }
    S accidental() { return pick( { "sharp", "natural", "flat", "double-sharp", "sharp-sharp", "flat-flat", "natural-sharp", "natural-flat", "quarter-flat", "quarter-sharp", "three-quarters-flat", "three-quarters-sharp", "sharp-down", "sharp-up", "natural-down", "natural-up", "flat-down", "flat-up",
        "triple-sharp", "triple-flat", "slash-quarter-sharp", "slash-sharp", "slash-flat", "double-slash-flat", "sharp-1", "sharp-2", "sharp-3", "sharp-5", "flat-1", "flat-2", "flat-3", "flat-4", "sori", "koron" } ); }
    S dynamicsKids()
    {
        const S d = pick( { "p", "pp", "ppp", "pppp", "ppppp", "pppppp", "f", "ff", "fff", "ffff", "fffff", "ffffff", "mp", "mf", "sf", "sfp", "sfpp", "fp", "rf", "rfz", "sfz", "sffz", "fz", "other-dynamics" } ); return d == "other-dynamics" ? leaf( d, word() ) : leaf( d, "" );
    }
    S dynamics() { Set a; position( a ); font( a ); color( a ); placement( a ); if( rare ) { aligns( a ); lines( a ); } return el( "dynamics", text( a ), dynamicsKids() ); }
    S accidentalMark() { return el( "accidental-mark", printStyle( "accidental-mark" ), accidental() ); }
    S curve( const char* name )
    {
        Set a; const S t = pick( { "start", "stop", "continue" } ); a.v.push_back( { "type", t } ); level( a ); position( a ); placement( a );
        if( opt() ) a.v.push_back( { "bezier-x", tenths() } );
        if( opt() ) a.v.push_back( { "bezier-y", tenths() } );
        if( opt() ) a.v.push_back( { "bezier-offset", n( r.range( -100, 100 ) ) } );
        if( t == "continue" ) { if( opt() ) a.v.push_back( { "bezier-x2", tenths() } ); if( opt() ) a.v.push_back( { "bezier-y2", tenths() } ); if( opt() ) a.v.push_back( { "bezier-offset2", n( r.range( -100, 100 ) ) } ); }
        if( t == "start" ) { lineType( a ); dashes( a ); color( a ); if( opt() ) a.v.push_back( { "orientation", pick( { "over", "under" } ) } ); }
        return el( name, text( a ), "" );
    }
    S tuplet()
    {
        Set a; const bool start = r.flip(); a.v.push_back( { "type", start ? "start" : "stop" } ); level( a ); position( a ); placement( a );
        S body;
        if( start )
        {
            yes( a, "bracket" ); if( opt() ) a.v.push_back( { "show-number", pick( { "actual", "both", "none" } ) } );
            auto side = [&]( const char* w ) { S o = leaf( "tuplet-number", n( r.range( 2, 13 ) ) ) + leaf( "tuplet-type", type() ); for( int q = r.chance( 1, 4 ) ? r.range( 1, 2 ) : 0; q > 0; --q ) o += leaf( "tuplet-dot", "" ); return leaf( w, o ); };
            const int k = r.range( 0, 3 ); if( k & 1 ) body += side( "tuplet-actual" ); if( k & 2 ) body += side( "tuplet-normal" );
        }
        return el( "tuplet", text( a ), body );
    }
    S notations( bool grace )
    {
        auto one = [&]( int k ) -> S {
            switch( k )
            {
                case 0: return curve( "slur" );
                case 1: return curve( "tied" );
                case 2: return tuplet();
                case 3: { S o; for( int q = r.range( 1, 3 ); q > 0; --q ) { const S w = pick( { "accent", "strong-accent", "staccato", "tenuto", "detached-legato", "staccatissimo", "spiccato", "scoop", "plop", "doit", "falloff", "breath-mark", "caesura", "stress", "unstress", "other-articulation" } ); o += el( w, printStyle( w ), w == "other-articulation" ? word() : S() ); } return leaf( "articulations", o ); }
                case 4:
                {
                    S o; for( int q = r.range( 1, 3 ); q > 0; --q )
                    {
                        const S w = pick( { "trill-mark", "turn", "delayed-turn", "inverted-turn", "delayed-inverted-turn", "vertical-turn", "shake", "wavy-line", "mordent", "inverted-mordent", "schleifer", "tremolo", "other-ornament" } );
                        Set a; position( a ); placement( a ); if( w == "mordent" || w == "inverted-mordent" ) color( a ); if( w != "wavy-line" ) font( a );
                        if( w == "wavy-line" ) a.v.push_back( { "type", "start" } );
                        if( w == "tremolo" && r.flip() ) a.v.push_back( { "type", "single" } );
                        o += el( w, text( a ), w == "tremolo" ? n( r.range( 1, 5 ) ) : w == "other-ornament" ? word() : S() );
                        if( r.chance( 1, 5 ) ) o += accidentalMark();
                    }
                    return leaf( "ornaments", o );
                }
                case 5: { S o; for( int q = r.range( 1, 3 ); q > 0; --q ) { const S w = pick( { "up-bow", "down-bow", "harmonic", "open-string", "thumb-position", "double-tongue", "triple-tongue", "stopped", "snap-pizzicato", "heel", "toe", "fingernails", "other-technical" } ); o += el( w, printStyle( w ), w == "other-technical" ? word() : S() ); } return leaf( "technical", o ); }
                case 6: return dynamics();
                case 7: { Set a; position( a ); font( a ); color( a ); if( opt() ) a.v.push_back( { "type", pick( { "upright", "inverted" } ) } ); return el( "fermata", text( a ), pick( { "", "normal", "angled", "square" } ) ); }
                case 8: { Set a; position( a ); placement( a ); if( opt() ) a.v.push_back( { "direction", pick( { "up", "down" } ) } ); return el( "arpeggiate", text( a ), "" ); }
                case 9: { Set a; position( a ); placement( a ); a.v.push_back( { "type", pick( { "top", "bottom" } ) } ); return el( "non-arpeggiate", text( a ), "" ); }
                default: return accidentalMark();
            }
        };
        (void)grace; S o; const int sets = r.chance( 1, 4 ) ? 2 : 1;
        for( int s = 0; s < sets; ++s ) { S b; for( int q = r.chance( 1, 3 ) ? r.range( 2, 5 ) : 1; q > 0; --q ) b += one( r.range( 0, 10 ) ); o += leaf( "notations", b ); }
        return o;
    }
    S pitch() { S o = leaf( "step", S( 1, "ABCDEFG"[r.below( 7 )] ) ); if( r.chance( 1, 2 ) ) o += leaf( "alter", pick( { "-2", "-1", "0", "1", "2", "-1.5", "-0.5", "0.5", "1.5", "0.25", "-0.75", "3", "1.0" } ) ); return leaf( "pitch", o + leaf( "octave", n( r.range( 0, 9 ) ) ) ); }
    S shown() { return r.flip() ? S() : leaf( "display-step", S( 1, "ABCDEFG"[r.below( 7 )] ) ) + leaf( "display-octave", n( r.range( 0, 9 ) ) ); }
    S notehead() { return pick( { "slash", "triangle", "diamond", "square", "cross", "x", "circle-x", "inverted triangle", "arrow down", "arrow up", "slashed", "back slashed", "normal", "cluster", "circle dot", "left triangle", "rectangle", "none", "do", "re", "mi", "fa", "fa up", "so", "la", "ti" } ); }
    // returns whether the position moves on
    S note( int kind /* 0 normal 1 grace 2 cue */, bool chord, bool rest, const S& duration, int voice, int staff )
    {
        Set a; position( a ); a.v.erase( std::remove_if( a.v.begin(), a.v.end(), []( const std::pair<S, S>& x ) { return x.first == "default-x"; } ), a.v.end() );
        a.v.push_back( { "default-x", n( ++serial ) } ); font( a ); color( a ); yes( a, "print-object" );
        S o;
        if( kind == 1 ) o += leaf( "grace", "" );
        if( kind == 2 ) o += leaf( "cue", "" );
        if( chord ) o += leaf( "chord", "" );
        bool measure = false;
        if( rest ) { Set q; if( r.chance( 1, 5 ) ) { measure = r.flip(); q.v.push_back( { "measure", measure ? "yes" : "no" } ); } o += el( "rest", text( q ), shown() ); }
        else if( r.chance( 1, 10 ) ) o += el( "unpitched", "", shown() );
        else o += pitch();
        if( kind != 1 ) o += leaf( "duration", duration );
        if( kind != 2 ) { if( r.chance( 1, 8 ) ) o += "<tie type=\"stop\"/>"; if( r.chance( 1, 8 ) ) o += "<tie type=\"start\"/>"; }
        if( voice ) o += leaf( "voice", n( voice ) );
        if( kind == 1 || r.chance( 5, 6 ) ) { o += leaf( "type", type() ); }
        if( r.chance( 1, 5 ) ) for( int q = r.range( 1, 3 ); q > 0; --q ) o += leaf( "dot", "" );
        if( r.chance( 1, 4 ) ) { Set q; for( auto* x : { "cautionary", "editorial", "parentheses", "bracket" } ) if( r.chance( 1, 3 ) ) q.v.push_back( { x, pick( { "yes", "no" } ) } ); o += el( "accidental", text( q ), accidental() ); }
        if( r.chance( 1, 5 ) ) { S t = leaf( "actual-notes", n( r.range( 2, 13 ) ) ) + leaf( "normal-notes", n( r.range( 1, 12 ) ) ); if( r.flip() ) { t += leaf( "normal-type", type() ); for( int q = r.chance( 1, 3 ) ? r.range( 1, 2 ) : 0; q > 0; --q ) t += leaf( "normal-dot", "" ); } o += leaf( "time-modification", t ); }
        if( r.chance( 1, 4 ) ) o += leaf( "stem", pick( { "up", "down", "none", "double" } ) );
        if( r.chance( 1, 4 ) ) o += leaf( "notehead", notehead() );
        if( staff ) o += leaf( "staff", n( staff ) );
        if( r.chance( 1, 4 ) ) { const int k = r.range( 1, 6 ), first = r.chance( 1, 3 ) ? k : 1; for( int i = 0; i < k; ++i ) o += "<beam number=\"" + n( first == 1 ? i + 1 : k - i ) + "\">" + pick( { "begin", "continue", "end", "forward hook", "backward hook" } ) + "</beam>"; }
        if( r.chance( 1, 2 ) ) o += notations( kind == 1 );
        return el( "note", text( a ), o );
    }
    S directionType()
    {
        switch( r.chance( 1, 12 ) ? 10 : r.range( 0, 9 ) )
        {
            case 0: { S o; for( int q = r.chance( 1, 4 ) ? r.range( 2, 3 ) : 1; q > 0; --q ) { Set a; position( a ); font( a ); lines( a ); if( opt() ) a.v.push_back( { "halign", pick( { "left", "center", "right" } ) } ); o += el( "words", text( a ), word() ); } return o; }
            case 1: { S o; for( int q = r.chance( 1, 4 ) ? r.range( 2, 3 ) : 1; q > 0; --q ) { Set a; position( a ); font( a ); lines( a ); if( opt() ) a.v.push_back( { "halign", pick( { "left", "center", "right" } ) } ); o += el( "rehearsal", text( a ), word() ); } return o; }
            case 2: { Set a; position( a ); color( a ); aligns( a ); return el( "segno", text( a ), "" ); }
            case 3: { Set a; position( a ); color( a ); aligns( a ); return el( "coda", text( a ), "" ); }
            case 4: { Set a; const S t = pick( { "crescendo", "diminuendo", "stop" } ); a.v.push_back( { "type", t } ); level( a ); position( a ); if( opt() ) a.v.push_back( { "spread", posTenths() } ); if( t != "stop" ) { lineType( a ); dashes( a ); } return el( "wedge", text( a ), "" ); }
            case 5: { S o; for( int q = r.chance( 1, 5 ) ? 2 : 1; q > 0; --q ) o += dynamics(); return o; }
            case 6: { Set a; const bool start = r.flip(); a.v.push_back( { "type", start ? "start" : "stop" } ); level( a ); a.v.push_back( { "line-end", pick( { "up", "down", "both", "arrow", "none" } ) } ); position( a ); if( start ) { if( opt() ) a.v.push_back( { "end-length", posTenths() } ); lineType( a ); dashes( a ); color( a ); } return el( "bracket", text( a ), "" ); }
            case 7: { Set a; a.v.push_back( { "type", pick( { "start", "stop" } ) } ); position( a ); if( r.flip() ) { a.v.push_back( { "line", "no" } ); a.v.push_back( { "sign", "yes" } ); } return el( "pedal", text( a ), "" ); }
            case 8:
            {
                Set a; position( a ); font( a ); color( a ); yes( a, "parentheses" );
                auto unit = [&] { S o = leaf( "beat-unit", type() ); for( int q = r.chance( 1, 3 ) ? r.range( 1, 2 ) : 0; q > 0; --q ) o += leaf( "beat-unit-dot", "" ); return o; };
                const int k = r.range( 0, 2 ); S o = unit(); o += k == 0 ? leaf( "per-minute", n( r.range( 1, 400 ) ) ) : k == 1 ? leaf( "per-minute", pick( { "ca. 60", "60-66", "as before" } ) ) : unit();
                return el( "metronome", text( a ), o );
            }
            // what the public structures have no place for
            case 10: { const S k = pick( { "damp", "damp-all", "eyeglasses", "dashes", "other-direction", "pedal", "octave-shift", "string-mute", "bracket" } ); return el( k, k == "dashes" || k == "octave-shift" || k == "bracket" ? S( " type=\"" ) + ( k == "dashes" ? "start" : "continue" ) + "\"" + ( k == "bracket" ? " line-end=\"none\"" : "" ) : k == "pedal" ? " type=\"change\"" : k == "string-mute" ? " type=\"on\"" : "", k == "other-direction" ? word() : S() ); }
            default: { Set a; const S t = pick( { "up", "down", "stop" } ); a.v.push_back( { "type", t } ); level( a ); position( a ); if( r.flip() ) a.v.push_back( { "size", pick( { "8", "15" } ) } ); if( t != "stop" ) { font( a ); dashes( a ); } return el( "octave-shift", text( a ), "" ); }
        }
    }
    S direction( int staff, int back, int forth )
    {
        S o; for( int q = r.chance( 1, 4 ) ? r.range( 2, 3 ) : 1; q > 0; --q ) o += leaf( "direction-type", directionType() );
        if( r.chance( 1, 4 ) ) o += leaf( "offset", n( r.range( -back, forth ) ) );
        if( staff ) o += leaf( "staff", n( staff ) );
        Set a; placement( a ); return el( "direction", text( a ), o );
    }
    S harmony( int staff, int back, int forth )
    {
        auto stepAlter = [&]( const S& w ) { S o = leaf( w + "-step", S( 1, "ABCDEFG"[r.below( 7 )] ) ); if( r.flip() ) o += leaf( w + "-alter", n( r.range( -2, 2 ) ) ); return leaf( w, o ); };
        S o;
        for( int q = r.chance( 1, 5 ) ? 2 : 1; q > 0; --q )
        {
            o += stepAlter( "root" );
            Set k; if( r.flip() ) k.v.push_back( { "text", word() } ); yes( k, "use-symbols" );
            o += el( "kind", text( k ), pick( { "major", "minor", "augmented", "diminished", "dominant", "major-seventh", "minor-seventh", "diminished-seventh", "augmented-seventh", "half-diminished", "major-minor", "major-sixth", "minor-sixth", "dominant-ninth", "major-ninth", "minor-ninth",
                "dominant-11th", "major-11th", "minor-11th", "dominant-13th", "major-13th", "minor-13th", "suspended-second", "suspended-fourth", "Neapolitan", "Italian", "French", "German", "pedal", "power", "Tristan", "other", "none" } ) );
            if( r.chance( 1, 3 ) ) o += stepAlter( "bass" );
            for( int d = r.chance( 1, 2 ) ? r.range( 1, 3 ) : 0; d > 0; --d ) { Set a; yes( a, "print-object" ); o += el( "degree", text( a ), leaf( "degree-value", pick( { "1", "2", "3", "4", "5", "6", "7", "9", "11", "13" } ) ) + leaf( "degree-alter", n( r.range( -2, 2 ) ) ) + leaf( "degree-type", pick( { "add", "alter", "subtract" } ) ) ); }
        }
        if( r.chance( 1, 4 ) ) o += leaf( "offset", n( r.range( -back, forth ) ) );
        if( staff ) o += leaf( "staff", n( staff ) );
        Set a; position( a ); placement( a ); return el( "harmony", text( a ), o );
    }
    S key( int staves )
    {
        Set a; if( staves > 1 && r.flip() ) a.v.push_back( { "number", n( r.range( 1, staves ) ) } );
        S o;
        if( r.chance( 3, 4 ) ) { if( r.chance( 1, 4 ) ) o += leaf( "cancel", n( r.range( -7, 7 ) ) ); o += leaf( "fifths", n( r.range( -7, 7 ) ) ); if( r.flip() ) o += leaf( "mode", pick( { "major", "minor", "dorian", "mixolydian", "aeolian", "none" } ) ); }
        else for( int q = r.range( 1, 4 ); q > 0; --q ) { o += leaf( "key-step", S( 1, "ABCDEFG"[r.below( 7 )] ) ) + leaf( "key-alter", pick( { "-2", "-1", "0", "1", "2", "0.5", "-1.5" } ) ); if( r.flip() ) o += leaf( "key-accidental", accidental() ); }
        return el( "key", text( a ), o );
    }
    S time() { Set a; if( r.chance( 1, 3 ) ) a.v.push_back( { "symbol", pick( { "common", "cut" } ) } ); yes( a, "print-object" ); return el( "time", text( a ), leaf( "beats", pick( { "2", "3", "4", "5", "6", "7", "9", "12" } ) ) + leaf( "beat-type", pick( { "1", "2", "4", "8", "16", "32" } ) ) ); }
    S clef( int staff, int staves, bool start )
    {
        Set a; if( staves > 1 || r.flip() ) a.v.push_back( { "number", n( staff ) } );
        if( start && r.chance( 1, 5 ) ) a.v.push_back( { "after-barline", pick( { "yes", "no" } ) } );
        const S sign = pick( { "G", "F", "C", "percussion", "TAB", "jianpu", "none" } );
        S o = leaf( "sign", sign ); if( sign.size() > 1 || r.chance( 5, 6 ) ) o += leaf( "line", n( r.range( 1, 5 ) ) );
        if( r.chance( 1, 4 ) ) o += leaf( "clef-octave-change", n( r.range( -2, 2 ) ) );
        return el( "clef", text( a ), o );
    }
    S margins( bool all ) { S o = leaf( "left-margin", posTenths() ) + leaf( "right-margin", posTenths() ); if( all ) o += leaf( "top-margin", posTenths() ) + leaf( "bottom-margin", posTenths() ); return o; }
    S layout()
    {
        S o;
        if( r.chance( 2, 3 ) )
        {
            S p = leaf( "page-height", posTenths() ) + leaf( "page-width", posTenths() );
            const int k = r.range( 0, 3 );
            if( k == 1 ) p += "<page-margins" + S( r.flip() ? " type=\"both\"" : "" ) + ">" + margins( true ) + "</page-margins>";
            if( k == 2 ) { const bool oddFirst = r.flip(); for( int i = 0; i < 2; ++i ) p += S( "<page-margins type=\"" ) + ( ( i == 0 ) == oddFirst ? "odd" : "even" ) + "\">" + margins( true ) + "</page-margins>"; }
            if( k == 3 ) p += S( "<page-margins type=\"" ) + pick( { "odd", "even" } ) + "\">" + margins( true ) + "</page-margins>";
            o += leaf( "page-layout", p );
        }
        if( r.chance( 2, 3 ) ) { S s; if( r.flip() ) s += leaf( "system-margins", margins( false ) ); if( r.flip() ) s += leaf( "system-distance", posTenths() ); if( r.flip() ) s += leaf( "top-system-distance", posTenths() ); o += leaf( "system-layout", s ); }
        if( r.flip() ) o += el( "staff-layout", r.flip() ? " number=\"1\"" : "", leaf( "staff-distance", posTenths() ) );
        return o;
    }
    S print() { Set a; if( r.flip() ) a.v.push_back( { "new-system", pick( { "yes", "no" } ) } ); if( r.flip() ) a.v.push_back( { "new-page", pick( { "yes", "no" } ) } ); if( r.chance( 1, 3 ) ) a.v.push_back( { "page-number", n( r.range( 1, 99 ) ) } ); return el( "print", text( a ), layout() ); }
    S barline( const char* location )
    {
        S o; if( r.chance( 3, 4 ) ) o += leaf( "bar-style", pick( { "regular", "dotted", "dashed", "heavy", "light-light", "light-heavy", "heavy-light", "heavy-heavy", "tick", "short", "none" } ) );
        if( r.chance( 1, 3 ) ) { const S no = n( r.range( 1, 4 ) ); o += "<ending number=\"" + no + "\" type=\"" + pick( { "start", "stop", "discontinue" } ) + "\"/>"; }
        if( r.chance( 1, 3 ) ) o += S( "<repeat direction=\"" ) + ( location[0] == 'l' ? "forward" : "backward" ) + "\"/>";
        return "<barline location=\"" + S( location ) + "\">" + o + "</barline>";
    }
    S header()
    {
        S o;
        auto maybe = [&]( const char* e ) { return r.flip() ? leaf( e, word() ) : S(); };
        { const S w = maybe( "work-number" ) + maybe( "work-title" ); if( !w.empty() ) o += leaf( "work", w ); }
        o += maybe( "movement-number" ) + maybe( "movement-title" );
        S i; for( auto* t : { "arranger", "composer", "lyricist", "publisher" } ) if( r.flip() ) i += el( "creator", S( " type=\"" ) + t + "\"", word() );
        if( r.flip() ) i += leaf( "rights", word() );
        if( r.flip() )
        {
            std::vector<S> k;
            if( r.flip() ) { char b[32]; snprintf( b, sizeof b, "%04d-%02d-%02d", r.range( 1900, 2099 ), r.range( 1, 12 ), r.range( 1, 28 ) ); k.push_back( leaf( "encoding-date", b ) ); }
            if( r.flip() ) k.push_back( leaf( "encoder", word() ) );
            for( int q = r.range( 0, 3 ); q > 0; --q ) k.push_back( leaf( "software", word() ) );
            if( r.flip() ) k.push_back( leaf( "encoding-description", word() ) );
            for( int q = r.range( 0, 3 ); q > 0; --q ) { S a = S( " type=\"" ) + pick( { "yes", "no" } ) + "\" element=\"" + pick( { "accidental", "beam", "print", "stem" } ) + "\""; if( r.flip() ) a += " attribute=\"new-page\""; if( r.flip() ) a += " value=\"yes\""; k.push_back( el( "supports", a, "" ) ); }
            for( size_t q = k.size(); q > 1; --q ) std::swap( k[q - 1], k[r.below( q )] );
            S e; for( auto& x : k ) e += x;
            i += leaf( "encoding", e );
        }
        if( r.chance( 1, 3 ) ) { S m; for( int q = r.range( 1, 3 ); q > 0; --q ) m += el( "miscellaneous-field", " name=\"f" + n( ++serial ) + "\"", word() ); i += leaf( "miscellaneous", m ); }
        if( !i.empty() ) o += leaf( "identification", i );
        if( r.chance( 2, 3 ) )
        {
            S d; if( r.flip() ) d += leaf( "scaling", leaf( "millimeters", posTenths() ) + leaf( "tenths", n( r.range( 10, 80 ) ) ) );
            d += layout();
            if( r.flip() ) { S a; for( int q = r.range( 0, 2 ); q > 0; --q ) a += el( "line-width", S( " type=\"" ) + pick( { "beam", "stem", "slur tip", "wedge" } ) + "\"", posTenths() ); for( int q = r.range( 0, 2 ); q > 0; --q ) a += el( "note-size", S( " type=\"" ) + pick( { "cue", "grace", "large" } ) + "\"", n( r.range( 1, 99 ) ) ); if( r.flip() ) a += el( "distance", " type=\"hyphen\"", posTenths() ); if( !a.empty() ) d += leaf( "appearance", a ); }
            if( !d.empty() ) o += leaf( "defaults", d );
        }
        for( int q = r.chance( 1, 2 ) ? r.range( 1, 3 ) : 0; q > 0; --q )
        {
            Set a; position( a ); font( a ); aligns( a ); S c;
            if( r.flip() ) c += leaf( "credit-type", pick( { "title", "subtitle", "page number" } ) );
            o += el( "credit", r.flip() ? " page=\"" + n( r.range( 1, 9 ) ) + "\"" : "", c + el( "credit-words", text( a ), word() ) );
        }
        return o;
    }
    // a name with sharps and flats in it
    S display() { S o = leaf( "display-text", word() ); while( r.chance( 1, 4 ) ) o += r.flip() ? leaf( "accidental-text", pick( { "sharp", "flat" } ) ) : leaf( "display-text", word() ); return o; }
    S partList( int parts, const std::function<S( int )>& id )
    {
        S o; std::map<int, S> open;
        for( int p = 0; p < parts; ++p )
        {
            while( r.chance( 1, 3 ) && (int)open.size() < 4 )
            {
                int no = 1; while( open.count( no ) ) ++no; if( rare ) no += r.range( 0, 3 ); if( open.count( no ) ) break;
                S g; if( r.flip() ) g += leaf( "group-name", word() ); if( r.flip() ) g += leaf( "group-abbreviation", word() ); if( r.chance( 2, 3 ) ) g += leaf( "group-symbol", pick( { "none", "brace", "line", "bracket", "square" } ) );
                o += "<part-group type=\"start\" number=\"" + n( no ) + "\">" + g + "</part-group>"; open[no] = "";
            }
            S s = leaf( "part-name", word() );
            if( r.chance( 1, 3 ) ) s += leaf( "part-name-display", display() );
            if( r.flip() ) s += leaf( "part-abbreviation", word() );
            if( r.chance( 1, 3 ) ) s += leaf( "part-abbreviation-display", display() );
            if( r.flip() )
            {
                const S iid = id( p ) + "-I" + n( r.range( 1, 9 ) );
                S i = leaf( "instrument-name", word() ); if( r.flip() ) i += leaf( "instrument-abbreviation", word() );
                if( r.flip() ) i += leaf( "instrument-sound", pick( { "strings.violin", "brass.trumpet", "wind.flutes.flute", "keyboard.piano", "pluck.guitar", "drum.bass-drum", "voice.soprano", "wind.reed.oboe", "strings.cello", "brass.french-horn", "pitched-percussion.glockenspiel", "synth.pad.warm" } ) );
                if( r.chance( 1, 3 ) ) i += r.flip() ? leaf( "solo", "" ) : leaf( "ensemble", r.flip() ? "" : n( r.range( 2, 20 ) ) );
                if( r.chance( 1, 3 ) ) i += leaf( "virtual-instrument", leaf( "virtual-library", word() ) + leaf( "virtual-name", word() ) );
                s += el( "score-instrument", " id=\"" + iid + "\"", i );
                if( r.flip() ) s += el( "midi-device", r.flip() ? " id=\"" + iid + "\"" : "", word() );
                if( r.flip() )
                {
                    S m; if( r.flip() ) m += leaf( "midi-channel", n( r.range( 1, 16 ) ) ); if( r.flip() ) m += leaf( "midi-name", word() ); if( r.flip() ) m += leaf( "midi-bank", n( r.range( 1, 16384 ) ) ); if( r.flip() ) m += leaf( "midi-program", n( r.range( 1, 128 ) ) ); if( r.chance( 1, 3 ) ) m += leaf( "midi-unpitched", n( r.range( 1, 128 ) ) );
                    if( r.flip() ) m += leaf( "volume", n( r.range( 0, 100 ) ) ); if( r.flip() ) m += leaf( "pan", n( r.range( -90, 90 ) ) ); if( r.chance( 1, 3 ) ) m += leaf( "elevation", n( r.range( -90, 90 ) ) );
                    s += el( "midi-instrument", " id=\"" + iid + "\"", m );
                }
            }
            o += el( "score-part", " id=\"" + id( p ) + "\"", s );
            for( auto i = open.begin(); i != open.end(); ) if( p == parts - 1 || r.chance( 1, 3 ) ) { o += "<part-group type=\"stop\" number=\"" + n( i->first ) + "\"/>"; i = open.erase( i ); } else ++i;
        }
        return leaf( "part-list", o );
    }
    S make()
    {
        static const int dens[] = { 3, 15, 40, 80 }; density = dens[r.below( 4 )]; rare = r.chance( 1, 3 );
        const int np = r.range( 1, 4 ), nm = r.range( 1, 4 );
        auto id = [&]( int p ) { return "P" + n( p * 7 + 1 ); };
        S o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><score-partwise version=\"3.0\">" + header() + partList( np, id );
        std::vector<S> times, numbers, prints; for( int m = 0; m < nm; ++m ) { times.push_back( m == 0 || r.chance( 1, 4 ) ? time() : S() ); numbers.push_back( r.chance( 4, 5 ) ? n( m + 1 ) : "X" + n( m + 1 ) ); prints.push_back( r.chance( 1, 3 ) ? print() : S() ); }
        for( int p = 0; p < np; ++p )
        {
            o += "<part id=\"" + id( p ) + "\">";
            const int div = r.range( 1, 6 ), staves = r.chance( 2, 3 ) ? 1 : r.range( 2, 3 );
            for( int m = 0; m < nm; ++m )
            {
                Set a; a.v.push_back( { "number", numbers[(size_t)m] } ); yes( a, "implicit" ); yes( a, "non-controlling" ); if( opt() ) a.v.push_back( { "width", posTenths() } );
                S x = prints[(size_t)m];
                if( r.chance( 1, 5 ) ) x += barline( "left" );
                {
                    S t; if( m == 0 ) t += leaf( "divisions", n( div ) );
                    if( r.chance( 1, 3 ) ) t += key( staves );
                    t += times[(size_t)m];
                    if( m == 0 && ( staves > 1 || r.flip() ) ) t += leaf( "staves", n( staves ) );
                    for( int i = 1; i <= staves; ++i ) if( r.chance( 1, 2 ) ) t += clef( i, staves, true );
                    if( m == 0 && r.chance( 1, 3 ) ) { S q; if( r.flip() ) q += leaf( "diatonic", n( r.range( -7, 7 ) ) ); q += leaf( "chromatic", n( r.range( -11, 11 ) ) ); if( r.chance( 1, 3 ) ) q += leaf( "octave-change", n( r.range( -2, 2 ) ) ); t += leaf( "transpose", q ); }
                    if( r.chance( 1, 8 ) ) t += leaf( "measure-style", leaf( "multiple-rest", n( r.range( 1, 20 ) ) ) );
                    if( !t.empty() ) x += leaf( "attributes", t );
                }
                int pos = 0, voice = 0;
                for( int s = 1; s <= staves; ++s ) for( int v = r.chance( 1, 4 ) ? 2 : 1; v > 0; --v )
                {
                    if( pos > 0 ) x += leaf( "backup", leaf( "duration", n( pos ) ) );
                    pos = 0; ++voice;
                    const int st = staves > 1 ? s : r.chance( 1, 4 ) ? 1 : 0;
                    for( int e = r.range( 1, 5 ); e > 0; --e )
                    {
                        if( r.chance( 1, 3 ) ) x += direction( st, pos, div * 2 );
                        if( r.chance( 1, 10 ) ) x += harmony( st, pos, div );
                        if( r.chance( 1, 12 ) ) x += "<!-- a comment -->";
                        if( r.chance( 1, 20 ) && pos > 0 ) x += leaf( "attributes", ( r.flip() ? key( staves ) : S() ) + clef( s, staves, false ) );
                        const int kind = r.chance( 1, 8 ) ? 1 : r.chance( 1, 10 ) ? 2 : 0, d = r.range( 1, div * 4 );
                        const bool rest = kind == 0 && r.chance( 1, 6 ); const int chord = rest ? 1 : r.chance( 1, 5 ) ? r.range( 2, 3 ) : 1;
                        for( int c = 0; c < chord; ++c ) { x += note( kind, c > 0, rest, n( d ), voice, st ); if( r.chance( 1, 24 ) ) x += S( "<bookmark id=\"b" ) + n( ++bookmarks ) + "\"/>"; }
                        if( kind != 1 ) pos += d;
                    }
                }
                if( r.chance( 1, 4 ) ) x += barline( "right" );
                o += el( "measure", text( a ), x );
            }
            o += "</part>";
        }
        return o + "</score-partwise>";
    }
};
