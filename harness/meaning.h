// What a document says and what score data says, each as a list of statements in the vocabulary of MusicXML.
// The tables here are written from the MusicXML schema and the comments of the public headers, not from the library.
#pragma once
#include "gen_score.h"
#include "canon.h"
#include "xmlio.h"
#include "timeline.h"
namespace mean
{
using namespace mx::api;
using xg::El;
using Facts = std::vector<std::string>;   // sorted before comparison
inline std::string num( long double v ) { char b[64]; snprintf( b, sizeof b, "%.4Lf", v ); std::string s = b; while( s.back() == '0' ) s.pop_back(); if( s.back() == '.' ) s.pop_back(); return s == "-0" ? "0" : s; }
inline std::string trim( const std::string& t ) { size_t i = 0, e = t.size(); while( i < e && strchr( " \t\r\n", t[i] ) ) ++i; while( e > i && strchr( " \t\r\n", t[e - 1] ) ) --e; return t.substr( i, e - i ); }
inline std::string numText( const std::string& t ) { const std::string q = trim( t ); char* e = nullptr; const long double v = strtold( q.c_str(), &e ); return q.empty() || *e ? "?" + q : num( v ); }
// someName12Th -> some-name-12th
inline std::string kebab( const std::string& s, char sep = '-' )
{
    std::string o;
    for( size_t i = 0; i < s.size(); ++i )
    {
        const char c = s[i];
        if( isupper( (unsigned char)c ) ) { if( i && !isdigit( (unsigned char)s[i - 1] ) ) o += sep; o += (char)tolower( c ); }
        else if( isdigit( (unsigned char)c ) && i && !isdigit( (unsigned char)s[i - 1] ) ) { o += sep; o += c; }
        else o += c;
    }
    return o;
}
template<class E> inline std::string plain( E e ) { return kebab( rf::enumName( e ) ); }
inline std::string word( DurationName d )
{
    switch( d ) { case DurationName::longa: return "long"; case DurationName::dur16th: return "16th"; case DurationName::dur32nd: return "32nd"; case DurationName::dur64th: return "64th"; case DurationName::dur128th: return "128th";
        case DurationName::dur256th: return "256th"; case DurationName::dur512th: return "512th"; case DurationName::dur1024th: return "1024th"; default: return plain( d ); }
}
inline std::string word( Beam b ) { return b == Beam::extend ? "continue" : b == Beam::forwardBroken ? "forward hook" : b == Beam::backwardBroken ? "backward hook" : plain( b ); }
inline std::string word( Stem s ) { return s == Stem::both ? "double" : plain( s ); }
inline std::string word( Notehead n ) { return n == Notehead::circleX ? "circle-x" : n == Notehead::do_ ? "do" : kebab( rf::enumName( n ), ' ' ); }
inline std::string word( BarlineType b ) { return b == BarlineType::normal ? "regular" : plain( b ); }
inline std::string word( ClefSymbol c ) { switch( c ) { case ClefSymbol::g: return "G"; case ClefSymbol::f: return "F"; case ClefSymbol::c: return "C"; case ClefSymbol::tab: return "TAB"; default: return plain( c ); } }
inline std::string word( Step s ) { return (int)s < 0 || (int)s > 6 ? "?" : std::string( 1, "CDEFGAB"[(int)s] ); }
inline std::string word( Accidental a ) { return plain( a ); }
inline std::string word( ChordKind k )
{
    switch( k ) { case ChordKind::dominant11Th: return "dominant-11th"; case ChordKind::major11Th: return "major-11th"; case ChordKind::minor11Th: return "minor-11th"; case ChordKind::dominant13Th: return "dominant-13th";
        case ChordKind::major13Th: return "major-13th"; case ChordKind::minor13Th: return "minor-13th"; case ChordKind::neapolitan: return "Neapolitan"; case ChordKind::italian: return "Italian"; case ChordKind::french: return "French";
        case ChordKind::german: return "German"; case ChordKind::tristan: return "Tristan"; default: return plain( k ); }
}
inline std::string word( ExtensionType t ) { return t == ExtensionType::remove ? "subtract" : plain( t ); }
inline int number( ExtensionNumber n ) { switch( n ) { case ExtensionNumber::first: return 1; case ExtensionNumber::second: return 2; case ExtensionNumber::third: return 3; case ExtensionNumber::fourth: return 4; case ExtensionNumber::fifth: return 5;
    case ExtensionNumber::sixth: return 6; case ExtensionNumber::seventh: return 7; case ExtensionNumber::ninth: return 9; case ExtensionNumber::eleventh: return 11; case ExtensionNumber::thirteenth: return 13; } return 0; }
inline int number( ExtensionAlter a ) { switch( a ) { case ExtensionAlter::none: return 0; case ExtensionAlter::flat: return -1; case ExtensionAlter::sharp: return 1; case ExtensionAlter::doubleFlat: return -2; case ExtensionAlter::doubleSharp: return 2; } return 9; }
inline std::string word( Bool b ) { return b == Bool::yes ? "yes" : "no"; }

// ------------------------------------------------------------ attributes, as sorted "name=value" words
struct Attrs
{
    std::map<std::string, std::string> m;
    void set( const std::string& n, const std::string& v ) { m[n] = v; }
    std::string s() const { std::string o = "{"; for( auto& x : m ) o += " " + x.first + "=" + x.second; return o + " }"; }
};
inline void put( Attrs& a, const PositionData& p, bool placement = true )
{
    if( p.isDefaultXSpecified ) a.set( "default-x", num( p.defaultX ) );
    if( p.isDefaultYSpecified ) a.set( "default-y", num( p.defaultY ) );
    if( p.isRelativeXSpecified ) a.set( "relative-x", num( p.relativeX ) );
    if( p.isRelativeYSpecified ) a.set( "relative-y", num( p.relativeY ) );
    if( placement && p.placement != Placement::unspecified ) a.set( "placement", plain( p.placement ) );
    if( p.verticalAlignment != VerticalAlignment::unspecified ) a.set( "valign", plain( p.verticalAlignment ) );
    if( p.horizontalAlignmnet != HorizontalAlignment::unspecified ) a.set( "halign", plain( p.horizontalAlignmnet ) );
}
inline void put( Attrs& a, const ColorData& c )
{
    char b[16]; if( c.isAlphaSpecified ) snprintf( b, sizeof b, "#%02X%02X%02X%02X", c.alpha, c.red, c.green, c.blue ); else snprintf( b, sizeof b, "#%02X%02X%02X", c.red, c.green, c.blue );
    a.set( "color", b );
}
inline void put( Attrs& a, const FontData& f )
{
    if( f.sizeType == FontSizeType::point ) a.set( "font-size", num( f.sizePoint ) );
    if( f.sizeType == FontSizeType::css ) a.set( "font-size", plain( f.sizeCss ) );
    if( f.style != FontStyle::unspecified ) a.set( "font-style", plain( f.style ) );
    if( f.weight != FontWeight::unspecified ) a.set( "font-weight", plain( f.weight ) );
    std::string s; for( auto& x : f.fontFamily ) s += ( s.empty() ? "" : "," ) + x;
    if( !s.empty() ) a.set( "font-family", s );
    if( f.underline > 0 ) a.set( "underline", std::to_string( f.underline ) );
    if( f.overline > 0 ) a.set( "overline", std::to_string( f.overline ) );
    if( f.lineThrough > 0 ) a.set( "line-through", std::to_string( f.lineThrough ) );
}
inline void put( Attrs& a, const PrintData& p ) { put( a, p.fontData ); if( p.isColorSpecified ) put( a, p.color ); if( p.printObject != Bool::unspecified ) a.set( "print-object", word( p.printObject ) ); }
inline void put( Attrs& a, const LineData& l )
{
    if( l.lineType != LineType::unspecified ) a.set( "line-type", plain( l.lineType ) );
    if( l.isDashLengthSpecified ) a.set( "dash-length", num( l.dashLength ) );
    if( l.isSpaceLengthSpecified ) a.set( "space-length", num( l.spaceLength ) );
    if( l.lineHook != LineHook::unspecified ) a.set( "line-end", plain( l.lineHook ) );
    if( l.isStopLengthSpecified ) a.set( "end-length", num( l.endLength ) );
}
inline void put( Attrs& a, const CurvePoints& p )
{
    put( a, p.positionData );
    if( p.isBezierXSpecified ) a.set( "bezier-x", num( p.bezierX ) );
    if( p.isBezierYSpecified ) a.set( "bezier-y", num( p.bezierY ) );
    if( p.isBezierOffsetSpecified ) a.set( "bezier-offset", num( p.bezierOffset ) );
}
inline const std::set<std::string>& numeric() { static const std::set<std::string> s{ "default-x", "default-y", "relative-x", "relative-y", "dash-length", "space-length", "end-length", "bezier-x", "bezier-y", "bezier-offset", "bezier-x2", "bezier-y2", "bezier-offset2",
    "underline", "overline", "line-through", "number", "spread", "size", "page", "width" }; return s; }
// attributes of the element, but for those named
inline Attrs attrsOf( const El& e, std::initializer_list<const char*> skip = {} )
{
    Attrs a;
    for( auto& x : e.attrs )
    {
        bool no = false; for( auto* q : skip ) if( x.first == q ) no = true;
        if( no ) continue;
        const std::string t = trim( x.second );
        if( numeric().count( x.first ) ) a.set( x.first, numText( t ) );
        else if( x.first == "font-size" ) a.set( x.first, !t.empty() && isalpha( (unsigned char)t[0] ) ? t : numText( t ) );
        else if( x.first == "font-family" )
        {
            std::string o, w; for( char c : t + "," ) if( c == ',' ) { w = trim( w ); o += ( o.empty() ? "" : "," ) + w; w.clear(); } else w += c;
            a.set( x.first, o );
        }
        else if( x.first == "color" ) { std::string u = t; for( auto& c : u ) c = (char)toupper( c ); a.set( x.first, u ); }
        else a.set( x.first, t );
    }
    return a;
}
inline std::string attr( const El& e, const char* n, const char* none = "" ) { auto* a = e.attr( n ); return a ? trim( *a ) : none; }
inline std::string text( const El& e ) { return trim( e.text ); }
inline std::string kidText( const El& e, const char* n, const char* none = "-" ) { auto* k = tl::kid( e, n ); return k ? trim( k->text ) : none; }
inline std::string kidNum( const El& e, const char* n, const char* none = "-" ) { auto* k = tl::kid( e, n ); return k ? numText( k->text ) : none; }
inline int countKids( const El& e, const char* n ) { int c = 0; for( auto& k : e.kids ) c += k.name == n; return c; }

// ------------------------------------------------------------ marks
inline std::string markFact( const MarkData& m )
{
    using M = MarkType; const M t = m.markType; Attrs a; put( a, m.positionData ); put( a, m.printData );
    const std::string n = rf::enumName( t );
    std::string f;
    if( t == M::customAccentTenuto ) { put( a, m.positionData ); return "articulations/other-articulation[" + std::string( markStringCustomAccentTenuto ) + "]" + a.s(); }
    if( n.compare( 0, 14, "accidentalMark" ) == 0 ) { std::string r = n.substr( 14 ); r[0] = (char)tolower( r[0] ); return "accidental-mark[" + kebab( r ) + "]" + a.s(); }
    if( n.compare( 0, 7, "fermata" ) == 0 )
    {
        std::string r = n.substr( 7 ), shape, type;
        for( const char* q : { "Upright", "Inverted" } ) if( r.size() >= strlen( q ) && r.compare( r.size() - strlen( q ), strlen( q ), q ) == 0 ) { type = q; r.resize( r.size() - strlen( q ) ); type[0] = (char)tolower( type[0] ); break; }
        shape = r; if( !shape.empty() ) shape[0] = (char)tolower( shape[0] );
        if( shape.empty() ) shape = "normal"; // the default of the schema
        a.m.erase( "placement" ); if( !type.empty() ) a.set( "type", type );
        return "fermata[" + shape + "]" + a.s();
    }
    if( n.compare( 0, 13, "tremoloSingle" ) == 0 ) { static const std::map<std::string, int> c{ { "One", 1 }, { "Two", 2 }, { "Three", 3 }, { "Four", 4 }, { "Five", 5 } }; return "ornaments/tremolo[" + std::to_string( c.at( n.substr( 13 ) ) ) + "]" + a.s(); }
    if( t == M::arpeggiate || t == M::arpeggiateUp || t == M::arpeggiateDown ) { if( t != M::arpeggiate ) a.set( "direction", t == M::arpeggiateUp ? "up" : "down" ); return "arpeggiate[]" + a.s(); }
    if( t == M::nonArpeggiate ) return "non-arpeggiate[]" + a.s();
    if( t == M::pedal || t == M::damp ) { a.m.erase( "placement" ); return std::string( "pedal[" ) + ( t == M::pedal ? "start" : "stop" ) + "]" + a.s(); }
    static const std::set<M> orn{ M::trillMark, M::turn, M::delayedTurn, M::invertedTurn, M::delayedInvertedTurn, M::verticalTurn, M::shake, M::wavyLine, M::mordent, M::invertedMordent, M::schleifer, M::otherOrnament },
        art{ M::accent, M::strongAccent, M::staccato, M::tenuto, M::detachedLegato, M::staccatissimo, M::spiccato, M::scoop, M::plop, M::doit, M::falloff, M::breathMark, M::caesura, M::stress, M::unstress, M::otherArticulation },
        tec{ M::upBow, M::downBow, M::harmonic, M::openString, M::thumbPosition, M::doubleTongue, M::tripleTongue, M::stopped, M::snapPizzicato, M::heel, M::toe, M::fingernails, M::otherTechnical };
    f = orn.count( t ) ? "ornaments/" : art.count( t ) ? "articulations/" : tec.count( t ) ? "technical/" : "dynamics/";
    return f + kebab( n ) + "[" + ( hasOwnText( t ) ? trim( m.name ) : "" ) + "]" + a.s();
}
// statements of one child of notations (or of a dynamics element)
inline void notationFacts( const El& k, Facts& out )
{
    if( k.name == "tied" || k.name == "slur" ) { out.push_back( k.name + " " + attr( k, "type" ) + attrsOf( k, { "type" } ).s() ); return; }
    if( k.name == "tuplet" )
    {
        std::string s = "tuplet " + attr( k, "type" );
        if( attr( k, "type" ) == "start" )
        {
            auto side = [&]( const char* n ) { auto* e = tl::kid( k, n ); return e ? kidNum( *e, "tuplet-number" ) + " " + kidText( *e, "tuplet-type" ) + " " + std::to_string( countKids( *e, "tuplet-dot" ) ) : std::string( "-" ); };
            s += " " + side( "tuplet-actual" ) + " : " + side( "tuplet-normal" );
        }
        out.push_back( s + attrsOf( k, { "type" } ).s() ); return;
    }
    if( k.name == "articulations" || k.name == "technical" || k.name == "ornaments" )
    {
        for( auto& q : k.kids )
        {
            auto a = attrsOf( q );
            std::string t = text( q );
            if( q.name == "tremolo" ) { t = numText( t ); if( attr( q, "type" ) == "single" ) a.m.erase( "type" ); }
            else if( q.name == "wavy-line" ) { if( attr( q, "type" ) == "start" ) a.m.erase( "type" ); }
            else if( q.name.compare( 0, 6, "other-" ) ) t = "";
            out.push_back( q.name == "accidental-mark" ? "accidental-mark[" + text( q ) + "]" + a.s() : k.name + "/" + q.name + "[" + t + "]" + a.s() );
        }
        return;
    }
    if( k.name == "dynamics" ) { for( auto& q : k.kids ) out.push_back( "dynamics/" + q.name + "[" + ( q.name == "other-dynamics" ? text( q ) : "" ) + "]" + attrsOf( k ).s() ); return; }
    if( k.name == "fermata" ) { out.push_back( "fermata[" + ( text( k ).empty() ? "normal" : text( k ) ) + "]" + attrsOf( k ).s() ); return; }
    if( k.name == "arpeggiate" ) { out.push_back( k.name + "[]" + attrsOf( k ).s() ); return; }
    if( k.name == "non-arpeggiate" ) { auto a = attrsOf( k, { "type" } ); out.push_back( k.name + "[]" + a.s() ); return; }
    if( k.name == "accidental-mark" ) { out.push_back( "accidental-mark[" + text( k ) + "]" + attrsOf( k ).s() ); return; }
    out.push_back( k.name + "?" );
}
// ------------------------------------------------------------ notes
inline Facts facts( const NoteData& n )
{
    Facts f; const auto& p = n.pitchData; const auto& d = n.durationData;
    const bool unp = n.isUnpitched && !n.isRest;
    if( n.isRest || unp ) f.push_back( std::string( n.isRest ? n.isMeasureRest ? "measure rest" : "rest" : "unpitched" ) + ( n.isDisplayStepOctaveSpecified ? " " + word( p.step ) + std::to_string( p.octave ) : "" ) );
    else f.push_back( "pitch " + word( p.step ) + " " + num( p.alter + (long double)p.cents / 100 ) + " " + std::to_string( p.octave ) );
    f.push_back( n.noteType == NoteType::grace ? "grace" : n.noteType == NoteType::cue ? "cue" : "normal" );
    if( d.durationName != DurationName::unspecified && !n.isMeasureRest ) f.push_back( "type " + word( d.durationName ) );
    f.push_back( "dots " + std::to_string( d.durationDots ) );
    if( ( d.timeModificationActualNotes > 1 || d.timeModificationNormalNotes > 1 ) ) f.push_back( "time-modification " + std::to_string( d.timeModificationActualNotes ) + ":" + std::to_string( d.timeModificationNormalNotes ) );
    if( d.timeModificationNormalType != DurationName::unspecified ) f.push_back( "normal-type " + word( d.timeModificationNormalType ) + " " + std::to_string( d.timeModificationNormalTypeDots ) );
    if( n.isTieStart ) f.push_back( "tie start" );
    if( n.isTieStop ) f.push_back( "tie stop" );
    for( size_t i = 0; i < n.beams.size(); ++i ) f.push_back( "beam " + std::to_string( i + 1 ) + " " + word( n.beams[i] ) );
    if( n.stem != Stem::unspecified ) f.push_back( "stem " + word( n.stem ) );
    f.push_back( "notehead " + word( n.notehead ) );
    if( p.accidental != Accidental::none ) f.push_back( "accidental " + word( p.accidental ) + ( p.isAccidentalParenthetical ? " parentheses" : "" ) + ( p.isAccidentalCautionary ? " cautionary" : "" ) + ( p.isAccidentalEditorial ? " editorial" : "" ) + ( p.isAccidentalBracketed ? " bracket" : "" ) );
    Attrs a; put( a, n.positionData ); put( a, n.printData ); f.push_back( "note" + a.s() );
    const auto& t = n.noteAttachmentData;
    auto name = []( CurveType c ) { return std::string( c == CurveType::slur ? "slur" : c == CurveType::tie ? "tied" : "?" ); };
    auto level = []( Attrs& q, int l ) { if( l > 0 ) q.set( "number", std::to_string( l ) ); };
    for( auto& c : t.curveStarts ) { Attrs q; put( q, c.curvePoints ); put( q, c.lineData ); level( q, c.numberLevel ); if( c.curveOrientation == CurveOrientation::overhand ) q.set( "orientation", "over" ); if( c.curveOrientation == CurveOrientation::underhand ) q.set( "orientation", "under" ); if( c.isColorSpecified ) put( q, c.colorData ); f.push_back( name( c.curveType ) + " start" + q.s() ); }
    for( auto& c : t.curveStops ) { Attrs q; put( q, c.curvePoints ); level( q, c.numberLevel ); f.push_back( name( c.curveType ) + " stop" + q.s() ); }
    for( auto& c : t.curveContinuations ) { Attrs q; put( q, c.curvePoints ); level( q, c.numberLevel ); if( c.isBezierX2Specified ) q.set( "bezier-x2", num( c.bezierX2 ) ); if( c.isBezierY2Specified ) q.set( "bezier-y2", num( c.bezierY2 ) ); if( c.isBezierOffset2Specified ) q.set( "bezier-offset2", num( c.bezierOffset2 ) ); f.push_back( name( c.curveType ) + " continue" + q.s() ); }
    for( auto& u : t.tupletStarts )
    {
        Attrs q; put( q, u.positionData ); level( q, u.numberLevel ); if( u.bracket != Bool::unspecified ) q.set( "bracket", word( u.bracket ) );
        if( u.showActualNumber == Bool::no && u.showNormalNumber == Bool::no ) q.set( "show-number", "none" );
        if( u.showActualNumber == Bool::yes ) q.set( "show-number", u.showNormalNumber == Bool::yes ? "both" : "actual" );
        auto side = []( int n1, DurationName dn, int dots ) { return ( n1 < 0 ? "-" : std::to_string( n1 ) ) + " " + ( dn == DurationName::unspecified ? "-" : word( dn ) ) + " " + std::to_string( std::max( 0, dots ) ); };
        f.push_back( "tuplet start " + side( u.actualNumber, u.actualDurationName, u.actualDots ) + " : " + side( u.normalNumber, u.normalDurationName, u.normalDots ) + q.s() );
    }
    for( auto& u : t.tupletStops ) { Attrs q; put( q, u.positionData ); level( q, u.numberLevel ); f.push_back( "tuplet stop" + q.s() ); }
    for( auto& m : t.marks ) f.push_back( markFact( m ) );
    std::sort( f.begin(), f.end() );
    return f;
}
inline Facts facts( const El& n )
{
    Facts f;
    if( auto* p = tl::kid( n, "pitch" ) ) f.push_back( "pitch " + kidText( *p, "step" ) + " " + kidNum( *p, "alter", "0" ) + " " + kidNum( *p, "octave" ) );
    auto shown = [&]( const El& e ) { return tl::kid( e, "display-step" ) ? " " + kidText( e, "display-step" ) + kidNum( e, "display-octave" ) : std::string(); };
    bool measureRest = false;
    if( auto* r = tl::kid( n, "rest" ) ) { measureRest = attr( *r, "measure" ) == "yes"; f.push_back( ( measureRest ? "measure rest" : "rest" ) + shown( *r ) ); }
    if( auto* u = tl::kid( n, "unpitched" ) ) f.push_back( "unpitched" + shown( *u ) );
    f.push_back( tl::kid( n, "grace" ) ? "grace" : tl::kid( n, "cue" ) ? "cue" : "normal" );
    if( auto* t = tl::kid( n, "type" ) ) if( !measureRest ) f.push_back( "type " + text( *t ) );
    f.push_back( "dots " + std::to_string( countKids( n, "dot" ) ) );
    if( auto* t = tl::kid( n, "time-modification" ) )
    {
        const std::string r = kidNum( *t, "actual-notes" ) + ":" + kidNum( *t, "normal-notes" );
        if( r != "1:1" ) f.push_back( "time-modification " + r );
        // a normal type that is the type of the note says nothing new
        if( tl::kid( *t, "normal-type" ) && ( kidText( *t, "normal-type" ) != kidText( n, "type" ) || countKids( *t, "normal-dot" ) ) ) f.push_back( "normal-type " + kidText( *t, "normal-type" ) + " " + std::to_string( countKids( *t, "normal-dot" ) ) );
    }
    std::set<std::string> ties; for( auto& k : n.kids ) if( k.name == "tie" ) ties.insert( "tie " + attr( k, "type" ) );
    f.insert( f.end(), ties.begin(), ties.end() );
    // levels without a gap from the first
    std::map<int, std::string> beams; int at = 0; for( auto& k : n.kids ) if( k.name == "beam" ) { ++at; beams[k.attr( "number" ) ? atoi( k.attr( "number" )->c_str() ) : at] = text( k ); }
    at = 0; for( auto& b : beams ) f.push_back( "beam " + std::to_string( ++at ) + " " + b.second );
    if( auto* s = tl::kid( n, "stem" ) ) f.push_back( "stem " + text( *s ) );
    f.push_back( "notehead " + kidText( n, "notehead", "normal" ) );
    if( auto* a = tl::kid( n, "accidental" ) ) { auto yes = [&]( const char* q ) { return attr( *a, q ) == "yes" ? std::string( " " ) + q : std::string(); }; f.push_back( "accidental " + text( *a ) + yes( "parentheses" ) + yes( "cautionary" ) + yes( "editorial" ) + yes( "bracket" ) ); }
    f.push_back( "note" + attrsOf( n ).s() );
    for( auto& k : n.kids ) if( k.name == "notations" ) for( auto& q : k.kids ) notationFacts( q, f );
    std::sort( f.begin(), f.end() );
    return f;
}
// ------------------------------------------------------------ directions
inline void facts( const DirectionData& d, Facts& f )
{
    const std::string pl = d.placement == Placement::unspecified ? "" : "(" + plain( d.placement ) + ") ";
    auto level = []( Attrs& q, int l ) { if( l > 0 ) q.set( "number", std::to_string( l ) ); };
    auto add = [&]( const std::string& s ) { f.push_back( pl + s ); };
    for( auto& m : d.marks ) add( markFact( m ) );
    for( auto& w : d.wedgeStops ) { Attrs a; put( a, w.positionData ); level( a, w.numberLevel ); if( w.isSpreadSpecified ) a.set( "spread", num( w.spread ) ); add( "wedge stop" + a.s() ); }
    for( auto& w : d.wedgeStarts ) { Attrs a; put( a, w.positionData ); put( a, w.lineData ); level( a, w.numberLevel ); if( w.isSpreadSpecified ) a.set( "spread", num( w.spread ) ); add( "wedge " + plain( w.wedgeType ) + a.s() ); }
    auto span = [&]( const SpannerStart& s, bool placement ) { Attrs a; put( a, s.positionData, placement ); put( a, s.printData ); put( a, s.lineData ); level( a, s.numberLevel ); return a; };
    for( auto& o : d.ottavaStops ) { Attrs a; put( a, o.positionData ); level( a, o.numberLevel ); add( "octave-shift stop" + a.s() ); }
    for( auto& o : d.ottavaStarts )
    {
        // MusicXML: a line noted 8va is a shift down of what is printed from the pitches
        const auto t = o.ottavaType; Attrs a = span( o.spannerStart, true ); a.set( "size", t == OttavaType::o15ma || t == OttavaType::o15mb ? "15" : "8" );
        add( std::string( "octave-shift " ) + ( t == OttavaType::o8va || t == OttavaType::o15ma ? "down" : "up" ) + a.s() );
    }
    for( auto& o : d.bracketStops ) { Attrs a; put( a, o.positionData, false ); level( a, o.numberLevel ); add( "bracket stop" + a.s() ); }
    for( auto& o : d.bracketStarts ) add( "bracket start" + span( o, false ).s() );
    for( auto& t : d.tempos )
    {
        Attrs a; put( a, t.positionData ); put( a, t.printData ); if( t.isParenthetical != Bool::unspecified ) a.set( "parentheses", word( t.isParenthetical ) );
        auto unit = []( DurationName n, int dots ) { return word( n ) + std::string( (size_t)std::max( 0, dots ), '.' ); };
        std::string s = "metronome ";
        if( t.tempoType == TempoType::beatsPerMinute ) s += unit( t.beatsPerMinute.durationName, t.beatsPerMinute.dots ) + " = " + std::to_string( t.beatsPerMinute.beatsPerMinute );
        if( t.tempoType == TempoType::tempoText ) s += unit( t.beatsPerMinute.durationName, t.beatsPerMinute.dots ) + " = " + t.tempoText.tempoText;
        if( t.tempoType == TempoType::metricModulation ) s += unit( t.metricModulation.leftDurationName, t.metricModulation.leftDots ) + " = " + unit( t.metricModulation.rightDurationName, t.metricModulation.rightDots );
        add( s + a.s() );
    }
    auto simple = [&]( const char* n, const std::string& t, const PositionData& p, const FontData* font, bool color, const ColorData& c ) { Attrs a; put( a, p ); if( font ) put( a, *font ); if( color ) put( a, c ); add( std::string( n ) + "[" + t + "]" + a.s() ); };
    for( auto& w : d.words ) simple( "words", w.text, w.positionData, &w.fontData, w.isColorSpecified, w.colorData );
    for( auto& w : d.rehearsals ) simple( "rehearsal", w.text, w.positionData, &w.fontData, w.isColorSpecified, w.colorData );
    for( auto& w : d.segnos ) simple( "segno", "", w.positionData, nullptr, w.isColorSpecified, w.colorData );
    for( auto& w : d.codas ) simple( "coda", "", w.positionData, nullptr, w.isColorSpecified, w.colorData );
    for( auto& c : d.chords )
    {
        Attrs a; put( a, c.positionData, false ); // placed where its direction is
        std::string s = "harmony " + word( c.root ) + " " + std::to_string( c.rootAlter ) + " " + word( c.chordKind ) + " [" + trim( c.text ) + "] symbols=" + ( c.useSymbols == Bool::unspecified ? "-" : word( c.useSymbols ) );
        if( c.bass != Step::unspecified ) s += " / " + word( c.bass ) + " " + std::to_string( c.bassAlter );
        for( auto& e : c.extensions ) s += " " + word( e.extensionType ) + " " + std::to_string( number( e.extensionNumber ) ) + " " + std::to_string( number( e.extensionAlter ) ) + ( e.printObject == Bool::unspecified ? "" : " print " + word( e.printObject ) );
        add( s + a.s() );
    }
}
inline std::string alterText( const El& e, const char* n ) { return kidNum( e, n, "0" ); }
// statements of a direction or harmony element; what the public structures cannot say is left out
inline void facts( const El& d, Facts& f )
{
    const std::string pl = d.attr( "placement" ) ? "(" + attr( d, "placement" ) + ") " : "";
    if( d.name == "harmony" )
    {
        // root, kind, inversion, bass, degree ... begin again with each root
        std::vector<std::vector<const El*>> groups;
        for( auto& k : d.kids ) { if( k.name == "root" ) groups.emplace_back(); if( k.name == "root" || k.name == "kind" || k.name == "bass" || k.name == "degree" ) if( !groups.empty() ) groups.back().push_back( &k ); }
        for( auto& g : groups )
        {
            std::string s, root, kind, bass, ext;
            for( auto* k : g )
            {
                if( k->name == "root" ) root = kidText( *k, "root-step" ) + " " + alterText( *k, "root-alter" );
                if( k->name == "kind" ) kind = text( *k ) + " [" + attr( *k, "text" ) + "] symbols=" + attr( *k, "use-symbols", "-" );
                if( k->name == "bass" ) bass = " / " + kidText( *k, "bass-step" ) + " " + alterText( *k, "bass-alter" );
                if( k->name == "degree" ) ext += " " + kidText( *k, "degree-type" ) + " " + kidNum( *k, "degree-value" ) + " " + kidNum( *k, "degree-alter" ) + ( k->attr( "print-object" ) ? " print " + attr( *k, "print-object" ) : "" );
            }
            f.push_back( pl + "harmony " + root + " " + kind + bass + ext + attrsOf( d, { "placement" } ).s() );
        }
        return;
    }
    for( auto& t : d.kids ) if( t.name == "direction-type" ) for( auto& k : t.kids )
    {
        std::string s;
        if( k.name == "dynamics" ) { Facts q; notationFacts( k, q ); for( auto& x : q ) f.push_back( pl + x ); continue; }
        if( k.name == "words" || k.name == "rehearsal" || k.name == "segno" || k.name == "coda" ) s = k.name + "[" + ( k.name == "words" || k.name == "rehearsal" ? k.text : "" ) + "]" + attrsOf( k ).s();
        else if( k.name == "wedge" || k.name == "bracket" || k.name == "octave-shift" )
        {
            auto a = attrsOf( k, { "type" } ); const std::string y = attr( k, "type" );
            if( y == "continue" ) continue;
            if( k.name == "octave-shift" ) { if( y == "stop" ) a.m.erase( "size" ); else if( !a.m.count( "size" ) ) a.set( "size", "8" ); }
            if( k.name == "bracket" && y == "stop" ) { a.m.erase( "line-end" ); a.m.erase( "end-length" ); }
            s = k.name + " " + y + a.s();
        }
        else if( k.name == "pedal" && attr( k, "type" ) != "start" && attr( k, "type" ) != "stop" ) continue;
        else if( k.name == "pedal" ) s = "pedal[" + attr( k, "type" ) + "]" + attrsOf( k, { "type", "line", "sign" } ).s();
        else if( k.name == "metronome" )
        {
            std::vector<std::string> units; std::string right;
            for( auto& q : k.kids ) { if( q.name == "beat-unit" ) units.push_back( text( q ) ); if( q.name == "beat-unit-dot" && !units.empty() ) units.back() += "."; if( q.name == "per-minute" ) right = q.text; }
            if( units.empty() ) continue;
            s = "metronome " + units[0] + " = " + ( units.size() > 1 ? units[1] : right ) + attrsOf( k ).s();
        }
        else continue;
        f.push_back( pl + s );
    }
}
// ------------------------------------------------------------ measures and scores
inline std::string margin( const MarginsData& m, const char* type ) { return std::string( "margins " ) + type + " " + num( m.left ) + " " + num( m.right ) + " " + num( m.top ) + " " + num( m.bottom ); }
inline void layoutFacts( const PageLayoutData& p, const SystemLayoutData& s, Facts& f )
{
    if( p.size ) f.push_back( "page-size " + num( p.size->width ) + " x " + num( p.size->height ) );
    if( p.margins.odd ) f.push_back( margin( *p.margins.odd, "odd" ) );
    if( p.margins.even ) f.push_back( margin( *p.margins.even, "even" ) );
    if( s.margins ) f.push_back( "system-margins " + num( s.margins->left ) + " " + num( s.margins->right ) );
    if( s.systemDistance ) f.push_back( "system-distance " + num( *s.systemDistance ) );
    if( s.topSystemDistance ) f.push_back( "top-system-distance " + num( *s.topSystemDistance ) );
    if( s.staffDistance ) f.push_back( "staff-distance " + num( *s.staffDistance ) );
}
inline void layoutFacts( const El& e, Facts& f )
{
    if( auto* p = tl::kid( e, "page-layout" ) )
    {
        if( tl::kid( *p, "page-height" ) ) f.push_back( "page-size " + kidNum( *p, "page-width" ) + " x " + kidNum( *p, "page-height" ) );
        for( auto& m : p->kids ) if( m.name == "page-margins" )
        {
            const std::string v = " " + kidNum( m, "left-margin" ) + " " + kidNum( m, "right-margin" ) + " " + kidNum( m, "top-margin" ) + " " + kidNum( m, "bottom-margin" ), t = attr( m, "type", "both" );
            if( t != "even" ) f.push_back( "margins odd" + v );
            if( t != "odd" ) f.push_back( "margins even" + v );
        }
    }
    if( auto* s = tl::kid( e, "system-layout" ) )
    {
        if( auto* m = tl::kid( *s, "system-margins" ) ) f.push_back( "system-margins " + kidNum( *m, "left-margin" ) + " " + kidNum( *m, "right-margin" ) );
        if( tl::kid( *s, "system-distance" ) ) f.push_back( "system-distance " + kidNum( *s, "system-distance" ) );
        if( tl::kid( *s, "top-system-distance" ) ) f.push_back( "top-system-distance " + kidNum( *s, "top-system-distance" ) );
    }
    for( auto& k : e.kids ) if( k.name == "staff-layout" && ( !k.attr( "number" ) || attr( k, "number" ) == "1" ) && tl::kid( k, "staff-distance" ) ) f.push_back( "staff-distance " + kidNum( k, "staff-distance" ) );
}
inline std::string at( const tl::Q& q ) { return "@" + q.s(); }
inline std::string component( const std::string& step, const std::string& alter, const std::string& acc ) { return " " + step + " " + alter + " " + acc; }
inline Facts facts( const MeasureData& m, int index, int tpq, const LayoutData* lay, bool first, const std::optional<TransposeData>& tr, bool withTime )
{
    Facts f; auto pos = [&]( int t ) { return at( tl::Q( t, tpq ) ); };
    f.push_back( "number " + ( m.number.empty() ? std::to_string( index + 1 ) : trim( m.number ) ) );
    if( m.implicit != Bool::unspecified ) f.push_back( "implicit " + word( m.implicit ) );
    if( m.nonControlling != Bool::unspecified ) f.push_back( "non-controlling " + word( m.nonControlling ) );
    if( m.width >= 0 ) f.push_back( "width " + num( m.width ) );
    if( m.multiMeasureRest > 0 ) f.push_back( "multiple-rest " + std::to_string( m.multiMeasureRest ) );
    const auto& t = m.timeSignature;
    if( withTime ) f.push_back( "time " + std::to_string( t.beats ) + "/" + std::to_string( t.beatType ) + ( t.symbol == TimeSignatureSymbol::unspecified ? "" : " " + plain( t.symbol ) ) + ( t.display == Bool::unspecified ? "" : " print " + word( t.display ) ) );
    const bool many = m.staves.size() > 1;
    auto key = [&]( const KeyData& k, int staff ) {
        std::string s = "key" + pos( k.tickTimePosition ) + " staff " + ( staff < 0 ? std::string( "-" ) : std::to_string( staff + 1 ) );
        if( !k.nonTraditional.empty() ) for( auto& c : k.nonTraditional ) s += component( word( c.step ), num( c.alter + (long double)c.cents / 100 ), c.accidental == Accidental::none ? "-" : word( c.accidental ) );
        else s += " fifths " + std::to_string( k.fifths ) + " cancel " + std::to_string( k.cancel ) + " mode " + ( k.mode == KeyMode::unspecified ? "-" : plain( k.mode ) );
        f.push_back( s );
    };
    for( auto& k : m.keys ) key( k, k.staffIndex );
    for( size_t i = 0; i < m.staves.size(); ++i )
    {
        for( auto& k : m.staves[i].keys ) key( k, many ? (int)i : -1 );
        for( auto& c : m.staves[i].clefs ) f.push_back( "clef" + pos( c.tickTimePosition ) + " staff " + std::to_string( i + 1 ) + " " + word( c.symbol ) + " " + std::to_string( c.line ) + " " + std::to_string( c.octaveChange ) + ( c.tickTimePosition == 0 && c.location == ClefLocation::afterBarline ? " after-barline yes" : c.tickTimePosition == 0 && c.location == ClefLocation::beforeBarline ? " after-barline no" : "" ) );
    }
    for( auto& b : m.barlines )
    {
        const auto h = b.location != HorizontalAlignment::unspecified ? b.location : b.tickTimePosition == 0 ? HorizontalAlignment::left : HorizontalAlignment::right;
        f.push_back( std::string( "barline " ) + ( h == HorizontalAlignment::center ? "middle" : plain( h ) ) + " " + ( b.barlineType == BarlineType::unspecified ? "-" : word( b.barlineType ) ) + ( b.endingType == EndingType::none ? "" : " ending " + plain( b.endingType ) + " " + std::to_string( b.endingNumber ) ) + ( b.repeat ? " repeat" : "" ) );
    }
    if( lay )
    {
        const auto& s = lay->system; const auto& p = lay->page;
        if( s.newSystem != Bool::unspecified ) f.push_back( "new-system " + word( s.newSystem ) );
        if( p.newPage != Bool::unspecified ) f.push_back( "new-page " + word( p.newPage ) );
        if( p.pageNumber ) f.push_back( "page-number " + trim( *p.pageNumber ) );
        layoutFacts( p.pageLayoutData, s.layout, f );
    }
    if( first && tr ) f.push_back( "transpose " + std::to_string( tr->chromatic ) + " " + std::to_string( tr->diatonic ) );
    std::sort( f.begin(), f.end() );
    return f;
}
inline Facts facts( const El& m, const tl::Measure& tm, bool withTime, bool first, bool withLayout )
{
    Facts f;
    f.push_back( "number " + attr( m, "number" ) );
    if( m.attr( "implicit" ) ) f.push_back( "implicit " + attr( m, "implicit" ) );
    if( m.attr( "non-controlling" ) ) f.push_back( "non-controlling " + attr( m, "non-controlling" ) );
    if( m.attr( "width" ) ) f.push_back( "width " + numText( *m.attr( "width" ) ) );
    bool time = false, tr = false;
    for( auto& e : m.kids )
    {
        if( e.name == "attributes" ) for( auto& k : e.kids )
        {
            if( k.name == "time" && withTime && !time ) { time = true; f.push_back( "time " + kidText( k, "beats" ) + "/" + kidText( k, "beat-type" ) + ( attr( k, "symbol" ) == "common" || attr( k, "symbol" ) == "cut" ? " " + attr( k, "symbol" ) : "" ) + ( k.attr( "print-object" ) ? " print " + attr( k, "print-object" ) : "" ) ); }
            if( k.name == "transpose" && first && !tr ) { tr = true; const int o = atoi( kidText( k, "octave-change", "0" ).c_str() ); f.push_back( "transpose " + std::to_string( atoi( kidText( k, "chromatic" ).c_str() ) + 12 * o ) + " " + std::to_string( atoi( kidText( k, "diatonic", "0" ).c_str() ) + 7 * o ) ); }
            if( k.name == "measure-style" && tl::kid( k, "multiple-rest" ) ) f.push_back( "multiple-rest " + kidNum( k, "multiple-rest" ) );
        }
        if( e.name == "barline" )
        {
            std::string style = kidText( e, "bar-style" ); if( style == "short" || style == "tick" ) style = "unsupported"; // no enumerator holds these
            std::string s = "barline " + attr( e, "location", "right" ) + " " + style;
            if( auto* g = tl::kid( e, "ending" ) ) s += " ending " + attr( *g, "type" ) + " " + attr( *g, "number" );
            f.push_back( s + ( tl::kid( e, "repeat" ) ? " repeat" : "" ) );
        }
        if( e.name == "print" && withLayout )
        {
            if( e.attr( "new-system" ) ) f.push_back( "new-system " + attr( e, "new-system" ) );
            if( e.attr( "new-page" ) ) f.push_back( "new-page " + attr( e, "new-page" ) );
            if( e.attr( "page-number" ) ) f.push_back( "page-number " + attr( e, "page-number" ) );
            layoutFacts( e, f );
        }
    }
    for( auto& e : tm.keys )
    {
        const El& k = *e.el; std::string s = "key" + at( e.pos ) + " staff " + ( e.staffGiven ? std::to_string( e.staff ) : "-" );
        if( tl::kid( k, "fifths" ) ) { std::string mode = kidText( k, "mode" ); if( mode != "-" && mode != "major" && mode != "minor" ) mode = "unsupported"; s += " fifths " + kidNum( k, "fifths" ) + " cancel " + kidNum( k, "cancel", "0" ) + " mode " + mode; }
        else for( size_t i = 0; i < k.kids.size(); ++i ) if( k.kids[i].name == "key-step" )
        {
            std::string alter = "?", acc = "-";
            for( size_t j = i + 1; j < k.kids.size() && k.kids[j].name != "key-step"; ++j ) { if( k.kids[j].name == "key-alter" ) alter = numText( k.kids[j].text ); if( k.kids[j].name == "key-accidental" ) acc = text( k.kids[j] ); }
            s += component( text( k.kids[i] ), alter, acc );
        }
        f.push_back( s );
    }
    for( auto& e : tm.clefs )
    {
        const El& c = *e.el; const std::string sign = kidText( c, "sign" );
        // a clef without a line stands on its usual line
        const std::string line = tl::kid( c, "line" ) ? kidNum( c, "line" ) : sign == "G" ? "2" : sign == "F" ? "4" : sign == "C" ? "3" : "?";
        f.push_back( "clef" + at( e.pos ) + " staff " + std::to_string( e.staff ) + " " + sign + " " + line + " " + kidNum( c, "clef-octave-change", "0" ) + ( e.pos.n == 0 && c.attr( "after-barline" ) ? " after-barline " + attr( c, "after-barline" ) : "" ) );
    }
    std::sort( f.begin(), f.end() );
    return f;
}
inline void some( Facts& f, const char* n, const std::string& v ) { if( !v.empty() ) f.push_back( std::string( n ) + " [" + v + "]" ); }
inline Facts facts( const ScoreData& s )
{
    Facts f;
    some( f, "work-title", s.workTitle ); some( f, "work-number", s.workNumber ); some( f, "movement-title", s.movementTitle ); some( f, "movement-number", s.movementNumber );
    some( f, "creator composer", s.composer ); some( f, "creator lyricist", s.lyricist ); some( f, "creator arranger", s.arranger ); some( f, "creator publisher", s.publisher ); some( f, "rights", s.copyright );
    const auto& e = s.encoding; const auto& d = e.encodingDate;
    if( d.year > 0 ) { char b[32]; snprintf( b, sizeof b, "encoding-date %04d-%02d-%02d", d.year, d.month, d.day ); f.push_back( b ); }
    some( f, "encoder", e.encoder ); some( f, "encoding-description", e.encodingDescription );
    for( size_t i = 0; i < e.software.size(); ++i ) f.push_back( "software " + std::to_string( i ) + " [" + e.software[i] + "]" );
    for( auto& i : e.supportedItems ) f.push_back( "supports " + i.elementName + ( i.isSupported ? " yes" : " no" ) + " " + i.attributeName + " " + i.specificValue );
    for( auto& i : e.miscelaneousFields ) f.push_back( "miscellaneous-field " + i.key + " [" + i.value + "]" );
    for( auto& p : s.pageTextItems ) { Attrs a; put( a, p.positionData ); put( a, p.fontData ); f.push_back( "credit page " + ( p.pageNumber > 0 ? std::to_string( p.pageNumber ) : "-" ) + " [" + p.description + "] [" + p.text + "]" + a.s() ); }
    const auto& g = s.defaults;
    if( g.scalingMillimeters > 0 ) f.push_back( "scaling " + num( g.scalingMillimeters ) + " " + num( g.scalingTenths ) );
    layoutFacts( g.pageLayout, g.systemLayout, f );
    for( auto& a : g.appearance ) { static const char* const n[] = { "line-width", "note-size", "distance", "other-appearance" }; f.push_back( std::string( n[(int)a.appearanceType] ) + " " + a.appearanceSubType + " " + ( a.appearanceType == AppearanceType::OtherAppearance ? "" : num( a.value ) ) ); }
    for( auto& p : s.partGroups )
        f.push_back( "group " + std::to_string( p.firstPartIndex ) + ".." + std::to_string( p.lastPartIndex ) + " number " + std::to_string( p.number ) + " [" + p.name + "] [" + p.abbreviation + "] " + ( p.bracketType == BracketType::unspecified ? "-" : plain( p.bracketType ) ) );
    for( auto& p : s.parts )
    {
        const std::string w = "part " + p.uniqueId + " ";
        auto put1 = [&]( const char* n, const std::string& v ) { if( !v.empty() ) f.push_back( w + n + " [" + v + "]" ); };
        auto putn = [&]( const char* n, int v ) { if( v >= 0 ) f.push_back( w + n + " " + std::to_string( v ) ); };
        put1( "part-name", p.name ); put1( "part-abbreviation", p.abbreviation ); put1( "part-name-display", p.displayName ); put1( "part-abbreviation-display", p.displayAbbreviation );
        const auto& i = p.instrumentData; const auto& m = i.midiData;
        put1( "instrument", i.uniqueId ); put1( "instrument-name", i.name ); put1( "instrument-abbreviation", i.abbreviation );
        if( i.soundID != SoundID::unspecified ) f.push_back( w + "instrument-sound " + rf::enumName( i.soundID ) );
        if( i.soloOrEnsemble != SoloOrEnsemble::unspecified ) f.push_back( w + plain( i.soloOrEnsemble ) );
        put1( "virtual-library", m.virtualLibrary ); put1( "virtual-name", m.virtualName ); put1( "midi-device", m.device ); put1( "midi-name", m.name );
        putn( "midi-bank", m.bank ); putn( "midi-channel", m.channel ); putn( "midi-program", m.program ); putn( "midi-unpitched", m.unpitched );
        if( m.isVolumeSpecified ) f.push_back( w + "volume " + num( m.volume ) );
        if( m.isPanSpecified ) f.push_back( w + "pan " + num( m.pan ) );
        if( m.isElevationSpecified ) f.push_back( w + "elevation " + num( m.elevation ) );
    }
    std::sort( f.begin(), f.end() );
    return f;
}
inline std::string squash( const std::string& s ) { std::string o; for( char c : s ) if( isalnum( (unsigned char)c ) ) o += (char)tolower( c ); return o; }
inline Facts scoreFacts( const El& r )
{
    Facts f;
    if( auto* w = tl::kid( r, "work" ) ) { some( f, "work-title", kidText( *w, "work-title", "" ) ); some( f, "work-number", kidText( *w, "work-number", "" ) ); }
    some( f, "movement-title", kidText( r, "movement-title", "" ) ); some( f, "movement-number", kidText( r, "movement-number", "" ) );
    if( auto* i = tl::kid( r, "identification" ) )
    {
        for( auto& k : i->kids ) { if( k.name == "creator" ) some( f, ( "creator " + attr( k, "type" ) ).c_str(), text( k ) ); if( k.name == "rights" ) some( f, "rights", text( k ) ); }
        int sw = 0;
        if( auto* e = tl::kid( *i, "encoding" ) ) for( auto& k : e->kids )
        {
            if( k.name == "encoding-date" ) f.push_back( "encoding-date " + text( k ) );
            if( k.name == "encoder" || k.name == "encoding-description" ) some( f, k.name.c_str(), text( k ) );
            if( k.name == "software" ) f.push_back( "software " + std::to_string( sw++ ) + " [" + text( k ) + "]" );
            if( k.name == "supports" ) f.push_back( "supports " + attr( k, "element" ) + " " + attr( k, "type" ) + " " + attr( k, "attribute" ) + " " + attr( k, "value" ) );
        }
        if( auto* e = tl::kid( *i, "miscellaneous" ) ) for( auto& k : e->kids ) f.push_back( "miscellaneous-field " + attr( k, "name" ) + " [" + text( k ) + "]" );
    }
    if( auto* d = tl::kid( r, "defaults" ) )
    {
        if( auto* s = tl::kid( *d, "scaling" ) ) f.push_back( "scaling " + kidNum( *s, "millimeters" ) + " " + kidNum( *s, "tenths" ) );
        layoutFacts( *d, f );
        if( auto* a = tl::kid( *d, "appearance" ) ) for( auto& k : a->kids ) f.push_back( k.name + " " + attr( k, "type" ) + " " + ( k.name == "other-appearance" ? "" : numText( k.text ) ) );
    }
    for( auto& k : r.kids ) if( k.name == "credit" ) if( auto* w = tl::kid( k, "credit-words" ) ) f.push_back( "credit page " + ( k.attr( "page" ) ? numText( *k.attr( "page" ) ) : "-" ) + " [" + kidText( k, "credit-type", "" ) + "] [" + w->text + "]" + attrsOf( *w ).s() );
    if( auto* l = tl::kid( r, "part-list" ) )
    {
        std::map<std::string, std::pair<int, const El*>> open; int index = 0;
        for( auto& k : l->kids )
        {
            if( k.name == "part-group" )
            {
                const std::string n = attr( k, "number", "1" );
                if( attr( k, "type" ) == "start" ) open[n] = { index, &k };
                else if( open.count( n ) ) { auto& o = open[n]; const El& g = *o.second; f.push_back( "group " + std::to_string( o.first ) + ".." + std::to_string( index - 1 ) + " number " + n + " [" + kidText( g, "group-name", "" ) + "] [" + kidText( g, "group-abbreviation", "" ) + "] " + kidText( g, "group-symbol" ) ); open.erase( n ); }
            }
            if( k.name != "score-part" ) continue;
            ++index;
            const std::string w = "part " + attr( k, "id" ) + " ";
            auto put1 = [&]( const char* n, const std::string& v ) { if( !v.empty() ) f.push_back( w + n + " [" + v + "]" ); };
            auto display = [&]( const char* n ) { auto* e = tl::kid( k, n ); std::string t; if( e ) for( auto& q : e->kids ) t += q.name == "display-text" ? q.text : q.name == "accidental-text" ? q.text == "sharp" ? "#" : "b" : ""; return t; };
            put1( "part-name", kidText( k, "part-name", "" ) ); put1( "part-abbreviation", kidText( k, "part-abbreviation", "" ) ); put1( "part-name-display", display( "part-name-display" ) ); put1( "part-abbreviation-display", display( "part-abbreviation-display" ) );
            if( auto* i = tl::kid( k, "score-instrument" ) )
            {
                put1( "instrument", attr( *i, "id" ) ); put1( "instrument-name", kidText( *i, "instrument-name", "" ) ); put1( "instrument-abbreviation", kidText( *i, "instrument-abbreviation", "" ) );
                if( tl::kid( *i, "instrument-sound" ) ) f.push_back( w + "instrument-sound " + kidText( *i, "instrument-sound" ) );
                if( tl::kid( *i, "solo" ) ) f.push_back( w + "solo" );
                if( tl::kid( *i, "ensemble" ) ) f.push_back( w + "ensemble" );
                if( auto* v = tl::kid( *i, "virtual-instrument" ) ) { put1( "virtual-library", kidText( *v, "virtual-library", "" ) ); put1( "virtual-name", kidText( *v, "virtual-name", "" ) ); }
            }
            put1( "midi-device", kidText( k, "midi-device", "" ) );
            if( auto* i = tl::kid( k, "midi-instrument" ) )
            {
                put1( "midi-name", kidText( *i, "midi-name", "" ) );
                for( const char* n : { "midi-bank", "midi-channel", "midi-program", "midi-unpitched", "volume", "pan", "elevation" } ) if( tl::kid( *i, n ) ) f.push_back( w + n + " " + kidNum( *i, n ) );
            }
        }
    }
    std::sort( f.begin(), f.end() );
    return f;
}
// sound ids are compared by their letters alone
inline void squashSounds( Facts& f ) { for( auto& x : f ) { auto i = x.find( "instrument-sound " ); if( i != std::string::npos ) x = x.substr( 0, i + 17 ) + squash( x.substr( i + 17 ) ); } std::sort( f.begin(), f.end() ); }
}
