// Random scores inside the range that the library documents and writes. Knobs switch feature groups on, so that each
// check can concentrate on its own part and known findings can be kept out of the way.
#pragma once
#include "randomize.h"
#include "mx/api/ScoreData.h"
#include <algorithm>
#include <set>
namespace gs
{
using namespace mx::api;

struct Knobs
{
    int maxParts = 3, maxMeasures = 4, maxStaves = 3, maxVoices = 3, maxEvents = 6;
    bool notes = true, marks = true, curves = true, tuplets = true, ties = true, beams = true, grace = true, cue = true;
    bool attributes = true, directions = true, header = true, groups = true, layout = true, partInfo = true, misc = true;
    bool anonymousInstruments = false; // some instruments have no id of their own, ids hold what an xs:ID cannot
    bool wildText = false;   // any XML-legal text instead of plain words
    std::function<std::string()> textSource;
    int density = 50;        // percent chance of optional things
};

inline const std::vector<MarkType>& noteMarks()
{
    static const std::vector<MarkType> v = [] {
        std::vector<MarkType> o;
        for( auto& p : rf::EnumInfo<MarkType>::all() )
        {
            auto m = p.first;
            if( m == MarkType::unknownOrnament || m == MarkType::unknownTechnical || m == MarkType::unknownFermata ||
                m == MarkType::unknownDynamics || m == MarkType::customErrorUnknown || m == MarkType::unspecified ) continue;
            if( isMarkOrnament( m ) || isMarkTechnical( m ) || isMarkArticulation( m ) || isMarkDynamic( m ) || isMarkFermata( m )
                || m == MarkType::customAccentTenuto || isMarkArpeggiate( m ) || isMarkNonArpeggiate( m ) || isMarkTremolo( m ) || ( m >= MarkType::accidentalMarkSharp && m <= MarkType::accidentalMarkKoron ) ) o.push_back( m );
        }
        return o;
    }();
    return v;
}

struct Gen
{
    vf::Rng& r;
    Knobs k;
    Gen( vf::Rng& rng, const Knobs& kn ) : r( rng ), k( kn ) {}
    bool opt() { return r.chance( k.density, 100 ); }
    bool rare() { return r.chance( k.density, 400 ); }
    template<class E> E en( std::initializer_list<E> skip = {} )
    {
        for( ;; )
        {
            E e = r.pick( rf::EnumInfo<E>::all() ).first;
            if( std::find( skip.begin(), skip.end(), e ) == skip.end() ) return e;
        }
    }
    Bool yn() { return r.flip() ? Bool::yes : Bool::no; }
    Bool ynu() { return opt() ? yn() : Bool::unspecified; }
    long double edge( bool neg ) { static const std::vector<long double> e{ 0, 0, 1, 100000.5L, 0.0625L, 40 }; long double v = r.pick( e ); return neg && r.flip() ? -v : v; }
    long double tenths() { return r.chance( 1, 8 ) ? edge( true ) : r.range( -4000, 4000 ) / 16.0L; }
    long double posTenths() { return r.chance( 1, 8 ) ? edge( false ) : r.range( 0, 4000 ) / 16.0L; }
    std::string word()
    {
        static const std::vector<std::string> w{ "Allegro", "Flute", "dolce e legato", "K. 331", "B-flat", "3", "Op. 5, No. 2", "solo",
            "x", "Violin I", "rit.", "a tempo", "(c) 1999", "Z" };
        return r.pick( w );
    }
    static void utf8( std::string& s, uint32_t c )
    {
        if( c < 0x80 ) s += (char)c;
        else if( c < 0x800 ) { s += (char)( 0xC0 | c >> 6 ); s += (char)( 0x80 | ( c & 63 ) ); }
        else if( c < 0x10000 ) { s += (char)( 0xE0 | c >> 12 ); s += (char)( 0x80 | ( c >> 6 & 63 ) ); s += (char)( 0x80 | ( c & 63 ) ); }
        else { s += (char)( 0xF0 | c >> 18 ); s += (char)( 0x80 | ( c >> 12 & 63 ) ); s += (char)( 0x80 | ( c >> 6 & 63 ) ); s += (char)( 0x80 | ( c & 63 ) ); }
    }
    // XML-legal characters except line breaks and tabs, which attribute and line-end normalisation may change
    uint32_t codepoint()
    {
        switch( r.below( 8 ) )
        {
            case 0: return (uint32_t)"<>&\"';#x]"[r.below( 9 )];
            case 1: return 0x20;
            case 2: return 0x21 + (uint32_t)r.below( 0x5E );
            case 3: return 0xA0 + (uint32_t)r.below( 0x700 );
            case 4: return 0x3040 + (uint32_t)r.below( 0x4000 );
            case 5: return 0x1D100 + (uint32_t)r.below( 0xFF );
            case 6: return r.flip() ? 0xFFFD : 0xD7FF;
            default: return 0x61 + (uint32_t)r.below( 26 );
        }
    }
    std::string wild( int maxLen = 12, bool trimmed = true )
    {
        static const std::vector<std::string> hostile{ "<a>", "&amp;", "&lt;", "]]>", "<!--", "-->", "<?x ?>", "\"q\"", "'q'", "&#65;", "&", "<", ">", "a&b", "a\"b", "<![CDATA[x]]>", "%n", "\\", "a  b" };
        std::string s;
        int n = r.range( 1, maxLen );
        for( int i = 0; i < n; ++i ) if( r.chance( 1, 6 ) ) s += r.pick( hostile ); else utf8( s, codepoint() );
        if( trimmed )
        {
            while( !s.empty() && s.back() == ' ' ) s.pop_back();
            while( !s.empty() && s.front() == ' ' ) s.erase( 0, 1 );
            if( s.empty() ) s = "e";
        }
        return s;
    }
    std::string text() { return k.textSource ? k.textSource() : k.wildText ? wild() : word(); }
    std::string maybeText() { return opt() ? text() : std::string(); }

    PositionData position( bool align = false )
    {
        PositionData p;
        if( !opt() ) return p;
        if( opt() ) { p.isDefaultXSpecified = true; p.defaultX = tenths(); }
        if( opt() ) { p.isDefaultYSpecified = true; p.defaultY = tenths(); }
        if( opt() ) { p.isRelativeXSpecified = true; p.relativeX = tenths(); }
        if( opt() ) { p.isRelativeYSpecified = true; p.relativeY = tenths(); }
        if( align && opt() ) p.verticalAlignment = en<VerticalAlignment>();
        if( align && opt() ) p.horizontalAlignmnet = en<HorizontalAlignment>();
        return p;
    }
    PositionData positionPl() { auto p = position(); if( opt() ) p.placement = en<Placement>(); return p; }
    ColorData color()
    {
        ColorData c; c.red = (uint8_t)r.below( 256 ); c.green = (uint8_t)r.below( 256 ); c.blue = (uint8_t)r.below( 256 );
        c.isAlphaSpecified = r.flip(); c.alpha = c.isAlphaSpecified ? (uint8_t)r.below( 256 ) : 255;
        return c;
    }
    FontData font( bool lines = true )
    {
        FontData f;
        if( !opt() ) return f;
        if( opt() ) { if( r.flip() ) { f.sizeType = FontSizeType::point; f.sizePoint = r.range( 1, 800 ) / 8.0L; } else { f.sizeType = FontSizeType::css; f.sizeCss = en<CssSize>( { CssSize::unspecified } ); } }
        f.style = opt() ? en<FontStyle>() : FontStyle::unspecified;
        f.weight = opt() ? en<FontWeight>() : FontWeight::unspecified;
        int n = opt() ? r.range( 1, 3 ) : 0;
        static const std::vector<std::string> fam{ "Times New Roman", "Arial", "Maestro", "serif", "Noto Sans" };
        for( int i = 0; i < n; ++i ) f.fontFamily.push_back( r.pick( fam ) );
        if( lines ) { if( opt() ) f.underline = r.range( 1, 3 ); if( opt() ) f.overline = r.range( 1, 3 ); if( opt() ) f.lineThrough = r.range( 1, 3 ); }
        return f;
    }
    PrintData print( bool lines = true, bool object = false )
    {
        PrintData p; p.fontData = font( lines );
        if( object && opt() ) p.printObject = yn();
        if( opt() ) { p.isColorSpecified = true; p.color = color(); }
        return p;
    }
    LineData line( bool hooks )
    {
        LineData l;
        if( !opt() ) return l;
        l.lineType = opt() ? en<LineType>() : LineType::unspecified;
        if( opt() ) { l.isDashLengthSpecified = true; l.dashLength = posTenths(); }
        if( opt() ) { l.isSpaceLengthSpecified = true; l.spaceLength = posTenths(); }
        if( hooks ) { l.lineHook = opt() ? en<LineHook>() : LineHook::unspecified; if( opt() ) { l.isStopLengthSpecified = true; l.endLength = posTenths(); } }
        return l;
    }
    CurvePoints points()
    {
        CurvePoints p; p.positionData = positionPl();
        if( opt() ) { p.isBezierXSpecified = true; p.bezierX = tenths(); }
        if( opt() ) { p.isBezierYSpecified = true; p.bezierY = tenths(); }
        if( opt() ) { p.isBezierOffsetSpecified = true; p.bezierOffset = r.range( -40, 40 ); }
        return p;
    }
    int level() { return opt() ? r.range( 1, 6 ) : -1; }
    CurveType curveType() { return r.flip() ? CurveType::slur : CurveType::tie; }

    static int ticksOf( DurationName n, int dots, int tpq )
    {
        static const std::map<DurationName, std::pair<int,int>> q{ { DurationName::maxima, {32,1} }, { DurationName::longa, {16,1} }, { DurationName::breve, {8,1} },
            { DurationName::whole, {4,1} }, { DurationName::half, {2,1} }, { DurationName::quarter, {1,1} }, { DurationName::eighth, {1,2} }, { DurationName::dur16th, {1,4} },
            { DurationName::dur32nd, {1,8} }, { DurationName::dur64th, {1,16} }, { DurationName::dur128th, {1,32} }, { DurationName::dur256th, {1,64} },
            { DurationName::dur512th, {1,128} }, { DurationName::dur1024th, {1,256} } };
        auto it = q.find( n );
        if( it == q.end() ) return 0;
        long num = (long)tpq * it->second.first * ( ( 1L << ( dots + 1 ) ) - 1 ), den = (long)it->second.second * ( 1L << dots );
        return num % den == 0 ? (int)( num / den ) : 0;
    }
    MarkData mark( MarkType t, int tick )
    {
        MarkData m{ t };
        m.tickTimePosition = tick;
        m.positionData = positionPl();
        if( opt() ) m.printData = print( false );
        if( isMarkArpeggiate( t ) || isMarkNonArpeggiate( t ) || t == MarkType::wavyLine ) m.printData.fontData = FontData{}; // these have no font in MusicXML
        if( !isMarkFermata( t ) && !isMarkDynamic( t ) ) { m.printData.isColorSpecified = false; m.printData.color = ColorData{}; } // the core classes of the other marks have no color
        if( t == MarkType::otherArticulation || t == MarkType::otherOrnament || t == MarkType::otherTechnical || t == MarkType::otherDynamics ) m.name = text();
        return m;
    }
    void attach( NoteData& n )
    {
        auto& a = n.noteAttachmentData;
        if( k.marks && opt() )
        {
            int c = r.range( 1, 3 );
            for( int i = 0; i < c; ++i ) a.marks.push_back( mark( r.pick( noteMarks() ), n.tickTimePosition ) );
        }
        if( k.curves && opt() )
        {
            if( rare() ) { CurveStop c( curveType() ); c.numberLevel = level(); c.curvePoints = points(); a.curveStops.push_back( c ); }
            if( rare() )
            {
                CurveContinue c( curveType() ); c.numberLevel = level(); c.curvePoints = points();
                if( opt() ) { c.isBezierX2Specified = true; c.bezierX2 = tenths(); }
                if( opt() ) { c.isBezierY2Specified = true; c.bezierY2 = tenths(); }
                if( opt() ) { c.isBezierOffset2Specified = true; c.bezierOffset2 = r.range( -40, 40 ); }
                a.curveContinuations.push_back( c );
            }
            if( opt() )
            {
                CurveStart c( curveType() ); c.numberLevel = level(); c.curvePoints = points(); c.lineData = line( false );
                if( opt() ) c.curveOrientation = en<CurveOrientation>();
                if( opt() ) { c.isColorSpecified = true; c.colorData = color(); }
                a.curveStarts.push_back( c );
            }
        }
    }
    NoteData note( int tick, int ticks, DurationName name, int dots, NoteType type )
    {
        NoteData n;
        n.noteType = type;
        n.tickTimePosition = tick;
        n.durationData.durationTimeTicks = type == NoteType::grace ? 0 : ticks;
        n.durationData.durationName = name;
        n.durationData.durationDots = dots;
        n.durationData.timeModificationActualNotes = 1;
        n.durationData.timeModificationNormalNotes = 1;
        n.pitchData.step = (Step)r.below( 7 );
        n.pitchData.octave = r.range( 0, 9 );
        int kind = r.range( 0, 9 );
        if( kind == 0 && type != NoteType::grace ) { n.isRest = true; n.isMeasureRest = false; }
        else if( kind == 1 ) n.isUnpitched = true;
        if( n.isRest || n.isUnpitched )
        {
            n.isDisplayStepOctaveSpecified = opt();
            if( !n.isDisplayStepOctaveSpecified ) { n.pitchData.step = Step::c; n.pitchData.octave = 4; }
        }
        else
        {
            if( opt() ) n.pitchData.alter = r.range( -3, 3 );
            if( rare() ) n.pitchData.cents = r.range( -49, 49 );
        }
        if( !n.isRest && opt() )
        {
            n.pitchData.accidental = en<Accidental>();
            if( n.pitchData.accidental != Accidental::none )
            {
                n.pitchData.isAccidentalParenthetical = rare(); n.pitchData.isAccidentalCautionary = rare();
                n.pitchData.isAccidentalEditorial = rare(); n.pitchData.isAccidentalBracketed = rare();
            }
        }
        n.positionData = position();
        if( opt() ) n.printData = print( false, true );
        if( opt() ) n.stem = en<Stem>();
        if( rare() ) n.notehead = en<Notehead>();
        if( k.beams && opt() ) { int b = r.range( 1, 4 ); for( int i = 0; i < b; ++i ) n.beams.push_back( en<Beam>( { Beam::unspecified } ) ); }
        if( k.ties && !n.isRest && type != NoteType::cue ) { n.isTieStart = rare(); n.isTieStop = rare(); }
        if( k.misc && rare() ) { int c = r.range( 1, 3 ); static const std::vector<std::string> m{ "Bob", "Cat", "a b", "x=1" }; for( int i = 0; i < c; ++i ) n.miscData.push_back( r.pick( m ) ); }
        attach( n );
        return n;
    }
    // one or more sounding-together notes of one type and length
    void cluster( std::vector<NoteData>& out, int tick, int ticks, DurationName name, int dots, NoteType type, bool mayChord )
    {
        int n = mayChord && r.chance( 1, 3 ) ? r.range( 2, 4 ) : 1;
        for( int i = 0; i < n; ++i )
        {
            NoteData d = note( tick, ticks, name, dots, type );
            d.isChord = n > 1;
            if( n > 1 && d.isRest ) { d.isRest = false; if( !d.isDisplayStepOctaveSpecified ) d.pitchData.octave = 5; d.isDisplayStepOctaveSpecified = false; }
            out.push_back( d );
        }
    }
    // fills one voice of a measure of `length` ticks
    void voice( std::vector<NoteData>& v, int length, int tpq )
    {
        int t = 0;
        if( r.chance( 1, 12 ) )
        {
            NoteData n = note( 0, length, DurationName::unspecified, 0, NoteType::normal );
            n.isRest = n.isMeasureRest = true; n.isUnpitched = n.isDisplayStepOctaveSpecified = n.isTieStart = n.isTieStop = false; n.pitchData = PitchData{};
            v.push_back( n );
            return;
        }
        int events = r.range( 1, k.maxEvents );
        static const std::vector<DurationName> names{ DurationName::whole, DurationName::half, DurationName::quarter, DurationName::eighth, DurationName::dur16th,
            DurationName::dur32nd, DurationName::breve };
        for( int e = 0; e < events && t < length; ++e )
        {
            if( r.chance( 1, 5 ) ) { int g = r.range( 1, std::max( 1, ( length - t ) / 3 ) ); if( t + g < length ) t += g; }
            if( k.grace && r.chance( 1, 8 ) )
            {
                int g = r.range( 1, 3 );
                for( int i = 0; i < g; ++i ) cluster( v, t, 0, en<DurationName>( { DurationName::unspecified } ), 0, NoteType::grace, false );
            }
            if( k.tuplets && r.chance( 1, 5 ) && tuplet( v, t, length, tpq ) ) continue;
            DurationName nm = DurationName::quarter; int dots = 0, ticks = 0;
            for( int tries = 0; tries < 12 && ticks == 0; ++tries )
            {
                nm = r.pick( names ); dots = r.chance( 1, 4 ) ? r.range( 1, 2 ) : 0;
                ticks = ticksOf( nm, dots, tpq );
                if( t + ticks > length ) ticks = 0;
            }
            if( ticks == 0 || r.chance( 1, 12 ) ) ticks = r.range( 1, std::max( 1, length - t ) );  // a length that the printed value does not imply
            cluster( v, t, ticks, nm, dots, k.cue && r.chance( 1, 12 ) ? NoteType::cue : NoteType::normal, true );
            t += ticks;
        }
        if( v.empty() ) cluster( v, 0, std::max( 1, length ), DurationName::whole, 0, NoteType::normal, true );
    }
    bool tuplet( std::vector<NoteData>& v, int& t, int length, int tpq )
    {
        static const std::vector<std::pair<int,int>> ratios{ { 3, 2 }, { 5, 4 }, { 6, 4 }, { 7, 4 }, { 2, 3 }, { 4, 3 } };
        auto q = r.pick( ratios );
        DurationName nm = r.flip() ? DurationName::eighth : r.flip() ? DurationName::quarter : DurationName::dur16th;
        int base = ticksOf( nm, 0, tpq );
        if( base == 0 || ( base * q.second ) % q.first ) return false;
        int each = base * q.second / q.first;
        if( each == 0 || t + each * q.first > length ) return false;
        for( int i = 0; i < q.first; ++i )
        {
            size_t at = v.size();
            const bool first = i == 0, twice = i + 1 < q.first && r.chance( 1, 6 ); // now and then one note of twice the value
            const DurationName longer = nm == DurationName::eighth ? DurationName::quarter : nm == DurationName::quarter ? DurationName::half : DurationName::eighth;
            cluster( v, t, twice ? 2 * each : each, twice ? longer : nm, 0, NoteType::normal, r.chance( 1, 3 ) );
            if( twice ) { ++i; t += each; }
            for( size_t j = at; j < v.size(); ++j )
            {
                v[j].durationData.timeModificationActualNotes = q.first;
                v[j].durationData.timeModificationNormalNotes = q.second;
            }
            if( first )
            {
                TupletStart s; s.numberLevel = level(); s.actualNumber = q.first; s.normalNumber = q.second; s.actualDurationName = nm; s.normalDurationName = nm;
                s.actualDots = rare() ? r.range( 1, 2 ) : 0; s.normalDots = rare() ? r.range( 1, 2 ) : 0; s.positionData = positionPl(); s.bracket = ynu();
                if( opt() ) { s.showActualNumber = yn(); s.showNormalNumber = s.showActualNumber == Bool::yes ? yn() : Bool::no; }
                v[at].noteAttachmentData.tupletStarts.push_back( s );
            }
            if( i == q.first - 1 ) { TupletStop s; s.numberLevel = level(); s.positionData = positionPl(); v.back().noteAttachmentData.tupletStops.push_back( s ); }
            t += each;
        }
        return true;
    }
#include "gen_measure.inc"
#include "gen_header.inc"
    ScoreData make()
    {
        ScoreData s;
        s.musicXmlType = "partwise";
        static const std::vector<int> tpqs{ 1, 2, 4, 6, 8, 12, 24, 60, 120, 480, 840, 10080 };
        s.ticksPerQuarter = r.pick( tpqs );
        int np = r.range( 1, k.maxParts ), nm = r.range( 1, k.maxMeasures );
        for( int p = 0; p < np; ++p )
        {
            PartData part;
            part.uniqueId = "P" + std::to_string( p + 1 );
            if( k.anonymousInstruments && r.chance( 1, 3 ) )
            {
                static const std::vector<std::string> before{ "", "-", ".", "_", "a part ", "\xC3\x84", "&<", ":", "-I" };
                part.uniqueId = r.pick( before ) + std::to_string( p + 1 ) + ( r.flip() ? "" : "-I1" );
                if( p == 1 && r.flip() ) part.uniqueId = r.flip() ? s.parts[0].uniqueId + "-I1" : s.parts[0].uniqueId + " -I2"; // what a made-up id of an instrument might be
            }
            part.name = "Part " + std::to_string( p + 1 );
            if( k.partInfo ) partInfo( part );
            int staves = r.range( 1, k.maxStaves );
            TimeSignatureData time;
            for( int m = 0; m < nm; ++m )
            {
                MeasureData me;
                me.staves.resize( (size_t)staves );
                measure( me, m, p, s, time );
                part.measures.push_back( me );
            }
            s.parts.push_back( part );
        }
        if( k.header ) header( s );
        if( k.groups ) groups( s );
        if( k.layout ) layout( s, nm );
        return s;
    }
};
}
