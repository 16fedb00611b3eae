// Timelines against the independent interpreter: written by the library (C08), read by the library (C09).
#include "gen_score.h"
#include "canon.h"
#include "xmlio.h"
#include "timeline.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <sstream>
#include <regex>
using namespace mx::api;
static const char* const STEPS = "CDEFGAB";
static std::string where( size_t p, size_t m ) { return "part " + std::to_string( p ) + " measure " + std::to_string( m ); }

// ---------------------------------------------------------------- writing
static void vary( vf::Rng& r, ScoreData& s, const gs::Gen& )
{
    for( auto& p : s.parts ) for( auto& m : p.measures ) for( auto& st : m.staves )
    {
        if( r.chance( 1, 3 ) ) // voices need not be numbered without gaps
        {
            std::map<int, VoiceData> v; int add = 0;
            for( auto& q : st.voices ) { add += r.range( 0, 4 ); v[q.first + add] = q.second; }
            st.voices = v;
        }
        for( auto& v : st.voices )
        {
            auto& n = v.second.notes;
            if( r.chance( 1, 4 ) ) // overlapping, distant and odd times in one voice, still in order
            {
                int t = 0; const bool huge = r.chance( 1, 6 );
                for( size_t i = 0; i < n.size(); )
                {
                    size_t j = i; while( j < n.size() && n[j].tickTimePosition == n[i].tickTimePosition ) ++j;
                    t += r.chance( 1, 5 ) ? 0 : r.range( 1, huge ? 100000 : s.ticksPerQuarter * 3 + 1 );
                    if( r.chance( 1, 8 ) ) t += s.ticksPerQuarter;
                    const int d = r.range( 1, s.ticksPerQuarter * 4 + 1 );
                    if( i > 0 && n[i - 1].tickTimePosition >= t && ( n[i].isChord || n[i - 1].isChord ) ) ++t;
                    for( ; i < j; ++i ) { n[i].tickTimePosition = t; if( n[i].noteType != NoteType::grace ) n[i].durationData.durationTimeTicks = d; }
                }
                for( auto& x : n ) { x.noteAttachmentData.tupletStarts.clear(); x.noteAttachmentData.tupletStops.clear(); }
            }
        }
    }
}
static void compareWritten( vf::App& app, const ScoreData& s, const std::vector<tl::Part>& doc )
{
    const int tpq = s.ticksPerQuarter;
    if( doc.size() != s.parts.size() ) { app.fail( "part-count", std::to_string( s.parts.size() ) + " parts, written " + std::to_string( doc.size() ) ); return; }
    for( size_t p = 0; p < doc.size(); ++p )
    {
        if( doc[p].measures.size() != s.parts[p].measures.size() ) { app.fail( "measure-count", where( p, 0 ) ); continue; }
        for( size_t m = 0; m < doc[p].measures.size(); ++m )
        {
            const auto& md = s.parts[p].measures[m]; const auto& dm = doc[p].measures[m];
            const std::string w = where( p, m );
            for( auto& b : dm.bad ) app.fail( "cursor", w + ": " + b );
            std::map<std::pair<int, std::string>, std::vector<const tl::Note*>> got;
            for( auto& n : dm.notes ) got[{ n.staff, n.voice }].push_back( &n );
            size_t expected = 0;
            for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& v : md.staves[st].voices )
            {
                const auto& want = v.second.notes; expected += want.size();
                if( want.empty() ) continue;
                const auto& g = got[{ (int)st + 1, std::to_string( v.first + 1 ) }];
                const std::string wv = w + " staff " + std::to_string( st ) + " voice " + std::to_string( v.first );
                if( g.size() != want.size() ) { app.fail( "note-count", wv + ": " + std::to_string( want.size() ) + " notes, written " + std::to_string( g.size() ) ); continue; }
                for( size_t i = 0; i < g.size(); ++i )
                {
                    app.count( "evaluations" );
                    const auto& a = want[i]; const auto& b = *g[i];
                    const std::string wn = wv + " note " + std::to_string( i );
                    app.seen( vf::hashStr( std::to_string( a.tickTimePosition ) + "/" + std::to_string( tpq ) + "+" + std::to_string( a.durationData.durationTimeTicks ) + "s" + std::to_string( st ) + "v" + std::to_string( v.first ) ) );
                    if( !b.pos.is( a.tickTimePosition, tpq ) ) { app.fail( "note-position", wn + ": tick " + std::to_string( a.tickTimePosition ) + " of " + std::to_string( tpq ) + " per quarter, written at " + b.pos.s() + " quarters" ); break; }
                    if( a.noteType != NoteType::grace && !b.dur.is( a.durationData.durationTimeTicks, tpq ) ) { app.fail( "note-length", wn + ": " + std::to_string( a.durationData.durationTimeTicks ) + " ticks of " + std::to_string( tpq ) + ", written " + b.dur.s() + " quarters" ); break; }
                    if( ( a.noteType == NoteType::grace ) != b.grace ) app.fail( "grace", wn );
                    if( a.isRest != b.rest || a.isUnpitched != b.unpitched ) app.fail( "note-kind", wn );
                    const bool pitched = !a.isRest && !a.isUnpitched;
                    if( pitched || a.isDisplayStepOctaveSpecified )
                    {
                        if( b.step != std::string( 1, STEPS[(int)a.pitchData.step] ) || b.octave != std::to_string( a.pitchData.octave ) )
                            app.fail( "note-order", wn + ": written " + b.step + b.octave );
                    }
                    const bool later = a.isChord && i > 0 && want[i - 1].isChord && want[i - 1].tickTimePosition == a.tickTimePosition;
                    if( later != b.chord ) app.fail( "chord-element", wn );
                }
            }
            if( expected != dm.notes.size() ) app.fail( "extra-notes", w + ": " + std::to_string( expected ) + " notes, written " + std::to_string( dm.notes.size() ) );
            // directions: every (staff, tick) of one side is on the other
            auto spot = []( int staff, const tl::Q& q ) { return std::to_string( staff ) + "@" + q.s(); };
            std::map<std::string, int> a;
            for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& d : md.staves[st].directions )
            {
                const bool other = !d.marks.empty() || !d.wedgeStops.empty() || !d.wedgeStarts.empty() || !d.ottavaStops.empty() || !d.ottavaStarts.empty() || !d.bracketStops.empty() || !d.bracketStarts.empty()
                    || !d.words.empty() || !d.rehearsals.empty() || !d.chords.empty();
                if( other ) a[spot( (int)st + 1, tl::Q( d.tickTimePosition, tpq ) )] = 1;
            }
            std::map<std::string, int> all; for( auto& d : dm.directions ) all[spot( d.staff, d.pos )] = 1; for( auto& d : dm.harmonies ) all[spot( d.staff, d.pos )] = 1;
            for( auto& x : a ) { app.count( "evaluations" ); if( !all.count( x.first ) ) { std::string l; for( auto& y : all ) l += " " + y.first; app.fail( "direction-position", w + ": nothing is written at " + x.first + ", there are" + l ); break; } }
            std::map<std::string, int> anyWant; for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& d : md.staves[st].directions ) { anyWant[spot( (int)st + 1, tl::Q( d.tickTimePosition, tpq ) )] = 1; }
            for( auto& y : all ) if( !anyWant.count( y.first ) ) { app.fail( "direction-position", w + ": a direction is written at " + y.first + " where there is none" ); break; }
            // clefs and keys
            std::vector<std::string> c1, c2, k1, k2;
            for( size_t st = 0; st < md.staves.size(); ++st )
            {
                for( auto& c : md.staves[st].clefs ) c1.push_back( spot( (int)st + 1, tl::Q( c.tickTimePosition, tpq ) ) );
                for( auto& k : md.staves[st].keys ) k1.push_back( spot( md.staves.size() > 1 ? (int)st + 1 : 0, tl::Q( k.tickTimePosition, tpq ) ) );
            }
            for( auto& k : md.keys ) k1.push_back( spot( k.staffIndex < 0 ? 0 : k.staffIndex + 1, tl::Q( k.tickTimePosition, tpq ) ) );
            for( auto& e : dm.clefs ) c2.push_back( spot( e.staff, e.pos ) );
            for( auto& e : dm.keys ) k2.push_back( spot( e.staffGiven ? e.staff : 0, e.pos ) );
            for( auto* v : { &c1, &c2, &k1, &k2 } ) std::sort( v->begin(), v->end() );
            auto list = []( const std::vector<std::string>& v ) { std::string o; for( auto& x : v ) o += " " + x; return o; };
            const bool empty = dm.notes.empty();
            app.count( "evaluations", (long long)( c1.size() + k1.size() ) );
            if( !empty && c1 != c2 ) app.fail( "clef-position", w + ":" + list( c1 ) + " written" + list( c2 ) );
            if( !empty && k1 != k2 ) app.fail( "key-position", w + ":" + list( k1 ) + " written" + list( k2 ) );
        }
    }
}

// ---------------------------------------------------------------- reading
struct DocGen
{
    vf::Rng& r; int words = 0;
    std::string num( long long v ) { return std::to_string( v ); }
    std::string make( bool timewise )
    {
        static const std::vector<long long> divs{ 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 36, 48, 60, 96, 120, 240, 480, 768 };
        const int np = r.range( 1, 3 ), nm = r.range( 1, 5 );
        const bool changes = r.chance( 2, 3 ), other = r.flip();
        std::vector<std::vector<std::string>> body( (size_t)np );
        std::vector<long long> seen;
        auto pickDiv = [&]() -> long long {
            // keep the least common multiple moderate
            for( int tries = 0; tries < 20; ++tries )
            {
                long long d = r.pick( divs ), l = 1; for( auto x : seen ) l = std::lcm( l, x );
                if( std::lcm( l, d ) <= 4000000 ) { seen.push_back( d ); return d; }
            }
            return seen.empty() ? 1 : seen.back();
        };
        const long long common = pickDiv();
        for( int p = 0; p < np; ++p )
        {
            long long div = 0; const int staves = r.chance( 1, 2 ) ? 1 : r.range( 2, 4 ); bool clean = false;
            const int style = r.range( 0, 3 ); // 0: no voices, 1: voices by number, 2: everything at random, 3: as 1, with a voice that follows another one
            for( int m = 0; m < nm; ++m )
            {
                std::string x; long long pos = 0, far = 0; // in divisions; a change of divisions happens at position zero of the measure or rescales
                auto attributes = [&]( bool first ) {
                    std::string a;
                    if( first || ( changes && r.chance( 1, 2 ) ) )
                    {
                        const long long d = other || changes ? pickDiv() : common;
                        if( div != 0 && pos != 0 && ( ( pos * d ) % div != 0 || ( far * d ) % div != 0 ) ) {}
                        else { if( div != 0 ) { pos = pos * d / div; far = far * d / div; } div = d; a += "<divisions>" + num( d ) + "</divisions>"; }
                    }
                    if( first && m == 0 ) { if( r.flip() ) a += "<key><fifths>" + num( r.range( -3, 3 ) ) + "</fifths></key>"; a += "<time><beats>4</beats><beat-type>4</beat-type></time>"; if( staves > 1 || r.chance( 1, 4 ) ) a += "<staves>" + num( staves ) + "</staves>"; }
                    else if( r.chance( 1, 5 ) ) a += "<key><fifths>" + num( r.range( -3, 3 ) ) + "</fifths></key>";
                    for( int i = 1; i <= staves; ++i ) if( first ? r.flip() : r.chance( 1, 4 ) ) a += "<clef" + ( staves > 1 || r.flip() ? " number=\"" + num( i ) + "\"" : std::string() ) + "><sign>" + std::string( 1, "GFC"[r.below( 3 )] ) + "</sign><line>" + num( r.range( 1, 5 ) ) + "</line></clef>";
                    if( a.empty() ) return;
                    x += "<attributes>" + a + "</attributes>";
                };
                if( m == 0 || !clean ) { attributes( m == 0 ); clean = true; } else if( r.chance( 1, 3 ) ) attributes( false );
                auto direction = [&]( int staff ) {
                    x += "<direction><direction-type><words>w" + num( ++words ) + "</words></direction-type>";
                    if( r.chance( 1, 3 ) ) x += "<offset>" + num( r.range( -(int)std::min<long long>( pos, 5 ), (int)div * 2 ) ) + "</offset>";
                    if( staves > 1 || r.chance( 1, 4 ) ) x += "<staff>" + num( staff ) + "</staff>";
                    x += "</direction>";
                };
                const int runs = r.range( 1, staves + 2 ); int voice = 0;
                for( int q = 0; q < runs; ++q )
                {
                    if( q > 0 )
                    {
                        if( r.chance( 9, 10 ) && pos > 0 )
                        {
                            long long b = r.chance( 1, 2 ) ? pos : 1 + (long long)r.below( (uint64_t)pos );
                            if( r.chance( 1, 8 ) && b > 1 ) { const long long h = 1 + (long long)r.below( (uint64_t)( b - 1 ) ); x += "<backup><duration>" + num( h ) + "</duration></backup>"; pos -= h; b -= h; }
                            if( r.chance( 1, 16 ) ) b = pos + 3;
                            x += "<backup><duration>" + num( b ) + "</duration></backup>"; pos -= b; if( pos < 0 ) pos = 0;
                        }
                        else if( style == 1 ) break; // without a backup the notes go on in the same voice
                    }
                    const int staff = r.range( 1, staves ); voice = q + 1;
                    const int ev = r.range( 1, 6 );
                    for( int e = 0; e < ev; ++e )
                    {
                        if( r.chance( 1, 8 ) ) direction( r.range( 1, staves ) );
                        if( r.chance( 1, 12 ) ) attributes( false );
                        if( r.chance( 1, 6 ) ) { const long long f = r.range( 1, (int)div * 2 ); x += "<forward><duration>" + num( f ) + "</duration>" + ( r.chance( 1, 3 ) ? "<voice>" + num( voice ) + "</voice>" : std::string() ) + "</forward>"; pos += f; far = std::max( far, pos ); }
                        const int graces = r.chance( 1, 10 ) ? r.range( 1, 2 ) : 0, chord = r.chance( 1, 4 ) ? r.range( 2, 4 ) : 1;
                        const bool graceChord = graces == 2 && r.chance( 1, 4 );
                        const bool rest = chord == 1 && r.chance( 1, 6 ); const long long d = r.chance( 1, 3 ) ? div : r.range( 1, (int)div * 4 );
                        const int ns = style == 2 && r.chance( 1, 4 ) ? r.range( 1, staves ) : staff;
                        for( int i = -graces; i < chord; ++i )
                        {
                            x += "<note>";
                            if( i < 0 ) x += "<grace/>"; 
                            const bool ch = i > 0 || ( i == -1 && graceChord );
                            if( ch ) x += "<chord/>";
                            if( i >= 0 && rest ) x += "<rest/>"; else if( r.chance( 1, 12 ) ) x += std::string( "<unpitched><display-step>" ) + STEPS[r.below( 7 )] + "</display-step><display-octave>" + num( r.range( 0, 9 ) ) + "</display-octave></unpitched>";
                            else x += std::string( "<pitch><step>" ) + STEPS[r.below( 7 )] + "</step><octave>" + num( r.range( 0, 9 ) ) + "</octave></pitch>";
                            if( i >= 0 ) { long long dd = d; if( i > 0 && r.chance( 1, 30 ) ) dd = 1 + (long long)r.below( (uint64_t)d ); x += "<duration>" + num( dd ) + "</duration>"; }
                            if( style != 0 ) x += "<voice>" + num( style == 2 ? r.range( 1, 4 ) : voice ) + "</voice>";
                            if( r.chance( 1, 3 ) ) x += "<type>quarter</type>";
                            if( staves > 1 || r.chance( 1, 4 ) ) x += "<staff>" + num( ns ) + "</staff>";
                            x += "</note>";
                            if( r.chance( 1, 40 ) ) { static const char* const still[] = { "<bookmark id=\"b\"/>", "<grouping type=\"single\"/>", "<sound tempo=\"90\"/>", "<!-- between -->", "<print/>" }; x += still[r.below( 5 )]; } // takes no time, and may stand between the notes of a chord
                        }
                        pos += d; far = std::max( far, pos );
                    }
                    if( r.chance( 1, 6 ) ) direction( r.range( 1, staves ) );
                }
                body[(size_t)p].push_back( x );
            }
        }
        std::string o = "<?xml version=\"1.0\"?>\n<" + std::string( timewise ? "score-timewise" : "score-partwise" ) + "><part-list>";
        for( int p = 0; p < np; ++p ) o += "<score-part id=\"P" + num( p ) + "\"><part-name>x</part-name></score-part>";
        o += "</part-list>";
        const int A = timewise ? nm : np, B = timewise ? np : nm;
        for( int a = 0; a < A; ++a )
        {
            o += timewise ? "<measure number=\"" + num( a + 1 ) + "\">" : "<part id=\"P" + num( a ) + "\">";
            for( int b = 0; b < B; ++b )
            {
                o += timewise ? "<part id=\"P" + num( b ) + "\">" : "<measure number=\"" + num( b + 1 ) + "\">";
                o += body[(size_t)( timewise ? b : a )][(size_t)( timewise ? a : b )];
                o += timewise ? "</part>" : "</measure>";
            }
            o += timewise ? "</measure>" : "</part>";
        }
        return o + ( timewise ? "</score-timewise>" : "</score-partwise>" );
    }
};
static void compareRead( vf::App& app, const ScoreData& s, const std::vector<tl::Part>& doc, const std::vector<long long>& divisions )
{
    const int tpq = s.ticksPerQuarter;
    for( auto d : divisions ) if( tpq <= 0 || tpq % d != 0 ) { app.fail( "ticks-per-quarter", std::to_string( tpq ) + " is no multiple of the divisions " + std::to_string( d ) ); return; }
    std::map<std::string, size_t> index;
    for( size_t i = 0; i < s.parts.size(); ++i ) index[s.parts[i].uniqueId] = i;
    if( doc.size() != s.parts.size() ) { app.fail( "part-count", std::to_string( doc.size() ) + " parts, read " + std::to_string( s.parts.size() ) ); return; }
    for( size_t p = 0; p < doc.size(); ++p )
    {
        if( !index.count( doc[p].id ) ) { app.fail( "part", "part " + doc[p].id + " is not there" ); continue; }
        const auto& part = s.parts[index[doc[p].id]];
        if( doc[p].measures.size() != part.measures.size() ) { app.fail( "measure-count", where( p, 0 ) ); continue; }
        for( size_t m = 0; m < part.measures.size(); ++m )
        {
            const auto& md = part.measures[m]; const auto& dm = doc[p].measures[m];
            const std::string w = where( p, m );
            // notes per staff; the voices of the score partition them
            std::map<int, std::vector<const tl::Note*>> want;
            for( auto& n : dm.notes ) want[n.staff].push_back( &n );
            size_t total = 0;
            auto spell = [&]( const std::string& step, const std::string& octave, bool rest, bool unp, bool grace ) { return step + octave + ( rest ? "r" : "" ) + ( unp ? "u" : "" ) + ( grace ? "g" : "" ); };
            auto line = []( const std::string& what, const std::string& pos, const std::string& len ) { return what + "@" + pos + "+" + len; };
            for( size_t st = 0; st < md.staves.size(); ++st )
            {
                std::map<int, std::vector<std::string>> got; std::vector<std::string> all;
                for( auto& v : md.staves[st].voices ) for( auto& n : v.second.notes )
                {
                    ++total;
                    const bool silent = ( n.isRest || n.isUnpitched ) && !n.isDisplayStepOctaveSpecified;
                    got[v.first].push_back( line( spell( silent ? "" : std::string( 1, STEPS[(int)n.pitchData.step] ), silent ? "" : std::to_string( n.pitchData.octave ), n.isRest, n.isUnpitched, n.noteType == NoteType::grace ),
                        tl::Q( n.tickTimePosition, tpq ? tpq : 1 ).s(), tl::Q( n.durationData.durationTimeTicks, tpq ? tpq : 1 ).s() ) );
                    all.push_back( got[v.first].back() );
                }
                std::vector<std::string> exp; std::map<int, std::vector<std::string>> byVoice; std::map<int, std::set<int>> runsOf; bool numbered = true; std::map<int, std::set<int>> voicesOfRun;
                for( auto* n : want[(int)st + 1] )
                {
                    exp.push_back( line( spell( n->step, n->octave, n->rest, n->unpitched, n->grace ), n->pos.s(), n->dur.s() ) );
                    const int v = atoi( n->voice.c_str() ); if( v < 1 ) numbered = false;
                    byVoice[v].push_back( exp.back() ); runsOf[v].insert( n->run );
                }
                for( auto& x : runsOf ) if( x.second.size() > 1 ) numbered = false;
                app.count( "evaluations", (long long)exp.size() ); for( auto& x : exp ) app.seen( vf::hashStr( x + "s" + std::to_string( st ) ) );
                auto a = exp, b = all; std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
                const std::string ws = w + " staff " + std::to_string( st );
                if( a != b )
                {
                    std::string d; for( size_t i = 0; i < std::max( a.size(), b.size() ) && d.size() < 400; ++i ) if( i >= a.size() || i >= b.size() || a[i] != b[i] ) d += " [" + ( i < a.size() ? a[i] : "-" ) + " read " + ( i < b.size() ? b[i] : "-" ) + "]";
                    app.fail( a.size() == b.size() ? "note-time" : "note-count", ws + ":" + d ); return;
                }
                if( numbered )
                {
                    app.count( "numbered-staves" );
                    std::map<int, std::vector<std::string>> e2; for( auto& x : byVoice ) e2[x.first - 1] = x.second;
                    if( e2 != got ) { std::string d; for( auto& x : e2 ) d += " " + std::to_string( x.first ) + "(" + std::to_string( x.second.size() ) + ")"; d += " read"; for( auto& x : got ) d += " " + std::to_string( x.first ) + "(" + std::to_string( x.second.size() ) + ")"; app.fail( "voices", ws + ":" + d ); }
                }
            }
            if( total != dm.notes.size() ) app.fail( "note-count", w + ": " + std::to_string( dm.notes.size() ) + " notes, read " + std::to_string( total ) );
            // words are unique in generated documents
            std::map<std::string, std::string> dir;
            for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& d : md.staves[st].directions ) for( auto& x : d.words ) dir[x.text] = std::to_string( st + 1 ) + "@" + tl::Q( d.tickTimePosition, tpq ? tpq : 1 ).s();
            for( auto& e : dm.directions ) if( auto* t = tl::kid( *e.el, "direction-type" ) ) if( auto* q = tl::kid( *t, "words" ) ) if( q->text[0] == 'w' && q->text.size() > 1 && isdigit( q->text[1] ) )
            {
                app.count( "evaluations" ); app.count( "directions" );
                const std::string x = std::to_string( e.staff ) + "@" + e.pos.s();
                if( dir[q->text] != x ) app.fail( "direction-time", w + ": " + q->text + " at " + x + " read at " + dir[q->text] );
            }
            std::vector<std::string> c1, c2;
            for( auto& e : dm.clefs ) if( e.staff <= (int)md.staves.size() ) c1.push_back( std::to_string( e.staff ) + "@" + e.pos.s() );
            for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& c : md.staves[st].clefs ) c2.push_back( std::to_string( st + 1 ) + "@" + tl::Q( c.tickTimePosition, tpq ? tpq : 1 ).s() );
            std::sort( c1.begin(), c1.end() ); std::sort( c2.begin(), c2.end() );
            app.count( "evaluations", (long long)c1.size() );
            if( c1 != c2 ) { std::string d; for( auto& x : c1 ) d += " " + x; d += " read"; for( auto& x : c2 ) d += " " + x; app.fail( "clef-time", w + ":" + d ); }
            std::vector<std::string> k1, k2;
            for( auto& e : dm.keys ) k1.push_back( ( e.staffGiven ? std::to_string( e.staff ) : "0" ) + "@" + e.pos.s() );
            for( auto& k : md.keys ) k2.push_back( std::to_string( k.staffIndex + 1 ) + "@" + tl::Q( k.tickTimePosition, tpq ? tpq : 1 ).s() );
            for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& k : md.staves[st].keys ) k2.push_back( std::to_string( st + 1 ) + "@" + tl::Q( k.tickTimePosition, tpq ? tpq : 1 ).s() );
            std::sort( k1.begin(), k1.end() ); std::sort( k2.begin(), k2.end() );
            if( k1 != k2 ) { std::string d; for( auto& x : k1 ) d += " " + x; d += " read"; for( auto& x : k2 ) d += " " + x; app.fail( "key-time", w + ":" + d ); }
        }
    }
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string mode = app.opt["mode"];
    std::vector<std::string> files;
    if( app.opt.count( "files" ) ) { std::ifstream l( app.opt["files"] ); std::string q; while( std::getline( l, q ) ) if( !q.empty() ) files.push_back( q ); }
    auto& mgr = DocumentManager::getInstance();
    app.run( [&]( long c, vf::Rng& r ) {
        if( mode == "write" )
        {
            static const char* const areas[] = { "notes", "measures", "notes", "all" };
            gs::Knobs k = knobsFor( areas[c % 4], c / 4, r, app.thorough );
            if( c % 4 < 3 ) { k.marks = k.curves = false; if( c % 8 < 4 ) { k.maxStaves = 5; k.maxVoices = 4; } }
            if( c % 4 == 3 ) k.header = k.layout = false;
            gs::Gen g( r, k ); ScoreData in = g.make();
            if( c % 3 ) vary( r, in, g );
            app.stage( "create" );
            const int id = mgr.createFromScore( in );
            app.stage( "write" );
            const bool timewise = c % 5 == 4;
            if( timewise ) mgr.getDocument( id )->convertContents();
            std::ostringstream o; mgr.writeToStream( id, o ); mgr.destroyDocument( id );
            if( app.verbose ) fprintf( stderr, "%s\n", o.str().c_str() );
            xio::Doc d( o.str() ); if( !d.d ) { app.fail( "malformed", d.error ); return; }
            const auto tree = d.tree();
            tl::Reader rd; rd.strict = true; const auto parts = rd.read( tree );
            compareWritten( app, in, parts );
            app.sample( std::to_string( in.parts.size() ) + " parts of " + std::to_string( in.parts[0].measures.size() ) + " measures and " + std::to_string( in.parts[0].measures[0].staves.size() ) + " staves at " + std::to_string( in.ticksPerQuarter ) + " ticks per quarter, " + std::to_string( o.str().size() ) + " bytes" );
            return;
        }
        std::string s;
        if( !files.empty() ) { std::ifstream f( files[(size_t)c % files.size()], std::ios::binary ); std::ostringstream o; o << f.rdbuf(); s = o.str(); }
        else { DocGen g{ r }; s = g.make( c % 4 == 3 ); }
        if( app.verbose ) fprintf( stderr, "%s\n", s.c_str() );
        xio::Doc d( s ); if( !d.d ) { if( files.empty() ) { fprintf( stderr, "vf: harness error: malformed generated document: %s\n", d.error.c_str() ); exit( 3 ); } return; }
        const auto tree = d.tree();
        tl::Reader rd; const auto parts = rd.read( tree );
        std::multiset<std::string> listed, there; for( auto& p : parts ) there.insert( p.id );
        if( auto* l = tl::kid( tree, "part-list" ) ) for( auto& k : l->kids ) if( k.name == "score-part" ) if( auto* a = k.attr( "id" ) ) listed.insert( *a );
        if( listed != there ) { app.count( "documents-with-unlisted-parts" ); return; }
        if( !rd.usable ) { app.count( "fractional-documents" ); return; }
        app.stage( "load" );
        ScoreData out;
        std::istringstream i( s ); int id = 0;
        try { id = mgr.createFromStream( i ); } catch( const std::exception& e ) { if( files.empty() ) app.fail( "refused", e.what() ); return; }
        app.stage( "query" );
        try { out = mgr.getData( id ); } catch( const std::exception& e ) { app.fail( "query", e.what() ); mgr.destroyDocument( id ); return; }
        mgr.destroyDocument( id );
        app.count( "documents" );
        compareRead( app, out, parts, rd.divisions );
        app.sample( std::to_string( s.size() ) + " bytes, divisions of " + std::to_string( rd.divisions.size() ) + " places, read at " + std::to_string( out.ticksPerQuarter ) + " ticks per quarter" );
    } );
}
