// C14: ScoreData::sort is a stable permutation by tick and changes nothing else.
#include "randomize.h"
#include "mx/api/ScoreData.h"
#include "mx/api/DocumentManager.h"
#include <sstream>
#include <algorithm>
using namespace mx::api;

// stable reference order by repeated insertion, on (tick, serialised value)
template<class T> static std::vector<std::string> reference( const std::vector<T>& v )
{
    std::vector<std::pair<long, std::string>> out;
    for( auto& e : v )
    {
        size_t k = out.size();
        while( k > 0 && out[k - 1].first > e.tickTimePosition ) --k;
        out.insert( out.begin() + k, { e.tickTimePosition, rf::text( e ) } );
    }
    std::vector<std::string> s;
    for( auto& p : out ) s.push_back( p.second );
    return s;
}
template<class T> static void compare( vf::App& app, const std::vector<T>& before, const std::vector<T>& after, const char* what )
{
    auto want = reference( before );
    std::vector<std::string> got;
    for( auto& e : after ) got.push_back( rf::text( e ) );
    app.count( "evaluations" );
    app.count( std::string( "events_" ) + what, (long long)before.size() );
    bool sorted = true, tie = false;
    for( size_t i = 1; i < after.size(); ++i ) { if( after[i].tickTimePosition < after[i - 1].tickTimePosition ) sorted = false; if( after[i].tickTimePosition == after[i - 1].tickTimePosition ) tie = true; }
    if( tie ) app.count( "sequences_with_ties" );
    if( before.size() > 16 ) app.count( "sequences_longer_than_16" );
    if( before.size() > 1 ) { uint64_t h = vf::hashStr( what ); for( auto& e : before ) h = vf::hashBytes( &e.tickTimePosition, sizeof( int ), h ); app.seen( h ); }
    if( got == want ) return;
    auto a = got, b = want;
    std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
    std::string k = a != b ? "altered:" : !sorted ? "unsorted:" : "unstable:";
    std::string ticks; for( auto& e : before ) { ticks += std::to_string( e.tickTimePosition ) + ","; if( ticks.size() > 300 ) break; }
    app.fail( k + what, std::string( what ) + " of " + std::to_string( before.size() ) + " events, ticks given " + ticks );
}
template<class T> static void ticks( vf::Rng& r, std::vector<T>& v, int style )
{
    int n = (int)v.size();
    for( int i = 0; i < n; ++i )
    {
        int t = 0;
        switch( style )
        {
            case 0: t = r.range( 0, 3 ); break;
            case 1: t = n - i; break;
            case 2: t = i; break;
            case 3: t = 7; break;
            case 4: t = r.range( -5, 1000000 ); break;
            case 5: t = i % 2 ? 0 : 4; break;
            case 6: t = i == n - 1 ? 0 : 10 + i / 3; break;
            case 7: t = r.chance( 1, 8 ) ? ( r.flip() ? 2147483647 : -2147483647 - 1 ) : r.range( 0, 4 ); break;
        }
        v[i].tickTimePosition = t;
    }
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    app.run( [&]( long c, vf::Rng& r ) {
        ScoreData s;
        rf::Arb g( r, 60 );
        g.fill( s );
        if( s.parts.empty() ) s.parts.emplace_back();
        // a few big, well filled measures
        for( auto& p : s.parts )
        {
            if( p.measures.empty() ) p.measures.resize( (size_t)r.range( 1, 3 ) );
            for( auto& m : p.measures )
            {
                if( m.staves.empty() ) m.staves.resize( (size_t)r.range( 1, 3 ) );
                for( auto& st : m.staves )
                {
                    auto many = [&]() { return r.chance( 1, 6 ) ? 0 : r.chance( 1, 3 ) ? r.range( 17, app.thorough ? 300 : 90 ) : r.range( 1, 12 ); };
                    auto grow = [&]( auto& v ) {
                        int n = many();
                        v.clear();
                        for( int i = 0; i < n; ++i ) { rf::Arb h( r, 4 ); h.maxVec = 2; v.emplace_back(); if( i < 40 ) h.fill( v.back() ); else v.back() = v[r.below( v.size() - 1 )]; }
                        ticks( r, v, r.range( 0, 7 ) );
                    };
                    grow( st.clefs ); grow( st.directions );
                    st.voices.clear();
                    int nv = r.range( 0, 4 );
                    for( int i = 0; i < nv; ++i ) grow( st.voices[r.range( 0, 7 )].notes );
                }
            }
        }
        ScoreData before = s;
        app.stage( "sort" );
        s.sort();
        // everything but the order inside the three kinds of sequence stays
        ScoreData x = before, y = s;
        if( x.parts.size() != y.parts.size() ) { app.fail( "altered:parts", "number of parts" ); return; }
        for( size_t p = 0; p < x.parts.size(); ++p )
        {
            auto &xp = x.parts[p], &yp = y.parts[p];
            if( xp.measures.size() != yp.measures.size() ) { app.fail( "altered:measures", "number of measures" ); return; }
            for( size_t m = 0; m < xp.measures.size(); ++m )
            {
                auto &xm = xp.measures[m], &ym = yp.measures[m];
                if( xm.staves.size() != ym.staves.size() ) { app.fail( "altered:staves", "number of staves" ); return; }
                for( size_t t = 0; t < xm.staves.size(); ++t )
                {
                    auto &xs = xm.staves[t], &ys = ym.staves[t];
                    compare( app, xs.clefs, ys.clefs, "clefs" );
                    compare( app, xs.directions, ys.directions, "directions" );
                    if( xs.voices.size() != ys.voices.size() ) { app.fail( "altered:voices", "number of voices" ); return; }
                    for( auto& v : xs.voices )
                    {
                        if( !ys.voices.count( v.first ) ) { app.fail( "altered:voicekeys", "a voice moved" ); continue; }
                        compare( app, v.second.notes, ys.voices[v.first].notes, "notes" );
                        ys.voices[v.first].notes.clear();
                        v.second.notes.clear();
                    }
                    xs.clefs.clear(); ys.clefs.clear(); xs.directions.clear(); ys.directions.clear();
                }
            }
        }
        app.count( "evaluations" );
        if( rf::text( x ) != rf::text( y ) ) app.fail( "altered:other", rf::show( rf::diff( x, y ) ) );
        ScoreData again = s;
        again.sort();
        app.count( "evaluations" );
        if( rf::text( again ) != rf::text( s ) ) app.fail( "notidempotent", rf::show( rf::diff( s, again ) ) );
        if( c % 16 == 0 ) app.sample( "score of " + std::to_string( before.parts.size() ) + " parts sorted; " + std::to_string( rf::flat( before ).size() ) + " leaves" );

        // the written score holds exactly the notes it was given
        if( c % 4 == 0 )
        {
            ScoreData w; w.ticksPerQuarter = 4; w.parts.emplace_back(); w.parts[0].uniqueId = "P1"; w.parts[0].measures.emplace_back(); w.parts[0].measures[0].staves.resize( 1 );
            auto& notes = w.parts[0].measures[0].staves[0].voices[0].notes;
            int n = r.range( 2, 60 );
            for( int i = 0; i < n; ++i )
            {
                NoteData d; d.pitchData.step = (Step)( i % 7 ); d.pitchData.octave = ( i / 7 ) % 9; d.tickTimePosition = r.range( 0, n / 3 ) * 2; d.durationData.durationTimeTicks = 2;
                d.durationData.durationName = DurationName::eighth;
                notes.push_back( d );
            }
            std::map<std::string, int> given;
            for( auto& d : notes ) ++given[std::to_string( (int)d.pitchData.step ) + "/" + std::to_string( d.pitchData.octave )];
            w.sort();
            for( size_t i = 1; i < notes.size(); ++i ) if( notes[i].tickTimePosition == notes[i - 1].tickTimePosition ) notes[i].isChord = true, notes[i - 1].isChord = true;
            auto& mgr = DocumentManager::getInstance();
            app.stage( "write sorted" );
            int id = mgr.createFromScore( w );
            std::ostringstream o; mgr.writeToStream( id, o );
            mgr.destroyDocument( id );
            std::string x1 = o.str(); std::map<std::string, int> found;
            const std::string names = "CDEFGAB";
            for( size_t pos = x1.find( "<pitch>" ); pos != std::string::npos; pos = x1.find( "<pitch>", pos + 1 ) )
            {
                size_t a = x1.find( "<step>", pos ), b = x1.find( "<octave>", pos );
                if( a == std::string::npos || b == std::string::npos ) break;
                ++found[std::to_string( (int)names.find( x1[a + 6] ) ) + "/" + x1[b + 8]];
            }
            std::map<std::string, int> want2;
            for( auto& k : given ) want2[k.first] = k.second;
            app.count( "evaluations" ); app.count( "written_notes", n );
            if( found != want2 ) app.fail( "written:notes", "the written score does not hold exactly the notes given; " + std::to_string( n ) + " notes" );
        }
    } );
}
