// Memory over histories of the manager (C20): what is held depends on the living documents only.
#include "ledger.h"
#include "gen_score.h"
#include "canon.h"
#include "xsdgen.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mx::api;
static DocumentManager& mgr() { return DocumentManager::getInstance(); }
struct Source { bool isScore = false; ScoreData score; std::string xml; };
static int create( const Source& s ) { if( s.isScore ) return mgr().createFromScore( s.score ); std::istringstream i( s.xml ); return mgr().createFromStream( i ); }
// a stream that keeps nothing
struct Null : std::streambuf { long n = 0, limit = -1; int overflow( int c ) override { if( limit >= 0 && n >= limit ) return EOF; ++n; return c == EOF ? 0 : c; } std::streamsize xsputn( const char*, std::streamsize k ) override { if( limit >= 0 && n + k > limit ) return 0; n += k; return k; } };
static void write( int id, long limit = -1 ) { Null b; b.limit = limit; std::ostream o( &b ); try { mgr().writeToStream( id, o ); } catch( const std::exception& ) {} }
static void data( int id ) { try { ScoreData d = mgr().getData( id ); } catch( const std::exception& ) {} }
static void tree( int id ) { auto d = mgr().getDocument( id ); if( !d ) return; Null b; std::ostream o( &b ); try { if( d->getChoice() == mx::core::DocumentChoice::partwise ) d->getScorePartwise()->toStream( o, 0 ); else d->getScoreTimewise()->toStream( o, 0 ); } catch( const std::exception& ) {} }
static void convert( int id ) { auto d = mgr().getDocument( id ); if( d ) try { d->convertContents(); } catch( const std::exception& ) {} }
// the same sequence of calls for the same seed; everything it makes is destroyed at its end
static void history( const std::vector<Source>& src, uint64_t seed, const std::string& path, std::map<std::string, long>* calls )
{
    vf::Rng r( seed ); int live[8]; int n = 0; const int ops = r.range( 10, 60 );
    auto count = [&]( const char* k ) { if( calls ) ++( *calls )[k]; };
    mx::core::DocumentPtr held;
    for( int i = 0; i < ops; ++i )
    {
        int op = n == 0 ? 0 : (int)r.below( 14 ); if( op < 3 && n == 8 ) op = 13;
        const int at = n ? (int)r.below( (uint64_t)n ) : 0;
        switch( op )
        {
            case 0: case 1: case 2: { count( "create" ); try { live[n] = create( src[r.below( src.size() )] ); ++n; } catch( const std::exception& ) { count( "create-failed" ); } break; }
            case 3: case 4: count( "getData" ); data( live[at] ); break;
            case 5: count( "write" ); write( live[at] ); break;
            case 6: count( "failing-write" ); write( live[at], (long)r.below( 3000 ) ); break;
            case 7: count( "tree" ); tree( live[at] ); break;
            case 8: count( "convert" ); convert( live[at] ); break;
            case 9: { count( "garbage" ); static const char* const g[] = { "", "x", "<a/>", "<score-partwise><part/></score-partwise>", "<score-partwise><part-list/>", "<score-timewise version='3.0'><measure/></score-timewise>", "<score-partwise><movement-title>t</movement-title><part-list><score-part id='P'><part-name/></score-part></part-list><part id='P'><measure number='1'><note><rest/></note><note/></measure></part></score-partwise>" };
                      try { std::istringstream s( g[r.below( 7 )] ); const int k = mgr().createFromStream( s ); mgr().destroyDocument( k ); } catch( const std::exception& ) { count( "garbage-refused" ); }
                      try { mgr().createFromFile( path + "/none.xml" ); } catch( const std::exception& ) {} break; }
            case 10: { count( "dead" ); static const int ids[] = { 0, -5, 2000000000 }; const int k = ids[r.below( 3 )]; data( k ); write( k ); tree( k ); mgr().destroyDocument( k ); break; }
            case 11: { count( "file" ); const std::string f = path + "/b.xml"; try { mgr().writeToFile( live[at], f ); const int k = mgr().createFromFile( f ); mgr().destroyDocument( k ); } catch( const std::exception& ) {} unlink( f.c_str() ); break; }
            case 12: { count( "re-create" ); try { const int k = mgr().createFromScore( mgr().getData( live[at] ) ); mgr().destroyDocument( k ); mgr().destroyDocument( k ); } catch( const std::exception& ) {} break; }
            default: { count( "destroy" ); if( r.chance( 1, 4 ) ) held = mgr().getDocument( live[at] ); mgr().destroyDocument( live[at] ); live[at] = live[--n]; }
        }
    }
    held.reset();
    while( n ) mgr().destroyDocument( live[--n] );
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    auto make = [&]( vf::Rng& r ) {
        Source s; s.isScore = r.flip();
        if( s.isScore ) { gs::Knobs kn = knobsFor( r.flip() ? "all" : r.flip() ? "notes" : "measures", (long)r.below( 100 ), r, false ); kn.maxParts = 2; kn.maxMeasures = 2; kn.wildText = false; gs::Gen g( r, kn ); s.score = g.make(); if( r.chance( 1, 3 ) ) s.score.musicXmlType = "timewise"; }
        else { xg::Gen g( x, r ); g.budget = r.range( 30, 200 ); g.attrPct = r.range( 0, 70 ); g.manyPct = r.range( 5, 50 ); g.maxMeasures = 3; auto e = g.doc( r.chance( 2, 5 ) ); tame( x, e ); if( r.chance( 1, 3 ) ) { int left = r.range( 1, 10 ); damage( r, e, left ); } s.xml = xg::xml( e, 1, r.flip() ); }
        return s; };
    auto sources = [&]( vf::Rng& r ) { std::vector<Source> v; for( int i = r.range( 1, 4 ); i > 0; --i ) v.push_back( make( r ) ); return v; };
    { vf::Rng w( 4711 ); for( int i = 0; i < 12; ++i ) { auto s = sources( w ); history( s, w.next(), app.tmp, nullptr ); } } // what is made on first use
    int grew = 0;
    app.run( [&]( long, vf::Rng& r ) {
        auto src = sources( r ); const uint64_t seed = r.next(); std::map<std::string, long> calls;
        app.stage( "history" );
        { std::map<std::string, long> warm; history( src, seed, app.tmp, &calls ); }
        // the counters of this harness hold memory of their own: the history is repeated without them
        const long l0 = mem::live, b0 = mem::bytes; history( src, seed, app.tmp, nullptr ); const long l1 = mem::live, b1 = mem::bytes;
        for( auto& k : calls ) app.count( k.first, k.second );
        app.count( "evaluations", 2 ); app.seen( seed );
        if( l1 != l0 || b1 != b0 ) app.fail( "repeated-history", "a history that destroys all its documents leaves " + std::to_string( l1 - l0 ) + " blocks (" + std::to_string( b1 - b0 ) + " bytes) each time" );
        // contents never seen before leave nothing either; tables made on first use may appear a few times
        { auto fresh = sources( r ); const uint64_t s2 = r.next(); const long l2 = mem::live; history( fresh, s2, app.tmp, nullptr ); const long l3 = mem::live; app.count( "evaluations" ); if( l3 != l2 ) { app.count( "first-use-growth" ); if( ++grew > 6 ) app.fail( "new-history", "histories with new contents keep leaving blocks behind, the last one " + std::to_string( l3 - l2 ) ); } }
        // what one living document holds
        app.stage( "steady" );
        for( auto& s : src )
        {
            int id; try { id = create( s ); } catch( const std::exception& ) { continue; }
            data( id ); write( id ); tree( id ); data( id );
            const long a0 = mem::live, a1 = mem::bytes;
            for( int k = r.range( 1, 3 ); k > 0; --k ) { data( id ); write( id ); write( id, (long)r.below( 2000 ) ); tree( id ); mgr().getDocument( id ); mgr().getUniqueId(); data( -1 ); }
            const long a2 = mem::live, a3 = mem::bytes; app.count( "evaluations", 2 ); app.count( "steady-documents" );
            if( a2 != a0 || a3 != a1 ) app.fail( "queries", "queries and writes of a document make it hold " + std::to_string( a2 - a0 ) + " more blocks (" + std::to_string( a3 - a1 ) + " bytes)" );
            const long c0 = mem::live; { const int other = create( s ); data( other ); write( other ); mgr().destroyDocument( other ); } const long c1 = mem::live; app.count( "evaluations" );
            if( c1 != c0 ) app.fail( "destroy", "a document that was created and destroyed beside another leaves " + std::to_string( c1 - c0 ) + " blocks" );
            for( int k = 0; k < 2; ++k ) convert( id ); data( id ); write( id ); tree( id );
            const long d0 = mem::live; for( int k = 0; k < 4; ++k ) convert( id ); data( id ); write( id ); tree( id ); const long d1 = mem::live; app.count( "evaluations" );
            if( d1 != d0 ) app.fail( "convert", "converting a document forth and back makes it hold " + std::to_string( d1 - d0 ) + " more blocks" );
            mgr().destroyDocument( id );
        }
        app.sample( std::to_string( src.size() ) + " sources, blocks held " + std::to_string( l0 ) + " before and " + std::to_string( l1 ) + " after the history" );
    } );
}
