// Score data through the real writer: schema-valid (C03), stable bytes (C04). Scores are random, or read from the repository's files.
#include "gen_score.h"
#include "canon.h"
#include "xmlio.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <sstream>
#include <unistd.h>
using namespace mx::api;
static std::string diffAt( const std::string& a, const std::string& b )
{
    size_t at = 0; while( at < a.size() && at < b.size() && a[at] == b[at] ) ++at;
    const size_t s = at > 70 ? at - 70 : 0;
    return "..." + a.substr( s, 150 ) + " became ..." + b.substr( s, 150 );
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string mode = app.opt["mode"];
    xio::Schema schema( app.opt["schema"] + "/musicxml.xsd" );
    std::vector<std::string> files;
    if( app.opt.count( "files" ) ) { std::ifstream l( app.opt["files"] ); std::string q; while( std::getline( l, q ) ) if( !q.empty() ) files.push_back( q ); }
    auto& mgr = DocumentManager::getInstance();
    auto write = [&]( int id ) { std::ostringstream o; mgr.writeToStream( id, o ); return o.str(); };
    auto validate = [&]( const std::string& s, const std::string& kind, const std::string& what ) {
        app.count( "evaluations" );
        xio::Doc d( xio::declared( s ) );
        if( !d.d ) { app.fail( "malformed" + kind, what + " is not well-formed: " + d.error ); return; }
        if( !schema.valid( d ) ) app.fail( "invalid" + kind + ":" + schema.where, what + " is not valid: " + schema.first );
    };
    app.run( [&]( long c, vf::Rng& r ) {
        ScoreData in;
        app.stage( "generate" );
        if( files.empty() )
        {
            static const char* const areas[] = { "notes", "header", "measures", "all" };
            gs::Knobs k = knobsFor( areas[c % 4], c / 4, r, app.thorough );
            k.anonymousInstruments = true;
            if( c % 4 == 3 ) k.density = r.range( 10, 90 );
            gs::Gen g( r, k ); in = g.make();
        }
        else
        {
            try { int id = mgr.createFromFile( files[(size_t)c % files.size()] ); try { in = mgr.getData( id ); } catch( ... ) { mgr.destroyDocument( id ); return; } mgr.destroyDocument( id ); } catch( const std::exception& ) { return; }
        }
        app.stage( "create" );
        const int id = mgr.createFromScore( in );
        const std::string o1 = write( id );
        app.seen( vf::hashStr( o1 ) );
        if( app.opt.count( "print" ) ) { printf( "P %ld %016llx\n", c, (unsigned long long)vf::hashStr( o1 ) ); mgr.destroyDocument( id ); app.count( "evaluations" ); return; }
        if( app.verbose ) fprintf( stderr, "%s\n", o1.c_str() );
        if( mode == "schema" )
        {
            validate( o1, "", "a written score" );
            mgr.getDocument( id )->convertContents();
            validate( write( id ), "-converted", "a written score after conversion to timewise" );
        }
        else
        {
            app.count( "evaluations", 4 );
            const int id2 = mgr.createFromScore( in );
            const std::string o2 = write( id2 );
            if( o2 != o1 ) app.fail( "second-creation", "the same score written from a second document differs: " + diffAt( o1, o2 ) );
            if( write( id ) != o1 ) app.fail( "second-write", "the second write of the same document differs" );
            const std::string f = app.tmp + "/a" + std::to_string( getpid() ) + ".xml";
            if( r.chance( 1, 2 ) ) { std::ofstream old( f, std::ios::binary ); const size_t n = r.below( 2 * o1.size() + 2 ); for( size_t i = 0; i < n; ++i ) old << (char)( 'a' + i % 26 ); app.count( "files-replaced" ); } else unlink( f.c_str() ); // what was there before leaves no trace
            mgr.writeToFile( id2, f );
            std::ifstream in2( f, std::ios::binary ); std::ostringstream fc; fc << in2.rdbuf(); in2.close();
            if( fc.str() != o1 ) app.fail( "file-write", "the file differs from the stream: " + diffAt( o1, fc.str() ) );
            // a document that stays alive beside the others, changing over time
            static int kept = 0; if( kept ) mgr.destroyDocument( kept ); kept = id2;
            try
            {
                const int id3 = mgr.createFromFile( f ); const std::string o3 = write( id3 ); 
                if( o3 != o1 ) app.fail( "rewrite", "loading what was written and writing it again differs: " + diffAt( o1, o3 ) );
                // through the score data: one generation settles, the next reproduces it
                app.count( "evaluations", 1 );
                const ScoreData d1 = mgr.getData( id3 ); mgr.destroyDocument( id3 );
                const int id4 = mgr.createFromScore( d1 ); const std::string g1 = write( id4 ); mgr.destroyDocument( id4 );
                std::istringstream i5( g1 ); const int id5 = mgr.createFromStream( i5 ); const ScoreData d2 = mgr.getData( id5 ); mgr.destroyDocument( id5 );
                const int id6 = mgr.createFromScore( d2 ); const std::string g2 = write( id6 ); mgr.destroyDocument( id6 );
                if( g2 != g1 ) app.fail( "data-rewrite", "the score data read from what was written writes differently: " + diffAt( g1, g2 ) );
            }
            catch( const std::exception& e ) { app.fail( "reload", std::string( "what was written does not load: " ) + e.what() ); }
            unlink( f.c_str() );
        }
        mgr.destroyDocument( id );
        app.sample( ( files.empty() ? "random score" : "score of " + files[(size_t)c % files.size()] ) + ": " + std::to_string( in.parts.size() ) + " parts, " + std::to_string( o1.size() ) + " bytes of XML" );
    } );
}
