// Operations that are made to fail (C18): refused memory, failing streams and files, rejected inputs.
#include "ledger.h"
#include "gen_score.h"
#include "canon.h"
#include "xsdgen.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <fstream>
#include <future>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace mx::api;
static DocumentManager& mgr() { return DocumentManager::getInstance(); }
static uint64_t bytesOf( int id ) { std::ostringstream o; try { mgr().writeToStream( id, o ); } catch( const std::exception& ) { return 1; } return vf::hashStr( o.str() ); }
static uint64_t dataOf( int id ) { try { return rf::hashOf( mgr().getData( id ) ); } catch( const std::exception& ) { return 1; } }
// input that ends badly, output that does
struct BadIn : std::streambuf
{
    const std::string& s; size_t at = 0, limit; int how;
    BadIn( const std::string& t, size_t l, int h ) : s( t ), limit( l ), how( h ) {}
    char c = 0;
    int underflow() override { if( at >= limit ) { if( how == 0 ) throw std::runtime_error( "device" ); return EOF; } if( at >= s.size() ) return EOF; c = s[at]; setg( &c, &c, &c + 1 ); ++at; return (unsigned char)c; }
    // half of the streams can tell where they are, and lie
    std::streampos seekoff( std::streamoff off, std::ios_base::seekdir d, std::ios_base::openmode ) override
    {
        if( how == 2 ) return -1;
        if( d == std::ios_base::end ) return (std::streamoff)s.size() + ( how == 3 ? 1000 : 0 ); 
        if( d == std::ios_base::beg ) { at = (size_t)off; setg( nullptr, nullptr, nullptr ); }
        return (std::streamoff)at;
    }
    std::streampos seekpos( std::streampos p, std::ios_base::openmode m ) override { return seekoff( p, std::ios_base::beg, m ); }
};
struct BadOut : std::streambuf
{
    long left; bool throws;
    BadOut( long n, bool t ) : left( n ), throws( t ) {}
    int overflow( int c ) override { if( left-- <= 0 ) { if( throws ) throw std::runtime_error( "device" ); return EOF; } return c; }
    std::streamsize xsputn( const char*, std::streamsize n ) override { std::streamsize k = std::min<std::streamsize>( n, std::max( 0L, left ) ); left -= k; if( k < n && throws ) throw std::runtime_error( "device" ); return k; }
};
struct Doc { int id = 0; uint64_t bytes = 0, data = 0; };
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    const std::string path = app.tmp + "/fault" + std::to_string( getpid() ) + ".xml";
    { std::ofstream f( path ); f << "x"; } // iostreams are ready
    const int perOp = app.opt.count( "points" ) ? atoi( app.opt["points"].c_str() ) : 40;
    app.run( [&]( long c, vf::Rng& r ) {
        std::vector<ScoreData> scores; std::vector<std::string> xmls; std::vector<Doc> docs;
        for( int i = 0; i < 2; ++i )
        {
            gs::Knobs kn = knobsFor( i ? "all" : r.flip() ? "notes" : "measures", (long)r.below( 8 ), r, false ); kn.maxParts = 2; kn.maxMeasures = 2; kn.maxEvents = 3; kn.maxStaves = 2;
            gs::Gen g( r, kn ); scores.push_back( g.make() ); if( r.chance( 1, 3 ) ) scores.back().musicXmlType = "timewise";
            xg::Gen q( x, r ); q.budget = r.range( 20, 120 ); q.attrPct = r.range( 0, 60 ); q.manyPct = 20; q.maxMeasures = 2; auto e = q.doc( r.chance( 1, 3 ) ); tame( x, e ); xmls.push_back( xg::xml( e, 1, true ) );
        }
        auto fromXml = [&]( const std::string& s ) { std::istringstream i( s ); return mgr().createFromStream( i ); };
        for( int i = 0; i < 2; ++i ) { Doc d; d.id = mgr().createFromScore( scores[(size_t)i] ); docs.push_back( d ); d.id = fromXml( xmls[(size_t)i] ); docs.push_back( d ); }
        for( auto& d : docs ) { d.bytes = bytesOf( d.id ); d.data = dataOf( d.id ); if( bytesOf( d.id ) != d.bytes || dataOf( d.id ) != d.data ) return; } // (C12)
        // the ids that were given stay the only ones
        int lastId = docs.back().id;
        std::string what;
        auto survivors = [&]( bool all ) {
            const size_t from = all ? 0 : r.below( docs.size() ), to = all ? docs.size() : from + 1;
            for( size_t i = from; i < to; ++i )
            {
                app.count( "evaluations", 2 );
                if( bytesOf( docs[i].id ) != docs[i].bytes ) app.fail( "document-bytes:" + what, "another document is written differently after a failed " + what );
                if( dataOf( docs[i].id ) != docs[i].data ) app.fail( "document-data:" + what, "another document gives other data after a failed " + what );
            } };
        auto strangers = [&]( const char* why ) {
            for( int k = lastId + 1; k < lastId + 4; ++k ) if( mgr().getDocument( k ) ) { app.fail( std::string( "stranger:" ) + why + ":" + what, "a failed call left document " + std::to_string( k ) ); mgr().destroyDocument( k ); } };
        auto other = [&]() { // another thread is served
            auto f = std::async( std::launch::async, [&] { int a = mgr().getUniqueId(); return a + (int)( mgr().getDocument( docs[0].id ) == nullptr ); } );
            if( f.wait_for( std::chrono::seconds( 60 ) ) != std::future_status::ready ) { app.fail( "stuck:" + what, "the manager does not answer another thread after a failed " + what ); fflush( stdout ); app.dumpStats(); _exit( 0 ); } };
        // one operation: runs it, gives back a signature of its result, 0 when it failed by a standard exception
        struct Operation { std::string name; std::function<uint64_t()> run; };
        std::vector<Operation> ops; uint64_t reference = 0;
        auto created = [&]( int id ) { const bool was = mem::armed; mem::armed = false; const uint64_t h = vf::hashStr( std::to_string( bytesOf( id ) ) + "," + std::to_string( dataOf( id ) ) ); if( id <= lastId ) app.fail( "id:" + what, "an id is given again" ); lastId = std::max( lastId, id ); mgr().destroyDocument( id ); (void)was; return h; };
        const size_t w = r.below( 2 ); const Doc dq = docs[r.below( docs.size() )];
        ops.push_back( { "createFromScore", [&, w] { return created( mgr().createFromScore( scores[w] ) ); } } );
        ops.push_back( { "createFromStream", [&, w] { std::istringstream i( xmls[w] ); return created( mgr().createFromStream( i ) ); } } );
        { std::ofstream f( path, std::ios::binary ); f << xmls[w]; }
        ops.push_back( { "createFromFile", [&, w] { return created( mgr().createFromFile( path ) ); } } );
        ops.push_back( { "getData", [&, dq] { ScoreData d = mgr().getData( dq.id ); mem::armed = false; return rf::hashOf( d ); } } );
        ops.push_back( { "writeToStream", [&, dq] { std::ostringstream o; mgr().writeToStream( dq.id, o ); mem::armed = false; return o.good() ? vf::hashStr( o.str() ) : 0; } } );
        const std::string out = path + ".out";
        ops.push_back( { "writeToFile", [&, dq] { mgr().writeToFile( dq.id, out ); mem::armed = false; std::ifstream i( out, std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return vf::hashStr( o.str() ); } } );
        const std::string bad = "<score-partwise><part-list/><part id=\"P1\"><measure/></part></score>";
        ops.push_back( { "rejected", [&] { std::istringstream i( bad ); return created( mgr().createFromStream( i ) ); } } );
        const std::string wrong = xmls[w].substr( 0, xmls[w].size() / 2 );
        ops.push_back( { "truncated", [&] { std::istringstream i( wrong ); return created( mgr().createFromStream( i ) ); } } );
        // a conversion that fails leaves the document as it was, whichever layout it had
        for( const bool timewise : { false, true } )
            ops.push_back( { timewise ? "convert-timewise" : "convert-partwise", [&, w, timewise] {
                const bool was = mem::armed; mem::armed = false;
                const int id = fromXml( xmls[w] ); auto d = mgr().getDocument( id ); lastId = std::max( lastId, id );
                if( ( d->getChoice() == mx::core::DocumentChoice::timewise ) != timewise ) d->convertContents();
                const uint64_t text = bytesOf( id );
                mem::armed = was;
                try { d->convertContents(); mem::armed = false; }
                catch( const std::exception& )
                {
                    mem::armed = false; app.count( "evaluations" );
                    if( ( d->getChoice() == mx::core::DocumentChoice::timewise ) != timewise || bytesOf( id ) != text ) app.fail( "half:" + what, "a conversion that failed for lack of memory changed the document" );
                    mgr().destroyDocument( id ); throw;
                }
                mgr().destroyDocument( id ); return (uint64_t)2; } } );
        uint64_t shape = 0;
        for( auto& op : ops )
        {
            what = op.name; app.stage( what.c_str() );
            auto once = [&]( bool& threw ) { uint64_t h = 0; threw = false; try { h = op.run(); mem::armed = false; } catch( const std::exception& ) { mem::armed = false; threw = true; } return h; };
            bool threw = false;
            reference = once( threw ); reference = once( threw ); // twice: what is made on first use stays
            const bool normally = threw;
            const long r0 = mem::requests, l0 = mem::live; once( threw ); const long n = mem::requests - r0;
            if( mem::live != l0 ) app.fail( "kept:" + what, "a successful " + what + " keeps " + std::to_string( mem::live - l0 ) + " blocks" );
            for( int k = 0; k < perOp; ++k )
            {
                const long at = k < 6 && c % 4 == 0 ? k + 1 : 1 + (long)r.below( (uint64_t)n ); const bool sticky = r.chance( 1, 4 );
                const long before = mem::live, b0 = mem::bytes; const int idBefore = lastId;
                mem::sticky = sticky; mem::left = at; mem::refused = 0; mem::armed = true;
                const uint64_t h = once( threw );
                const long after = mem::live, refused = mem::refused;
                app.count( "faults", refused > 0 ); app.count( "evaluations", 2 ); app.seen( vf::hashStr( what ) * 1000003 + (uint64_t)at * 2 + sticky );
                app.count( what + ( threw ? "-failed" : "-ended" ) );
                if( after != before ) app.fail( "leak:" + what, "refusing memory request " + std::to_string( at ) + " of " + std::to_string( n ) + ( sticky ? " and all later ones" : "" ) + " leaves " + std::to_string( after - before ) + " blocks (" + std::to_string( mem::bytes - b0 ) + " bytes)" );
                std::string where; bool threw2 = false;
                if( !threw && !normally && h != 0 && h != reference ) { mem::trace = true; mem::left = at; mem::armed = true; once( threw2 ); mem::trace = false; where = mem::site(); }
                if( !threw && !normally && h != 0 && h != reference ) app.fail( "wrong:" + where, what + ": refusing memory request " + std::to_string( at ) + " of " + std::to_string( n ) + ( sticky ? " and all later ones" : "" ) + " gives a wrong result without an exception" );
                if( threw ) { app.count( "evaluations" ); if( lastId == idBefore ) strangers( "memory" ); }
                if( k % 8 == 0 ) survivors( false );
                shape = shape * 31 + (uint64_t)threw;
            }
            survivors( true ); other();
        }
        // streams that fail
        for( int k = 0; k < perOp; ++k )
        {
            what = "failing-input"; app.stage( "failing input" ); const std::string& s = xmls[r.below( 2 )]; const int how = (int)r.below( 4 ); const size_t lim = r.chance( 1, 6 ) ? s.size() : r.below( s.size() + 1 );
            const long before = mem::live; const int idBefore = lastId; bool threw = false;
            { BadIn b( s, lim, how ); std::istream i( &b ); if( r.chance( 1, 3 ) ) i.exceptions( std::ios::badbit ); try { created( mgr().createFromStream( i ) ); } catch( const std::exception& ) { threw = true; } }
            const long kept = mem::live - before; app.count( "evaluations", 2 ); app.count( threw ? "failing-input-refused" : "failing-input-loaded" );
            if( kept ) app.fail( "leak:failing-input", "a failing input stream leaves " + std::to_string( kept ) + " blocks" );
            if( threw && lastId == idBefore ) strangers( "stream" );
            if( !threw && lim < s.rfind( '>' ) ) app.fail( "half:failing-input", "a stream that breaks off after " + std::to_string( lim ) + " of " + std::to_string( s.size() ) + " bytes gives a document" );
            what = "failing-output"; app.stage( "failing output" ); const Doc& d = docs[r.below( docs.size() )];
            const long before2 = mem::live;
            { BadOut b( (long)r.below( 6000 ), r.flip() ); std::ostream o( &b ); threw = false; if( r.chance( 1, 3 ) ) o.exceptions( std::ios::badbit | std::ios::failbit ); try { mgr().writeToStream( d.id, o ); } catch( const std::exception& ) { threw = true; } }
            const long kept2 = mem::live - before2; if( threw ) app.count( "failing-output-thrown" );
            app.count( "evaluations", 2 ); if( kept2 ) app.fail( "leak:failing-output", "a failing output stream leaves " + std::to_string( kept2 ) + " blocks" );
            if( k % 8 == 0 ) survivors( false );
        }
        // files that fail
        what = "failing-file"; app.stage( "failing file" );
        const std::string dir = path + ".d"; mkdir( dir.c_str(), 0700 );
        for( const std::string& f : { app.tmp + "/no/such/file.xml", dir, std::string( "/dev/full" ), std::string( "" ), std::string( "/dev/null" ), app.tmp + "/" + std::string( 5000, 'n' ) } )
        {
            const long before = mem::live; const int idBefore = lastId;
            if( f != "/dev/full" ) try { const int id = mgr().createFromFile( f ); app.fail( "file:loaded", "'" + f + "' gives document " + std::to_string( id ) ); mgr().destroyDocument( id ); } catch( const std::exception& ) {}
            bool threw = false; if( f != "" ) try { mgr().writeToFile( docs[0].id, f ); } catch( const std::exception& ) { threw = true; }
            const long kept = mem::live - before; if( threw ) app.count( "file-writes-thrown" );
            app.count( "evaluations", 2 );
            if( kept ) app.fail( "leak:failing-file", "a failing file leaves " + std::to_string( kept ) + " blocks" );
            if( lastId == idBefore ) strangers( "file" );
        }
        rmdir( dir.c_str() ); unlink( out.c_str() );
        survivors( true ); other();
        for( auto& d : docs ) mgr().destroyDocument( d.id );
        app.sample( "operations interrupted at random memory requests; " + std::to_string( app.stats["faults"] ) + " faults so far" );
    } );
    unlink( path.c_str() );
}
