// Random schema-valid documents through the real reader and writer: content kept (C02), schema-valid (C03), stable bytes (C04).
#include "xmlio.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <algorithm>
#include <set>
#include <unistd.h>
using namespace mx::api;
struct Probe { int node, index; };
// the first complaint of an exception, without file and line
static std::string reason( std::string w )
{
    size_t p = w.find( ": '" ); if( w.compare( 0, 9, "error in " ) == 0 && p != std::string::npos ) w = w.substr( p + 3 );
    // "is required but was not found" does not refuse by itself: the first other complaint does
    std::string first, other; std::istringstream lines( w ); for( std::string l; std::getline( lines, l ); ) { if( first.empty() ) first = l; if( other.empty() && l != "'" && l.find( "is required but was not found" ) == std::string::npos ) other = l; }
    w = other.empty() ? first : other;
    while( !w.empty() && ( w.back() == '\'' || w.back() == ' ' ) ) w.pop_back();
    for( auto& c : w ) if( c == ' ' ) c = '_';
    return w;
}
static std::vector<Probe> probes( const xg::Xsd& x )
{
    std::vector<Probe> p; std::set<std::pair<std::string, int>> done;
    for( size_t i = 0; i < x.nodes.size(); ++i )
    {
        auto& n = x.nodes[i];
        if( n.kind != "elem" || !done.insert( { n.name, n.type } ).second ) continue;
        int m = x.maxEnum( x.types[n.type].simple );
        for( auto& a : x.types[n.type].attrs ) m = std::max( m, x.maxEnum( a.simple ) );
        for( int k = 0; k < std::max( 3, m * ( m > 0 && m < 8 ? 2 : 1 ) ); ++k ) p.push_back( { (int)i, k } );
    }
    return p;
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string mode = app.opt["mode"];
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    xio::Schema schema( app.opt["schema"] + "/musicxml.xsd" );
    const auto pr = probes( x );
    if( mode == "count" ) { printf( "%zu\n", pr.size() ); return 0; }
    auto& mgr = DocumentManager::getInstance();
    std::vector<std::string> files;
    if( app.opt.count( "files" ) ) { std::ifstream l( app.opt["files"] ); std::string q; while( std::getline( l, q ) ) if( !q.empty() ) files.push_back( q ); }
    const long wild = (long)pr.size() + 600;
    app.run( [&]( long c, vf::Rng& seeded ) {
        vf::Rng fixedRng( 977 + (uint64_t)c * 0xD1342543DE82EF95ull ); vf::Rng& r = c < wild ? fixedRng : seeded;
        xg::Gen g( x, r );
        bool timewise = c % 5 == 1;
        if( c < (long)pr.size() )
        {
            auto& p = pr[(size_t)c];
            if( !x.nodes[timewise ? x.types[x.timewise].node : x.types[x.partwise].node].reach[(size_t)p.node] ) timewise = !timewise;
            g.focus = p.node; g.full = true; g.valueIndex = p.index; g.budget = 40; g.attrPct = 0; g.manyPct = 5; g.maxParts = 1; g.maxMeasures = 2;
        }
        else
        {
            static const int b[] = { 60, 200, 600, 1500 }; g.budget = b[r.below( app.thorough ? 4 : 3 )]; g.attrPct = r.range( 0, 70 ); g.manyPct = r.range( 5, 60 ); g.maxMeasures = r.range( 1, 6 );
            g.focus = r.chance( 4, 5 ) ? r.pick( pr ).node : -1;
            if( g.focus >= 0 && !x.nodes[timewise ? x.types[x.timewise].node : x.types[x.partwise].node].reach[(size_t)g.focus] ) timewise = !timewise;
        }
        app.stage( "generate" );
        xg::El in; std::string s; bool valid = true;
        if( !files.empty() )
        {
            // a file of the repository's own collection instead of a generated document
            std::ifstream f( files[(size_t)c % files.size()], std::ios::binary ); std::ostringstream b; b << f.rdbuf(); s = b.str();
            xio::Doc d( s ); if( !d.d ) return;
            in = d.tree(); if( in.name != "score-partwise" && in.name != "score-timewise" ) return;
            timewise = in.name == "score-timewise";
            xio::Doc v( xio::declared( s ) ); valid = v.d && schema.valid( v );
            if( mode == "lossless" && !valid ) return;
            if( app.verbose ) fprintf( stderr, "%s valid %d\n", files[(size_t)c % files.size()].c_str(), valid );
        }
        else
        {
            in = g.doc( timewise );
            const bool pi = c >= (long)pr.size() && c % 6 == 0;
            if( c >= wild || pi ) tame( x, in );
            if( pi ) addPi( x, r, in, c % 12 ? 2 : 12 );
            if( mode == "fixpoint" && c >= wild && c % 2 ) { int left = r.range( 1, 12 ); damage( r, in, left ); valid = false; }
            s = xg::xml( in, r.range( 0, 2 ), r.chance( 3, 4 ) );
            if( app.verbose ) fprintf( stderr, "%s\n", s.c_str() );
            xio::Doc d( xio::declared( s ) ); if( valid && ( !d.d || !schema.valid( d ) ) ) { fprintf( stderr, "vf: harness error: case %ld generated an invalid document: %s at %s\n", c, d.d ? schema.first.c_str() : d.error.c_str(), schema.where.c_str() ); exit( 3 ); }
        }
        app.stage( "load" );
        std::istringstream i( s );
        int id = 0;
        try { id = mgr.createFromStream( i ); }
        catch( const std::exception& e ) { if( mode != "lossless" || !valid ) return; app.count( "evaluations" ); app.fail( "refused:" + reason( e.what() ), std::string( "a valid document is refused: " ) + e.what() ); return; }
        app.count( valid ? "valid-loaded" : "damaged-loaded" );
        app.stage( "write" );
        std::ostringstream o;
        try { mgr.writeToStream( id, o ); }
        catch( const std::exception& e ) { app.count( "evaluations" ); if( mode == "schema" && !valid ) { mgr.destroyDocument( id ); return; } app.fail( "unwritable:" + reason( e.what() ), std::string( "a loaded document cannot be written: " ) + e.what() ); mgr.destroyDocument( id ); return; }
        const std::string o1 = o.str();
        if( app.verbose ) fprintf( stderr, "%s\n", o1.c_str() );
        if( mode == "lossless" )
        {
            xio::Doc d( o1 );
            if( !d.d ) { app.fail( "malformed", d.error ); mgr.destroyDocument( id ); return; }
            std::vector<xio::Diff> diff; size_t leaves = 0;
            xio::compare( x, in, d.tree(), timewise ? x.timewise : x.partwise, "", diff, leaves );
            app.count( "evaluations", (long long)leaves );
            for( auto& q : diff ) app.fail( q.key, q.msg );
            std::function<void( const xg::El&, const std::string& )> walk = [&]( const xg::El& e, const std::string& p ) {
                app.seen( vf::hashStr( p + "/" + e.name + "=" + e.text ) ); for( auto& a : e.attrs ) app.seen( vf::hashStr( e.name + "@" + a.first + "=" + a.second ) );
                for( auto& k : e.kids ) walk( k, e.name ); };
            walk( in, "" );
        }
        else if( mode == "schema" )
        {
            if( !valid ) { mgr.destroyDocument( id ); return; }
            app.count( "evaluations", 2 ); app.seen( vf::hashStr( o1 ) );
            { xio::Doc d( xio::declared( o1 ) ); if( !d.d ) app.fail( "malformed", d.error ); else if( !schema.valid( d ) ) app.fail( "invalid:" + schema.where, "written from a valid document: " + schema.first ); }
            mgr.getDocument( id )->convertContents();
            std::ostringstream o2; mgr.writeToStream( id, o2 );
            { xio::Doc d( xio::declared( o2.str() ) ); if( !d.d ) app.fail( "malformed-converted", d.error ); else if( !schema.valid( d ) ) app.fail( "invalid-converted:" + schema.where, "written after conversion: " + schema.first ); }
        }
        else if( mode == "fixpoint" )
        {
            app.seen( vf::hashStr( o1 ) );
            std::ostringstream o2; mgr.writeToStream( id, o2 ); app.count( "evaluations", 3 );
            if( o2.str() != o1 ) app.fail( "second-write", "the second write of the same document differs" );
            const std::string f = app.tmp + "/f" + std::to_string( getpid() ) + ".xml";
            if( r.chance( 1, 2 ) ) { std::ofstream old( f, std::ios::binary ); const size_t n = r.below( 2 * o1.size() + 2 ); for( size_t i = 0; i < n; ++i ) old << (char)( 'a' + i % 26 ); app.count( "files-replaced" ); } else unlink( f.c_str() ); // what was there before leaves no trace
            mgr.writeToFile( id, f );
            std::ifstream in2( f, std::ios::binary ); std::ostringstream fc; fc << in2.rdbuf(); in2.close(); unlink( f.c_str() );
            if( fc.str() != o1 ) app.fail( "file-write", "the file differs from the stream: " + std::to_string( fc.str().size() ) + " bytes instead of " + std::to_string( o1.size() ) );
            try
            {
                std::istringstream i2( o1 ); int id2 = mgr.createFromStream( i2 ); std::ostringstream o3; mgr.writeToStream( id2, o3 ); mgr.destroyDocument( id2 );
                if( o3.str() != o1 )
                {
                    size_t at = 0; while( at < o1.size() && at < o3.str().size() && o1[at] == o3.str()[at] ) ++at; const size_t b = at > 60 ? at - 60 : 0;
                    app.fail( "rewrite", "loading what was written and writing it again differs: ..." + o1.substr( b, 140 ) + " became ..." + o3.str().substr( b, 140 ) );
                }
            }
            catch( const std::exception& e ) { app.fail( "reload", std::string( "what was written does not load: " ) + e.what() ); }
        }
        mgr.destroyDocument( id );
        app.sample( std::string( timewise ? "timewise" : "partwise" ) + ( files.empty() ? "" : " file " + files[(size_t)c % files.size()] + "," ) + " document of " + std::to_string( in.size() ) + " elements, " + std::to_string( s.size() ) + " bytes" + ( g.focus >= 0 ? ", with " + x.nodes[(size_t)g.focus].name : "" ) );
    } );
}
