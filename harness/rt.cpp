// Round trip of score data: build, write, load, read, compare field by field (C05, C06, C07).
#include "gen_score.h"
#include "canon.h"
#include "mx/api/DocumentManager.h"
#include <sstream>
#include <set>
using namespace mx::api;

int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string area = app.opt.count( "area" ) ? app.opt["area"] : "notes";
    std::map<std::string, std::set<std::string>> uncov;
    auto& mgr = DocumentManager::getInstance();
    app.run( [&]( long c, vf::Rng& r ) {
        gs::Knobs k = knobsFor( area, c, r, app.thorough );
        gs::Gen g( r, k );
        ScoreData in = g.make();
        app.stage( "create" );
        int id = mgr.createFromScore( in );
        std::ostringstream o; mgr.writeToStream( id, o );
        mgr.destroyDocument( id );
        app.stage( "load" );
        std::istringstream i( o.str() );
        ScoreData out;
        try
        {
            int id2 = mgr.createFromStream( i );
            out = mgr.getData( id2 );
            mgr.destroyDocument( id2 );
        }
        catch( const std::exception& e )
        {
            app.fail( "exception", std::string( "the written score does not load: " ) + e.what() );
            return;
        }
        canon( in ); canon( out );
        auto want = select( rf::flat( in ), area ), got = select( rf::flat( out ), area );
        app.count( "evaluations", (long long)want.size() );
        std::map<std::string, const rf::Leaf*> gm; for( auto& l : got ) gm[l.path] = &l;
        // a container whose size or keys changed is reported once; what is inside it no longer lines up
        std::vector<std::string> broken;
        int shown = 0;
        if( app.opt.count( "uncov" ) ) for( auto& l : want ) { auto& q = uncov[rf::generic( l.path )]; if( q.size() < 3 ) q.insert( l.value ); }
        std::string markPath, markType;
        for( auto& l : want )
        {
            const auto mp = l.path.rfind( ".markType" );
            if( mp != std::string::npos && mp + 9 == l.path.size() ) { markPath = l.path.substr( 0, mp ); markType = ":" + l.value; }
            const std::string kind = !markPath.empty() && l.path.compare( 0, markPath.size(), markPath ) == 0 ? markType : "";
            app.seen( vf::hashStr( rf::generic( l.path ) + "=" + l.value ) );
            if( shown > 40 ) break;
            bool inside = false;
            for( auto& b : broken ) if( l.path.compare( 0, b.size(), b ) == 0 ) { inside = true; break; }
            if( inside ) continue;
            auto it = gm.find( l.path );
            if( it == gm.end() ) { app.fail( "lost:" + rf::generic( l.path ) + kind, l.path + " was " + l.value + ", it is gone" ); ++shown; continue; }
            if( rf::sameLeaf( l, *it->second, 1e-6L ) ) continue;
            for( const char* e : { ".size", ".keys", ".has" } )
                if( l.path.size() > strlen( e ) && l.path.compare( l.path.size() - strlen( e ), strlen( e ), e ) == 0 )
                    broken.push_back( l.path.substr( 0, l.path.size() - strlen( e ) ) );
            app.fail( "changed:" + rf::generic( l.path ) + kind, l.path + ": " + l.value + " came back as " + it->second->value ); ++shown;
        }
        if( app.verbose ) { fprintf( stderr, "%s\n", o.str().c_str() ); }
        app.sample( "area " + area + ": " + std::to_string( want.size() ) + " leaves, " + std::to_string( in.parts.size() ) + " parts, " + std::to_string( o.str().size() ) + " bytes of XML" );
    } );
    for( auto& u : uncov ) if( u.second.size() < 2 ) printf( "U %s %s\n", u.first.c_str(), u.second.begin()->c_str() );
}
