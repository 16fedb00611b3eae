// Histories over the document manager (C12): queries change nothing, documents share nothing, failing calls change nothing.
#include "gen_score.h"
#include "canon.h"
#include "xsdgen.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <climits>
#include <fstream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <tuple>
#include <sys/stat.h>
#include <unistd.h>
using namespace mx::api;
static DocumentManager& mgr() { return DocumentManager::getInstance(); }
// what a call gave: its result or the fact that it failed
static std::string bytesOf( int id ) { std::ostringstream o; try { mgr().writeToStream( id, o ); } catch( const std::exception& ) { return "exception"; } return o.str(); }
static std::string dataOf( int id ) { try { return rf::text( mgr().getData( id ) ); } catch( const std::exception& ) { return "exception"; } }
static std::string slurp( const std::string& f ) { std::ifstream i( f, std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
struct Failing : std::streambuf
{
    long left; bool throws;
    Failing( long n, bool t ) : left( n ), throws( t ) {}
    int overflow( int c ) override { if( left-- <= 0 ) { if( throws ) throw std::runtime_error( "device" ); return EOF; } return c; }
    std::streamsize xsputn( const char*, std::streamsize n ) override { std::streamsize k = std::min<std::streamsize>( n, std::max( 0L, left ) ); left -= k; if( k < n && throws ) throw std::runtime_error( "device" ); return k; }
};
// where two texts part
static std::string parting( const std::string& a, const std::string& b )
{
    size_t at = 0; while( at < a.size() && at < b.size() && a[at] == b[at] ) ++at;
    size_t lo = a.rfind( '\n', at ? at - 1 : 0 ); lo = lo == std::string::npos || at - lo > 200 ? ( at > 100 ? at - 100 : 0 ) : lo + 1;
    return "'" + a.substr( lo, at - lo + 60 ) + "' became '" + b.substr( std::min( lo, b.size() ), at - lo + 60 ) + "'";
}
static std::string fieldAt( const std::string& a, const std::string& b )
{
    size_t at = 0; while( at < a.size() && at < b.size() && a[at] == b[at] ) ++at;
    size_t lo = at ? a.rfind( '\n', at - 1 ) : std::string::npos; lo = lo == std::string::npos ? 0 : lo + 1;
    std::string l = a.substr( lo, a.find( '=', lo ) - lo ), o; for( char c : l ) if( !isdigit( (unsigned char)c ) ) o += c; return o;
}
// which voices there are
static std::string voicesOf( const ScoreData& s )
{
    std::string o; for( const auto& p : s.parts ) { o += 'p'; for( const auto& m : p.measures ) { o += 'm'; for( const auto& st : m.staves ) { o += 's'; for( const auto& v : st.voices ) if( !v.second.notes.empty() ) o += std::to_string( v.first ) + ','; } } }
    return o;
}
static void forgetNumbers( ScoreData& s ) { for( auto& p : s.parts ) for( auto& m : p.measures ) for( auto& st : m.staves ) for( auto& v : st.voices ) for( auto& n : v.second.notes ) n.userRequestedVoiceNumber = 0; }
// part groups in an order of their own
static void sortGroups( ScoreData& s )
{
    std::sort( s.partGroups.begin(), s.partGroups.end(), []( const PartGroupData& a, const PartGroupData& b ) {
        return std::tie( a.firstPartIndex, a.lastPartIndex, a.number, a.name, a.displayName, a.abbreviation, a.displayAbbreviation, a.bracketType )
             < std::tie( b.firstPartIndex, b.lastPartIndex, b.number, b.name, b.displayName, b.abbreviation, b.displayAbbreviation, b.bracketType ); } );
}
// the data differ, and only in the order of groups without a number which hold the same parts
static bool onlyGroupOrder( ScoreData a, ScoreData b )
{
    if( a.partGroups.size() != b.partGroups.size() ) return false;
    for( size_t i = 0; i < a.partGroups.size(); ++i )
    {
        const auto &x = a.partGroups[i], &y = b.partGroups[i];
        if( x.firstPartIndex != y.firstPartIndex || x.lastPartIndex != y.lastPartIndex || x.number != y.number ) return false;
        if( x.number != -1 && ( x.name != y.name || x.abbreviation != y.abbreviation || x.bracketType != y.bracketType ) ) return false;
    }
    sortGroups( a ); sortGroups( b ); return rf::text( a ) == rf::text( b );
}
struct Source { std::string kind; std::string xml; ScoreData score; bool isScore = false; };
struct Live { std::string bytes, data, kind; bool timewise = false; };
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    std::vector<std::string> files; if( app.opt.count( "files" ) ) { std::ifstream l( app.opt["files"] ); std::string q; while( std::getline( l, q ) ) if( !q.empty() ) files.push_back( q ); }
    const std::string path = app.tmp + "/iso" + std::to_string( getpid() ) + ".xml";
    const std::string empty = rf::text( ScoreData{} );
    app.run( [&]( long c, vf::Rng& r ) {
        std::map<int, Live> live; std::vector<int> dead; std::set<int> given;
        if( c == 0 )
        {
            ScoreData d; d.parts.resize( 1 ); d.parts[0].uniqueId = "P1"; d.parts[0].measures.resize( 1 ); d.parts[0].measures[0].staves.resize( 1 );
            d.partGroups.resize( 2 ); for( auto& g : d.partGroups ) { g.firstPartIndex = 0; g.lastPartIndex = 0; g.number = -1; } d.partGroups[0].name = "one"; d.partGroups[1].name = "two";
            auto again = [&]( const ScoreData& in ) { const int k = mgr().createFromScore( in ); given.insert( k ); dead.push_back( k ); ScoreData out = mgr().getData( k ); mgr().destroyDocument( k ); return out; };
            const ScoreData e = again( d ), f = again( e ); const std::string t = rf::text( e ), u = rf::text( f );
            if( t != u ) app.fail( onlyGroupOrder( e, f ) ? "recreate-group-order" : "recreate:" + fieldAt( t, u ), "two groups of the same part: " + parting( t, u ) );
        }
        auto make = [&]() {
            Source s; const int k = (int)r.below( files.empty() ? 9 : 10 );
            if( k < 5 )
            {
                gs::Knobs kn = knobsFor( r.flip() ? "all" : r.flip() ? "notes" : "measures", (long)r.below( 100 ), r, false ); kn.maxParts = 2; kn.maxMeasures = 3;
                gs::Gen g( r, kn ); s.score = g.make(); s.isScore = true; s.kind = "score";
                if( r.chance( 1, 3 ) ) s.score.musicXmlType = "timewise";
            }
            else if( k < 9 )
            {
                xg::Gen g( x, r ); static const int b[] = { 40, 120, 300 }; g.budget = b[r.below( 3 )]; g.attrPct = r.range( 0, 60 ); g.manyPct = r.range( 5, 50 ); g.maxMeasures = r.range( 1, 4 );
                auto e = g.doc( r.chance( 2, 5 ) ); tame( x, e ); if( r.chance( 1, 3 ) ) { int left = r.range( 1, 8 ); damage( r, e, left ); }
                s.xml = xg::xml( e, 1, r.flip() ); s.kind = "document";
            }
            else { do s.xml = slurp( r.pick( files ) ); while( s.xml.size() > 40000 && !r.chance( 1, 30 ) ); s.kind = "file"; }
            return s; };
        auto create = [&]( const Source& s, int how ) {
            if( s.isScore ) return mgr().createFromScore( s.score );
            if( how == 0 ) { std::istringstream i( s.xml ); return mgr().createFromStream( i ); }
            { std::ofstream f( path, std::ios::binary ); f << s.xml; }
            int id = 0; try { id = mgr().createFromFile( path ); } catch( ... ) { unlink( path.c_str() ); throw; }
            if( r.flip() ) unlink( path.c_str() ); else { std::ofstream f( path, std::ios::binary ); f << "<x/>"; }
            return id; };
        std::string log;
        auto note = [&]( const std::string& s ) { log += s + "; "; app.count( "calls" ); };
        auto check = [&]( int id, const Live& l, const char* when ) {
            app.count( "evaluations", 2 );
            const bool dataFirst = r.flip();
            std::string d = dataFirst ? dataOf( id ) : "", b = bytesOf( id ); if( !dataFirst ) d = dataOf( id );
            if( b != l.bytes ) app.fail( std::string( "bytes:" ) + when, "a " + l.kind + ": " + parting( l.bytes, b ) + " after: " + log );
            if( d != l.data ) app.fail( std::string( "data:" ) + when, "a " + l.kind + ": " + parting( l.data, d ) + " after: " + log ); };
        auto any = [&]() { auto it = live.begin(); std::advance( it, (long)r.below( live.size() ) ); return it->first; };
        auto deadId = [&]() { static const int e[] = { 0, -1, INT_MAX, INT_MIN, 1000000000 }; return !dead.empty() && r.chance( 3, 4 ) ? r.pick( dead ) : e[r.below( 5 )]; };
        const int ops = r.range( 6, 22 ); uint64_t shape = 0;
        for( int n = 0; n < ops; ++n )
        {
            int op = live.empty() ? 0 : (int)r.below( 16 ); if( op < 4 && live.size() >= 5 ) op = 15;
            shape = shape * 31 + (uint64_t)op + 1;
            app.stage( ( "op " + std::to_string( op ) ).c_str() );
            if( op < 4 )
            {
                Source s = make(); Live l; l.kind = s.kind;
                // twins tell what the document gives when nothing else was asked of it
                try
                {
                    const int how = (int)r.below( 2 );
                    int a = create( s, 0 ); given.insert( a ); l.bytes = bytesOf( a ); mgr().destroyDocument( a ); dead.push_back( a );
                    int b = create( s, 0 ); if( !given.insert( b ).second ) app.fail( "id-again", "an id is given twice" ); l.data = dataOf( b ); mgr().destroyDocument( b ); dead.push_back( b );
                    int id = create( s, how ); if( !given.insert( id ).second ) app.fail( "id-again", "an id is given twice" );
                    auto d = mgr().getDocument( id ); l.timewise = d && d->getChoice() == mx::core::DocumentChoice::timewise;
                    live[id] = l; note( "create " + std::to_string( id ) + " from a " + s.kind ); app.count( s.kind + "s-created" ); if( l.timewise ) app.count( "timewise-created" );
                    // the structure passed in is the caller's
                    if( s.isScore && r.flip() ) { s.score.parts.clear(); s.score.workTitle = "changed"; s.score.ticksPerQuarter = 1; }
                }
                catch( const std::exception& ) { note( "create fails from a " + s.kind ); app.count( "creations-failed" ); }
                if( !live.empty() && r.chance( 1, 2 ) ) { int id = any(); check( id, live[id], "after-create" ); }
                continue;
            }
            const int id = any(); Live& l = live[id]; const std::string sid = std::to_string( id );
            switch( op )
            {
                case 4: { note( "get data " + sid ); ScoreData d; std::string t; try { d = mgr().getData( id ); t = rf::text( d ); } catch( const std::exception& ) { t = "exception"; }
                          app.count( "evaluations" ); if( t != l.data ) app.fail( "data:get", "a " + l.kind + ": " + parting( l.data, t ) + " after: " + log );
                          d.parts.clear(); d.workTitle = "mine"; break; }
                case 5: { note( "write " + sid ); std::string b = bytesOf( id ); app.count( "evaluations" ); if( b != l.bytes ) app.fail( "bytes:write", "a " + l.kind + ": " + parting( l.bytes, b ) + " after: " + log ); break; }
                case 6: { note( "write to file " + sid ); bool threw = false; if( r.flip() ) { std::ofstream f( path, std::ios::binary ); f << std::string( 300000, 'x' ); }
                          try { mgr().writeToFile( id, path ); } catch( const std::exception& ) { threw = true; }
                          const std::string b = threw ? "exception" : slurp( path ); unlink( path.c_str() ); app.count( "evaluations" );
                          if( b != l.bytes ) app.fail( "bytes:file", "a " + l.kind + ": " + parting( l.bytes, b ) + " after: " + log ); break; }
                case 7: { note( "look at " + sid ); auto d = mgr().getDocument( id ); app.count( "evaluations" ); if( !d ) { app.fail( "document:missing", "no document for a live id after: " + log ); break; }
                          std::ostringstream o1, o2; try { if( d->getChoice() == mx::core::DocumentChoice::partwise ) { auto s = d->getScorePartwise(); s->toStream( o1, 0 ); s->toStream( o2, 0 ); } else { auto s = d->getScoreTimewise(); s->toStream( o1, 0 ); s->toStream( o2, 0 ); } } catch( const std::exception& ) {}
                          if( o1.str() != o2.str() ) app.fail( "document:stream", "streaming the element tree twice differs after: " + log ); break; }
                case 8: { // a load that is refused
                          std::string g; const int gk = (int)r.below( 5 ); switch( gk ) { case 0: g = "no xml at all"; break; case 1: g = "<html><body/></html>"; break; case 2: g = l.bytes.substr( 0, r.below( l.bytes.size() + 1 ) ); break; case 3: g = ""; break;
                              default: { g = l.bytes; size_t p = g.find( "<part " ); if( p != std::string::npos ) g.replace( p, 6, "<port " ); } }
                          note( "load garbage" );
                          try { std::istringstream i( g ); if( r.chance( 1, 4 ) ) i.setstate( std::ios::failbit ); int k = mgr().createFromStream( i ); if( !given.insert( k ).second ) app.fail( "id-again", "an id is given twice" ); mgr().destroyDocument( k ); dead.push_back( k ); } catch( const std::exception& ) { app.count( "loads-refused" ); }
                          try { int k = mgr().createFromFile( app.tmp + "/no/such/file.xml" ); app.fail( "create:missing-file", "a missing file gives document " + std::to_string( k ) ); } catch( const std::exception& ) {}
                          break; }
                case 9: { note( "failing write " + sid ); Failing f( (long)r.below( l.bytes.size() + 50 ), r.flip() ); std::ostream o( &f ); if( r.flip() ) o.exceptions( std::ios::badbit | std::ios::failbit );
                          try { mgr().writeToStream( id, o ); } catch( const std::exception& ) { app.count( "writes-failed" ); }
                          try { mgr().writeToFile( id, app.tmp + "/no/such/dir.xml" ); } catch( const std::exception& ) {}
                          break; }
                case 10: case 11: { // ids without a document
                          const int k = deadId(); if( live.count( k ) ) break; unlink( path.c_str() ); note( "query dead " + std::to_string( k ) ); app.count( "evaluations", 4 );
                          std::string d; try { d = rf::text( mgr().getData( k ) ); } catch( const std::exception& e ) { d = std::string( "exception " ) + e.what(); }
                          if( d != empty ) app.fail( "dead:data", "an id without document gives data: " + parting( empty, d ) + " after: " + log );
                          std::ostringstream o; o << "before"; bool threw = false; try { mgr().writeToStream( k, o ); } catch( const std::exception& ) { threw = true; } if( threw || o.str() != "before" ) app.fail( "dead:write", "an id without document writes something after: " + log );
                          try { mgr().writeToFile( k, path ); } catch( const std::exception& ) { threw = true; } struct stat st; if( threw || stat( path.c_str(), &st ) == 0 ) { app.fail( "dead:file", "an id without document writes a file after: " + log ); unlink( path.c_str() ); }
                          if( mgr().getDocument( k ) ) app.fail( "dead:document", "an id without document has a document after: " + log );
                          if( r.flip() ) mgr().destroyDocument( k );
                          break; }
                case 12: { // the tree is the caller's to change: the document changes, no other does
                          note( "convert " + sid ); auto d = mgr().getDocument( id ); if( !d ) break; try { d->convertContents(); } catch( const std::exception& ) {}
                          const std::string b = bytesOf( id ); l.bytes = b; l.data = dataOf( id ); l.timewise = !l.timewise; app.count( "conversions" );
                          break; }
                case 13: { // a document created from the data of another
                          note( "re-create " + sid ); ScoreData d1; try { d1 = mgr().getData( id ); } catch( const std::exception& ) { break; }
                          try
                          {
                              const int a = mgr().createFromScore( d1 ); if( !given.insert( a ).second ) app.fail( "id-again", "an id is given twice" );
                              ScoreData d2 = mgr().getData( a ); const int b = mgr().createFromScore( d2 ); if( !given.insert( b ).second ) app.fail( "id-again", "an id is given twice" );
                              ScoreData d3 = mgr().getData( b ); app.count( "evaluations" ); app.count( "re-created" );
                              const std::string t2 = rf::text( d2 ), t3 = rf::text( d3 );
                              if( t2 != t3 && voicesOf( d1 ) != voicesOf( d2 ) )
                              {
                                  // notes of one voice at the same time became several voices: the numbers the notes request follow one re-creation later, nothing else does
                                  app.count( "voices-told-apart" ); ScoreData e2 = d2, e3 = d3; forgetNumbers( e2 ); forgetNumbers( e3 ); const std::string u2 = rf::text( e2 ), u3 = rf::text( e3 );
                                  if( u2 != u3 ) app.fail( "recreate:" + fieldAt( u2, u3 ), "a " + l.kind + ": " + parting( u2, u3 ) );
                                  const int f = mgr().createFromScore( d3 ); if( !given.insert( f ).second ) app.fail( "id-again", "an id is given twice" );
                                  const std::string t4 = dataOf( f ); mgr().destroyDocument( f ); dead.push_back( f ); if( t3 != t4 ) app.fail( "recreate:" + fieldAt( t3, t4 ), "a " + l.kind + ": " + parting( t3, t4 ) );
                              }
                              else if( t2 != t3 && onlyGroupOrder( d2, d3 ) ) app.fail( "recreate-group-order", parting( t2, t3 ) );
                              else if( t2 != t3 ) app.fail( "recreate:" + fieldAt( t2, t3 ), "a " + l.kind + ": " + parting( t2, t3 ) );
                              // data in the supported range is stable from the first re-creation on (the voice number of a note is only a request)
                              if( l.kind == "score" ) { canon( d1 ); canon( d2 ); const std::string t1 = rf::text( d1 ), t2 = rf::text( d2 ); if( t1 != t2 ) app.fail( "recreate-first:" + fieldAt( t1, t2 ), "a " + l.kind + ": " + parting( t1, t2 ) ); }
                              Live n1; n1.bytes = bytesOf( b ); n1.data = t3; n1.kind = "re-created " + l.kind; n1.timewise = l.timewise;
                              mgr().destroyDocument( a ); dead.push_back( a ); if( live.size() < 6 ) live[b] = n1; else { mgr().destroyDocument( b ); dead.push_back( b ); }
                          }
                          catch( const std::exception& e ) { app.fail( "recreate:exception", "a " + l.kind + " read from a document cannot be created again: " + e.what() ); }
                          break; }
                default: { note( "destroy " + sid ); auto held = r.flip() ? mgr().getDocument( id ) : nullptr; mgr().destroyDocument( id ); dead.push_back( id );
                           if( held && r.flip() ) { try { std::ostringstream o; if( held->getChoice() == mx::core::DocumentChoice::partwise ) held->getScorePartwise()->toStream( o, 0 ); else held->getScoreTimewise()->toStream( o, 0 ); held->convertContents(); } catch( const std::exception& ) {} }
                           live.erase( id ); break; }
            }
            if( !live.empty() && r.chance( 2, 3 ) ) { int k = any(); check( k, live[k], "one" ); }
        }
        for( auto& l : live ) { check( l.first, l.second, "end" ); }
        for( auto& l : live ) mgr().destroyDocument( l.first );
        app.seen( shape );
        app.sample( log );
    } );
}
