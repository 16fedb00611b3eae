// Partwise and timewise forms (C10): conversions of the real documents against a transposition of the libxml2 tree.
#include "gen_score.h"
#include "canon.h"
#include "xmlio.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <sstream>
#include <set>
using namespace mx::api;
static bool isScoreKid( const xg::El& k, bool timewise ) { return k.name == ( timewise ? "measure" : "part" ); }
static std::string show( const xg::El& e, int depth = 0 )
{
    std::string o = "<" + e.name; for( auto& a : e.attrs ) o += " " + a.first + "='" + a.second + "'";
    o += ">" + e.text; if( depth < 2 ) for( auto& k : e.kids ) { o += show( k, depth + 1 ); if( o.size() > 300 ) break; }
    return o;
}
static bool same( const xg::El& a, const xg::El& b, std::string path, std::string& why )
{
    path += "/" + a.name;
    if( a.name != b.name || a.text != b.text ) { why = path + ": " + show( a ) + " became " + show( b ); return false; }
    auto x = a.attrs, y = b.attrs; std::sort( x.begin(), x.end() ); std::sort( y.begin(), y.end() );
    if( x != y ) { why = path + " attributes: " + show( a, 2 ) + " became " + show( b, 2 ); return false; }
    for( size_t i = 0; i < std::min( a.kids.size(), b.kids.size() ); ++i ) if( !same( a.kids[i], b.kids[i], path + "[" + std::to_string( i ) + "]", why ) ) return false;
    if( a.kids.size() != b.kids.size() ) { why = path + ": " + std::to_string( a.kids.size() ) + " children became " + std::to_string( b.kids.size() ); return false; }
    return true;
}
// the music of a matrix in the other form
static xg::El transpose( const xg::El& in )
{
    const bool timewise = in.name == "score-timewise";
    xg::El o; o.name = timewise ? "score-partwise" : "score-timewise"; o.attrs = in.attrs;
    for( auto& k : in.kids ) if( !isScoreKid( k, timewise ) ) o.kids.push_back( k );
    if( !timewise )
    {
        size_t n = 0; for( auto& p : in.kids ) if( isScoreKid( p, false ) ) n = std::max( n, p.kids.size() );
        for( size_t m = 0; m < n; ++m )
        {
            xg::El me; me.name = "measure"; bool first = true;
            for( auto& p : in.kids ) if( isScoreKid( p, false ) && m < p.kids.size() )
            {
                if( first ) me.attrs = p.kids[m].attrs; first = false;
                xg::El q; q.name = "part"; q.attrs = p.attrs; q.kids = p.kids[m].kids; me.kids.push_back( q );
            }
            o.kids.push_back( me );
        }
        return o;
    }
    std::vector<xg::El> parts;
    size_t at = 0;
    for( auto& m : in.kids ) if( isScoreKid( m, true ) )
    {
        for( auto& p : m.kids )
        {
            auto* id = p.attr( "id" ); size_t i = 0; while( i < parts.size() && *parts[i].attr( "id" ) != *id ) ++i;
            if( i == parts.size() ) { xg::El q; q.name = "part"; q.attrs = p.attrs; parts.push_back( q ); }
            while( parts[i].kids.size() < at ) { xg::El e; e.name = "measure"; size_t j = 0; for( auto& mm : in.kids ) if( isScoreKid( mm, true ) && j++ == parts[i].kids.size() ) e.attrs = mm.attrs; parts[i].kids.push_back( e ); }
            xg::El me; me.name = "measure"; me.attrs = m.attrs; me.kids = p.kids; parts[i].kids.push_back( me );
        }
        ++at;
    }
    for( auto& p : parts ) o.kids.push_back( p );
    return o;
}
static bool regular( const xg::El& in, std::string& why )
{
    // the forms hold the same when the measures of all parts agree, part ids are unique and there is music
    const bool timewise = in.name == "score-timewise";
    std::set<std::string> listed, there; size_t n = 0;
    std::function<void( const xg::El& )> walk = [&]( const xg::El& e ) { if( e.name == "score-part" ) if( auto* a = e.attr( "id" ) ) if( !listed.insert( *a ).second ) why = "listed twice"; for( auto& k : e.kids ) if( k.name == "part-list" || k.name == "score-part" ) walk( k ); };
    walk( in );
    std::function<bool( const xg::El& )> pis = [&]( const xg::El& e ) { for( auto& k : e.kids ) if( k.name[0] == '?' || pis( k ) ) return true; return false; };
    if( pis( in ) ) why = "processing instructions";
    std::vector<std::vector<std::pair<std::string, std::string>>> attrs;
    for( auto& p : in.kids ) if( isScoreKid( p, timewise ) )
    {
        ++n; if( p.kids.empty() ) why = "empty part or measure";
        std::set<std::string> ids; size_t m = 0; if( !timewise ) { auto* a = p.attr( "id" ); if( !a || !there.insert( *a ).second ) why = "part id"; }
        for( auto& q : p.kids )
        {
            if( timewise ) { auto* a = q.attr( "id" ); if( !a || !ids.insert( *a ).second ) why = "part id"; else there.insert( *a ); continue; }
            auto s = q.attrs; std::sort( s.begin(), s.end() );
            if( m == attrs.size() ) attrs.push_back( s ); else if( attrs[m] != s ) why = "measures disagree";
            ++m;
        }
    }
    if( n == 0 ) why = "no music";
    if( listed != there ) why = "parts and part list differ";
    return why.empty();
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string mode = app.opt["mode"];
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    std::vector<std::string> files;
    if( app.opt.count( "files" ) ) { std::ifstream l( app.opt["files"] ); std::string q; while( std::getline( l, q ) ) if( !q.empty() ) files.push_back( q ); }
    auto& mgr = DocumentManager::getInstance();
    auto write = [&]( int id ) { std::ostringstream o; mgr.writeToStream( id, o ); return o.str(); };
    app.run( [&]( long c, vf::Rng& r ) {
        int id = 0; ScoreData in;
        if( mode == "score" )
        {
            static const char* const areas[] = { "all", "measures", "notes", "header" };
            gs::Knobs k = knobsFor( areas[c % 4], c / 4, r, app.thorough ); k.maxParts = r.range( 1, 6 ); k.maxMeasures = r.range( 1, 6 );
            gs::Gen g( r, k ); in = g.make();
            // what belongs to the measure is the same in every part
            for( auto& p : in.parts ) for( size_t m = 0; m < p.measures.size(); ++m ) { auto& a = in.parts[0].measures[m]; auto& b = p.measures[m]; b.number = a.number; b.width = a.width; b.implicit = a.implicit; b.nonControlling = a.nonControlling; }
            app.stage( "create" );
            id = mgr.createFromScore( in );
            ScoreData tw = in; tw.musicXmlType = "timewise";
            const int id2 = mgr.createFromScore( tw );
            const std::string a = write( id ), b = write( id2 );
            xio::Doc da( a ), db( b );
            app.count( "evaluations" );
            if( !da.d || !db.d ) { app.fail( "malformed", da.error + db.error ); return; }
            std::string why;
            if( !same( transpose( da.tree() ), db.tree(), "", why ) ) app.fail( "timewise-creation", "the score created as timewise writes other music: " + why );
            ScoreData p = mgr.getData( id ), q = mgr.getData( id2 );
            if( q.musicXmlType != "timewise" ) app.fail( "type", "a timewise document is read as " + q.musicXmlType );
            q.musicXmlType = p.musicXmlType;
            app.count( "evaluations" );
            if( !( p == q ) ) app.fail( "timewise-data", "the score data read from the timewise document differs from that of the partwise one" );
            if( write( id2 ) != b ) app.fail( "query-changes", "reading the score data of a timewise document changed it" );
            mgr.destroyDocument( id2 );
        }
        else
        {
            std::string s;
            if( !files.empty() ) { std::ifstream f( files[(size_t)c % files.size()], std::ios::binary ); std::ostringstream b; b << f.rdbuf(); s = b.str(); }
            else
            {
                xg::Gen g( x, r ); static const int bud[] = { 60, 200, 600 }; g.budget = bud[r.below( 3 )]; g.attrPct = r.range( 0, 60 ); g.manyPct = r.range( 5, 60 ); g.maxMeasures = r.range( 1, 7 ); g.maxParts = r.range( 1, 6 );
                xg::El d = g.doc( false ); tame( x, d );
                if( c % 3 == 1 ) // fewer measures in some parts
                    for( auto& p : d.kids ) if( p.name == "part" && r.flip() ) { size_t n = p.kids.size(); if( n > 1 ) p.kids.resize( 1 + r.below( n ) ); }
                std::vector<size_t> at; for( size_t i = 0; i < d.kids.size(); ++i ) if( d.kids[i].name == "part" ) at.push_back( i );
                if( c % 3 == 2 && at.size() > 1 ) for( size_t i = at.size() - 1; i > 0; --i ) std::swap( d.kids[at[i]], d.kids[at[r.below( i + 1 )]] );
                std::vector<std::vector<std::pair<std::string, std::string>>> attrs;
                for( auto i : at ) for( size_t m = 0; m < d.kids[i].kids.size(); ++m ) { if( m == attrs.size() ) attrs.push_back( d.kids[i].kids[m].attrs ); else d.kids[i].kids[m].attrs = attrs[m]; }
                if( c % 2 ) d = transpose( d );
                if( d.name == "score-timewise" && r.chance( 1, 4 ) ) for( auto& m : d.kids ) if( m.name == "measure" && m.kids.size() > 1 && r.flip() ) m.kids.erase( m.kids.begin() + (long)r.below( m.kids.size() ) );
                s = xg::xml( d, r.range( 0, 2 ), true );
            }
            if( app.verbose ) fprintf( stderr, "%s\n", s.c_str() );
            app.stage( "load" );
            std::istringstream i( s );
            try { id = mgr.createFromStream( i ); } catch( const std::exception& ) { app.count( "refused" ); return; }
        }
        app.stage( "convert" );
        const std::string o1 = write( id );
        xio::Doc d1( o1 ); if( !d1.d ) { app.fail( "malformed", d1.error ); mgr.destroyDocument( id ); return; }
        const xg::El t1 = d1.tree(); std::string why;
        if( !regular( t1, why ) ) { for( auto& q : why ) if( q == 32 ) q = 45; app.count( "irregular-" + why ); mgr.destroyDocument( id ); return; }
        app.count( "regular" ); app.seen( vf::hashStr( o1 ) );
        auto doc = mgr.getDocument( id );
        const xg::El want = transpose( t1 );
        std::string other;
        const int rounds = r.range( 1, 3 );
        for( int k = 0; k < rounds; ++k )
        {
            app.count( "conversions", 2 ); app.count( "evaluations", 2 );
            doc->convertContents();
            const std::string o2 = write( id );
            if( k > 0 && o2 != other ) { app.fail( "repeated", "the converted form differs the next time" ); break; }
            other = o2;
            xio::Doc d2( o2 ); if( !d2.d ) { app.fail( "malformed", d2.error ); break; }
            why.clear(); if( !same( want, d2.tree(), "", why ) ) { app.fail( "converted", why ); break; }
            doc->convertContents();
            const std::string o3 = write( id );
            if( o3 != o1 )
            {
                // a part that pauses comes back with empty measures, which mean the same
                xio::Doc d3( o3 ); why.clear();
                const xg::El canonical = transpose( transpose( t1 ) ); std::string dummy;
                const bool gaps = !same( t1, canonical, "", dummy );
                if( !d3.d || !same( gaps ? canonical : t1, d3.d ? d3.tree() : t1, "", why ) ) app.fail( "twice", "converted twice: " + why ); else if( !gaps ) app.fail( "twice-bytes", "converted twice, the text differs" ); else app.count( "documents-with-pauses" );
                break;
            }
        }
        // the two written forms hold the same score data
        app.stage( "data" );
        try
        {
            std::istringstream ia( o1 ), ib( other );
            const int a = mgr.createFromStream( ia ), b = mgr.createFromStream( ib );
            bool threw = false; ScoreData p, q; std::string ea, eb;
            try { p = mgr.getData( a ); } catch( const std::exception& e ) { threw = true; ea = e.what(); }
            try { q = mgr.getData( b ); } catch( const std::exception& e ) { threw = true; eb = e.what(); }
            if( ea.empty() != eb.empty() ) app.fail( "data-throws", "score data of one form only: " + ea + eb );
            if( !threw )
            {
                app.count( "evaluations" ); app.count( "data-compared" );
                q.musicXmlType = p.musicXmlType;
                if( !( p == q ) ) app.fail( "data", "the score data of the two forms differ" );
                const bool tw = t1.name == "score-timewise";
                if( mgr.getData( a ).musicXmlType != ( tw ? "timewise" : "partwise" ) ) app.fail( "type", "musicXmlType" );
                if( write( a ) != o1 || write( b ) != other ) app.fail( "query-changes", "reading the score data changed the document" );
            }
            mgr.destroyDocument( a ); mgr.destroyDocument( b );
        }
        catch( const std::exception& e ) { app.count( "rewritten-refused" ); }
        mgr.destroyDocument( id );
        app.sample( t1.name + " of " + std::to_string( o1.size() ) + " bytes, " + std::to_string( rounds * 2 ) + " conversions" );
    } );
}
