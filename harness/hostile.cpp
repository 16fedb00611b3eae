// Any bytes into the loader, and everything that can be done with what was loaded, under sanitizers (C01).
#include "xmlio.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include <sstream>
#include <unistd.h>
using namespace mx::api;
static const char* const numbers[] = { "", "0", "-1", "1", "2", "-2147483648", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-9223372036854775809",
    "1e308", "-1e308", "1e4000", "1e-4000", "inf", "-inf", "nan", "NaN", "0x7f", "00000000000000000000001", "0.0000000000000000000001", "99999999999999999999.99999999999", "-0", "-0.0", "+5", " 3 ", "3 4", "abc", "1,2", "1.5", "-1.5",
    "32767", "32768", "65536", "255", "256", "100000", "1000000007", "0.4", "\xEF\xBF\xBD", ".", "-", "+", "e", "1e", "1e+", "1-2" };
static const size_t numberCount = sizeof numbers / sizeof *numbers;
static void poison( vf::Rng& r, xg::El& e, int& left, const xg::El& donor )
{
    for( auto& a : e.attrs ) if( left > 0 && r.chance( 1, 6 ) ) { --left; a.second = r.flip() ? numbers[r.below( numberCount )] : std::string( r.below( 300 ), 'x' ); }
    if( left > 0 && e.kids.empty() && !e.text.empty() && r.chance( 1, 3 ) ) { --left; e.text = r.chance( 4, 5 ) ? numbers[r.below( numberCount )] : std::string( r.below( 2000 ), '9' ); }
    if( left > 0 && !e.kids.empty() && r.chance( 1, 25 ) )
    {
        --left; const size_t i = r.below( e.kids.size() );
        switch( r.below( 5 ) )
        {
            case 0: e.kids.erase( e.kids.begin() + (long)i ); break;
            case 1: { auto k = e.kids[i]; for( int n = r.range( 1, 20 ); n > 0; --n ) e.kids.insert( e.kids.begin() + (long)i, k ); break; }
            case 2: std::swap( e.kids[i], e.kids[r.below( e.kids.size() )] ); break;
            case 3: e.kids[i].kids.clear(); break;
            default: if( !donor.kids.empty() ) { const xg::El* d = &donor; for( int n = r.range( 1, 5 ); n > 0 && !d->kids.empty(); --n ) d = &r.pick( d->kids ); e.kids.insert( e.kids.begin() + (long)i, *d ); }
        }
    }
    for( auto& k : e.kids ) poison( r, k, left, donor );
}
static void bytes( vf::Rng& r, std::string& s, const std::string& other )
{
    for( int n = r.range( 1, 8 ); n > 0 && !s.empty(); --n )
    {
        const size_t i = r.below( s.size() ), len = std::min<size_t>( s.size() - i, r.below( 60 ) );
        switch( r.below( 9 ) )
        {
            case 0: s[i] = (char)r.below( 256 ); break;
            case 1: s.erase( i, len ); break;
            case 2: s.insert( i, s.substr( r.below( s.size() ), r.below( 200 ) ) ); break;
            case 3: s.resize( i ); break;
            case 4: if( !other.empty() ) s.insert( i, other.substr( r.below( other.size() ), r.below( 400 ) ) ); break;
            case 5: s.insert( i, 1, (char)r.below( 32 ) ); break;
            case 6: { static const char* const t[] = { "&#0;", "&#xFFFFFFFF;", "&lt;", "&unknown;", "<![CDATA[", "]]>", "<!--", "-->", "<?x", "?>", "<!DOCTYPE", "\xC3", "\xF0\x9D\x84", "\xFF\xFE", "</", "/>", "\"", "'", "<a:b c:d='1'/>" }; s.insert( i, t[r.below( 19 )] ); break; }
            case 7: { size_t p = s.find_first_of( "0123456789", i ); if( p != std::string::npos ) { size_t q = p; while( q < s.size() && strchr( "0123456789.-", s[q] ) ) ++q; s.replace( p, q - p, numbers[r.below( numberCount )] ); } break; }
            default: { size_t p = s.find( '<', i ); if( p != std::string::npos ) { size_t q = s.find( '>', p ); if( q != std::string::npos ) { std::string t = s.substr( p, q - p + 1 ); s.insert( s.find( '<', r.below( s.size() ) ) == std::string::npos ? 0 : s.find( '<', r.below( s.size() ) ) % s.size(), t ); } } }
        }
    }
}
static std::string utf16( const std::string& s, bool big )
{
    std::string o = big ? std::string( "\xFE\xFF", 2 ) : std::string( "\xFF\xFE", 2 );
    for( unsigned char c : s ) { if( big ) { o += '\0'; o += (char)c; } else { o += (char)c; o += '\0'; } }
    return o;
}
static std::string special( long n, vf::Rng& r )
{
    auto rep = []( const std::string& a, int k ) { std::string o; for( int i = 0; i < k; ++i ) o += a; return o; };
    switch( n % 16 )
    {
        case 0: return "";
        case 1: return std::string( 5, '\0' );
        case 2: return "<score-partwise/>";
        case 3: return "<score-timewise/>";
        case 4: return "<score-partwise>" + rep( "<x>", 20000 ) + rep( "</x>", 20000 ) + "</score-partwise>";
        case 5: return "<score-partwise><part-list/><part><measure>" + rep( "<note/>", 50 ) + "</measure></part></score-partwise>";
        case 6: return "<!DOCTYPE a [<!ENTITY b \"" + std::string( 1000, 'b' ) + "\"><!ENTITY c \"&b;&b;&b;\">]><score-partwise>&c;</score-partwise>";
        case 7: return "<score-partwise " + rep( "a='1' ", 5000 ) + "/>";
        case 8: return "<?xml version='1.0' encoding='UTF-16'?><score-partwise/>";
        case 9: return "<opus/>";
        case 10: return "<score-partwise>" + rep( "<?pi data?>", 3000 ) + "</score-partwise>";
        case 11: return "<score-partwise><!--" + std::string( 100000, '-' ) + "--></score-partwise>";
        case 12: return "<score-timewise><part-list><score-part id='P1'><part-name/></score-part></part-list><measure number='1'/><measure number='2'><part id='P1'/><part id='P2'/></measure></score-timewise>";
        case 13: return "<score-partwise><part-list><score-part id='P1'><part-name/></score-part></part-list><part id='P1'/><part id='P1'><measure/></part><part/></score-partwise>";
        case 14: { std::string o; for( int i = r.range( 1, 300 ); i > 0; --i ) o += (char)r.below( 256 ); return o; }
        default: return "<score-partwise><part-list/><part id='P1'><measure number='1'><attributes><divisions>" + std::string( numbers[r.below( numberCount )] ) + "</divisions><staves>" + numbers[r.below( numberCount )] + "</staves></attributes><note><pitch><step>C</step><octave>" + numbers[r.below( numberCount )] + "</octave></pitch><duration>" + numbers[r.below( numberCount )] + "</duration><voice>" + numbers[r.below( numberCount )] + "</voice><staff>" + numbers[r.below( numberCount )] + "</staff></note><backup><duration>" + numbers[r.below( numberCount )] + "</duration></backup><forward><duration>" + numbers[r.below( numberCount )] + "</duration></forward></measure></part></score-partwise>";
    }
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    std::vector<std::string> files;
    { std::ifstream l( app.opt["files"] ); std::string q; while( std::getline( l, q ) ) { std::ifstream f( q, std::ios::binary ); std::ostringstream b; b << f.rdbuf(); if( b.str().size() < ( app.thorough ? 150000u : 40000u ) ) files.push_back( b.str() ); } }
    std::vector<int> elems; for( size_t i = 0; i < x.nodes.size(); ++i ) if( x.nodes[i].kind == "elem" ) elems.push_back( (int)i );
    auto& mgr = DocumentManager::getInstance();
    app.run( [&]( long c, vf::Rng& r ) {
        app.stage( "generate" );
        std::string s; const char* kind;
        if( c < 160 ) { s = special( c, r ); kind = "special"; }
        else if( c % 3 == 0 )
        {
            xg::Gen g( x, r ); static const int b[] = { 40, 120, 400 };
            g.budget = b[r.below( 3 )]; g.attrPct = r.range( 0, 50 ); g.manyPct = r.range( 5, 50 ); g.maxMeasures = r.range( 1, 4 );
            g.focus = elems[(size_t)( c / 3 ) % elems.size()]; const bool tw0 = c % 2; bool tw = tw0;
            if( !x.nodes[tw ? x.types[x.timewise].node : x.types[x.partwise].node].reach[(size_t)g.focus] ) tw = !tw;
            xg::El d = g.doc( tw ); if( r.chance( 3, 4 ) ) tame( x, d );
            int left = r.range( 0, 10 ); const xg::El donor = d; poison( r, d, left, donor ); s = xg::xml( d, r.range( 0, 2 ), r.flip() ); kind = "generated";
            if( r.chance( 1, 6 ) ) bytes( r, s, "" );
        }
        else
        {
            s = r.pick( files ); kind = c % 3 == 1 ? "file-tree" : "file-bytes";
            if( c % 3 == 1 ) { xio::Doc d( s ); if( d.d ) { xg::El e = d.tree(); int left = r.range( 1, 15 ); const xg::El donor = e; poison( r, e, left, donor ); s = xg::xml( e, 0, false ); } }
            else bytes( r, s, r.pick( files ) );
        }
        if( r.chance( 1, 40 ) ) s = utf16( s, r.flip() );
        if( app.verbose ) { std::ofstream f( app.tmp + "/input.xml" ); f << s; }
        app.count( kind ); app.count( "evaluations" ); app.seen( vf::hashStr( s ) );
        int id = 0;
        app.stage( "load" );
        try
        {
            if( c % 7 == 0 ) { const std::string f = app.tmp + "/in" + std::to_string( getpid() ); { std::ofstream o( f ); o << s; } try { id = mgr.createFromFile( f ); } catch( ... ) { unlink( f.c_str() ); throw; } unlink( f.c_str() ); }
            else { std::istringstream i( s ); id = mgr.createFromStream( i ); }
        }
        catch( const std::exception& ) { app.count( "refused" ); return; }
        catch( ... ) { app.fail( "foreign-exception:load", "something that is no std::exception was thrown" ); return; }
        app.count( "loaded" );
        auto attempt = [&]( const char* what, std::function<void()> f ) {
            app.stage( what );
            try { f(); app.count( what ); }
            catch( const std::exception& e ) { app.count( std::string( what ) + "-threw" ); if( app.verbose ) fprintf( stderr, "%s: %s\n", what, e.what() ); }
            catch( ... ) { app.fail( std::string( "foreign-exception:" ) + what, "something that is no std::exception was thrown" ); }
        };
        std::unique_ptr<ScoreData> data;
        attempt( "query", [&] { data.reset( new ScoreData( mgr.getData( id ) ) ); } );
        attempt( "write", [&] { std::ostringstream o; mgr.writeToStream( id, o ); } );
        attempt( "convert", [&] { mgr.getDocument( id )->convertContents(); } );
        attempt( "write-converted", [&] { std::ostringstream o; mgr.writeToStream( id, o ); } );
        attempt( "query-converted", [&] { ScoreData d = mgr.getData( id ); } );
        attempt( "destroy", [&] { mgr.destroyDocument( id ); } );
        if( data ) attempt( "rewrite", [&] { const int n = mgr.createFromScore( *data ); try { std::ostringstream o; mgr.writeToStream( n, o ); } catch( ... ) { mgr.destroyDocument( n ); throw; } mgr.destroyDocument( n ); } );
        if( data ) attempt( "sort", [&] { data->sort(); } );
        app.sample( std::string( kind ) + " input of " + std::to_string( s.size() ) + " bytes: " + s.substr( 0, 80 ) );
    } );
}
