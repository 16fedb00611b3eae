// Texts (C19): any XML-legal text in scores and documents, any lexical form, any Unicode encoding.
#include "gen_score.h"
#include "canon.h"
#include "xmlio.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include <set>
using namespace mx::api;
static void utf8( std::string& s, uint32_t c ) { gs::Gen::utf8( s, c ); }
static std::vector<uint32_t> decode( const std::string& s )
{
    std::vector<uint32_t> o;
    for( size_t i = 0; i < s.size(); )
    {
        unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; uint32_t v = n == 0 ? c : c & ( 0x3F >> n );
        ++i; for( ; n > 0 && i < s.size(); --n, ++i ) v = v << 6 | ( (unsigned char)s[i] & 63 );
        o.push_back( v );
    }
    return o;
}
// any XML 1.0 character
static uint32_t codepoint( vf::Rng& r )
{
    switch( r.below( 14 ) )
    {
        case 0: case 1: return (uint32_t)"<>&\"';#x]-?!/="[r.below( 14 )];
        case 2: return 0x20;
        case 3: { const auto k = r.below( 5 ); return k < 2 ? 9u : k < 4 ? 10u : 13u; }
        case 4: return 0x7F + (uint32_t)r.below( 0x21 );
        case 5: return 0xA0 + (uint32_t)r.below( 0x760 );
        case 6: return 0x800 + (uint32_t)r.below( 0xD800 - 0x800 );
        case 7: return 0xE000 + (uint32_t)r.below( 0xFFFE - 0xE000 );
        case 8: return 0x10000 + (uint32_t)r.below( 0x100000 );
        case 9: { static const uint32_t e[] = { 0x7F, 0x80, 0x85, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x10FFFF, 0x2028, 0x200F, 0x301, 0x1D11E, 0xA0, 0x3000 }; return e[r.below( 17 )]; }
        default: return 0x20 + (uint32_t)r.below( 0x5F );
    }
}
static std::string wildText( vf::Rng& r, bool& fancy )
{
    static const std::vector<std::string> hostile{ "<a>", "</words>", "&amp;", "&lt;", "&quot;", "]]>", "<!--", "-->", "<?x ?>", "\"q\"", "'q'", "&#65;", "&#x41;", "&", "a&b", "<![CDATA[x]]>", "%n%s", "\\n", "a  b", "&amp;amp;", "<!DOCTYPE x>", "\t", "\n", " \n ", "\r\n", "\r", "&#13;", "&#xD;" };
    std::string s; const int n = r.chance( 1, 40 ) ? r.range( 100, 3000 ) : r.range( 1, 14 );
    for( int i = 0; i < n; ++i ) if( r.chance( 1, 5 ) ) s += r.pick( hostile ); else utf8( s, codepoint( r ) );
    if( r.chance( 1, 25 ) ) { s.clear(); for( int i = r.range( 1, 4 ); i > 0; --i ) s += " \t\n\r"[r.below( 4 )]; } // all of it white space
    fancy = true;
    return s;
}
// every character of a text in one of the forms XML has for it
static std::string spell( vf::Rng& r, const std::string& s, bool attr, char q, bool cdata )
{
    std::string o; const auto v = decode( s ); const int fancy = r.chance( 1, 2 ) ? 0 : r.range( 1, 40 );
    for( size_t i = 0; i < v.size(); ++i )
    {
        const uint32_t c = v[i]; char b[24];
        const bool mayCut = !attr && cdata;
        if( mayCut && r.chance( 1, 12 ) )
        {
            std::string t; size_t k = i; for( int n = r.range( 1, 8 ); n > 0 && k < v.size(); --n, ++k ) utf8( t, v[k] );
            if( t.find( "]]>" ) == std::string::npos && t.find( '\r' ) == std::string::npos ) { o += "<![CDATA[" + t + "]]>"; i = k - 1; continue; }
        }
        if( mayCut && r.chance( 1, 30 ) ) { o += "<!-- c -->"; }
        const bool ref = c == 13 || ( attr && ( c == 9 || c == 10 ) ) || r.chance( fancy, 100 );
        if( ref && ( c >= 128 || c < 32 || r.flip() ) ) { snprintf( b, sizeof b, r.flip() ? "&#%u;" : "&#x%X;", c ); o += b; }
        else if( c == '&' ) o += "&amp;"; else if( c == '<' ) o += "&lt;"; else if( c == '>' ) o += attr && r.flip() ? ">" : "&gt;";
        else if( attr && c == (uint32_t)q ) o += c == '"' ? "&quot;" : "&apos;"; else if( ref && c == '"' ) o += "&quot;"; else if( ref && c == '\'' ) o += "&apos;";
        else if( c == 10 && !ref && !attr ) { const auto k = r.below( 6 ); o += k == 0 ? "\r\n" : k == 1 && !( i + 1 < v.size() && v[i + 1] == 10 ) ? "\r" : "\n"; } // any end of a line is a line feed
        else utf8( o, c );
    }
    return o;
}
static void spellDoc( vf::Rng& r, const xg::El& e, std::string& o, bool cdata, int depth = 0 )
{
    o += "<" + e.name;
    for( auto& a : e.attrs ) { const char q = r.flip() ? '"' : '\''; o += ( r.chance( 1, 20 ) ? "\n  " : " " ) + a.first + ( r.chance( 1, 30 ) ? " = " : "=" ) + q + spell( r, a.second, true, q, false ) + q; }
    if( e.kids.empty() && e.text.empty() ) { o += r.flip() ? "/>" : "></" + e.name + ">"; return; }
    o += ">";
    if( e.kids.empty() ) o += spell( r, e.text, false, 0, cdata );
    for( auto& k : e.kids ) { if( r.chance( 1, 2 ) ) o += "\n" + std::string( (size_t)depth, ' ' ); spellDoc( r, k, o, cdata, depth + 1 ); }
    if( !e.kids.empty() && r.flip() ) o += "\n";
    o += "</" + e.name + ">";
}
struct Encoding { const char* name; const char* label; int width; bool big, bom; };
static const Encoding encodings[] = {
    { "utf-8-bom", "UTF-8", 1, false, true }, { "utf-16-le", "UTF-16", 2, false, true }, { "utf-16-be", "UTF-16", 2, true, true }, { "utf-16-le-without-bom", "UTF-16LE", 2, false, false },
    { "utf-16-be-without-bom", "UTF-16BE", 2, true, false }, { "utf-32-le", "UTF-32", 4, false, true }, { "utf-32-be", "UTF-32", 4, true, true }, { "utf-32-le-without-bom", "UTF-32LE", 4, false, false }, { "utf-32-be-without-bom", "UTF-32BE", 4, true, false } };
static std::string encode( const std::string& s, const Encoding& e )
{
    std::string o;
    auto unit = [&]( uint32_t v, int w ) { for( int i = 0; i < w; ++i ) o += (char)( v >> 8 * ( e.big ? w - 1 - i : i ) ); };
    if( e.bom ) { if( e.width == 1 ) o += "\xEF\xBB\xBF"; else unit( 0xFEFF, e.width ); }
    if( e.width == 1 ) return o + s;
    for( uint32_t c : decode( s ) )
        if( e.width == 2 && c >= 0x10000 ) { unit( 0xD800 + ( ( c - 0x10000 ) >> 10 ), 2 ); unit( 0xDC00 + ( ( c - 0x10000 ) & 0x3FF ), 2 ); } else unit( c, e.width );
    return o;
}
static std::string printable( const std::string& s ) { std::string o; for( char c : s ) { char b[8]; if( c == '\n' ) o += "\\n"; else if( c == '\t' ) o += "\\t"; else if( c == '\r' ) o += "\\r"; else if( (unsigned char)c < 32 || c == 127 ) { snprintf( b, sizeof b, "\\x%02X", (unsigned char)c ); o += b; } else o += c; } return o; }
static void collect( const xg::El& e, std::set<std::string>& texts )
{
    texts.insert( e.text ); for( auto& a : e.attrs ) texts.insert( a.second ); for( auto& k : e.kids ) collect( k, texts );
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string mode = app.opt["mode"];
    auto& mgr = DocumentManager::getInstance();
    auto load = [&]( const std::string& s ) { std::istringstream i( s ); return mgr.createFromStream( i ); };
    auto write = [&]( int id ) { std::ostringstream o; mgr.writeToStream( id, o ); return o.str(); };
    auto note = [&]( const std::string& where, const std::string& t ) { app.count( "texts" ); app.seen( vf::hashStr( where + t ) ); for( uint32_t c : decode( t ) ) if( c >= 128 ) { app.count( "non-latin-texts" ); break; } if( t.find_first_of( "<>&\"'" ) != std::string::npos ) app.count( "texts-with-markup" ); };
    if( mode == "scores" )
    {
        app.run( [&]( long c, vf::Rng& r ) {
            static const char* const areas[] = { "header", "measures", "notes" };
            const std::string area = areas[c % 3];
            gs::Knobs k = knobsFor( area, c / 3, r, app.thorough );
            bool fancy; k.textSource = [&]() { return wildText( r, fancy ); };
            if( k.density < 50 ) k.density = 50;
            gs::Gen g( r, k ); ScoreData in = g.make(), out;
            app.stage( "create" );
            int id = mgr.createFromScore( in ); const std::string s = write( id ); mgr.destroyDocument( id );
            if( app.verbose ) fprintf( stderr, "%s\n", s.c_str() );
            xio::Doc d( s );
            if( !d.d ) { app.count( "evaluations" ); app.fail( "malformed", "the written document is not well-formed: " + d.error ); return; }
            std::set<std::string> texts; collect( d.tree(), texts );
            std::set<std::string> squeezed; for( auto& t : texts ) squeezed.insert( xio::squeeze( t, true ) );
            app.stage( "load" );
            try { id = load( s ); out = mgr.getData( id ); mgr.destroyDocument( id ); }
            catch( const std::exception& e ) { app.count( "evaluations" ); app.fail( "exception", std::string( "the written score does not load: " ) + e.what() ); return; }
            canon( in ); canon( out );
            auto got = select( rf::flat( out ), area ); std::map<std::string, const rf::Leaf*> gm; for( auto& l : got ) gm[l.path] = &l;
            for( auto& l : select( rf::flat( in ), area ) )
            {
                if( l.value.empty() || l.value[0] != '"' ) continue;
                const std::string t = l.value.substr( 1, l.value.size() - 2 ), p = rf::generic( l.path );
                if( t.find_first_not_of( "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -.,_" ) == std::string::npos ) continue;
                app.count( "evaluations", 2 ); note( p, t );
                auto it = gm.find( l.path );
                const std::string back = it == gm.end() ? "(gone)" : it->second->value;
                // tokens do not keep the amount of white space
                static const std::set<std::string> tokens{ "parts[].measures[].staves[].directions[].chords[].text", "encoding.miscelaneousFields[].key", "parts[].measures[].number", "layout{}.page.pageNumber", "defaults.appearance[].appearanceSubType", "encoding.supportedItems[].specificValue" };
                const bool token = tokens.count( p );
                if( back != l.value && !( token && it != gm.end() && xio::squeeze( back.substr( 1, back.size() - 2 ), true ) == xio::squeeze( t, true ) ) ) app.fail( "text:" + p, l.path + " was \"" + printable( t ) + "\", came back as " + printable( back ) );
                // the miscellaneous data of a note are carried by a font name
                if( !( token ? squeezed.count( xio::squeeze( t, true ) ) : texts.count( t ) ) && l.path.find( ".miscData[" ) == std::string::npos ) app.fail( "unwritten:" + p, l.path + " \"" + printable( t ) + "\" is not a text of the written document" );
            }
        } );
        return 0;
    }
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    std::vector<int> holders; // elements that hold text or have attributes that are texts
    auto textual = [&]( int s ) { if( s < 0 ) return false; const std::string b = x.builtin( s ); return ( b == "xs:string" || b == "xs:token" ) && x.simples[s].values.empty() && x.simples[s].name != "color"; };
    {
        std::set<std::pair<std::string, int>> done;
        for( size_t i = 0; i < x.nodes.size(); ++i )
        {
            auto& n = x.nodes[i]; if( n.kind != "elem" || !done.insert( { n.name, n.type } ).second ) continue;
            bool h = textual( x.types[n.type].simple ); for( auto& a : x.types[n.type].attrs ) if( textual( a.simple ) ) h = true;
            if( h ) holders.push_back( (int)i );
        }
    }
    if( mode == "count" ) { printf( "%zu\n", holders.size() ); return 0; }
    app.run( [&]( long c, vf::Rng& r ) {
        xg::Gen g( x, r );
        g.focus = holders[(size_t)c % holders.size()]; g.full = true; g.budget = c % 4 ? 40 : 300; g.attrPct = c % 4 ? 5 : 40; g.manyPct = c % 4 ? 5 : 40; g.maxParts = 2; g.maxMeasures = 2;
        bool timewise = c % 3 == 1;
        if( !x.nodes[timewise ? x.types[x.timewise].node : x.types[x.partwise].node].reach[(size_t)g.focus] ) timewise = !timewise;
        bool fancy; g.textSource = [&]( bool token ) { std::string t = wildText( r, fancy ); if( token ) for( auto& ch : t ) if( ch == '\t' || ch == '\n' ) ch = ' '; return t; };
        app.stage( "generate" );
        xg::El in = g.doc( timewise ); tame( x, in );
        std::string body; spellDoc( r, in, body, c % 2 );
        const std::string doctype = r.flip() ? "<!DOCTYPE " + in.name + " PUBLIC \"-//Recordare//DTD MusicXML 3.0 Partwise//EN\" \"http://www.musicxml.org/dtds/partwise.dtd\">\n" : "";
        auto head = [&]( const char* label ) { return std::string( "<?xml version=\"1.0\" encoding=\"" ) + label + "\"?>\n" + doctype; };
        const std::string s = head( "UTF-8" ) + body;
        if( app.verbose ) fprintf( stderr, "%s\n", s.c_str() );
        { xio::Doc d( s ); if( !d.d ) { fprintf( stderr, "vf: harness error: case %ld generated a malformed document: %s\n", c, d.error.c_str() ); exit( 3 ); } in = d.tree(); }
        app.stage( "load" );
        int id = 0;
        try { id = load( s ); } catch( const std::exception& e ) { app.count( "refused" ); app.fail( "refused", std::string( "a document is refused: " ) + e.what() ); return; }
        const std::string o1 = write( id );
        if( app.verbose ) fprintf( stderr, "%s\n", o1.c_str() );
        xio::Doc d( o1 );
        if( !d.d ) { app.count( "evaluations" ); app.fail( "malformed", "the written document is not well-formed: " + d.error ); mgr.destroyDocument( id ); return; }
        std::vector<xio::Diff> diff; size_t leaves = 0;
        xio::compare( x, in, d.tree(), timewise ? x.timewise : x.partwise, "", diff, leaves );
        for( auto& q : diff )
        {
            // what the element classes drop whatever the text is belongs to C02
            const bool drop = q.key.compare( 0, 8, "dropped:" ) == 0 && ( q.key.find( "@color" ) != std::string::npos || q.key.find( "@dir" ) != std::string::npos || q.key.find( "@valign" ) != std::string::npos );
            if( !drop ) app.fail( q.key, printable( q.msg ) );
        }
        std::function<void( const xg::El&, int )> walk = [&]( const xg::El& e, int type ) {
            if( type >= 0 && textual( x.types[type].simple ) ) { app.count( "evaluations" ); note( e.name, e.text ); }
            for( auto& a : e.attrs ) if( textual( x.attrSimple( type, a.first ) ) ) { app.count( "evaluations" ); note( e.name + "@" + a.first, a.second ); }
            for( auto& k : e.kids ) walk( k, x.childType( type, k.name ) ); };
        walk( in, timewise ? x.timewise : x.partwise );
        // the same characters in another encoding are the same document
        std::string data; bool has = true; try { data = rf::text( mgr.getData( id ) ); } catch( const std::exception& ) { has = false; }
        mgr.destroyDocument( id );
        for( int n = 0; n < 2; ++n )
        {
            const Encoding& e = encodings[r.below( 9 )];
            app.stage( e.name ); app.count( std::string( "loaded-as-" ) + e.name ); app.count( "evaluations" );
            // a declaration may leave the encoding to the byte order mark
            const std::string t = encode( ( e.bom && r.flip() ? std::string( "<?xml version=\"1.0\"?>\n" ) + doctype : head( e.label ) ) + body, e );
            try
            {
                const int i2 = load( t ); const std::string o2 = write( i2 ); std::string data2; bool has2 = true; try { data2 = rf::text( mgr.getData( i2 ) ); } catch( const std::exception& ) { has2 = false; } mgr.destroyDocument( i2 );
                if( o2 != o1 ) app.fail( std::string( "encoding-bytes:" ) + e.name, "the document is written differently when it arrives as " + std::string( e.name ) );
                else if( has != has2 || data != data2 ) app.fail( std::string( "encoding-data:" ) + e.name, "the score data differ when the document arrives as " + std::string( e.name ) );
            }
            catch( const std::exception& x2 ) { app.fail( std::string( "encoding-refused:" ) + e.name, "the document is refused when it arrives as " + std::string( e.name ) + ": " + x2.what() ); }
        }
        app.sample( "document of " + std::to_string( in.size() ) + " elements, text holder " + x.nodes[(size_t)g.focus].name + ", " + std::to_string( s.size() ) + " bytes: " + printable( s.substr( 0, 160 ) ) );
    } );
}
