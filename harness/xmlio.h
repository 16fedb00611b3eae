// Independent reading and schema validation of XML with libxml2.
#pragma once
#include "xsdgen.h"
#include <algorithm>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlschemas.h>
namespace xio
{
inline void quiet( void*, const char*, ... ) {}
inline void quietS( void*, xmlErrorPtr ) {}
inline std::string str( const xmlChar* c ) { return c ? (const char*)c : ""; }
inline xg::El convert( xmlNode* n )
{
    xg::El e; e.name = str( n->name );
    if( n->ns && n->ns->prefix ) e.name = str( n->ns->prefix ) + ":" + e.name;
    for( xmlAttr* a = n->properties; a; a = a->next )
    {
        std::string nm = str( a->name ); if( a->ns && a->ns->prefix ) nm = str( a->ns->prefix ) + ":" + nm;
        xmlChar* v = xmlNodeListGetString( n->doc, a->children, 1 ); e.attrs.push_back( { nm, str( v ) } ); xmlFree( v );
    }
    for( xmlNode* c = n->children; c; c = c->next )
    {
        if( c->type == XML_ELEMENT_NODE ) e.kids.push_back( convert( c ) );
        else if( c->type == XML_PI_NODE ) { xg::El p; p.name = "?" + str( c->name ); p.text = str( c->content ); while( !p.text.empty() && strchr( " \t\r\n", p.text.back() ) ) p.text.pop_back(); e.kids.push_back( p ); }
        else if( c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE ) e.text += str( c->content );
    }
    if( !e.kids.empty() ) { bool ws = true; for( char q : e.text ) if( !strchr( " \t\r\n", q ) ) ws = false; if( ws ) e.text.clear(); }
    return e;
}
struct Doc
{
    xmlDoc* d = nullptr; std::string error;
    explicit Doc( const std::string& s )
    {
        xmlSetStructuredErrorFunc( nullptr, quietS );
        d = xmlReadMemory( s.data(), (int)s.size(), "doc.xml", nullptr, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE );
        if( !d ) { xmlErrorPtr e = xmlGetLastError(); error = e && e->message ? std::string( e->message ) + " line " + std::to_string( e->line ) : "not well-formed"; }
    }
    ~Doc() { if( d ) xmlFreeDoc( d ); }
    Doc( const Doc& ) = delete;
    xg::El tree() const { return convert( xmlDocGetRootElement( d ) ); }
};
// the DTD that MusicXML documents name declares the xlink prefix by a default attribute; the schema is given the declaration itself
inline std::string declared( std::string s )
{
    for( const char* t : { "<score-partwise", "<score-timewise" } )
    {
        size_t p = s.find( t );
        if( p == std::string::npos ) continue;
        if( s.find( "xmlns:xlink", p ) == std::string::npos ) s.insert( p + strlen( t ), " xmlns:xlink=\"http://www.w3.org/1999/xlink\"" );
        break;
    }
    return s;
}
struct Schema
{
    xmlSchema* s = nullptr; xmlSchemaValidCtxt* v = nullptr; std::string first, where; int errors = 0;
    static void onError( void* self, xmlErrorPtr e )
    {
        Schema* t = (Schema*)self;
        if( t->errors++ == 0 )
        {
            t->first = e->message ? e->message : "?";
            t->where = e->node ? str( ( (xmlNode*)e->node )->name ) : "?";
        }
    }
    explicit Schema( const std::string& path )
    {
        xmlSetStructuredErrorFunc( nullptr, quietS );
        xmlSchemaParserCtxt* c = xmlSchemaNewParserCtxt( path.c_str() );
        s = c ? xmlSchemaParse( c ) : nullptr; xmlSchemaFreeParserCtxt( c );
        if( !s ) { fprintf( stderr, "vf: harness error: schema %s does not load\n", path.c_str() ); exit( 3 ); }
        v = xmlSchemaNewValidCtxt( s );
        xmlSchemaSetValidStructuredErrors( v, onError, this );
    }
    bool valid( const Doc& d ) { errors = 0; first.clear(); return xmlSchemaValidateDoc( v, d.d ) == 0; }
};
// values mean the same under the schema type
inline std::string squeeze( const std::string& s, bool collapse )
{
    std::string o; bool sp = false;
    for( char c : s ) { const bool w = strchr( " \t\r\n", c ) && c; if( w && collapse ) { sp = true; continue; } if( sp && !o.empty() ) o += ' '; sp = false; o += w ? ' ' : c; }
    return o;
}
inline bool number( const std::string& s, long double& v )
{
    if( s.empty() ) return false;
    char* e = nullptr; v = strtold( s.c_str(), &e );
    return e && *e == 0 && !strpbrk( s.c_str(), "xXnNeEpP" );
}
inline bool sameValue( const xg::Xsd& x, int simple, const std::string& a, const std::string& b )
{
    if( a == b ) return true;
    if( simple < 0 ) return squeeze( a, true ) == squeeze( b, true ) && a.find_first_not_of( " \n\t\r" ) == std::string::npos;
    const std::string t = x.builtin( simple );
    if( t == "xs:string" || ( t[0] == '@' && t != "@xlink:role" && t != "@xlink:title" ) ) return false; // those two are tokens in xlink.xsd
    std::string p = squeeze( a, true ), q = squeeze( b, true );
    if( p == q ) return true;
    long double m, n;
    if( t != "xs:token" && number( p, m ) && number( q, n ) ) return std::abs( m - n ) <= 1e-6L * std::max( 1.0L, std::abs( m ) );
    if( x.simples[simple].name == "comma-separated-text" || x.simples[simple].name == "time-only" || x.simples[simple].name == "ending-number" )
    {
        // lists; those of numbers name a set of passes
        const bool numbers = x.simples[simple].name != "comma-separated-text";
        auto items = [&]( const std::string& s ) {
            std::vector<std::string> v; std::istringstream is( s ); std::string e;
            while( std::getline( is, e, ',' ) ) v.push_back( squeeze( e, true ) );
            if( numbers ) { std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() ); }
            return v; };
        return items( p ) == items( q );
    }
    return false;
}
struct Diff { std::string key, msg; };
// differences of what came back against what was given
// content models the element classes are known to hold less of than the schema allows, by what the document has there
inline std::string shape( const xg::El& e )
{
    auto n = [&]( const char* k ) { int c = 0; for( auto& q : e.kids ) c += q.name == k; return c; };
    auto before = [&]( const char* a, const char* b ) { bool a1 = false; for( auto& q : e.kids ) { if( q.name == a ) a1 = true; else if( q.name == b && a1 ) return true; } return false; };
    if( ( e.name == "dynamics" || e.name == "play" ) && std::count_if( e.kids.begin(), e.kids.end(), []( const xg::El& k ) { return k.name[0] != '?'; } ) != 1 ) return e.name + "-with-other-than-one-child";
    if( ( e.name == "slash" || e.name == "beat-repeat" ) && !n( "slash-type" ) ) return e.name + "-without-type";
    if( e.name == "page-layout" && !n( "page-height" ) ) return "page-layout-without-size";
    if( e.name == "key" && !n( "fifths" ) && !n( "key-step" ) ) return "key-without-fifths-or-steps";
    if( e.name == "interchangeable" && ( n( "beats" ) > 1 || n( "beat-type" ) > 1 ) ) return "interchangeable-with-several-beats";
    if( e.name == "sound" && ( n( "midi-device" ) > 1 || n( "midi-instrument" ) > 1 || n( "play" ) > 1 || before( "play", "midi-instrument" ) || before( "play", "midi-device" ) || before( "midi-instrument", "midi-device" ) ) ) return "sound-with-repeated-playback";
    if( e.name == "metronome" ) { int a = 0; bool rel = false; for( auto& q : e.kids ) { if( q.name == "metronome-relation" ) rel = true; else if( rel && q.name == "metronome-note" ) ++a; } if( a > 1 ) return "metronome-with-several-notes-after-the-relation"; }
    if( e.name == "ornaments" ) { bool mark = false; for( auto& q : e.kids ) { if( q.name == "accidental-mark" ) mark = true; else if( mark ) return "ornaments-with-marks-between"; } }
    return "";
}
inline void compare( const xg::Xsd& x, const xg::El& want, const xg::El& got, int type, const std::string& path, std::vector<Diff>& out, size_t& leaves )
{
    if( out.size() > 20 ) return;
    const std::string here = path + "/" + want.name;
    if( want.name != got.name ) { out.push_back( { "renamed:" + want.name + "->" + got.name, here + " came back as " + got.name } ); return; }
    for( auto& a : want.attrs )
    {
        ++leaves;
        auto* g = got.attr( a.first );
        if( !g ) { out.push_back( { "dropped:" + want.name + "@" + a.first, here + "@" + a.first + "=\"" + a.second + "\" is gone" } ); continue; }
        if( !sameValue( x, x.attrSimple( type, a.first ), a.second, *g ) ) out.push_back( { "changed:" + want.name + "@" + a.first, here + "@" + a.first + " was \"" + a.second + "\", came back as \"" + *g + "\"" } );
    }
    for( auto& a : got.attrs ) if( !want.attr( a.first ) ) out.push_back( { "invented:" + want.name + "@" + a.first, here + "@" + a.first + "=\"" + a.second + "\" was not there" } );
    if( want.kids.empty() && got.kids.empty() )
    {
        ++leaves;
        const bool ws = !want.text.empty() && want.text.find_first_not_of( " \t\r\n" ) == std::string::npos;
        if( !sameValue( x, type >= 0 ? x.types[type].simple : -1, want.text, got.text ) ) out.push_back( { ws && got.text.empty() ? "text:only-white-space" : "changed:" + want.name, here + " was \"" + want.text + "\", came back as \"" + got.text + "\"" } );
        return;
    }
    // longest common prefix and suffix by name; what is between is reported
    size_t n = want.kids.size(), m = got.kids.size();
    if( n == m ) { bool same = true; for( size_t i = 0; i < n; ++i ) if( want.kids[i].name != got.kids[i].name ) same = false;
        if( same ) { for( size_t i = 0; i < n; ++i ) compare( x, want.kids[i], got.kids[i], x.childType( type, want.kids[i].name ), here + "[" + std::to_string( i ) + "]", out, leaves ); return; } }
    size_t i = 0; while( i < n && i < m && want.kids[i].name == got.kids[i].name ) ++i;
    std::string was, is;
    for( size_t k = i; k < n && k < i + 3; ++k ) was += want.kids[k].name + " ";
    for( size_t k = i; k < m && k < i + 3; ++k ) is += got.kids[k].name + " ";
    std::string sh = shape( want );
    if( n && std::all_of( want.kids.begin(), want.kids.end(), []( const xg::El& k ) { return k.name[0] == '?'; } ) ) { out.push_back( { "instruction:in-an-element-without-children", here + ": the processing instruction inside is lost or moved" } ); return; }
    // what the element's common reader moved out of a child without children follows that child
    for( auto* q : { &want, &got } ) for( size_t k = 0; k + 1 < q->kids.size(); ++k ) if( q == &got && k < n && want.kids[k].name == q->kids[k].name && q->kids[k + 1].name[0] == '?' && !want.kids[k].kids.empty() && want.kids[k].kids[0].name[0] == '?' && q->kids[k].kids.empty() )
        { out.push_back( { "instruction:in-an-element-without-children", here + "/" + want.kids[k].name + ": the processing instruction inside is moved behind it" } ); return; }
    if( i < n && want.kids[i].name[0] == '?' )
    {
        size_t k = i; while( k > 0 && want.kids[k].name[0] == '?' ) --k;
        const std::string prev = want.kids[k].name;
        const std::string key = want.name == "note" && prev == "chord" ? "after-chord" : want.name == "direction-type" || ( want.name == "direction" && prev == "direction-type" ) ? "beside-a-direction-type-or-first-in-it" : "in-" + want.name;
        out.push_back( { "instruction:" + key, here + ": the processing instruction " + want.kids[i].name + " that follows " + ( i ? prev : "the start tag" ) + " is lost or moved" } );
        return;
    }
    out.push_back( { !sh.empty() ? "shape:" + sh : "children:" + want.name + ":" + ( i < n ? want.kids[i].name : "-" ) + ( m > n ? "+" : m < n ? "-" : "~" ), here + " children from " + std::to_string( i ) + " were " + was + "now " + is + "(" + std::to_string( n ) + " -> " + std::to_string( m ) + ")" } );
}
}
