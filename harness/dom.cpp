// The XML layer against a plain ordered tree (C17): random operations on documents, elements, attributes and iterators
// are mirrored in a model; what the layer reports, iterates and saves is compared with it, the latter through libxml2 too.
#include "xmlio.h"
#include "ezxml/ezxml.h"
#include "ezxml/XElementIterator.h"
#include "ezxml/XAttributeIterator.h"
#include <fstream>
#include <memory>
#include <sstream>
using namespace ezxml;
struct Node;
using NodePtr = std::shared_ptr<Node>;
struct Attr { std::string first, second; long id = 0; };
struct Node
{
    bool pi = false; std::string name, text; std::vector<Attr> attrs; std::vector<NodePtr> kids; Node* up = nullptr;
    bool elements() const { for( auto& k : kids ) if( !k->pi ) return true; return false; }
    bool instructions() const { for( auto& k : kids ) if( k->pi ) return true; return false; }
};
struct Model { NodePtr root; XmlVersion version = DEFAULT_XML_VERSION; Encoding encoding = DEFAULT_ENCODING; bool hasStandalone = false, standalone = false, hasDoctype = false, bom = false; std::string doctype; std::vector<NodePtr> before; };

static std::string utf8( char32_t c ) { std::string o; if( c < 0x80 ) o += (char)c; else if( c < 0x800 ) { o += (char)( 0xC0 | c >> 6 ); o += (char)( 0x80 | ( c & 63 ) ); } else if( c < 0x10000 ) { o += (char)( 0xE0 | c >> 12 ); o += (char)( 0x80 | ( c >> 6 & 63 ) ); o += (char)( 0x80 | ( c & 63 ) ); } else { o += (char)( 0xF0 | c >> 18 ); o += (char)( 0x80 | ( c >> 12 & 63 ) ); o += (char)( 0x80 | ( c >> 6 & 63 ) ); o += (char)( 0x80 | ( c & 63 ) ); } return o; }
static std::vector<char32_t> points( const std::string& s ) { std::vector<char32_t> v; for( size_t i = 0; i < s.size(); ) { unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; char32_t p = n == 1 ? c : c & ( 0xFF >> ( n + 1 ) ); for( int k = 1; k < n; ++k ) p = p << 6 | ( (unsigned char)s[i + k] & 63 ); v.push_back( p ); i += n; } return v; }
static std::string wild( vf::Rng& r, bool attribute )
{
    std::string o; const int n = r.chance( 1, 150 ) ? r.range( 1000, 40000 ) : (int)r.below( 12 );
    for( int i = 0; i < n; ++i ) switch( r.below( 12 ) )
    {
        case 0: o += "&<>\"'"[r.below( 5 )]; break;
        case 1: o += ' '; break;
        case 2: o += "\t\n\r "[r.below( 4 )]; break;
        case 3: o += "]]>"; break;
        case 4: o += utf8( (char32_t)r.range( 0xA0, 0x7FF ) ); break;
        case 5: o += utf8( (char32_t)r.range( 0x800, 0xD7FF ) ); break;
        case 6: o += utf8( (char32_t)r.range( 0xE000, 0xFFFD ) ); break;
        case 7: o += utf8( (char32_t)r.range( 0x10000, 0x10FFFD ) ); break;
        case 8: o += r.flip() ? "&amp;" : "<!--"; break;
        default: o += (char)r.range( 'a', 'z' );
    }
    return o;
}
static std::string name( vf::Rng& r ) { static const char* const n[] = { "a", "b", "c", "note", "x-y", "_z.1", "xml-ish", "xlink:href", "\xC3\xA9t\xC3\xA9", "\xE9\x9F\xB3", "part", "A" }; return n[r.below( 12 )]; }
static std::string attrName( vf::Rng& r, const Node& n ) { for( ;; ) { std::string s = name( r ); if( r.flip() ) s += std::to_string( r.below( 9 ) ); bool had = false; for( auto& a : n.attrs ) had |= a.first == s; if( !had ) return s; } }
static NodePtr tree( vf::Rng& r, int& budget, int depth )
{
    auto n = std::make_shared<Node>(); n->name = name( r ); if( n->name.find( ':' ) != std::string::npos ) n->name = "el"; --budget;
    while( r.chance( 1, 3 ) ) n->attrs.push_back( { attrName( r, *n ), wild( r, true ) } );
    if( depth < 6 && r.chance( 2, 3 ) ) { while( budget > 0 && r.chance( 3, 4 ) ) { if( r.chance( 1, 6 ) ) { auto p = std::make_shared<Node>(); p->pi = true; p->name = r.flip() ? "app" : "hint"; p->text = r.flip() ? "" : "v=\"1\" & <x>"; p->up = n.get(); n->kids.push_back( p ); } else { auto k = tree( r, budget, depth + 1 ); k->up = n.get(); n->kids.push_back( k ); } } }
    else if( r.flip() ) n->text = wild( r, false );
    return n;
}
// one of the spellings XML has for a text
static std::string chars( vf::Rng& r, const std::string& s, bool attribute, char quote )
{
    std::string o; const auto p = points( s );
    for( size_t i = 0; i < p.size(); ++i )
    {
        const char32_t c = p[i];
        if( !attribute && r.chance( 1, 10 ) )
        {
            size_t k = i; std::string d; while( k < p.size() && r.chance( 4, 5 ) ) d += utf8( p[k++] );
            if( d.find( "]]>" ) == std::string::npos && d.find( '\r' ) == std::string::npos && k > i ) { o += "<![CDATA[" + d + "]]>"; i = k - 1; continue; }
        }
        if( !attribute && r.chance( 1, 25 ) ) o += "<!-- & -->";
        const bool must = c == '&' || c == '<' || ( c == '>' && !attribute ) || c == '\r' || ( attribute && ( c == (char32_t)quote || c == '\t' || c == '\n' ) );
        if( must || r.chance( 1, 12 ) )
        {
            char b[24];
            const char* e = c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : nullptr;
            if( e && r.flip() ) o += e;
            else { snprintf( b, sizeof b, r.flip() ? "&#x%X;" : "&#%u;", (unsigned)c ); o += b; }
        }
        else o += utf8( c );
    }
    return o;
}
// the same characters in another encoding, told by its mark
static std::string wide( vf::Rng& r, const std::string& s )
{
    const int kind = (int)r.below( 5 ); std::string o;
    auto unit = [&]( uint32_t v, int bytes, bool big ) { for( int i = 0; i < bytes; ++i ) o += (char)( v >> 8 * ( big ? bytes - 1 - i : i ) & 255 ); };
    const bool big = kind & 1; const int size = kind == 4 ? 0 : kind < 2 ? 2 : 4;
    if( size == 0 ) return "\xEF\xBB\xBF" + s;
    unit( 0xFEFF, size, big );
    for( auto c : points( s ) ) if( size == 2 && c > 0xFFFF ) { unit( 0xD800 + ( ( c - 0x10000 ) >> 10 ), 2, big ); unit( 0xDC00 + ( ( c - 0x10000 ) & 1023 ), 2, big ); } else unit( c, size, big );
    return o;
}
static std::string spell( vf::Rng& r, const Node& n )
{
    if( n.pi ) return "<?" + n.name + ( n.text.empty() ? "" : " " + n.text ) + "?>";
    auto gap = [&] { std::string o; if( r.chance( 1, 3 ) ) o += r.flip() ? "\n  " : " "; if( r.chance( 1, 10 ) ) o += "<!--gap-->"; return o; };
    std::string o = "<" + n.name;
    for( auto& a : n.attrs ) { const char q = r.flip() ? '"' : '\''; o += ( r.chance( 1, 8 ) ? "\n " : " " ) + a.first + ( r.chance( 1, 8 ) ? " = " : "=" ) + q + chars( r, a.second, true, q ) + q; }
    if( n.kids.empty() && n.text.empty() ) return o + ( r.flip() ? "/>" : "></" + n.name + ">" );
    o += ">";
    if( n.kids.empty() ) o += chars( r, n.text, false, 0 ); else { for( auto& k : n.kids ) o += gap() + spell( r, *k ); o += gap(); }
    return o + "</" + n.name + ( r.chance( 1, 9 ) ? " >" : ">" );
}
static std::string show( const Node& n ) { std::string o = n.pi ? "<?" + n.name + " " + n.text + "?>" : "<" + n.name; if( n.pi ) return o; for( auto& a : n.attrs ) o += " " + a.first + "='" + a.second + "'"; o += ">" + n.text; for( auto& k : n.kids ) o += show( *k ); return o + "</>"; }
struct Compare
{
    std::string why; long nodes = 0, iterations = 0;
    bool no( const std::string& w ) { if( why.empty() ) why = w; return false; }
    bool same( const std::string& what, const std::string& got, const std::string& want ) { return got == want ? true : no( what + " is '" + got + "' and not '" + want + "'" ); }
    bool node( XElement& e, const Node& n )
    {
        ++nodes;
        if( e.getIsNull() ) return no( n.name + " is null" );
        if( e.getIsProcessingInstruction() != n.pi ) return no( n.name + " is taken for the wrong kind of node" );
        if( !same( "the name", e.getName(), n.name ) || !same( "the value of " + n.name, e.getValue(), n.text ) ) return false;
        if( n.pi ) return true;
        const XElementType want = !n.text.empty() ? XElementType::text : n.elements() ? XElementType::element : XElementType::empty;
        if( e.getType() != want ) return no( n.name + " has type " + toString( e.getType() ) + " and not " + toString( want ) );
        // attributes forwards and backwards
        {
            size_t i = 0; auto it = e.attributesBegin(); const auto end = e.attributesEnd();
            for( ; it != end; ++i ) { if( i >= n.attrs.size() ) return no( n.name + " has more attributes than " + std::to_string( n.attrs.size() ) ); if( it->getIsNull() ) return no( "an attribute of " + n.name + " is null" ); if( !same( "attribute name", it->getName(), n.attrs[i].first ) || !same( "attribute " + n.attrs[i].first, ( *it ).getValue(), n.attrs[i].second ) ) return false; if( i % 2 ) ++it; else { auto old = it++; if( old == it || old->getName() != n.attrs[i].first ) return no( "an attribute iterator is moved on wrongly" ); } }
            if( i != n.attrs.size() ) return no( n.name + " has " + std::to_string( i ) + " attributes and not " + std::to_string( n.attrs.size() ) );
            for( ; i > 0; --i ) { if( i % 2 ) --it; else it--; if( it->getName() != n.attrs[i - 1].first ) return no( "attributes backwards differ" ); }
            if( it != e.attributesBegin() ) return no( "attributes backwards do not end at the first" );
        }
        // children forwards and backwards, with and without processing instructions
        for( int with = 0; with < 2; ++with )
        {
            std::vector<const Node*> want2; if( n.text.empty() ) for( auto& k : n.kids ) if( with || !k->pi ) want2.push_back( k.get() );
            auto it = with ? e.beginWithProcessingInstructions() : e.begin(); const auto end = e.end(); size_t i = 0;
            for( ; it != end; ++i, ++iterations )
            {
                if( i >= want2.size() ) return no( n.name + " gives more children than " + std::to_string( want2.size() ) );
                if( !same( "child " + std::to_string( i ) + " of " + n.name, it->getName(), want2[i]->name ) ) return false;
                if( it->getIsProcessingInstruction() != want2[i]->pi ) return no( "child " + std::to_string( i ) + " of " + n.name + " is taken for the wrong kind of node" );
                if( i % 2 ) ++it; else { const auto old = it++; if( old == it || old->getName() != want2[i]->name ) return no( "an iterator is moved on wrongly" ); }
            }
            if( i != want2.size() ) return no( n.name + " gives " + std::to_string( i ) + " children and not " + std::to_string( want2.size() ) );
            XElementIterator back = e.end(); back.setSkipProcessingInstructions( !with );
            for( ; i > 0; --i ) { if( i % 2 ) --back; else back--; if( back->getName() != want2[i - 1]->name || back->getIsProcessingInstruction() != want2[i - 1]->pi ) return no( "the children of " + n.name + " backwards differ at " + std::to_string( i - 1 ) ); }
            if( !want2.empty() && back != ( with ? e.beginWithProcessingInstructions() : e.begin() ) ) return no( "the children of " + n.name + " backwards do not end at the first" );
        }
        if( !n.text.empty() ) return true;
        size_t i = 0;
        for( auto it = e.beginWithProcessingInstructions(); it != e.end(); ++it, ++i )
        {
            if( !node( *it, *n.kids[i] ) ) return false;
            const auto next = it->getNextSibling();
            if( i + 1 == n.kids.size() ) { if( next ) return no( "the last child of " + n.name + " has a sibling behind it" ); }
            else if( !next || next->getName() != n.kids[i + 1]->name ) return no( "the sibling behind child " + std::to_string( i ) + " of " + n.name + " differs" );
            const auto up = it->getParent(); if( !up || up->getName() != n.name ) return no( "the parent of a child of " + n.name + " differs" );
        }
        return true;
    }
};
// the tree of a text another parser reads
static bool sameTree( xmlNode* x, const Node& n, std::string& why )
{
    auto bad = [&]( const std::string& w ) { if( why.empty() ) why = w; return false; };
    std::string nm = xio::str( x->name ); if( x->ns && x->ns->prefix ) nm = xio::str( x->ns->prefix ) + ":" + nm;
    if( nm != n.name ) return bad( "name " + nm + " for " + n.name );
    if( n.pi ) return xio::str( x->content ) == n.text ? true : bad( "instruction '" + xio::str( x->content ) + "' for '" + n.text + "'" );
    size_t i = 0;
    for( xmlAttr* a = x->properties; a; a = a->next, ++i ) { std::string an = xio::str( a->name ); if( a->ns && a->ns->prefix ) an = xio::str( a->ns->prefix ) + ":" + an; xmlChar* v = xmlNodeListGetString( x->doc, a->children, 1 ); const std::string val = xio::str( v ); xmlFree( v ); if( i >= n.attrs.size() || an != n.attrs[i].first || val != n.attrs[i].second ) return bad( "attribute " + an + "='" + val + "' of " + nm ); }
    if( i != n.attrs.size() ) return bad( "attributes of " + nm );
    std::string text; size_t k = 0;
    for( xmlNode* c = x->children; c; c = c->next )
    {
        if( c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE ) text += xio::str( c->content );
        else if( c->type == XML_ELEMENT_NODE || c->type == XML_PI_NODE ) { if( k >= n.kids.size() || ( c->type == XML_PI_NODE ) != n.kids[k]->pi ) return bad( "children of " + nm ); if( !sameTree( c, *n.kids[k], why ) ) return false; ++k; }
    }
    if( k != n.kids.size() ) return bad( "children of " + nm + " are " + std::to_string( k ) );
    if( !n.kids.empty() ) return text.find_first_not_of( " \n\t\r" ) == std::string::npos ? true : bad( "text among the children of " + nm );
    return text == n.text ? true : bad( "text '" + text + "' for '" + n.text + "'" );
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xmlSetStructuredErrorFunc( nullptr, xio::quietS );
    static const char* const doctypes[] = { "score-partwise PUBLIC \"-//Recordare//DTD MusicXML 3.0 Partwise//EN\" \"http://www.musicxml.org/dtds/partwise.dtd\"", "a SYSTEM 'a.dtd'", "root", "root [ <!ELEMENT root ANY> ]" };
    app.run( [&]( long, vf::Rng& r ) {
        XDocPtr doc = XFactory::makeXDoc(); Model m; m.root = std::make_shared<Node>(); m.root->name = "root";
        std::vector<std::pair<XElementPtr, Node*>> handles; struct AttrHandle { XAttributePtr a; Node* n; long id; }; std::vector<AttrHandle> attributes; long ids = 0; std::string log;
        auto op = [&]( const std::string& s ) { log += s + "; "; app.count( "operation:" + s.substr( 0, s.find( ' ' ) ) ); app.stage( s.c_str() ); };
        auto fail = [&]( const std::string& key, const std::string& why ) { app.fail( key, why + " after: " + ( log.size() > 700 ? log.substr( log.size() - 700 ) : log ) ); };
        std::function<bool( Node*, Node* )> under = [&]( Node* n, Node* top ) { for( ; n; n = n->up ) if( n == top ) return true; return false; };
        auto dropUnder = [&]( Node* top ) { std::vector<std::pair<XElementPtr, Node*>> h; for( auto& x : handles ) if( !under( x.second, top ) ) h.push_back( x ); handles = h; std::vector<AttrHandle> k; for( auto& x : attributes ) if( !under( x.n, top ) ) k.push_back( x ); attributes = k; };
        auto rendered = [&]( Model& w ) {
            std::string o; if( r.chance( 4, 5 ) ) { o = "<?xml version=\"1.0\""; if( r.flip() ) o += " encoding=\"UTF-8\""; w.hasStandalone = r.chance( 1, 4 ); if( w.hasStandalone ) { w.standalone = r.flip(); o += std::string( " standalone='" ) + ( w.standalone ? "yes" : "no" ) + "'"; } o += "?>"; }
            auto between = [&] { if( r.chance( 1, 3 ) ) o += "\n"; if( r.chance( 1, 6 ) ) o += "<!-- c -->"; if( r.chance( 1, 6 ) ) { o += "<?pro log?>"; auto p = std::make_shared<Node>(); p->pi = true; p->name = "pro"; p->text = "log"; w.before.push_back( p ); } };
            between(); if( r.chance( 1, 3 ) ) { w.hasDoctype = true; w.doctype = doctypes[r.below( 4 )]; o += "<!DOCTYPE " + w.doctype + ">"; } between();
            return o + spell( r, *w.root ); };
        // the handles of a destroyed document say so
        auto verify = [&]
        {
            Compare c; auto root = doc->getRoot();
            if( !root ) { fail( "root", "the document has no root" ); return false; }
            bool ok = true;
            try { ok = c.node( *root, *m.root ); } catch( const std::exception& e ) { c.why = std::string( "looking at the tree throws: " ) + e.what(); ok = false; }
            app.count( "nodes-compared", c.nodes ); app.count( "iterations", c.iterations ); app.count( "evaluations" );
            if( !ok ) { fail( "tree", c.why + ", the tree should be " + show( *m.root ) ); return false; }
            try { const auto up = root->getParent(); if( !up || !up->getIsNull() ) { fail( "root-parent", "the parent of the root is no null element" ); return false; } } catch( const std::exception& e ) { fail( "root-parent", std::string( "asking for the parent of the root throws: " ) + e.what() ); return false; }
            for( auto& h : handles ) if( h.first->getName() != h.second->name || h.first->getValue() != h.second->text || h.first->getIsNull() || h.first->getDoc() != doc ) { fail( "handle", "a handle of " + h.second->name + " gives name '" + h.first->getName() + "', value '" + h.first->getValue() + "'" ); return false; }
            for( auto& h : attributes ) for( auto& a : h.n->attrs ) if( a.id == h.id && ( h.a->getIsNull() || h.a->getName() != a.first || h.a->getValue() != a.second ) ) { fail( "attribute-handle", "a handle of the attribute " + a.first + " gives " + h.a->getName() + "='" + h.a->getValue() + "'" ); return false; }
            if( doc->getXmlVersion() != m.version ) { fail( "version", "getXmlVersion" ); return false; }
            if( doc->getEncoding() != m.encoding ) { fail( "encoding", "getEncoding" ); return false; }
            if( doc->getHasStandaloneAttribute() != m.hasStandalone || doc->getIsStandalone() != ( m.hasStandalone && m.standalone ) ) { fail( "standalone", "the standalone attribute differs" ); return false; }
            if( doc->getHasDoctypeDeclaration() != m.hasDoctype || doc->getDoctypeValue() != m.doctype ) { fail( "doctype", "the document type is '" + doc->getDoctypeValue() + "' and not '" + m.doctype + "'" ); return false; }
            return true;
        };
        auto load = [&]
        {
            Model w; int budget = r.range( 1, 40 ); w.root = tree( r, budget, 0 ); w.bom = m.bom; std::string x;
            x = rendered( w );
            if( r.chance( 1, 6 ) ) { x = wide( r, x ); app.count( "wide-inputs" ); }
            const bool file = r.chance( 1, 4 ); op( file ? "load file" : "load" ); handles.clear(); attributes.clear();
            try
            {
                if( file ) { const std::string f = app.tmp + "/dom-in.xml"; { std::ofstream o( f, std::ios::binary ); o << x; } doc->loadFile( f ); unlink( f.c_str() ); }
                else { std::istringstream i( x ); doc->loadStream( i ); }
            }
            catch( const std::exception& e ) { fail( "load", std::string( "a well-formed text is refused: " ) + e.what() + " " + x ); return false; }
            m = w; app.seen( vf::hashStr( x ) ); return true;
        };
        auto save = [&]
        {
            std::string t; const bool file = r.chance( 1, 4 ); op( file ? "save file" : "save" );
            try { if( file ) { const std::string f = app.tmp + "/dom-out.xml"; if( r.flip() ) { std::ofstream o( f ); o << std::string( 9000, 'x' ); } doc->saveFile( f ); std::ifstream i( f, std::ios::binary ); std::stringstream ss; ss << i.rdbuf(); t = ss.str(); unlink( f.c_str() ); } else { std::ostringstream o; doc->saveStream( o ); t = o.str(); } }
            catch( const std::exception& e ) { fail( "save", std::string( "saving throws: " ) + e.what() ); return false; }
            app.count( "evaluations" ); app.count( "saves" );
            const bool utf16 = m.encoding == Encoding::utfSixteen;
            const std::string mark = utf16 ? "\xFF\xFE" : "\xEF\xBB\xBF";
            if( ( t.compare( 0, mark.size(), mark ) == 0 ) != m.bom ) { fail( "save-mark", "the byte order mark is not as asked for" ); return false; }
            xio::Doc d( t ); std::string why;
            if( !d.d ) { fail( "save-malformed", "what is saved is not well-formed: " + d.error + " " + t ); return false; }
            if( !sameTree( xmlDocGetRootElement( d.d ), *m.root, why ) ) { fail( "save-tree", "what is saved differs: " + why + " " + t ); return false; }
            size_t pis = 0; for( xmlNode* c = d.d->children; c && c->type != XML_ELEMENT_NODE; c = c->next ) if( c->type == XML_PI_NODE ) ++pis;
            if( pis != m.before.size() ) { fail( "save-prolog", "the instructions before the root differ" ); return false; }
            if( ( d.d->intSubset != nullptr ) != m.hasDoctype || d.d->standalone != ( m.hasStandalone ? m.standalone : -2 ) ) { fail( "save-declarations", "the saved declarations differ: " + t ); return false; }
            // and read again
            auto again = XFactory::makeXDoc(); Compare c;
            try { std::istringstream i( t ); again->loadStream( i ); auto root = again->getRoot(); if( !c.node( *root, *m.root ) ) { fail( "reload", "what is saved and loaded differs: " + c.why + " " + t ); return false; } }
            catch( const std::exception& e ) { fail( "reload", std::string( "what is saved cannot be loaded: " ) + e.what() + " " + t ); return false; }
            if( again->getXmlVersion() != m.version || again->getHasStandaloneAttribute() != m.hasStandalone || again->getIsStandalone() != ( m.hasStandalone && m.standalone ) || again->getHasDoctypeDeclaration() != m.hasDoctype || again->getDoctypeValue() != m.doctype ) { fail( "reload-declarations", "the declarations differ after saving and loading: " + t ); return false; }
            return true;
        };
        auto live = [&]() -> std::pair<XElementPtr, Node*>
        {
            if( handles.empty() || r.chance( 1, 4 ) )
            {
                // walk down from the root
                XElementPtr e = doc->getRoot(); Node* n = m.root.get();
                while( n->elements() && r.chance( 2, 3 ) ) { std::vector<NodePtr> k; for( auto& x : n->kids ) if( !x->pi ) k.push_back( x ); const size_t at = r.below( k.size() ); auto it = e->begin(); for( size_t i = 0; i < at; ++i ) ++it; e = it->clone(); n = k[at].get(); }
                handles.push_back( { e, n } ); if( handles.size() > 8 ) handles.erase( handles.begin() ); return { e, n };
            }
            return handles[r.below( handles.size() )];
        };
        auto refused = [&]( const char* what, const std::function<void()>& f ) { bool thrown = false; try { f(); } catch( const std::exception& ) { thrown = true; } app.count( "evaluations" ); if( !thrown ) fail( std::string( "not-refused:" ) + what, std::string( what ) + " is not refused as documented" ); return thrown; };
        const int ops = r.range( 15, 90 );
        if( r.flip() && !load() ) return;
        if( !verify() ) return;
        for( int i = 0; i < ops; ++i )
        {
            bool ok = true; const int kind = (int)r.below( 24 );
            try
            {
                auto [e, n] = kind < 14 ? live() : std::pair<XElementPtr, Node*>{};
                switch( kind )
                {
                    case 0: case 1: case 2: { const std::string s = name( r ); if( !n->text.empty() ) { op( "append-to-text" ); ok = refused( "appendChild to a text", [&, e = e] { e->appendChild( s ); } ); break; } op( "append " + s ); auto k = std::make_shared<Node>(); k->name = s; k->up = n; n->kids.push_back( k ); handles.push_back( { e->appendChild( s ), k.get() } ); break; }
                    case 3: { const std::string s = name( r ); if( !n->text.empty() ) { op( "prepend-to-text" ); ok = refused( "prependChild to a text", [&, e = e] { e->prependChild( s ); } ); break; } op( "prepend " + s ); auto k = std::make_shared<Node>(); k->name = s; k->up = n; n->kids.insert( n->kids.begin(), k ); handles.push_back( { e->prependChild( s ), k.get() } ); break; }
                    case 4: case 5: { const std::string s = name( r ); if( !n->up ) { op( "insert-beside-root" ); ok = refused( "insertSiblingAfter of the root", [&, e = e] { e->insertSiblingAfter( s ); } ); break; } op( "insert-after " + n->name + " " + s ); auto k = std::make_shared<Node>(); k->name = s; k->up = n->up; auto& v = n->up->kids; for( size_t q = 0; q < v.size(); ++q ) if( v[q].get() == n ) { v.insert( v.begin() + (long)q + 1, k ); break; } handles.push_back( { e->insertSiblingAfter( s ), k.get() } ); break; }
                    case 6: { std::string s = name( r ); if( !n->kids.empty() && r.chance( 3, 4 ) ) s = n->kids[r.below( n->kids.size() )]->name; op( "remove " + s ); bool had = false; for( size_t q = 0; q < n->kids.size(); ++q ) if( !n->kids[q]->pi && n->kids[q]->name == s ) { dropUnder( n->kids[q].get() ); n->kids.erase( n->kids.begin() + (long)q ); had = true; break; } if( e->removeChild( s ) != had ) { fail( "remove", "removeChild( " + s + " ) reports the contrary" ); ok = false; } break; }
                    case 7: { const std::string s = name( r ); op( "rename " + s ); n->name = s; e->setName( s ); break; }
                    case 8: case 9: { const std::string s = r.chance( 1, 6 ) ? "" : wild( r, false ); if( n->elements() ) { op( "text-of-parent" ); ok = refused( "setValue of an element with children", [&, e = e] { e->setValue( s ); } ); break; } if( n->instructions() ) break; op( "value '" + s + "'" ); n->text = s; e->setValue( s ); break; }
                    case 10: case 11: { const std::string s = attrName( r, *n ), v = wild( r, true ); const bool front = r.flip(); op( std::string( front ? "prepend" : "append" ) + "-attribute " + s ); auto a = front ? e->prependAttribute( s ) : e->appendAttribute( s ); const bool valued = r.chance( 5, 6 ); if( valued ) a->setValue( v ); const std::string is = a->getValue(); n->attrs.insert( front ? n->attrs.begin() : n->attrs.end(), Attr{ s, is == v ? v : "", ++ids } ); attributes.push_back( { a, n, ids } ); if( attributes.size() > 8 ) attributes.erase( attributes.begin() ); if( a->getName() != s ) { fail( "attribute", "a new attribute has the name " + a->getName() ); ok = false; } if( is != ( valued ? v : "" ) ) { fail( "attribute", "a new attribute has the value " + a->getValue() ); ok = false; } break; }
                    case 12: { if( n->attrs.empty() ) break; const size_t at = r.below( n->attrs.size() ); auto it = e->attributesBegin(); for( size_t q = 0; q < at; ++q ) ++it; if( r.flip() ) { op( "remove-attribute " + n->attrs[at].first ); n->attrs.erase( n->attrs.begin() + (long)at ); e->removeAttribute( it ); } else { const std::string s = attrName( r, *n ), v = wild( r, true ); op( "change-attribute " + n->attrs[at].first ); n->attrs[at].first = s; n->attrs[at].second = v; it->setName( s ); it->setValue( v ); } break; }
                    case 13: { op( "clone" ); handles.push_back( { e->clone(), n } ); break; }
                    case 14: { op( "set-encoding" ); m.encoding = r.flip() ? Encoding::utfEight : Encoding::utfSixteen; doc->setEncoding( m.encoding ); break; }
                    case 15: { op( "set-version" ); m.version = r.chance( 1, 3 ) ? XmlVersion::onePointOne : XmlVersion::onePointZero; doc->setXmlVersion( m.version ); break; }
                    case 16: { if( r.flip() ) { const bool v = r.flip(); op( "has-standalone" ); if( v != m.hasStandalone ) m.standalone = false; m.hasStandalone = v; doc->setHasStandaloneAttribute( v ); } else { m.hasStandalone = true; m.standalone = r.flip(); op( "standalone" ); doc->setIsStandalone( m.standalone ); } break; }
                    case 17: case 18: { if( r.chance( 1, 3 ) ) { op( "no-doctype" ); m.hasDoctype = false; m.doctype.clear(); doc->setHasDoctypeDeclaration( false ); } else { op( "doctype" ); m.hasDoctype = true; m.doctype = doctypes[r.below( 4 )]; doc->setDoctypeValue( m.doctype ); } break; }
                    case 19: { op( "mark" ); m.bom = r.flip(); doc->setDoWriteByteOrderMark( m.bom ); break; }
                    case 20: { if( r.chance( 1, 3 ) ) ok = load(); break; }
                    case 21: case 22: ok = save(); break;
                    default: { // a handle goes, and the handles of a document that goes
                        op( "other-document" ); auto other = XFactory::makeXDoc(); std::vector<XElementPtr> es; std::vector<XAttributePtr> as; es.push_back( other->getRoot() ); auto k = es[0]->appendChild( "k" ); es.push_back( k ); as.push_back( k->appendAttribute( "q" ) ); as[0]->setValue( "v" ); k->insertSiblingAfter( "l" ); es.push_back( k->getNextSibling() ); auto it = es[0]->begin(); auto at = k->attributesBegin(); other.reset();
                        for( int q = 0; q < 6; ++q ) { bool thrown = false; try { if( q == 0 ) ++it; else if( q == 1 ) --it; else if( q == 2 ) ++at; else if( q == 3 ) --at; else if( q == 4 ) (void)it->getName(); else (void)at->getName(); } catch( const std::exception& ) { thrown = true; } if( !thrown || !it.getIsPayloadNull() ) { fail( "dead-document", "an iterator of a destroyed document moves on" ); ok = false; } }
                        { auto one = m.root->text.empty() ? doc->getRoot()->begin() : doc->getRoot()->end(); one = XElementIterator{}; auto two = doc->getRoot()->attributesBegin(); two = XAttributeIterator{}; bool thrown = false; try { (void)one->getName(); } catch( const std::exception& ) { thrown = true; } if( !thrown || !one.getIsPayloadNull() ) { fail( "null-iterator", "an iterator that is assigned a null iterator is not null" ); ok = false; } try { (void)two->getName(); fail( "null-iterator", "an attribute iterator that is assigned a null iterator is not null" ); ok = false; } catch( const std::exception& ) {} }
                        for( auto& x : es ) { if( !x->getIsNull() || x->getType() != XElementType::null || x->getName() != "" || x->getValue() != "" || x->getDoc() ) { fail( "dead-document", "an element of a destroyed document is not null" ); ok = false; } x->setName( "x" ); x->setValue( "x" ); try { x->removeChild( "k" ); } catch( const std::exception& ) {} try { x->appendChild( "z" ); fail( "dead-document", "an element of a destroyed document takes a child" ); ok = false; } catch( const std::exception& ) {} }
                        for( auto& x : as ) { if( !x->getIsNull() || x->getName() != "" || x->getValue() != "" ) { fail( "dead-document", "an attribute of a destroyed document is not null" ); ok = false; } x->setName( "x" ); x->setValue( "x" ); }
                        app.count( "evaluations" ); }
                }
            }
            catch( const std::exception& e ) { fail( "throws", std::string( "the operation throws: " ) + e.what() ); return; }
            if( !ok || !verify() ) return;
        }
        save();
        app.sample( std::to_string( ops ) + " operations ending in " + show( *m.root ) );
    } );
}
