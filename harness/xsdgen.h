// Random MusicXML documents from the flattened schema (lib/xsdtab.py), as trees that know the schema type of every value.
#pragma once
#include "common.h"
#include <bitset>
#include <fstream>
#include <memory>
#include <sstream>
namespace xg
{
struct Simple { std::string name, kind; std::vector<int> members; int base = -1; std::string lo = "-", hi = "-"; std::vector<std::string> values; };
struct Attr { std::string name; bool required; int simple; std::string fixed; };
struct Type { std::string name; int simple = -1, node = -1; std::vector<Attr> attrs; };
using Reach = std::bitset<1024>;
struct Node { std::string kind, name; int lo = 0, hi = 0, type = -1; std::vector<int> kids; Reach reach; };
struct Xsd
{
    std::vector<Simple> simples; std::vector<Type> types; std::vector<Node> nodes; int partwise = -1, timewise = -1;
    template<class T> static T& at( std::vector<T>& v, size_t i ) { if( v.size() <= i ) v.resize( i + 1 ); return v[i]; }
    explicit Xsd( const std::string& path )
    {
        std::ifstream f( path ); std::string line;
        while( std::getline( f, line ) )
        {
            std::istringstream s( line ); char k; s >> k;
            if( k == 'S' )
            {
                int i; s >> i; auto& q = at( simples, i ); std::string b; s >> q.name >> q.kind >> b >> q.lo >> q.hi;
                if( q.kind == "union" ) { std::istringstream m( b ); std::string e; while( std::getline( m, e, ',' ) ) q.members.push_back( atoi( e.c_str() ) ); }
                else if( b != "-" ) q.base = atoi( b.c_str() );
            }
            else if( k == 'V' ) { int i; s >> i; std::string v; std::getline( s, v ); simples[i].values.push_back( v.substr( 1 ) ); }
            else if( k == 'T' ) { int i; s >> i; auto& q = at( types, i ); s >> q.simple >> q.node >> q.name; }
            else if( k == 'A' ) { int i; s >> i; Attr a; int rq; s >> a.name >> rq >> a.simple >> a.fixed; a.required = rq; at( types, i ).attrs.push_back( a ); }
            else if( k == 'N' )
            {
                int i; s >> i; auto& q = at( nodes, i ); s >> q.kind >> q.lo >> q.hi;
                if( q.kind == "elem" ) s >> q.type >> q.name; else { int c; while( s >> c ) q.kids.push_back( c ); }
            }
            else if( k == 'R' ) { std::string n; int i; s >> n >> i; ( n == "score-partwise" ? partwise : timewise ) = i; }
        }
        if( nodes.empty() || partwise < 0 || timewise < 0 || nodes.size() > 1000 ) { fprintf( stderr, "vf: harness error: schema table\n" ); exit( 3 ); }
        for( bool more = true; more; )
        {
            more = false;
            for( size_t i = 0; i < nodes.size(); ++i )
            {
                Reach q = nodes[i].reach; q.set( i );
                for( int c : nodes[i].kids ) q |= nodes[c].reach;
                if( nodes[i].type >= 0 && types[nodes[i].type].node >= 0 ) q |= nodes[types[nodes[i].type].node].reach;
                if( q != nodes[i].reach ) { nodes[i].reach = q; more = true; }
            }
        }
    }
    // the leaf facts of a simple type, following restrictions
    std::string builtin( int s ) const { while( simples[s].base >= 0 ) s = simples[s].base; return simples[s].kind == "union" ? "union" : simples[s].name; }
    bool derives( int s, const char* name ) const { for( ; s >= 0; s = simples[s].base ) if( simples[s].name == name ) return true; return false; }
    int childType( int type, const std::string& name ) const { return type < 0 || types[type].node < 0 ? -1 : find( types[type].node, name ); }
    int find( int n, const std::string& name ) const
    {
        auto& q = nodes[n];
        if( q.kind == "elem" ) return q.name == name ? q.type : -1;
        for( int c : q.kids ) { int t = find( c, name ); if( t >= 0 ) return t; }
        return -1;
    }
    int attrSimple( int type, const std::string& name ) const { if( type >= 0 ) for( auto& a : types[type].attrs ) if( a.name == name ) return a.simple; return -1; }
    int maxEnum( int s, int depth = 0 ) const
    {
        if( s < 0 || depth > 4 ) return 0;
        int m = (int)simples[s].values.size();
        for( int k : simples[s].members ) m = std::max( m, maxEnum( k, depth + 1 ) );
        return m;
    }
};
struct El
{
    std::string name, text; int type = -1; std::vector<std::pair<std::string, std::string>> attrs; std::vector<El> kids;
    const std::string* attr( const std::string& n ) const { for( auto& a : attrs ) if( a.first == n ) return &a.second; return nullptr; }
    size_t size() const { size_t n = 1; for( auto& k : kids ) n += k.size(); return n; }
};
struct Gen
{
    const Xsd& x; vf::Rng& r;
    int budget = 200, attrPct = 30, manyPct = 25;
    int focus = -1;                  // node that has to appear
    bool full = false; int valueIndex = -1; // the focused element carries every attribute, enumerations take this value
    std::function<std::string( bool )> textSource; // replaces the plain texts; its argument tells a token
    int maxParts = 3, maxMeasures = 4;
    int ids = 0, parts = 0, partIndex = 0, focusLeft = -1;
    std::vector<std::string> partIds;
    Gen( const Xsd& x_, vf::Rng& r_ ) : x( x_ ), r( r_ ) {}

    std::string num( long double lo, long double hi, bool integer )
    {
        char b[64];
        if( integer || r.chance( 1, 3 ) ) { snprintf( b, sizeof b, "%lld", (long long)lo + (long long)r.below( (uint64_t)( (long long)hi - (long long)lo + 1 ) ) ); return b; }
        if( lo <= 1 && hi >= 1 && r.chance( 1, 12 ) ) { static const char* const f[] = { "0.0000004", "0.000001", "0.0001", "0.999999", "0.1234567", "0.9999996" }; return f[r.below( 6 )]; }
        const int places = r.range( 1, 4 ); long scale = 1; for( int i = 0; i < places; ++i ) scale *= 10;
        long long a = (long long)( lo * scale ), c = (long long)( hi * scale ), v = a + (long long)r.below( (uint64_t)( c - a + 1 ) );
        snprintf( b, sizeof b, "%s%lld.%0*lld", v < 0 ? "-" : "", ( v < 0 ? -v : v ) / scale, places, ( v < 0 ? -v : v ) % scale );
        return b;
    }
    std::string text()
    {
        if( textSource ) return textSource( false );
        static const std::vector<std::string> w{ "Allegro", "Flute", "dolce e legato", "K. 331", "B-flat", "3", "Op. 5, No. 2", "solo", "x", "Violin I", "rit.", "a < b & c > d", "\"q\"", "it's", "\xC3\xA9t\xC3\xBC" "de",
            "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9D\x84\x9E" };
        if( r.chance( 1, 30 ) ) return "";
        return r.pick( w );
    }
    std::string token() { if( textSource ) return textSource( true ); std::string t = text(); return t.empty() ? "tok" : t; }
    std::string list( int max )
    {
        std::string s = std::to_string( r.range( 1, max ) ); int n = r.range( 0, 3 );
        for( int i = 0; i < n; ++i ) s += std::string( r.flip() ? ", " : "," ) + std::to_string( r.range( 1, max ) );
        return s;
    }
    std::string value( int s, int index, int depth = 0 )
    {
        const Simple& q = x.simples[s];
        if( !q.values.empty() ) return q.values[index >= 0 ? (size_t)index % q.values.size() : r.below( q.values.size() )];
        if( q.kind == "union" )
        {
            // an anonymous member may be an enumeration whose only value is the empty string
            return value( q.members[index >= 0 ? (size_t)index % q.members.size() : r.below( q.members.size() )], index >= 0 ? index / (int)q.members.size() : -1, depth + 1 );
        }
        if( q.name == "color" ) { char b[16]; snprintf( b, sizeof b, r.flip() ? "#%06X" : "#%06X%02X", (unsigned)r.below( 1 << 24 ), (unsigned)r.below( 256 ) ); return b; }
        if( q.name == "comma-separated-text" ) { static const std::vector<std::string> f{ "Arial", "Times New Roman", "Maestro", "engraved", "Arial, Times", "Bach,Opus,text" }; return r.pick( f ); }
        if( q.name == "time-only" ) return list( 5 );
        if( q.name == "ending-number" ) return list( 5 );
        const std::string b = x.builtin( s );
        if( b == "xs:date" ) { char d[32]; snprintf( d, sizeof d, "%04d-%02d-%02d", r.range( 1600, 2030 ), r.range( 1, 12 ), r.range( 1, 28 ) ); return d; }
        if( b == "xs:string" ) return text();
        if( b == "xs:token" ) return token();
        if( b == "xs:NMTOKEN" ) { static const std::vector<std::string> f{ "n1", "up", "3", "coda-1", "x.y" }; return r.pick( f ); }
        if( b == "xs:anyURI" ) { static const std::vector<std::string> f{ "a.png", "http://example.com/x?y=1&z=2", "dir/file.xml" }; return r.pick( f ); }
        if( b == "xs:ID" ) return "id" + std::to_string( ++ids );
        if( b == "xs:IDREF" ) return partIds.empty() ? "P1" : r.pick( partIds );
        if( b == "@xml:lang" ) { static const std::vector<std::string> f{ "en", "de", "it", "fr-CA" }; return r.pick( f ); }
        if( b == "@xml:space" ) return index >= 0 ? ( index % 2 ? "preserve" : "default" ) : r.flip() ? "preserve" : "default";
        if( b == "@xlink:href" ) return "opus.xml";
        if( b == "@xlink:type" ) return "simple";
        if( b == "@xlink:role" || b == "@xlink:title" ) return token();
        if( b == "@xlink:show" ) { static const std::vector<std::string> f{ "new", "replace", "embed", "other", "none" }; return index >= 0 ? f[(size_t)index % 5] : r.pick( f ); }
        if( b == "@xlink:actuate" ) { static const std::vector<std::string> f{ "onRequest", "onLoad", "other", "none" }; return index >= 0 ? f[(size_t)index % 4] : r.pick( f ); }
        long double lo = -300, hi = 300; bool integer = b != "xs:decimal", open = false, bounded = false;
        if( b == "xs:positiveInteger" ) { lo = 1; bounded = true; } else if( b == "xs:nonNegativeInteger" ) { lo = 0; bounded = true; }
        for( int k = s; k >= 0; k = x.simples[k].base )
        {
            if( x.simples[k].lo != "-" ) { open = x.simples[k].lo[0] == '>'; lo = atof( x.simples[k].lo.c_str() + open ); bounded = true; }
            if( x.simples[k].hi != "-" ) hi = atof( x.simples[k].hi.c_str() );
        }
        if( b != "xs:decimal" && b != "xs:integer" && b != "xs:positiveInteger" && b != "xs:nonNegativeInteger" ) { fprintf( stderr, "vf: harness error: simple type %s\n", q.name.c_str() ); exit( 3 ); }
        if( bounded && r.chance( 1, 6 ) && !open ) return num( lo, lo, true );
        if( hi < 300 && r.chance( 1, 6 ) ) return num( hi, hi, true );
        if( open ) return num( lo + 1, hi, integer );
        return num( lo, hi, integer );
    }
    void content( int n, El& out, bool carry )
    {
        const Node& q = x.nodes[n];
        carry = carry && focusLeft >= 0 && q.reach[(size_t)focusLeft];
        int count = q.lo;
        const bool part = q.kind == "elem" && ( q.name == "part" || q.name == "measure" );
        if( part ) count = q.lo;
        else if( budget > 0 )
        {
            if( q.lo == 0 && r.chance( manyPct, 100 ) ) count = 1;
            if( q.hi < 0 || q.hi > 1 )
            {
                const bool big = q.kind == "cho" && q.kids.size() > 8;
                while( ( q.hi < 0 || count < q.hi ) && count < 12 && r.chance( big ? 70 : manyPct, 100 ) ) ++count;
            }
        }
        int carried = -1;
        if( carry ) { if( count == 0 ) count = 1; carried = (int)r.below( (uint64_t)count ); }
        for( int i = 0; i < count; ++i )
        {
            const bool c = i == carried && focusLeft >= 0;
            if( q.kind == "elem" ) { out.kids.push_back( element( q.name, q.type, c, n ) ); }
            else if( q.kind == "seq" ) { for( int k : q.kids ) content( k, out, c ); }
            else
            {
                std::vector<int> ok;
                if( c && focusLeft >= 0 ) for( int k : q.kids ) if( x.nodes[k].reach[(size_t)focusLeft] ) ok.push_back( k );
                content( ok.empty() ? r.pick( q.kids ) : r.pick( ok ), out, c );
            }
        }
    }
    El element( const std::string& name, int type, bool carry, int node )
    {
        El e; e.name = name; e.type = type; --budget;
        const Type& t = x.types[type];
        const bool here = carry && focusLeft >= 0 && node == focusLeft;
        if( here ) { focusLeft = -1; carry = false; }
        for( auto& a : t.attrs )
        {
            if( !( a.required || ( here && full ) || r.chance( attrPct, 100 ) ) ) continue;
            e.attrs.push_back( { a.name, a.fixed != "-" ? a.fixed : value( a.simple, here ? valueIndex : -1 ) } );
        }
        if( t.simple >= 0 ) e.text = value( t.simple, here ? valueIndex : -1 );
        if( t.node < 0 ) return e;
        if( name == "score-partwise" || name == "score-timewise" )
        {
            for( auto& a : e.attrs ) if( a.first == "version" ) a.second = "3.0";
            // header first, then parts x measures (or the other way round)
            const Node& seq = x.nodes[t.node]; int outer = -1;
            for( int k : seq.kids ) if( x.nodes[k].kind == "elem" && ( x.nodes[k].name == "part" || x.nodes[k].name == "measure" ) ) outer = k; else content( k, e, carry );
            std::vector<std::string> pids;
            for( auto& k : e.kids ) if( k.name == "part-list" ) for( auto& s : k.kids ) if( s.name == "score-part" ) for( auto& a : s.attrs ) if( a.first == "id" ) pids.push_back( a.second );
            partIds = pids;
            const int measures = r.range( 1, maxMeasures );
            const bool pw = name == "score-partwise";
            const int n1 = pw ? (int)pids.size() : measures, n2 = pw ? measures : (int)pids.size();
            const int inner = innerNode( x.types[x.nodes[outer].type].node );
            const int f1 = (int)r.below( (uint64_t)n1 ), f2 = (int)r.below( (uint64_t)n2 );
            for( int i = 0; i < n1; ++i )
            {
                El o; o.name = x.nodes[outer].name; o.type = x.nodes[outer].type; --budget;
                attrsOf( o, i, pw ? pids[i] : "", carry && i == f1, outer );
                for( int j = 0; j < n2; ++j )
                {
                    El m; m.name = x.nodes[inner].name; m.type = x.nodes[inner].type;
                    attrsOf( m, j, pw ? "" : pids[j], carry && i == f1 && j == f2, inner );
                    content( x.types[m.type].node, m, carry && i == f1 && j == f2 );
                    o.kids.push_back( std::move( m ) );
                }
                e.kids.push_back( std::move( o ) );
            }
            return e;
        }
        content( t.node, e, carry );
        return e;
    }
    int innerNode( int n ) const { while( x.nodes[n].kind != "elem" ) n = x.nodes[n].kids.at( 0 ); return n; }
    void attrsOf( El& o, int index, const std::string& pid, bool carry, int node )
    {
        const bool here = carry && focusLeft >= 0 && node == focusLeft;
        if( here ) focusLeft = -1;
        for( auto& a : x.types[o.type].attrs )
        {
            if( !( a.required || ( here && full ) || r.chance( attrPct, 100 ) ) ) continue;
            std::string v = value( a.simple, here ? valueIndex : -1 );
            if( a.name == "id" ) v = pid;
            if( a.name == "number" ) v = r.chance( 1, 20 ) ? token() : std::to_string( index + 1 );
            o.attrs.push_back( { a.name, v } );
        }
    }
    El doc( bool timewise )
    {
        focusLeft = focus; ids = 0; partIds.clear();
        const int t = timewise ? x.timewise : x.partwise;
        return element( timewise ? "score-timewise" : "score-partwise", t, focus >= 0, -1 );
    }
};
inline std::string esc( const std::string& s, bool attr, char q = '"' )
{
    std::string o;
    for( char c : s )
        if( c == '&' ) o += "&amp;"; else if( c == '<' ) o += "&lt;"; else if( c == '>' ) o += "&gt;";
        else if( attr && c == '"' && q == '"' ) o += "&quot;"; else if( attr && c == '\'' && q == '\'' ) o += "&apos;"; else o += c;
    return o;
}
inline void xml( const El& e, std::string& o, int pretty, int depth = 0 )
{
    if( pretty ) o.append( (size_t)depth * 2, ' ' );
    if( e.name[0] == '?' ) { o += "<" + e.name + ( e.text.empty() ? "" : " " ) + e.text + "?>"; if( pretty ) o += "\n"; return; }
    o += "<" + e.name;
    for( auto& a : e.attrs ) { const char q = pretty == 2 && a.second.size() % 2 ? '\'' : '"'; o += " " + a.first + "=" + q + esc( a.second, true, q ) + q; }
    if( e.kids.empty() && e.text.empty() ) { o += pretty == 2 ? "></" + e.name + ">" : "/>"; if( pretty ) o += "\n"; return; }
    o += ">";
    if( !e.kids.empty() ) { if( pretty ) o += "\n"; for( auto& k : e.kids ) xml( k, o, pretty, depth + 1 ); if( pretty ) o.append( (size_t)depth * 2, ' ' ); }
    else o += esc( e.text, false );
    o += "</" + e.name + ">"; if( pretty ) o += "\n";
}
inline std::string xml( const El& root, int pretty = 1, bool doctype = true )
{
    std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n";
    if( doctype ) o += "<!DOCTYPE " + root.name + " PUBLIC \"-//Recordare//DTD MusicXML 3.0 " + ( root.name == "score-partwise" ? "Partwise" : "Timewise" ) + "//EN\" \"http://www.musicxml.org/dtds/" + root.name.substr( 6 ) + ".dtd\">\n";
    xml( root, o, pretty );
    return o;
}
}
