// Every element class of the document model against the accessor contract of the README (C16): random sequences of set (null and not), flag, add, remove,
// clear, choice and attribute calls, compared after each call with a model that holds identities, flags, sequences and the choice; and what is written with
// what the model says is present.
#include "elements.h"
#include <algorithm>
#include <typeinfo>
using namespace el;
static vf::App app;
#define X( k ) void registerElements##k( std::vector<el::Klass>& );
X( 0 ) X( 1 ) X( 2 ) X( 3 ) X( 4 ) X( 5 ) X( 6 ) X( 7 )
#undef X
static std::vector<Klass> all;
static std::map<std::string, size_t> byName;
static const Klass* klass( const std::string& n ) { auto i = byName.find( n ); return i == byName.end() ? nullptr : &all[i->second]; }

// the items of a piece of XML: whole elements, processing instructions, text; the layout removed
static std::vector<std::string> items( const std::string& s )
{
    std::vector<std::string> out; size_t i = 0; int depth = 0; std::string cur;
    auto blank = []( const std::string& t ) { return t.find_first_not_of( " \n\t" ) == std::string::npos; };
    while( i < s.size() )
    {
        if( s[i] != '<' )
        {
            const size_t e = std::min( s.find( '<', i ), s.size() ); std::string t = s.substr( i, e - i ); i = e;
            if( t.find( '\n' ) != std::string::npos || blank( t ) ) { if( blank( t ) ) continue; const size_t a = t.find_first_not_of( " \n\t" ), b = t.find_last_not_of( " \n\t" ); t = t.substr( a, b - a + 1 ); }
            if( depth == 0 ) out.push_back( t ); else cur += t;
            continue;
        }
        const bool pi = s.compare( i, 2, "<?" ) == 0; const size_t e = pi ? s.find( "?>", i ) + 1 : s.find( '>', i );
        if( e == std::string::npos || e >= s.size() ) { out.push_back( "unfinished:" + s.substr( i ) ); return out; }
        const std::string tag = s.substr( i, e + 1 - i ); i = e + 1; cur += tag;
        if( pi || tag[tag.size() - 2] == '/' ) {} else if( tag[1] == '/' ) --depth; else ++depth;
        if( depth == 0 ) { out.push_back( cur ); cur.clear(); }
    }
    if( depth || !cur.empty() ) out.push_back( "unfinished:" + cur );
    return out;
}
static std::string contents( const Elem& e ) { std::ostringstream o; bool one = false; e.streamContents( o, 0, one ); return o.str(); }
static std::string whole( const Elem& e, int indent = 0 ) { std::ostringstream o; e.toStream( o, indent ); return o.str(); }
// groups and choices have no element of their own, though some give the name of the element that holds them
static bool isTransparent( const Elem& e );
static std::string nameOf( const Elem& e ) { if( isTransparent( e ) ) return ""; std::ostringstream o; e.streamName( o ); return o.str(); }
static std::string startTag( const Elem& e ) { std::ostringstream o; e.streamOpenTag( o ); return o.str(); }
// what the element adds to the contents of the one that holds it
static std::vector<std::string> itemsOf( const Elem& e ) { return nameOf( e ).empty() ? items( contents( e ) ) : items( whole( e ) ); }
static bool isTransparent( const Elem& e )
{
    static const std::set<std::string> names = {
#include "elements_transparent.inc"
    };
    static std::set<const std::type_info*> known; static bool once = false;
    if( !once ) { once = true; for( auto& k : all ) if( names.count( k.name ) ) { Ptr p = k.make(); Elem& x = *p; known.insert( &typeid( x ) ); } }
    return known.count( &typeid( e ) ) != 0;
}
static std::string low( std::string s ) { if( !s.empty() ) s[0] = (char)tolower( s[0] ); return s; }
static int attributeCount( const std::string& tag ) { int n = 0; bool in = false; for( size_t i = 0; i < tag.size(); ++i ) { if( tag[i] == '"' ) { in = !in; if( in ) ++n; } } return n; }

// classes whose members are not written by the plain rules (each for a documented reason); only the rules they do follow are checked
struct Special { bool output = true, attributes = true; };
static const Special& special( const std::string& n )
{
    static const std::map<std::string, Special> m = {
#include "elements_special.inc"
    };
    static const Special plain; auto i = m.find( n ); return i == m.end() ? plain : i->second;
}
// members that belong to an alternative of a choice under another name
static std::string alternative( const Klass& k, const std::string& member )
{
    static const std::map<std::string, std::string> m = {
#include "elements_alternatives.inc"
    };
    auto i = m.find( std::string( k.name ) + "." + member ); return i == m.end() ? low( member ) : i->second;
}

static Ptr built( const Klass& k, vf::Rng& r, int depth );
static void attributesAt( const Klass& k, Elem* e, vf::Rng& r )
{
    for( auto& f : k.fields ) { if( r.chance( 1, 2 ) ) f.change( e, r ); if( f.setHas && r.chance( 1, 3 ) ) f.setHas( e, true ); }
}
static Ptr child( Ptr ( *make )(), const char* type, vf::Rng& r, int depth ) { const Klass* k = klass( type ); return k ? built( *k, r, depth ) : make(); }
// a random element of a class
static Ptr built( const Klass& k, vf::Rng& r, int depth )
{
    Ptr p = k.make(); Elem* e = p.get(); std::string a, b;
    if( k.change && r.chance( 3, 4 ) ) k.change( e, r, a, b );
    attributesAt( k, e, r );
    if( depth <= 0 ) return p;
    if( k.setChoice ) k.setChoice( e, k.choices[r.below( k.choices.size() )].value );
    for( auto& s : k.singles ) { if( s.set && r.chance( 1, 3 ) ) s.set( e, child( s.make, s.type, r, depth - 1 ) ); if( s.setHas && r.chance( 1, 3 ) ) s.setHas( e, true ); }
    for( auto& c : k.colls ) if( r.chance( 1, 3 ) ) c.add( e, child( c.make, c.type, r, depth - 1 ) );
    return p;
}

int main( int argc, char** argv )
{
    app.parse( argc, argv );
#define X( k ) registerElements##k( all );
    X( 0 ) X( 1 ) X( 2 ) X( 3 ) X( 4 ) X( 5 ) X( 6 ) X( 7 )
    std::sort( all.begin(), all.end(), []( const Klass& a, const Klass& b ) { return std::string( a.name ) < b.name; } );
    for( size_t i = 0; i < all.size(); ++i ) byName[all[i].name] = i;
    app.run( [&]( long c, vf::Rng& r ) {
        const Klass& k = all[(size_t)c % all.size()]; const std::string K = k.name; app.stage( k.name );
        auto no = [&]( const std::string& what, const std::string& why ) { app.fail( what + ":" + K, K + ": " + why ); };
        std::vector<Ptr> keep; std::vector<Any> keepAny;
        const std::string fresh = whole( *k.make() );
        Ptr p = k.make(); Elem* e = p.get();
        // a second element of the class, which nothing done to the first may touch
        Ptr other = built( k, r, 1 ); const std::string otherText = whole( *other );
        struct S { void* ptr; bool has; }; std::vector<S> S1; std::vector<std::vector<void*>> C1; int choice = 0; void* attributes = nullptr; std::vector<char> F1;
        for( auto& s : k.singles ) S1.push_back( { s.get( e ), s.has ? s.has( e ) : true } );
        for( auto& q : k.colls ) { std::vector<void*> v; for( size_t i = 0; i < q.size( e ); ++i ) v.push_back( q.at( e, i ) ); C1.push_back( v ); if( (long)v.size() != q.lo ) no( "minimum", std::string( "a new one has " ) + std::to_string( v.size() ) + " " + q.name ); }
        if( k.choice ) { choice = k.choice( e ); bool found = false; for( auto& x : k.choices ) found |= x.value == choice; if( !found ) no( "choice", "a new one has choice " + std::to_string( choice ) ); }
        if( k.attributes ) attributes = k.attributes( e );
        for( auto& f : k.fields ) F1.push_back( f.has ? f.has( e ) : 1 );
        std::string done = "new";
        const Special& sp = special( K );
        auto getters = [&]() {
            for( size_t i = 0; i < k.singles.size(); ++i )
            {
                app.count( "evaluations" ); void* q = k.singles[i].get( e );
                if( !q ) no( "null", std::string( "get" ) + k.singles[i].name + " gives null after " + done );
                else if( q != S1[i].ptr ) no( "identity", std::string( "get" ) + k.singles[i].name + " gives another element after " + done );
                if( k.singles[i].has && k.singles[i].has( e ) != S1[i].has ) no( "flag", std::string( "getHas" ) + k.singles[i].name + " is not what it was set to after " + done );
            }
            for( size_t i = 0; i < k.colls.size(); ++i )
            {
                app.count( "evaluations" ); auto& q = k.colls[i]; const size_t n = q.size( e ); std::string at;
                if( (long)n < q.lo || ( q.hi >= 0 && (long)n > q.hi ) ) no( "bounds", std::to_string( n ) + " " + q.name + " after " + done );
                if( n != C1[i].size() ) { no( "size", std::to_string( n ) + " " + q.name + " instead of " + std::to_string( C1[i].size() ) + " after " + done ); C1[i].clear(); for( size_t j = 0; j < n; ++j ) C1[i].push_back( q.at( e, j ) ); continue; }
                for( size_t j = 0; j < n; ++j )
                {
                    if( !q.at( e, j ) ) no( "null", std::string( q.name ) + " holds null after " + done );
                    if( q.at( e, j ) != C1[i][j] ) { no( "order", std::string( q.name ) + " holds other elements or another order after " + done ); C1[i][j] = q.at( e, j ); }
                    if( q.byIter && q.byIter( e, j ) != C1[i][j] ) no( "order", std::string( "get" ) + q.name + " at an iterator gives another element after " + done );
                }
            }
            if( k.choice && k.choice( e ) != choice ) { no( "choice", "the choice is " + std::to_string( k.choice( e ) ) + " instead of " + std::to_string( choice ) + " after " + done ); choice = k.choice( e ); }
            if( k.attributes && k.attributes( e ) != attributes ) { no( "attributes", "the attributes are others after " + done ); attributes = k.attributes( e ); if( !attributes ) return false; }
            for( size_t i = 0; i < k.fields.size(); ++i ) if( k.fields[i].has && k.fields[i].has( e ) != (bool)F1[i] ) { no( "attribute-flag", std::string( "the flag of " ) + k.fields[i].name + " changed after " + done ); F1[i] = k.fields[i].has( e ); }
            return true; };
        auto outputs = [&]() {
            app.count( "evaluations" ); app.count( "outputs" );
            const std::string text = whole( *e );
            if( whole( *e ) != text ) no( "stable", "writing twice gives other texts" );
            // the start tag has the attributes whose flags are set
            if( k.attributes && sp.attributes && !nameOf( *e ).empty() )
            {
                int n = 0; for( size_t i = 0; i < k.fields.size(); ++i ) n += k.fields[i].has ? F1[i] : 1;
                const std::string tag = startTag( *e ); app.count( "evaluations" );
                if( attributeCount( tag ) != n ) no( "attribute-output", std::to_string( n ) + " attributes are present, written is " + tag + " after " + done );
            }
            if( ( k.singles.empty() && k.colls.empty() ) || !sp.output ) return;
            std::vector<std::string> want; std::vector<std::vector<std::string>> sequences;
            auto active = [&]( const char* member ) { if( !k.choice ) return true; const std::string a = alternative( k, member ); bool is = a == "*"; for( auto& x : k.choices ) if( x.name == a && x.value == choice ) is = true; return is; };
            for( size_t i = 0; i < k.singles.size(); ++i ) if( S1[i].has && active( k.singles[i].name ) ) for( auto& t : itemsOf( *static_cast<Elem*>( S1[i].ptr ) ) ) want.push_back( t );
            for( size_t i = 0; i < k.colls.size(); ++i )
            {
                if( !active( k.colls[i].name ) ) continue;
                std::vector<std::string> seq; for( void* q : C1[i] ) for( auto& t : itemsOf( *static_cast<Elem*>( q ) ) ) { want.push_back( t ); seq.push_back( t ); }
                sequences.push_back( seq );
            }
            const auto got = items( contents( *e ) );
            auto a = want, b = got; std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
            if( a != b )
            {
                std::vector<std::string> missing, extra; std::set_difference( a.begin(), a.end(), b.begin(), b.end(), std::back_inserter( missing ) ); std::set_difference( b.begin(), b.end(), a.begin(), a.end(), std::back_inserter( extra ) );
                no( "output", ( missing.empty() ? std::string( "nothing" ) : missing[0] ) + " is not written and " + ( extra.empty() ? std::string( "nothing" ) : extra[0] ) + " is written besides, after " + done + " in " + text ); return;
            }
            for( auto& seq : sequences ) { size_t j = 0; for( auto& t : got ) if( j < seq.size() && t == seq[j] ) ++j; if( j != seq.size() ) no( "output-order", "a sequence is written in another order after " + done + ": " + text ); }
            app.seen( vf::hashStr( text ) ); };
        const int ops = k.singles.empty() && k.colls.empty() && !k.choice ? 12 : app.thorough ? 80 : 40;
        for( int n = 0; n < ops; ++n )
        {
            const int what = (int)r.below( 10 ); app.count( "operations" );
            if( what < 3 && !k.singles.empty() )
            {
                const size_t i = r.below( k.singles.size() ); auto& s = k.singles[i]; if( !s.set ) continue;
                if( r.chance( 1, 3 ) ) { s.set( e, nullptr ); done = std::string( "set" ) + s.name + "( null )"; app.count( "nulls" ); }
                else { Ptr q = child( s.make, s.type, r, 2 ); keep.push_back( q ); const std::string before = whole( *q ); s.set( e, q ); S1[i].ptr = q.get(); done = std::string( "set" ) + s.name; if( whole( *q ) != before ) no( "side-effect", done + " changes the child" ); }
            }
            else if( what < 5 && !k.singles.empty() )
            {
                const size_t i = r.below( k.singles.size() ); auto& s = k.singles[i]; if( !s.setHas ) continue;
                const std::string before = whole( *static_cast<Elem*>( s.get( e ) ) ); const bool v = r.flip(); s.setHas( e, v ); S1[i].has = v; done = std::string( "setHas" ) + s.name + ( v ? "( true )" : "( false )" ); app.count( "flags" );
                if( void* q = s.get( e ) ) if( whole( *static_cast<Elem*>( q ) ) != before ) no( "side-effect", done + " changes the child" );
            }
            else if( what < 8 && !k.colls.empty() )
            {
                const size_t i = r.below( k.colls.size() ); auto& q = k.colls[i]; auto& model = C1[i];
                switch( r.below( 8 ) )
                {
                    case 0: q.add( e, nullptr ); done = std::string( "add" ) + q.name + "( null )"; app.count( "nulls" ); break;
                    case 1: case 2: if( model.empty() ) continue; { const size_t at = r.below( model.size() ); q.remove( e, at ); done = std::string( "remove" ) + q.name; app.count( "removals" ); if( (long)model.size() > q.lo ) model.erase( model.begin() + (long)at ); else app.count( "removals-refused" ); break; }
                    case 3: if( r.flip() ) continue; q.clear( e ); done = std::string( "clear" ) + q.name; app.count( "clears" ); model.clear(); if( (long)q.size( e ) == q.lo ) for( size_t j = 0; j < q.size( e ); ++j ) model.push_back( q.at( e, j ) ); break;
                    case 4: if( q.hi > 0 ) for( int m = 0; m < q.hi; ++m ) { Ptr x = child( q.make, q.type, r, 1 ); keep.push_back( x ); q.add( e, x ); if( (long)model.size() < q.hi ) model.push_back( x.get() ); else app.count( "additions-refused" ); } done = std::string( "many add" ) + q.name; break;
                    default: { Ptr x = !keep.empty() && r.chance( 1, 10 ) && false ? keep.back() : child( q.make, q.type, r, 2 ); keep.push_back( x ); q.add( e, x ); done = std::string( "add" ) + q.name; app.count( "additions" ); if( q.hi < 0 || (long)model.size() < q.hi ) model.push_back( x.get() ); else app.count( "additions-refused" ); }
                }
            }
            else if( what == 8 && k.setChoice ) { choice = k.choices[r.below( k.choices.size() )].value; k.setChoice( e, choice ); done = "setChoice( " + std::to_string( choice ) + " )"; app.count( "choices" ); }
            else if( k.attributes && r.flip() )
            {
                if( r.chance( 1, 4 ) ) { k.nullAttributes( e ); done = "setAttributes( null )"; app.count( "nulls" ); }
                else if( r.chance( 1, 4 ) ) { attributes = k.newAttributes( e, true ); done = "setAttributes"; for( size_t i = 0; i < k.fields.size(); ++i ) F1[i] = k.fields[i].has ? k.fields[i].has( e ) : 1; }
                else if( !k.fields.empty() ) { const size_t i = r.below( k.fields.size() ); auto& f = k.fields[i]; if( f.setHas && r.flip() ) { const std::string before = f.text( e ); const bool v = r.flip(); f.setHas( e, v ); F1[i] = v; if( f.text( e ) != before ) no( "side-effect", "a flag changes its attribute" ); } else f.change( e, r ); done = std::string( "attribute " ) + f.name; }
            }
            else if( k.change ) { std::string given, held; k.change( e, r, given, held ); done = "setValue"; app.count( "evaluations" ); app.count( "values" ); if( given != held ) no( "value", "given '" + given + "' it holds '" + held + "'" ); if( k.singles.empty() && k.colls.empty() ) app.seen( vf::hashStr( K + held ) ); }
            else continue;
            if( !getters() ) return;
            if( n % 4 == 3 || n + 1 == ops ) outputs();
        }
        if( whole( *other ) != otherText ) no( "shared", "another element of the class changed" );
        if( whole( *k.make() ) != fresh ) no( "shared", "a new element of the class is another than before" );
        app.sample( K + ": " + whole( *e ) );
    } );
}
