// What score data and documents say, compared in the vocabulary of MusicXML: written by the library and read by the library.
#include "meaning.h"
#include "meaning_docs.h"
#include "mx/api/DocumentManager.h"
#include <sstream>
using namespace mx::api;
static std::string where( size_t p, size_t m ) { return "part " + std::to_string( p ) + " measure " + std::to_string( m ); }
// the statements of one side that the other lacks, by their first word
static void differ( vf::App& app, const char* kind, const std::string& w, const mean::Facts& data, const mean::Facts& doc )
{
    mean::Facts a, b;
    std::set_difference( data.begin(), data.end(), doc.begin(), doc.end(), std::back_inserter( a ) );
    std::set_difference( doc.begin(), doc.end(), data.begin(), data.end(), std::back_inserter( b ) );
    app.count( "evaluations", (long long)std::max( data.size(), doc.size() ) );
    for( auto& x : data ) app.seen( vf::hashStr( x ) );
    if( a.empty() && b.empty() ) return;
    const std::string& first = a.empty() ? b[0] : a[0];
    std::string key = first; if( key[0] == '(' ) key = key.substr( key.find( ' ' ) + 1 );
    key = key.substr( 0, key.find_first_of( " [{@" ) );
    auto list = []( const mean::Facts& v ) { std::string o; for( auto& x : v ) { if( o.size() > 500 ) break; o += " <" + x + ">"; } return o.empty() ? std::string( " nothing" ) : o; };
    // a line one way up against the same line the other way up
    if( key == "octave-shift" && a.size() == b.size() )
    {
        auto flip = []( std::string x ) { auto i = x.find( "octave-shift down" ); if( i != std::string::npos ) return x.replace( i, 17, "octave-shift up" ); i = x.find( "octave-shift up" ); if( i != std::string::npos ) return x.replace( i, 15, "octave-shift down" ); return x; };
        mean::Facts c; for( auto& x : a ) c.push_back( flip( x ) );
        std::sort( c.begin(), c.end() );
        if( c == b ) { app.fail( "ottava-direction", w + ": data" + list( a ) + ", document" + list( b ) ); return; }
    }
    app.fail( std::string( kind ) + "-" + key, w + ": data" + list( a ) + ", document" + list( b ) );
}
struct Unit { std::map<std::string, mean::Facts> directions; };
static void addDirection( std::map<std::string, mean::Facts>& to, const std::string& at, const mean::Facts& f ) { auto& t = to[at]; t.insert( t.end(), f.begin(), f.end() ); }
static void compareDirections( vf::App& app, const std::string& w, const ScoreData& s, const MeasureData& md, const tl::Measure& dm )
{
    std::map<std::string, mean::Facts> a, b;
    auto spot = []( size_t staff, const tl::Q& q ) { return std::to_string( staff ) + "@" + q.s(); };
    for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& d : md.staves[st].directions )
    {
        mean::Facts f; mean::facts( d, f );
        if( !f.empty() ) addDirection( a, spot( st + 1, tl::Q( d.tickTimePosition, s.ticksPerQuarter ) ), f );
    }
    for( auto* v : { &dm.directions, &dm.harmonies } ) for( auto& e : *v )
    {
        mean::Facts f; mean::facts( *e.el, f );
        if( !f.empty() ) addDirection( b, spot( (size_t)e.staff, e.pos ), f );
    }
    for( auto& x : b ) a[x.first];
    for( auto& x : a ) { auto& y = b[x.first]; std::sort( x.second.begin(), x.second.end() ); std::sort( y.begin(), y.end() );
        auto split = []( mean::Facts& f ) { mean::Facts o; for( size_t i = 0; i < f.size(); ) if( f[i].find( "octave-shift " ) < 10 ) { o.push_back( f[i] ); f.erase( f.begin() + (long)i ); } else ++i; return o; };
        const auto o1 = split( x.second ), o2 = split( y );
        differ( app, "direction", w + " staff " + x.first, o1, o2 ); differ( app, "direction", w + " staff " + x.first, x.second, y );
    }
}
static const LayoutData* layoutAt( const ScoreData& s, size_t m ) { auto i = s.layout.find( (int)m ); return i == s.layout.end() ? nullptr : &i->second; }
// the unit which a tuplet counts is its length by the number of its normal notes; a note of another type in it says which unit it is
static void tupletUnits( vf::App& app, const ScoreData& s, const std::vector<NoteData>& v, std::vector<mean::Facts>& f )
{
    static const std::pair<const char*, tl::Q> types[] = { { "half", tl::Q( 2, 1 ) }, { "quarter", tl::Q( 1, 1 ) }, { "eighth", tl::Q( 1, 2 ) }, { "16th", tl::Q( 1, 4 ) }, { "32nd", tl::Q( 1, 8 ) } };
    for( size_t b = 0; b < v.size(); ++b )
    {
        if( v[b].noteAttachmentData.tupletStarts.size() != 1 ) continue;
        size_t e = b; while( e < v.size() && v[e].noteAttachmentData.tupletStops.empty() ) ++e;
        if( e == v.size() ) return;
        const tl::Q unit( v[e].tickTimePosition + v[e].durationData.durationTimeTicks - v[b].tickTimePosition, (long long)s.ticksPerQuarter * v[b].noteAttachmentData.tupletStarts[0].normalNumber );
        for( auto& t : types ) if( t.second.n == unit.n && t.second.d == unit.d ) for( size_t i = b; i <= e; ++i )
        {
            const auto& d = v[i].durationData;
            if( d.timeModificationActualNotes <= 0 || d.durationName == DurationName::unspecified || mean::word( d.durationName ) == t.first ) continue;
            app.count( "units-of-tuplets" ); f[i].push_back( std::string( "normal-type " ) + t.first + " 0" ); std::sort( f[i].begin(), f[i].end() );
        }
        b = e;
    }
}
// notes of a staff and voice in their order
static void compareWritten( vf::App& app, const ScoreData& s, const xg::El& root, const std::vector<tl::Part>& doc )
{
    auto a = mean::facts( s ), b = mean::scoreFacts( root );
    mean::squashSounds( a ); mean::squashSounds( b );
    differ( app, "score", "score", a, b );
    std::vector<const xg::El*> parts; for( auto& k : root.kids ) if( k.name == "part" ) parts.push_back( &k );
    if( doc.size() != s.parts.size() ) { app.fail( "part-count", std::to_string( s.parts.size() ) + " parts, written " + std::to_string( doc.size() ) ); return; }
    for( size_t p = 0; p < doc.size(); ++p )
    {
        if( doc[p].measures.size() != s.parts[p].measures.size() ) { app.fail( "measure-count", where( p, 0 ) ); continue; }
        std::vector<const xg::El*> ms; for( auto& k : parts[p]->kids ) if( k.name == "measure" ) ms.push_back( &k );
        for( size_t m = 0; m < doc[p].measures.size(); ++m )
        {
            const auto& md = s.parts[p].measures[m]; const auto& dm = doc[p].measures[m]; const std::string w = where( p, m );
            const bool time = !md.timeSignature.isImplicit;
            differ( app, "measure", w, mean::facts( md, (int)m, s.ticksPerQuarter, layoutAt( s, m ), m == 0, s.parts[p].transposition, time ), mean::facts( *ms[m], dm, true, m == 0, true ) );
            compareDirections( app, w, s, md, dm );
            std::map<std::pair<int, std::string>, std::vector<const tl::Note*>> got;
            for( auto& n : dm.notes ) got[{ n.staff, n.voice }].push_back( &n );
            for( size_t st = 0; st < md.staves.size(); ++st ) for( auto& v : md.staves[st].voices )
            {
                const auto& want = v.second.notes; if( want.empty() ) continue;
                const auto& g = got[{ (int)st + 1, std::to_string( v.first + 1 ) }];
                const std::string wv = w + " staff " + std::to_string( st ) + " voice " + std::to_string( v.first );
                if( g.size() != want.size() ) { app.fail( "note-count", wv + ": " + std::to_string( want.size() ) + " notes, written " + std::to_string( g.size() ) ); continue; }
                std::vector<mean::Facts> facts; for( auto& n : want ) facts.push_back( mean::facts( n ) );
                tupletUnits( app, s, want, facts );
                for( size_t i = 0; i < g.size(); ++i ) differ( app, "note", wv + " note " + std::to_string( i ), facts[i], mean::facts( *g[i]->el ) );
            }
        }
    }
}
// notes by their place on the page, which names each of them
static void compareRead( vf::App& app, const ScoreData& s, const xg::El& root, const std::vector<tl::Part>& doc )
{
    auto a = mean::facts( s ), b = mean::scoreFacts( root );
    mean::squashSounds( a ); mean::squashSounds( b );
    differ( app, "score", "score", a, b );
    std::map<std::string, size_t> index; for( size_t i = 0; i < s.parts.size(); ++i ) index[s.parts[i].uniqueId] = i;
    std::vector<const xg::El*> parts; for( auto& k : root.kids ) if( k.name == "part" ) parts.push_back( &k );
    if( doc.size() != s.parts.size() ) { app.fail( "part-count", std::to_string( doc.size() ) + " parts, read " + std::to_string( s.parts.size() ) ); return; }
    for( size_t p = 0; p < doc.size(); ++p )
    {
        if( !index.count( doc[p].id ) ) { app.fail( "part", "part " + doc[p].id + " is not there" ); continue; }
        const auto& part = s.parts[index[doc[p].id]];
        if( doc[p].measures.size() != part.measures.size() ) { app.fail( "measure-count", where( p, 0 ) ); continue; }
        std::vector<const xg::El*> ms; for( auto& k : parts[p]->kids ) if( k.name == "measure" ) ms.push_back( &k );
        bool noTime = true;
        for( size_t m = 0; m < part.measures.size(); ++m )
        {
            const auto& md = part.measures[m]; const auto& dm = doc[p].measures[m]; const std::string w = where( p, m );
            bool time = false; for( auto& e : ms[m]->kids ) if( e.name == "attributes" && tl::kid( e, "time" ) ) time = true;
            if( time ) noTime = false;
            if( md.timeSignature.isImplicit == time ) app.fail( "time-implicit", w + ": a time is " + ( time ? "there" : "not there" ) );
            (void)noTime;
            auto fd = mean::facts( md, (int)m, s.ticksPerQuarter, layoutAt( s, m ), m == 0, part.transposition, time ), fe = mean::facts( *ms[m], dm, true, m == 0, true );
            bool diatonic = true; for( auto& e : ms[m]->kids ) if( e.name == "attributes" ) if( auto* t = tl::kid( e, "transpose" ) ) diatonic = tl::kid( *t, "diatonic" );
            if( !diatonic ) for( auto* f : { &fd, &fe } ) for( auto& q : *f ) if( q.compare( 0, 10, "transpose " ) == 0 ) q.resize( q.find( ' ', 10 ) ); // the steps of the transposition are for the reader to guess
            differ( app, "measure", w, fd, fe );
            compareDirections( app, w, s, md, dm );
            std::map<std::string, const NoteData*> got;
            for( auto& st : md.staves ) for( auto& v : st.voices ) for( auto& n : v.second.notes ) if( n.positionData.isDefaultXSpecified ) got[mean::num( n.positionData.defaultX )] = &n;
            for( auto& n : dm.notes )
            {
                const std::string x = mean::numText( mean::attr( *n.el, "default-x" ) ), wn = w + " note " + x;
                auto i = got.find( x );
                if( i == got.end() ) { app.fail( "note-missing", wn ); continue; }
                auto d = mean::facts( *i->second ), e = mean::facts( *n.el );
                // a length whose type the document leaves out
                if( !tl::kid( *n.el, "type" ) ) d.erase( std::remove_if( d.begin(), d.end(), []( const std::string& q ) { return q.compare( 0, 5, "type " ) == 0; } ), d.end() );
                // a side of a tuplet that the document leaves out is based on the time modification of the note: its number, and its
                // normal type with its dots, or else the type of the note; where the document has none of them the reader may guess
                auto* mod = tl::kid( *n.el, "time-modification" );
                const auto* nt = mod ? tl::kid( *mod, "normal-type" ) : nullptr;
                auto given = [&]( const char* number ) -> std::string {
                    if( !mod ) return "*";
                    const std::string num = mean::kidNum( *mod, number );
                    if( nt ) return num + " " + mean::text( *nt ) + " " + std::to_string( mean::countKids( *mod, "normal-dot" ) );
                    if( !tl::kid( *n.el, "type" ) ) return num + " *";
                    return num + " " + mean::kidText( *n.el, "type" ) + ( tl::kid( *n.el, "dot" ) ? " *" : " 0" ); };
                auto sides = []( const std::string& q, std::string& l, std::string& r ) { const auto k = q.find( " : " ), b = q.find( '{' ); if( q.compare( 0, 13, "tuplet start " ) || k > b ) return false; l = q.substr( 13, k - 13 ); r = q.substr( k + 3, b - k - 3 ); return true; };
                auto fits = []( const std::string& pat, const std::string& x ) { return pat.empty() || pat.back() != '*' ? pat == x : x.compare( 0, pat.size() - 1, pat, 0, pat.size() - 1 ) == 0; };
                for( auto& q : e )
                {
                    std::string l, r; if( !sides( q, l, r ) || ( l != "-" && r != "-" ) ) continue;
                    app.count( "tuplet-sides-left-out" );
                    const std::string tail = q.substr( q.find( '{' ) ); if( l == "-" ) l = given( "actual-notes" ); if( r == "-" ) r = given( "normal-notes" );
                    q = "tuplet start " + l + " : " + r + tail;
                    for( auto& x : d ) { std::string dl, dr; if( sides( x, dl, dr ) && fits( l, dl ) && fits( r, dr ) && x.substr( x.find( '{' ) ) == tail && std::count( e.begin(), e.end(), x ) < std::count( d.begin(), d.end(), x ) ) { q = x; break; } }
                }
                std::sort( e.begin(), e.end() );
                // a finding: only a dotted type unlike that of the note is read
                for( size_t k = 0; k < e.size(); ) if( e[k].compare( 0, 12, "normal-type " ) == 0 && ( e[k].back() == '0' || e[k].substr( 12, e[k].rfind( ' ' ) - 12 ) == mean::kidText( *n.el, "type", "maxima" ) ) && std::none_of( d.begin(), d.end(), []( const std::string& q ) { return q.compare( 0, 12, "normal-type " ) == 0; } ) )
                    { app.fail( "normal-type-lost", wn + ": " + e[k] ); e.erase( e.begin() + (long)k ); } else ++k;
                std::sort( d.begin(), d.end() );
                differ( app, "note", wn, d, e );
            }
        }
    }
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    const std::string mode = app.opt["mode"];
    auto& mgr = DocumentManager::getInstance();
    std::unique_ptr<xio::Schema> schema; if( mode == "read" ) schema.reset( new xio::Schema( app.opt["schema"] + "/musicxml.xsd" ) );
    app.run( [&]( long c, vf::Rng& r ) {
        if( mode == "write" )
        {
            static const char* const areas[] = { "notes", "measures", "header", "all", "notes", "all" };
            gs::Knobs k = knobsFor( areas[c % 6], c / 6, r, app.thorough );
            gs::Gen g( r, k ); ScoreData in = g.make();
            app.stage( "create" );
            const int id = mgr.createFromScore( in );
            app.stage( "write" );
            std::ostringstream o; mgr.writeToStream( id, o ); mgr.destroyDocument( id );
            if( app.verbose ) fprintf( stderr, "%s\n", o.str().c_str() );
            app.stage( "compare" );
            xio::Doc d( o.str() ); if( !d.d ) { app.fail( "malformed", d.error ); return; }
            const auto tree = d.tree();
            tl::Reader rd; const auto parts = rd.read( tree );
            compareWritten( app, in, tree, parts );
            app.count( "documents" );
            app.sample( std::to_string( in.parts.size() ) + " parts of " + std::to_string( in.parts[0].measures.size() ) + " measures, " + std::to_string( o.str().size() ) + " bytes" );
            return;
        }
        MeaningDocs g{ r }; const std::string s = g.make();
        if( app.verbose ) fprintf( stderr, "%s\n", s.c_str() );
        xio::Doc d( s ); if( !d.d ) { fprintf( stderr, "vf: harness error: malformed generated document: %s\n", d.error.c_str() ); exit( 3 ); }
        if( !schema->valid( d ) ) { fprintf( stderr, "vf: harness error: invalid generated document: %s\n", schema->first.c_str() ); exit( 3 ); }
        const auto tree = d.tree();
        tl::Reader rd; const auto parts = rd.read( tree );
        app.stage( "load" );
        ScoreData out; std::istringstream i( s ); int id = 0;
        try { id = mgr.createFromStream( i ); } catch( const std::exception& e ) { app.fail( "refused", e.what() ); return; }
        app.stage( "query" );
        try { out = mgr.getData( id ); } catch( const std::exception& e ) { app.fail( "query", e.what() ); mgr.destroyDocument( id ); return; }
        mgr.destroyDocument( id );
        app.stage( "compare" );
        compareRead( app, out, tree, parts );
        app.count( "documents" );
        app.sample( std::to_string( out.parts.size() ) + " parts of " + std::to_string( out.parts[0].measures.size() ) + " measures, " + std::to_string( s.size() ) + " bytes" );
    } );
}
