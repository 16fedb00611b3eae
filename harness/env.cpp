// The process environment must not matter (C21): every case runs the same calls in two fresh processes, one as it starts
// and one with hostile locales, another directory and streams full of formatting state, and compares what came out.
#include "gen_score.h"
#include "canon.h"
#include "reflect.h"
#include "xsdgen.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include <fstream>
#include <iostream>
#include <iomanip>
#include <locale>
#include <sstream>
#include <clocale>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mx::api;
static DocumentManager& mgr() { return DocumentManager::getInstance(); }
struct Source { bool isScore = false; ScoreData score; std::string xml; };

struct Punct : std::numpunct<char>
{
    char point, sep; std::string group, yes, no;
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return group; }
    std::string do_truename() const override { return yes; }
    std::string do_falsename() const override { return no; }
};
// ctype takes its table when it is made
struct SpaceTable { std::vector<std::ctype_base::mask> t; explicit SpaceTable( const char* extra ) { t.assign( std::ctype<char>::classic_table(), std::ctype<char>::classic_table() + std::ctype<char>::table_size ); for( ; *extra; ++extra ) t[(unsigned char)*extra] |= std::ctype_base::space; } };

struct Env
{
    std::locale global, stream; std::string cLocale; std::ios_base::fmtflags flags{}; int precision = 6, width = 0; char fill = ' '; bool chdir = false, numericOnly = false, cFirst = false; std::string text;
};

static std::string fmtState( const std::ios& s )
{
    return "flags " + std::to_string( (long)s.flags() ) + " precision " + std::to_string( (long)s.precision() ) + " width " + std::to_string( (long)s.width() ) + " fill " + std::to_string( (int)s.fill() ) + " exceptions " + std::to_string( (int)s.exceptions() );
}
struct Outcome { std::vector<std::pair<std::string, std::string>> v; void put( const std::string& k, const std::string& x ) { v.emplace_back( k, x ); } };
static std::string slurp( const std::string& p ) { std::string o; if( FILE* f = fopen( p.c_str(), "rb" ) ) { char b[1 << 14]; size_t n; while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) o.append( b, n ); fclose( f ); } return o; }

// what the calls give; env == nullptr: the environment as the process found it
static void session( const std::vector<Source>& src, const Env* env, const std::string& dir, Outcome& out, std::vector<std::string>& broken )
{
    std::vector<ScoreData> kept; std::vector<std::string> keptName; // made into text when the classic locale is back
    std::locale before; std::string cBefore, cwd; std::string glob[3];
    if( env )
    {
        if( env->cFirst && !env->cLocale.empty() ) setlocale( env->numericOnly ? LC_NUMERIC : LC_ALL, env->cLocale.c_str() );
        std::locale::global( env->global );
        if( !env->cFirst && !env->cLocale.empty() ) setlocale( env->numericOnly ? LC_NUMERIC : LC_ALL, env->cLocale.c_str() );
        for( std::ios* s : { (std::ios*)&std::cout, (std::ios*)&std::cerr, (std::ios*)&std::clog } ) { s->flags( env->flags ); s->precision( env->precision ); s->fill( env->fill ); s->imbue( env->stream ); }
    }
    auto state = [&]
    {
        char b[4096]; std::string s = std::string( "C locale " ) + setlocale( LC_ALL, nullptr ) + ", directory " + ( getcwd( b, sizeof b ) ? b : "?" );
        for( std::ios* o : { (std::ios*)&std::cout, (std::ios*)&std::cerr, (std::ios*)&std::clog } ) { s += ", standard stream " + fmtState( *o ); if( env && o->getloc() != env->stream ) s += " another locale"; }
        if( env && std::locale() != env->global ) s += ", another global locale";
        return s;
    };
    if( chdir( dir.c_str() ) ) {}
    if( env && env->chdir ) { mkdir( "sub", 0700 ); if( chdir( "sub" ) ) {} }
    const std::string s0 = state();
    auto check = [&]( const std::string& what ) { const auto s1 = state(); if( s1 != s0 && broken.size() < 4 ) broken.push_back( what + "\x1f" + s1 + " instead of " + s0 ); };
    auto dress = [&]( std::ios& s ) { if( !env ) return; s.imbue( env->stream ); s.flags( env->flags ); s.precision( env->precision ); s.width( env->width ); s.fill( env->fill ); };
    auto stream = [&]( const std::string& what, const std::ios& s, const std::string& was ) { if( ( fmtState( s ) != was || ( env && s.getloc() != env->stream ) ) && broken.size() < 4 ) broken.push_back( what + "-stream\x1f" + fmtState( s ) + " instead of " + was ); };
    auto query = [&]( int id, const std::string& n )
    {
        try { kept.push_back( mgr().getData( id ) ); keptName.push_back( n + "data" ); } catch( const std::exception& ) { out.put( n + "data", "refused" ); }
        check( "getData" );
        { std::ostringstream o; dress( o ); const auto f = fmtState( o ); std::string t; try { mgr().writeToStream( id, o ); t = o.str(); } catch( const std::exception& ) { t = "refused"; } out.put( n + "bytes", t ); stream( "writeToStream", o, f ); check( "writeToStream" ); }
        { const std::string f = "env-out.xml"; std::string t; try { mgr().writeToFile( id, f ); t = slurp( f ); } catch( const std::exception& ) { t = "refused"; } unlink( f.c_str() ); out.put( n + "file", t ); check( "writeToFile" ); }
    };
    for( size_t i = 0; i < src.size(); ++i )
    {
        const std::string n = std::to_string( i ) + ":"; int id = -1;
        try
        {
            if( src[i].isScore ) { id = mgr().createFromScore( src[i].score ); check( "createFromScore" ); }
            else { std::istringstream in( src[i].xml ); dress( in ); const auto f = fmtState( in ); try { id = mgr().createFromStream( in ); } catch( const std::exception& ) { stream( "createFromStream", in, f ); check( "createFromStream" ); throw; } stream( "createFromStream", in, f ); check( "createFromStream" ); }
        }
        catch( const std::exception& ) { out.put( n + "create", "refused" ); continue; }
        query( id, n );
        if( auto d = mgr().getDocument( id ) ) { try { d->convertContents(); out.put( n + "converted", "" ); } catch( const std::exception& ) { out.put( n + "converted", "refused" ); } check( "convert" ); std::ostringstream o; try { mgr().writeToStream( id, o ); } catch( const std::exception& ) {} out.put( n + "converted-bytes", o.str() ); }
        // and through a file named relative to the directory
        { std::string t; for( auto& k : out.v ) if( k.first == n + "bytes" ) t = k.second; if( FILE* f = fopen( "env-in.xml", "wb" ) ) { fwrite( t.data(), 1, t.size(), f ); fclose( f ); }
          try { const int k = mgr().createFromFile( "env-in.xml" ); check( "createFromFile" ); query( k, n + "again-" ); mgr().destroyDocument( k ); } catch( const std::exception& ) { out.put( n + "again", "refused" ); check( "createFromFile" ); }
          unlink( "env-in.xml" ); }
        mgr().destroyDocument( id ); check( "destroyDocument" );
        try { mgr().createFromFile( "not-there.xml" ); } catch( const std::exception& ) {} check( "createFromFile-missing" );
    }
    std::locale::global( std::locale::classic() ); setlocale( LC_ALL, "C" );
    for( size_t i = 0; i < kept.size(); ++i ) out.put( keptName[i], rf::text( kept[i] ) );
    std::sort( out.v.begin(), out.v.end() );
}
static void putStr( std::string& o, const std::string& s ) { const uint64_t n = s.size(); o.append( (const char*)&n, 8 ); o += s; }
static bool getStr( const std::string& o, size_t& at, std::string& s ) { uint64_t n; if( at + 8 > o.size() ) return false; memcpy( &n, &o[at], 8 ); at += 8; if( at + n > o.size() ) return false; s = o.substr( at, n ); at += n; return true; }

int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    std::vector<std::string> names; // locales of the system made for this check
    if( app.opt.count( "locales" ) ) { setenv( "LOCPATH", app.opt["locales"].c_str(), 1 ); if( DIR* d = opendir( app.opt["locales"].c_str() ) ) { while( dirent* e = readdir( d ) ) if( e->d_name[0] != '.' ) names.push_back( e->d_name ); closedir( d ); } }
    std::sort( names.begin(), names.end() );
    app.count( "system-locales", (long)names.size() );
    auto make = [&]( vf::Rng& r ) {
        Source s; s.isScore = r.chance( 1, 2 );
        if( s.isScore ) { gs::Knobs kn = knobsFor( r.flip() ? "all" : r.flip() ? "notes" : "measures", (long)r.below( 100 ), r, false ); kn.maxParts = 2; kn.maxMeasures = 3; kn.wildText = false; gs::Gen g( r, kn ); s.score = g.make(); if( r.chance( 1, 4 ) ) s.score.musicXmlType = "timewise"; if( r.flip() ) s.score.ticksPerQuarter = (int)r.range( 1000, 20000 ); }
        else { xg::Gen g( x, r ); g.budget = r.range( 30, 300 ); g.attrPct = r.range( 0, 90 ); g.manyPct = r.range( 5, 50 ); g.maxMeasures = 3; auto e = g.doc( r.chance( 2, 5 ) ); tame( x, e ); if( r.chance( 1, 3 ) ) { int left = r.range( 1, 10 ); damage( r, e, left ); } s.xml = xg::xml( e, 1, r.flip() ); }
        return s; };
    static const char points[] = ",.;' _:"; static const char seps[] = ".,' _-:";
    static const std::string groups[] = { std::string( "\3" ), std::string( "\1" ), std::string( "\2" ), std::string( "\3\2" ), std::string( "\1\2\3" ), std::string( "" ) };
    app.run( [&]( long, vf::Rng& r ) {
        std::vector<Source> src; for( int i = r.range( 3, 6 ); i > 0; --i ) src.push_back( make( r ) );
        Env env; Punct* p = nullptr;
        auto locale = [&]( std::string& text ) {
            const int kind = (int)r.below( names.empty() ? 3 : 5 );
            if( kind >= 3 ) { const auto& n = r.pick( names ); try { text += " " + n; return std::locale( n.c_str() ); } catch( const std::exception& ) { text += "(not usable)"; app.count( "unusable-locale" ); return std::locale::classic(); } }
            if( kind == 2 && r.chance( 1, 4 ) ) { text += " classic"; return std::locale::classic(); }
            p = new Punct; p->point = points[r.below( sizeof points - 1 )]; do p->sep = seps[r.below( sizeof seps - 1 )]; while( p->sep == p->point ); p->group = groups[r.below( 6 )]; p->yes = r.flip() ? "oui" : "1,0"; p->no = "non";
            text += std::string( " point " ) + p->point + " separator " + p->sep + " groups of " + ( p->group.empty() ? std::string( "none" ) : std::to_string( (int)p->group[0] ) );
            std::locale l( std::locale::classic(), p );
            if( r.chance( 1, 3 ) ) { static const SpaceTable commas( ",." ), signs( "-+#" ); text += " with other spaces"; l = std::locale( l, new std::ctype<char>( r.flip() ? commas.t.data() : signs.t.data() ) ); }
            return l; };
        env.text = "global locale"; env.global = locale( env.text ); env.text += ", stream locale"; env.stream = locale( env.text );
        if( !names.empty() && r.chance( 2, 3 ) ) { env.cLocale = r.pick( names ); env.text += ", C locale " + env.cLocale; }
        env.numericOnly = r.flip(); env.cFirst = r.flip(); env.chdir = r.flip();
        static const std::ios_base::fmtflags fl[] = { std::ios::hex, std::ios::oct, std::ios::showbase, std::ios::showpoint, std::ios::showpos, std::ios::uppercase, std::ios::boolalpha, std::ios::fixed, std::ios::scientific, std::ios::left, std::ios::internal, std::ios::skipws, std::ios::unitbuf };
        for( auto f : fl ) if( r.chance( 1, 3 ) ) env.flags |= f;
        env.precision = r.range( 0, 20 ); env.width = r.flip() ? r.range( 0, 40 ) : 0; env.fill = r.flip() ? ' ' : '*';
        const std::string outPath[2] = { app.tmp + "/env-a", app.tmp + "/env-b" };
        std::vector<std::pair<std::string, std::string>> got[2]; bool usable = true;
        for( int side = 0; side < 2; ++side )
        {
            app.stage( side ? "hostile environment" : "plain environment" );
            unlink( outPath[side].c_str() ); fflush( stdout );
            const pid_t pid = fork();
            if( pid < 0 ) { fprintf( stderr, "vf: harness error: fork\n" ); exit( 3 ); }
            if( pid == 0 )
            {
                // what a failing assertion or a stray message would say goes to the error output as before
                Outcome o; std::vector<std::string> broken;
                try { session( src, side ? &env : nullptr, app.tmp, o, broken ); } catch( const std::exception& e ) { o.put( "session", e.what() ); } catch( ... ) { o.put( "session", "a thing that is no exception" ); }
                std::string t; for( auto& b : broken ) { putStr( t, "!" ); putStr( t, b ); } for( auto& k : o.v ) { putStr( t, k.first ); putStr( t, k.second ); } putStr( t, "end" ); putStr( t, "" );
                int fd = open( outPath[side].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); size_t w = 0; while( w < t.size() ) { ssize_t k = write( fd, t.data() + w, t.size() - w ); if( k <= 0 ) break; w += (size_t)k; } close( fd );
                _exit( 0 );
            }
            int st = 0; waitpid( pid, &st, 0 );
            if( !WIFEXITED( st ) || WEXITSTATUS( st ) ) { app.fail( "crash", std::string( side ? "hostile" : "plain" ) + " environment: the process ended with status " + std::to_string( st ) + ", " + env.text ); usable = false; break; }
            const std::string t = slurp( outPath[side] ); size_t at = 0; std::string k, v; bool end = false;
            while( getStr( t, at, k ) && getStr( t, at, v ) ) { if( k == "end" ) { end = true; break; } if( k == "!" ) { const auto b = v.find( '\x1f' ); app.fail( v.substr( 0, b ) + "-state", "the call changed the environment: " + v.substr( b + 1 ) + " (" + env.text + ")" ); continue; } got[side].emplace_back( k, v ); }
            unlink( outPath[side].c_str() );
            if( !end ) { fprintf( stderr, "vf: harness error: results of a process are incomplete\n" ); exit( 3 ); }
        }
        if( chdir( app.tmp.c_str() ) == 0 ) rmdir( "sub" );
        if( !usable ) return;
        app.stage( "compare" );
        if( got[0].size() != got[1].size() ) app.fail( "outcome", "the calls of one environment succeed and those of the other fail: " + std::to_string( got[0].size() ) + " and " + std::to_string( got[1].size() ) + " results, " + env.text );
        for( size_t i = 0; i < got[0].size() && i < got[1].size(); ++i )
        {
            app.count( "evaluations" ); app.seen( vf::hashStr( env.text, vf::hashStr( got[0][i].second ) ) );
            const auto& a = got[0][i]; const auto& b = got[1][i];
            const std::string what = a.first.substr( a.first.find( ':' ) + 1 ); app.count( what.find( "data" ) != std::string::npos ? "score-data" : "outputs" );
            if( a.first != b.first ) { app.fail( "outcome", a.first + " and " + b.first ); break; }
            if( a.second == b.second ) continue;
            size_t at = 0; while( at < a.second.size() && at < b.second.size() && a.second[at] == b.second[at] ) ++at; const size_t f = at > 60 ? at - 60 : 0;
            app.fail( what, a.first + " is '" + a.second.substr( f, 120 ) + "' and becomes '" + b.second.substr( f, 120 ) + "' with " + env.text );
        }
        app.sample( env.text + ", " + std::to_string( src.size() ) + " documents, " + std::to_string( got[0].size() ) + " results compared" );
    } );
}
