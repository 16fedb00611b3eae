// Threads on the shared document manager (C11). Every case is a fresh process; each call is recorded with the times of its
// call and return, and the history of every id is checked against: absent, then live with its content, then absent for ever.
#include "gen_score.h"
#include "canon.h"
#include "xsdgen.h"
#include "docgen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteAttributes.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/Pitch.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/Type.h"
#include "mx/core/elements/Accidental.h"
#include "mx/core/elements/Stem.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/Notehead.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/Instrument.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/TimeModification.h"
#include "mx/core/elements/MeasureAttributes.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/Harmony.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/FiguredBass.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/TimewisePart.h"
#include <atomic>
#include <fstream>
#include <pthread.h>
#include <sched.h>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
using namespace mx::api;

// ---- injected delays around every lock the library takes
static thread_local uint64_t delayState = 0;
static std::atomic<int> delayLevel{ 0 };
static std::atomic<long> locks{ 0 }, waits{ 0 };
static void maybeDelay()
{
    const int l = delayLevel.load( std::memory_order_relaxed );
    if( l == 0 || delayState == 0 ) return;
    delayState = delayState * 6364136223846793005ull + 1442695040888963407ull;
    const unsigned k = (unsigned)( delayState >> 33 ) % 64;
    if( k < (unsigned)l ) sched_yield();
    else if( k == 63 ) { timespec t{ 0, (long)( delayState >> 40 ) % 60000 }; nanosleep( &t, nullptr ); }
}
extern "C" int __real_pthread_mutex_lock( pthread_mutex_t* );
extern "C" int __real_pthread_mutex_unlock( pthread_mutex_t* );
extern "C" int __wrap_pthread_mutex_lock( pthread_mutex_t* m ) { maybeDelay(); locks.fetch_add( 1, std::memory_order_relaxed ); const int k = __real_pthread_mutex_lock( m ); maybeDelay(); return k; }
extern "C" int __wrap_pthread_mutex_unlock( pthread_mutex_t* m ) { const int k = __real_pthread_mutex_unlock( m ); maybeDelay(); return k; }

enum Op { CREATE, DATA, WRITE, FILE_, DOC, DESTROY, UNIQUE, OPS };
static const char* const opName[] = { "create", "getData", "writeToStream", "writeToFile", "getDocument", "destroy", "getUniqueId" };
struct Event { int op = 0, thread = 0, id = 0, content = -1; long inv = 0, ret = 0; uint64_t hash = 0; bool empty = false, threw = false, other = false; };
struct Content { bool isScore = false; ScoreData score; std::string xml; uint64_t data = 0, bytes = 0, tree = 0; };
static std::atomic<long> tick{ 1 };
static long now() { asm volatile( "" ::: "memory" ); const long t = tick.fetch_add( 1, std::memory_order_relaxed ); asm volatile( "" ::: "memory" ); return t; }
static DocumentManager& mgr() { return DocumentManager::getInstance(); }
static uint64_t treeHash( const mx::core::DocumentPtr& d )
{
    std::ostringstream o;
    if( d->getChoice() == mx::core::DocumentChoice::partwise ) d->getScorePartwise()->toStream( o, 0 ); else d->getScoreTimewise()->toStream( o, 0 );
    return vf::hashStr( o.str() );
}
// a client that looks at everything there is below the measures, also at what is not there yet
static size_t look( const mx::core::MusicDataGroupPtr& g )
{
    size_t n = 0; auto some = [&]( const auto& p ) { if( p ) ++n; };
    for( auto& c : g->getMusicDataChoiceSet() )
    {
        some( c->getBackup() ); some( c->getForward() ); some( c->getDirection() ); some( c->getHarmony() ); some( c->getPrint() ); some( c->getSound() ); some( c->getBarline() ); some( c->getBookmark() ); some( c->getLink() ); some( c->getGrouping() ); some( c->getFiguredBass() ); some( c->getProperties() );
        auto t = c->getNote();
        some( t->getAttributes() ); some( t->getInstrument() ); some( t->getEditorialVoiceGroup() ); some( t->getType() ); some( t->getAccidental() ); some( t->getTimeModification() ); some( t->getStem() ); some( t->getNotehead() ); some( t->getNoteheadText() ); some( t->getStaff() ); some( t->getPlay() );
        auto k = t->getNoteChoice(); auto f = k->getNormalNoteGroup()->getFullNoteGroup(); some( f->getChord() ); auto y = f->getFullNoteTypeChoice(); some( y->getPitch() ); some( y->getRest() ); some( y->getUnpitched() ); some( k->getCueNoteGroup() ); some( k->getGraceNoteGroup() );
    }
    return n;
}
static size_t look( const mx::core::DocumentPtr& d )
{
    size_t n = 0;
    if( d->getChoice() == mx::core::DocumentChoice::partwise ) { for( auto& p : d->getScorePartwise()->getPartwisePartSet() ) for( auto& m : p->getPartwiseMeasureSet() ) { if( m->getAttributes() ) ++n; n += look( m->getMusicDataGroup() ); } }
    else for( auto& m : d->getScoreTimewise()->getTimewiseMeasureSet() ) for( auto& p : m->getTimewisePartSet() ) n += look( p->getMusicDataGroup() );
    return n;
}
static std::string slurp( const std::string& f ) { std::ifstream i( f, std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// ---- one case, in a process of its own
static void child( vf::App& app, const xg::Xsd& x, long c, vf::Rng& r )
{
    std::vector<Content> contents( 5 );
    for( size_t i = 0; i < contents.size(); ++i )
    {
        Content& k = contents[i];
        if( i < 3 )
        {
            gs::Knobs kn = knobsFor( r.flip() ? "all" : r.flip() ? "notes" : "measures", (long)r.below( 8 ), r, false ); kn.maxParts = 2; kn.maxMeasures = 2; kn.maxEvents = 4; kn.maxStaves = 2;
            gs::Gen g( r, kn ); k.score = g.make(); k.isScore = true; if( i == 2 ) k.score.musicXmlType = "timewise";
        }
        else
        {
            xg::Gen g( x, r ); g.budget = 60; g.attrPct = 30; g.manyPct = 20; g.maxMeasures = 2; auto e = g.doc( i == 4 ); tame( x, e ); k.xml = xg::xml( e, 1, true );
        }
    }
    const int threads = r.range( 2, 8 ), ops = app.thorough ? r.range( 10, 60 ) : r.range( 8, 30 ), slots = r.range( 1, 5 );
    delayLevel = (int)r.below( 4 ) * 12;
    const bool shareOnly = r.chance( 1, 4 ); // every thread reads the same few documents
    std::vector<std::atomic<int>> slot( (size_t)slots ); for( auto& s : slot ) s = 0;
    std::vector<std::vector<Event>> logs( (size_t)threads );
    std::atomic<int> ready{ 0 };
    std::vector<uint64_t> seeds; for( int t = 0; t < threads; ++t ) seeds.push_back( r.next() );
    auto body = [&]( int t ) {
        vf::Rng q( seeds[(size_t)t] ); auto& log = logs[(size_t)t]; log.reserve( (size_t)ops + 4 );
        delayState = q.next() | 1;
        const std::string path = app.tmp + "/conc" + std::to_string( getpid() ) + "." + std::to_string( t ) + ".xml";
        ready.fetch_add( 1, std::memory_order_relaxed ); while( ready.load( std::memory_order_relaxed ) < threads ) {}
        int lastOwn = 0;
        for( int n = 0; n < ops; ++n )
        {
            Event e; e.thread = t;
            auto& s = slot[q.below( slot.size() )];
            int id = s.load( std::memory_order_relaxed );
            if( q.chance( 1, 12 ) ) id = (int)q.below( 40 ); // an id nobody told this thread about
            if( q.chance( 1, 12 ) && lastOwn ) id = lastOwn;
            int w = (int)q.below( 20 );
            if( n == 0 ) w = 0;
            if( shareOnly && n > 2 ) w = 4 + (int)q.below( 11 );
            e.op = w < 4 ? CREATE : w < 7 ? DATA : w < 10 ? WRITE : w < 11 ? FILE_ : w < 15 ? DOC : w < 18 ? DESTROY : UNIQUE;
            e.id = id;
            try
            {
                switch( e.op )
                {
                    case CREATE: {
                        e.content = (int)q.below( contents.size() ); const Content& k = contents[(size_t)e.content];
                        if( k.isScore ) { e.inv = now(); e.id = mgr().createFromScore( k.score ); e.ret = now(); }
                        else if( q.flip() ) { std::istringstream i( k.xml ); e.inv = now(); e.id = mgr().createFromStream( i ); e.ret = now(); }
                        else { { std::ofstream f( path, std::ios::binary ); f << k.xml; } e.inv = now(); e.id = mgr().createFromFile( path ); e.ret = now(); }
                        lastOwn = e.id; s.store( e.id, std::memory_order_relaxed ); break; }
                    case DATA: { e.inv = now(); ScoreData d = mgr().getData( id ); e.ret = now(); e.empty = d == ScoreData{}; e.hash = rf::hashOf( d ); break; }
                    case WRITE: { std::ostringstream o; e.inv = now(); mgr().writeToStream( id, o ); e.ret = now(); e.empty = o.str().empty(); e.hash = vf::hashStr( o.str() ); break; }
                    case FILE_: { unlink( path.c_str() ); e.inv = now(); mgr().writeToFile( id, path ); e.ret = now(); const std::string b = slurp( path ); e.empty = b.empty(); e.hash = vf::hashStr( b ); break; }
                    case DOC: { e.inv = now(); auto d = mgr().getDocument( id ); e.ret = now(); e.empty = !d; if( d ) { if( q.flip() ) { const size_t n = look( d ); if( look( d ) != n ) e.other = true; } e.hash = treeHash( d ); if( q.flip() && treeHash( d ) != e.hash ) e.other = true; } break; }
                    case DESTROY: { e.inv = now(); mgr().destroyDocument( id ); e.ret = now(); break; }
                    default: { e.inv = now(); e.id = mgr().getUniqueId(); e.ret = now(); }
                }
            }
            catch( const std::exception& ) { e.threw = true; if( !e.ret ) e.ret = now(); }
            log.push_back( e );
        }
        unlink( path.c_str() );
    };
    { std::vector<std::thread> v; for( int t = 0; t < threads; ++t ) v.emplace_back( body, t ); for( auto& t : v ) t.join(); }
    delayLevel = 0;
    // what each content gives when nothing else runs
    std::vector<Event> all; for( auto& l : logs ) all.insert( all.end(), l.begin(), l.end() );
    std::set<int> docIds, uniques; std::map<int, std::vector<const Event*>> byId;
    for( auto& k : contents )
    {
        int id = 0; if( k.isScore ) id = mgr().createFromScore( k.score ); else { std::istringstream i( k.xml ); id = mgr().createFromStream( i ); }
        if( !docIds.insert( id ).second ) app.fail( "id:twice", "a document id is given twice" );
        std::ostringstream o; mgr().writeToStream( id, o ); k.bytes = vf::hashStr( o.str() ); k.tree = treeHash( mgr().getDocument( id ) );
        try { k.data = rf::hashOf( mgr().getData( id ) ); } catch( const std::exception& ) { k.data = 0; }
        mgr().destroyDocument( id );
    }
    for( auto& e : all )
    {
        if( e.threw && !( e.op == DATA ) ) { app.fail( std::string( "throws:" ) + opName[e.op], "a call that succeeds alone fails among threads" ); continue; }
        if( e.op == CREATE && !docIds.insert( e.id ).second ) app.fail( "id:twice", "a document id is given twice" );
        if( e.op == UNIQUE ) { if( !uniques.insert( e.id ).second ) app.fail( "unique:twice", "a unique id is given twice" ); }
        else byId[e.id].push_back( &e );
    }
    // a later call of getUniqueId gives a larger number
    for( auto& a : all ) if( a.op == UNIQUE ) for( auto& b : all ) if( b.op == UNIQUE && a.ret < b.inv ) { app.count( "evaluations" ); if( a.id >= b.id ) app.fail( "unique:order", "a unique id is smaller than one given before" ); }
    long overlapping = 0;
    for( auto& i : byId )
    {
        auto& ev = i.second; const Event* cr = nullptr; for( auto* e : ev ) if( e->op == CREATE ) cr = e;
        for( size_t a = 0; a < ev.size(); ++a ) for( size_t b = a + 1; b < ev.size(); ++b ) if( ev[a]->inv < ev[b]->ret && ev[b]->inv < ev[a]->ret ) ++overlapping;
        std::string h; for( auto* e : ev ) h += std::string( opName[e->op] ) + ( e->op == CREATE ? "" : e->op == DESTROY ? "" : e->empty ? "=empty" : "=content" ) + "[t" + std::to_string( e->thread ) + " " + std::to_string( e->inv ) + "-" + std::to_string( e->ret ) + "] ";
        bool good = true;
        for( auto* e : ev ) if( ( e->op == DATA || e->op == WRITE || e->op == FILE_ || e->op == DOC ) )
        {
            app.count( "evaluations" );
            if( e->other ) app.fail( "content:tree-again", "reading the tree of a document twice differs" );
            if( e->empty ) continue;
            if( !cr ) { app.fail( std::string( "content:unknown-id:" ) + opName[e->op], "an id that was not given out has content: " + h ); good = false; continue; }
            const Content& k = contents[(size_t)cr->content];
            const uint64_t want = e->op == DATA ? k.data : e->op == DOC ? k.tree : k.bytes;
            if( e->threw ? want != 0 : e->hash != want ) { app.fail( std::string( "content:" ) + opName[e->op], "an id does not give the content it was created with: " + h ); }
        }
        if( !cr || !good ) continue;
        // places for the moments of creation and of the effective destruction
        std::set<long> at; for( auto* e : ev ) { at.insert( e->inv ); at.insert( e->ret ); } // a moment t stands for just after t
        bool ok = false;
        for( long cT : at )
        {
            if( ok || cT < cr->inv || cT >= cr->ret ) continue;
            std::vector<long> ends( at.begin(), at.end() ); ends.push_back( 1L << 60 );
            for( long dT : ends )
            {
                if( dT < cT ) continue;
                const bool forever = dT == 1L << 60; bool fits = true, taken = forever;
                for( auto* e : ev )
                {
                    const bool before = e->inv <= cT, after = !forever && e->ret > dT;
                    if( e->op == CREATE ) continue;
                    if( e->op == DESTROY ) { if( !forever && !taken && e->inv <= dT && dT < e->ret ) { taken = true; continue; } if( !before && !after ) fits = false; }
                    else if( e->empty ) { if( !before && !after ) fits = false; }
                    else if( !( e->ret > cT && e->inv <= dT ) ) fits = false;
                }
                // a destroy that could be either the effective one or an idle one is idle in at least one of the tries
                if( fits && taken ) { ok = true; break; }
            }
        }
        app.count( "ids-checked" ); app.count( "evaluations" );
        if( !ok ) app.fail( "history", "no order of the calls on one id explains what they gave: " + h );
    }
    std::sort( all.begin(), all.end(), []( const Event& a, const Event& b ) { return a.ret < b.ret; } );
    uint64_t h = 7; for( auto& e : all ) { h = h * 1000003 + (uint64_t)( e.thread * 16 + e.op ); app.count( std::string( opName[e.op] ) + ( e.op == CREATE || e.op == DESTROY || e.op == UNIQUE ? "" : e.empty ? "-empty" : "-content" ) ); }
    app.seen( h ); app.count( "events", (long long)all.size() ); app.count( "overlapping-pairs", overlapping ); app.count( "locks-taken", locks ); app.count( "threads", threads );
    if( c % 16 == 0 ) { std::string s; for( size_t i = 0; i < all.size() && i < 25; ++i ) s += "t" + std::to_string( all[i].thread ) + " " + opName[all[i].op] + "(" + std::to_string( all[i].id ) + ") "; app.sample( std::to_string( threads ) + " threads: " + s ); }
}
// what a race report is about: its kind and the innermost functions of the library
static std::string raceKey( const std::string& rep )
{
    size_t p = rep.find( "ThreadSanitizer:" ); std::string kind = rep.substr( p + 17, rep.find_first_of( "(\n", p ) - p - 17 ), key; int n = 0;
    while( !kind.empty() && kind.back() == ' ' ) kind.pop_back();
    std::istringstream is( rep ); for( std::string l; n < 2 && std::getline( is, l ); )
    {
        size_t h = l.find( '#' ), f = l.find( "/Sourcecode/" ); if( h == std::string::npos || f == std::string::npos ) continue;
        size_t a = l.find( ' ', h ) + 1, b = l.find_first_of( "( ", a ); std::string fn = l.substr( a, b - a );
        if( fn.empty() || key.find( fn ) != std::string::npos ) continue;
        key += ( n++ ? "<" : "" ) + fn;
    }
    for( auto& c : kind ) if( c == ' ' ) c = '_';
    return "tsan:" + kind + "@" + ( key.empty() ? "?" : key );
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    xg::Xsd x( app.opt["schema"] + "/musicxml.tab" );
    const int wall = app.opt.count( "wall" ) ? atoi( app.opt["wall"].c_str() ) : 100;
    app.run( [&]( long c, vf::Rng& r ) {
        const std::string err = app.tmp + "/err" + std::to_string( getpid() );
        fflush( stdout ); fflush( stderr );
        const pid_t p = fork();
        if( p < 0 ) { fprintf( stderr, "vf: harness error: fork\n" ); exit( 3 ); }
        if( p == 0 )
        {
            const int fd = open( err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); if( fd >= 0 ) { dup2( fd, 2 ); close( fd ); }
            signal( SIGPROF, SIG_IGN );
            app.stats.clear(); app.distinct.clear(); app.violations = 0;
            child( app, x, c, r );
            app.dumpStats(); fflush( stdout ); fflush( stderr );
            exit( 0 );
        }
        int st = 0; bool hung = true;
        for( int i = 0; i < wall * 200; ++i ) { const pid_t k = waitpid( p, &st, WNOHANG ); if( k == p ) { hung = false; break; } usleep( 5000 ); }
        if( hung ) { kill( p, SIGKILL ); waitpid( p, &st, 0 ); app.fail( "hang", "the threads do not come to an end (a lock is never given back?)" ); }
        const std::string text = slurp( err ); unlink( err.c_str() );
        if( !hung && text.find( "vf: harness error" ) != std::string::npos ) { fprintf( stderr, "%s", text.c_str() ); exit( 3 ); }
        std::set<std::string> keys; long reports = 0;
        for( size_t a = text.find( "WARNING: ThreadSanitizer" ); a != std::string::npos; )
        {
            size_t b = text.find( "WARNING: ThreadSanitizer", a + 10 ); const std::string rep = text.substr( a, b == std::string::npos ? b : b - a ); const std::string k = raceKey( rep ); ++reports;
            if( keys.insert( k ).second ) app.fail( k, rep );
            a = b;
        }
        app.count( "race-reports", reports );
        if( !hung && !( WIFEXITED( st ) && ( WEXITSTATUS( st ) == 0 || ( WEXITSTATUS( st ) == 66 && reports ) ) ) )
            app.fail( "died", "the process ended with status " + std::to_string( st ) + ": " + text.substr( 0, 1200 ) );
    } );
}
