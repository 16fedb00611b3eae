// Shared support of every harness: random numbers, case loop, verdict protocol, watchdog.
// Protocol on stdout (read by lib/runner.py):
//   V <case> <key>\t<message>        a violation
//   S <name> <n>                     a counter measured by this run
//   X <text>                         a sample case
// The status file always holds the case being run and what it was doing, so that a crash can be attributed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vf
{
struct Rng
{
    uint64_t s;
    explicit Rng( uint64_t seed = 1 ) : s( seed ) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31 );
    }
    uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
    int range( int lo, int hi ) { return lo + (int)below( (uint64_t)( (int64_t)hi - lo + 1 ) ); }
    bool chance( int num, int den ) { return (int)below( den ) < num; }
    bool flip() { return next() & 1; }
    template<class T> const T& pick( const std::vector<T>& v ) { return v[below( v.size() )]; }
};

inline uint64_t hashBytes( const void* p, size_t n, uint64_t h = 1469598103934665603ull )
{
    const unsigned char* c = (const unsigned char*)p;
    for( size_t i = 0; i < n; ++i ) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hashStr( const std::string& s, uint64_t h = 1469598103934665603ull ) { return hashBytes( s.data(), s.size(), h ); }

inline std::string oneLine( std::string s, size_t max = 1500 )
{
    if( s.size() > max ) s = s.substr( 0, max ) + "...";
    for( auto& c : s ) if( (unsigned char)c < 32 ) c = ( c == '\n' ) ? '|' : ' ';
    return s;
}

struct Status { volatile long caseId; volatile long pad; char stage[240]; };

// there in the sanitizer builds
}
extern "C" void __sanitizer_set_death_callback( void (*)( void ) ) __attribute__(( weak ));
namespace vf
{
struct App
{
    uint64_t seed = 1;
    long from = 0, to = 0, step = 1;
    bool thorough = false, verbose = false;
    std::string tmp = "/tmp";
    std::string dump;
    std::map<std::string, std::string> opt;
    std::map<std::string, long long> stats;
    std::unordered_set<uint64_t> distinct;
    std::string distinctFile;
    long violations = 0;
    std::map<std::string,int> perKey;
    int samples = 0;
    long cur = 0;
    Status* st = nullptr;
    Status local;
    int watchdog = 60;

    void parse( int argc, char** argv )
    {
        st = &local; memset( &local, 0, sizeof local );
        for( int i = 1; i + 1 < argc; i += 2 )
        {
            std::string k = argv[i], v = argv[i + 1];
            if( k == "--seed" ) seed = strtoull( v.c_str(), 0, 10 );
            else if( k == "--from" ) from = atol( v.c_str() );
            else if( k == "--to" ) to = atol( v.c_str() );
            else if( k == "--step" ) step = atol( v.c_str() );
            else if( k == "--tier" ) thorough = v == "thorough";
            else if( k == "--verbose" ) verbose = v == "1";
            else if( k == "--tmp" ) tmp = v;
            else if( k == "--dump" ) dump = v;
            else if( k == "--distinct" ) distinctFile = v;
            else if( k == "--watchdog" ) watchdog = atoi( v.c_str() );
            else if( k == "--status" )
            {
                int fd = open( v.c_str(), O_RDWR | O_CREAT, 0600 );
                if( fd >= 0 && ftruncate( fd, sizeof( Status ) ) == 0 )
                {
                    void* p = mmap( 0, sizeof( Status ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
                    if( p != MAP_FAILED ) st = (Status*)p;
                    close( fd );
                }
            }
            else opt[k.substr( 2 )] = v;
        }
        setvbuf( stdout, 0, _IOLBF, 1 << 16 );
    }
    void stage( const char* s ) { strncpy( st->stage, s, sizeof( st->stage ) - 1 ); }
    void count( const std::string& k, long long n = 1 ) { stats[k] += n; }
    void seen( uint64_t h ) { distinct.insert( h ); }
    void sample( const std::string& s )
    {
        if( samples < 2 ) { ++samples; printf( "X %s\n", oneLine( s, 1200 ).c_str() ); }
    }
    void fail( const std::string& key, const std::string& msg )
    {
        ++violations;
        if( ++perKey[key] <= 3 || getenv( "VF_ALL" ) || verbose )
        {
            printf( "V %ld %s\t%s\n", cur, oneLine( key, 200 ).c_str(), oneLine( msg, verbose ? 20000 : 1500 ).c_str() );
            fflush( stdout );
        }
    }
    static App*& self() { static App* a = nullptr; return a; }
    static void onAlarm( int )
    {
        App* a = self();
        char b[400];
        int n = snprintf( b, sizeof b, "H %ld %s\n", a ? (long)a->st->caseId : -1L, a ? a->st->stage : "" );
        if( n > 0 ) { ssize_t r = write( 1, b, (size_t)n ); (void)r; }
        _exit( 97 );
    }
    void arm( int sec )
    {
        itimerval t; memset( &t, 0, sizeof t ); t.it_value.tv_sec = sec;
        setitimer( ITIMER_PROF, &t, 0 );
        // a process that waits for ever uses no processor time
        t.it_value.tv_sec = sec * 6; setitimer( ITIMER_REAL, &t, 0 );
    }
    void run( const std::function<void( long, Rng& )>& body )
    {
        self() = this;
        signal( SIGPROF, &App::onAlarm ); signal( SIGALRM, &App::onAlarm );
        if( __sanitizer_set_death_callback ) __sanitizer_set_death_callback( []{ if( self() ) self()->dumpStats(); } );
        for( long c = from; c < to; c += step )
        {
            cur = c; st->caseId = c; stage( "start" );
            if( watchdog > 0 ) arm( watchdog );
            Rng r( seed * 0x9E3779B97F4A7C15ull ^ ( (uint64_t)c * 0xD1342543DE82EF95ull + 0x1234567ull ) );
            body( c, r );
            count( "cases" );
        }
        arm( 0 );
        finish();
    }
    void finish() { dumpStats(); printf( "DONE\n" ); fflush( stdout ); }
    // also called when a sanitizer ends the process, so that what was observed until then counts
    void dumpStats()
    {
        fflush( stdout );
        for( auto& k : stats ) printf( "S %s %lld\n", k.first.c_str(), k.second );
        printf( "S violations %ld\n", violations );
        if( !distinctFile.empty() )
        {
            FILE* f = fopen( distinctFile.c_str(), "ab" );
            if( f ) { for( auto h : distinct ) fwrite( &h, 8, 1, f ); fclose( f ); }
        }
        fflush( stdout );
    }
};
}
