// A ledger of the memory held through the allocation functions, which can also refuse requests.
// Link with -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc so that the library's direct uses are seen too.
#pragma once
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <execinfo.h>
#include <string>
extern "C" void __sanitizer_symbolize_pc( void* pc, const char* fmt, char* out, size_t n ) __attribute__(( weak ));
namespace mem
{
inline std::atomic<long> live{ 0 }, bytes{ 0 }, requests{ 0 };
inline std::atomic<bool> armed{ false };
inline std::atomic<long> left{ 0 }, refused{ 0 };
inline std::atomic<bool> sticky{ false };
inline bool trace = false;
inline void* stack[64]; inline int depth = 0;
// the innermost function of the library that was on the stack when the request was refused
inline std::string site()
{
    for( int i = 0; i < depth && __sanitizer_symbolize_pc; ++i )
    {
        char b[2000]; b[0] = 0; __sanitizer_symbolize_pc( (char*)stack[i] - 1, "%f %s;", b, sizeof b );
        for( const char* p = b; *p; p += strlen( p ) + 1 ) // inlined frames follow each other
        {
            std::string s = p; const size_t at = s.find( "/Sourcecode/" ); if( at == std::string::npos ) continue;
            s = s.substr( 0, s.rfind( ' ', at ) ); s = s.substr( 0, s.find( '(' ) ); for( auto& c : s ) if( c == ' ' ) c = '_';
            return s;
        }
    }
    return "?";
}
// true when this request is to be refused; no machine has what the largest ones ask for
inline bool refuse( size_t n )
{
    if( n > ( 1ul << 30 ) ) return true;
    requests.fetch_add( 1, std::memory_order_relaxed );
    if( !armed.load( std::memory_order_relaxed ) ) return false;
    const long l = left.fetch_sub( 1, std::memory_order_relaxed ) - 1;
    if( l == 0 || ( l < 0 && sticky.load( std::memory_order_relaxed ) ) ) { refused.fetch_add( 1, std::memory_order_relaxed ); if( trace ) { trace = false; depth = backtrace( stack, 64 ); } return true; }
    return false;
}
inline void took( void* p ) { if( p ) { live.fetch_add( 1, std::memory_order_relaxed ); bytes.fetch_add( (long)malloc_usable_size( p ), std::memory_order_relaxed ); } }
inline void gave( void* p ) { if( p ) { live.fetch_sub( 1, std::memory_order_relaxed ); bytes.fetch_sub( (long)malloc_usable_size( p ), std::memory_order_relaxed ); } }
}
extern "C" void* __real_malloc( size_t );
extern "C" void __real_free( void* );
extern "C" void* __real_calloc( size_t, size_t );
extern "C" void* __real_realloc( void*, size_t );
extern "C" void* __wrap_malloc( size_t n ) { if( mem::refuse( n ) ) return nullptr; void* p = __real_malloc( n ); mem::took( p ); return p; }
extern "C" void __wrap_free( void* p ) { mem::gave( p ); __real_free( p ); }
extern "C" void* __wrap_calloc( size_t n, size_t k ) { if( mem::refuse( n > ( 1ul << 30 ) ? n : n * k ) ) return nullptr; void* p = __real_calloc( n, k ); mem::took( p ); return p; }
extern "C" void* __wrap_realloc( void* q, size_t n ) { if( mem::refuse( n ) ) return nullptr; mem::gave( q ); void* p = __real_realloc( q, n ); mem::took( p ? p : ( n ? q : nullptr ) ); return p; }
static void* ledgerNew( size_t n, size_t align = 0 )
{
    if( mem::refuse( n ) ) return nullptr;
    void* p = align ? aligned_alloc( align, ( n + align - 1 ) / align * align ) : __real_malloc( n ? n : 1 ); mem::took( p ); return p;
}
static void ledgerDelete( void* p ) { mem::gave( p ); __real_free( p ); }
static void* ledgerThrow( void* p ) { if( !p ) throw std::bad_alloc(); return p; }
void* operator new( size_t n ) { return ledgerThrow( ledgerNew( n ) ); }
void* operator new[]( size_t n ) { return ledgerThrow( ledgerNew( n ) ); }
void* operator new( size_t n, std::align_val_t a ) { return ledgerThrow( ledgerNew( n, (size_t)a ) ); }
void* operator new[]( size_t n, std::align_val_t a ) { return ledgerThrow( ledgerNew( n, (size_t)a ) ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return ledgerNew( n ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return ledgerNew( n ); }
void* operator new( size_t n, std::align_val_t a, const std::nothrow_t& ) noexcept { return ledgerNew( n, (size_t)a ); }
void* operator new[]( size_t n, std::align_val_t a, const std::nothrow_t& ) noexcept { return ledgerNew( n, (size_t)a ); }
void operator delete( void* p ) noexcept { ledgerDelete( p ); }
void operator delete[]( void* p ) noexcept { ledgerDelete( p ); }
void operator delete( void* p, size_t ) noexcept { ledgerDelete( p ); }
void operator delete[]( void* p, size_t ) noexcept { ledgerDelete( p ); }
void operator delete( void* p, std::align_val_t ) noexcept { ledgerDelete( p ); }
void operator delete[]( void* p, std::align_val_t ) noexcept { ledgerDelete( p ); }
void operator delete( void* p, size_t, std::align_val_t ) noexcept { ledgerDelete( p ); }
void operator delete[]( void* p, size_t, std::align_val_t ) noexcept { ledgerDelete( p ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { ledgerDelete( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { ledgerDelete( p ); }
