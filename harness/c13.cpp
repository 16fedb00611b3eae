// C13: score data equality is exact. Every single-leaf change must be noticed, nothing else may be.
#include "randomize.h"
#include "mx/api/ScoreData.h"
using namespace mx::api;
template<class T> static void eqPair( vf::App& app, const T& a, const T& b, bool want, const std::string& key )
{
    bool e1 = a == b, e2 = b == a, n1 = a != b, n2 = b != a;
    app.count( "evaluations", 4 );
    if( e1 != e2 || n1 != n2 ) app.fail( "asymmetric:" + key, "a==b gives " + std::to_string( e1 ) + ", b==a gives " + std::to_string( e2 ) );
    if( n1 == e1 ) app.fail( "notopposite:" + key, "== gives " + std::to_string( e1 ) + ", != gives " + std::to_string( n1 ) );
    if( e1 != want ) app.fail( ( want ? "unequalcopy:" : "ignored:" ) + key, want ? "a copy compares unequal" : "a changed value compares equal" );
}
// the structure types that can be compared on their own
template<class T> static void single( vf::App& app, vf::Rng& r, T a, const char* name )
{
    for( int round = 0; round < 2; ++round )
    {
        rf::Arb g( r, round ? 40 : 0 );
        g.fill( a );
        T b = a;
        eqPair( app, a, b, true, name );
        long n = rf::countMutations( b );
        for( long k = 0; k < n; ++k )
        {
            T c = a;
            rf::Mutator m; m.target = k; m.salt = r.next();
            rf::mutate( c, "", m );
            app.seen( vf::hashStr( std::string( name ) + "/" + rf::generic( m.where ) ) );
            eqPair( app, a, c, false, std::string( name ) + "." + rf::generic( m.where ) );
            app.count( "mutations" );
        }
    }
}
int main( int argc, char** argv )
{
    vf::App app; app.parse( argc, argv );
    app.run( [&]( long c, vf::Rng& r ) {
        if( c % 4 == 0 )
        {
            #define ONE( T ) single( app, r, T{}, #T );
            ONE( AppearanceData ) ONE( BarlineData ) ONE( Extension ) ONE( MiscData ) ONE( PositionData ) ONE( ChordData ) ONE( ClefData )
            ONE( ColorData ) ONE( CodaData ) ONE( SegnoData ) ONE( RehearsalData ) ONE( WordsData ) ONE( LineData ) ONE( CurvePoints )
            ONE( SizeData ) ONE( MarginsData ) ONE( PageMarginsData ) ONE( PageLayoutData ) ONE( LeftRight ) ONE( SystemLayoutData )
            ONE( DefaultsData ) ONE( FontData ) ONE( PrintData ) ONE( BeatsPerMinute ) ONE( MetricModulation ) ONE( TempoText )
            ONE( TempoData ) ONE( MarkData ) ONE( WedgeStart ) ONE( WedgeStop ) ONE( SpannerStart ) ONE( SpannerStop ) ONE( OttavaStart )
            ONE( DirectionData ) ONE( DurationData ) ONE( SupportedItem ) ONE( EncodingDate ) ONE( EncodingData ) ONE( KeyComponent )
            ONE( KeyData ) ONE( SystemData ) ONE( PageData ) ONE( LayoutData ) ONE( PitchData ) ONE( TupletStart ) ONE( TupletStop )
            ONE( NoteAttachmentData ) ONE( NoteData ) ONE( VoiceData ) ONE( StaffData ) ONE( TimeSignatureData ) ONE( MeasureData )
            ONE( PageTextData ) ONE( MidiData ) ONE( InstrumentData ) ONE( TransposeData ) ONE( PartGroupData )
            single( app, r, CurveStart( CurveType::slur ), "CurveStart" );
            single( app, r, CurveContinue( CurveType::slur ), "CurveContinue" );
            single( app, r, CurveStop( CurveType::slur ), "CurveStop" );
            single( app, r, MiscellaneousField( "a", "b" ), "MiscellaneousField" );
            return;
        }
        ScoreData a;
        rf::Arb g( r, r.range( 20, 300 ) );
        g.fill( a );
        ScoreData b = a;
        eqPair( app, a, b, true, "ScoreData" );
        eqPair( app, a, a, true, "ScoreData" );
        long n = rf::countMutations( b );
        app.sample( "score with " + std::to_string( n ) + " single-leaf changes; parts=" + std::to_string( a.parts.size() ) );
        long todo = std::min<long>( n, 400 );
        for( long i = 0; i < todo; ++i )
        {
            long k = n <= 400 ? i : (long)r.below( n );
            ScoreData d = a;
            rf::Mutator m; m.target = k; m.salt = r.next();
            rf::mutate( d, "", m );
            app.seen( vf::hashStr( "ScoreData/" + rf::generic( m.where ) ) );
            eqPair( app, a, d, false, "ScoreData." + rf::generic( m.where ) );
            app.count( "mutations" );
        }
        // decimal fields: PositionData and cents document a tolerance of 1e-8
        ScoreData x; rf::Arb h( r, 30 ); h.fill( x );
        ScoreData y = x;
        for( auto& p : y.parts ) p.displayNamePositionData.defaultX += 1e-10L;
        eqPair( app, x, y, true, "tolerance" );
        // unrelated values
        ScoreData z; rf::Arb q( r, 10 ); q.fill( z );
        bool same = rf::diff( x, z ).empty() && rf::flat( x ).size() == rf::flat( z ).size();
        if( !same ) eqPair( app, x, z, false, "unrelated" );
    } );
}
