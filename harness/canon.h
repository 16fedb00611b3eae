#pragma once
#include "gen_score.h"
// what each area generates
inline gs::Knobs knobsFor( const std::string& area, long c, vf::Rng& r, bool thorough )
{
    gs::Knobs k;
    static const int dens[] = { 5, 20, 50, 80 };
    k.density = dens[c % 4];
    if( area == "notes" )
    {
        k.attributes = k.directions = k.header = k.groups = k.layout = k.partInfo = false;
        k.marks = c % 3 != 0; k.curves = c % 5 != 0; k.maxParts = 2; k.maxMeasures = 3; k.maxStaves = 1 + (int)( c % 3 );
        if( c % 7 == 0 ) k.maxEvents = 16;
    }
    if( area == "header" )
    {
        k.notes = k.attributes = k.directions = k.marks = k.curves = k.tuplets = false;
        k.maxParts = 1 + (int)( c % 6 ); k.maxMeasures = 3; k.maxStaves = 1; k.maxEvents = 1;
    }
    if( area == "measures" )
    {
        k.header = k.groups = k.layout = k.partInfo = k.marks = k.curves = k.misc = k.cue = k.grace = k.ties = k.beams = false;
        k.tuplets = c % 4 == 0;
        k.maxParts = 2; k.maxMeasures = 1 + (int)( c % 4 ); k.maxStaves = 1 + (int)( c % 3 ); k.maxEvents = 1 + (int)( c % 5 );
        k.attributes = c % 5 != 0; k.directions = c % 7 != 0;
    }
    return k;
}
inline bool hasOwnText( mx::api::MarkType t )
{
    using M = mx::api::MarkType;
    return t == M::otherArticulation || t == M::otherOrnament || t == M::otherTechnical || t == M::otherDynamics;
}
inline int family( mx::api::MarkType t )
{
    using namespace mx::api;
    if( isMarkDynamic( t ) || isMarkFermata( t ) || isMarkArpeggiate( t ) || isMarkNonArpeggiate( t ) || ( t >= MarkType::accidentalMarkSharp && t <= MarkType::accidentalMarkKoron ) ) return 0;
    if( isMarkArticulation( t ) || isMarkCustom( t ) ) return 1;
    if( isMarkOrnament( t ) || isMarkTremolo( t ) ) return 2;
    return 3;
}
// the parts of a score that have more than one spelling of the same meaning
inline void canon( mx::api::ScoreData& s )
{
    // a reader meets the groups in the order in which they end
    std::stable_sort( s.partGroups.begin(), s.partGroups.end(), []( const mx::api::PartGroupData& a, const mx::api::PartGroupData& b ) { return a.number < b.number; } );
    // MusicXML groups the appearance settings by kind; the order within a kind is kept
    std::stable_sort( s.defaults.appearance.begin(), s.defaults.appearance.end(), []( const mx::api::AppearanceData& a, const mx::api::AppearanceData& b ) { return a.appearanceType < b.appearanceType; } );
    for( auto& p : s.parts ) for( auto& m : p.measures )
    {
        if( m.number == std::to_string( &m - p.measures.data() + 1 ) ) m.number.clear(); // the number that an unnumbered measure has
        for( auto& b : m.barlines )
        {
            // without a location a barline is where its time says
            if( b.location == mx::api::HorizontalAlignment::unspecified ) b.location = b.tickTimePosition == 0 ? mx::api::HorizontalAlignment::left : mx::api::HorizontalAlignment::right;
        }
        // the keys of one staff are part of the attributes of the measure
        for( size_t i = 0; i < m.staves.size(); ++i )
        {
            for( auto& k : m.staves[i].keys ) { m.keys.push_back( k ); m.keys.back().staffIndex = (int)i; }
            m.staves[i].keys.clear();
        }
        for( auto& k : m.keys )
            for( auto& c : k.nonTraditional ) { c.cents += 100.0 * c.alter; c.alter = 0; }
        for( auto& st : m.staves )
        {
            for( auto& c : st.clefs ) if( c.tickTimePosition != 0 ) c.location = mx::api::ClefLocation::midMeasure;
            for( auto& d : st.directions )
            {
                // a bracket is placed where its direction is placed
                for( auto& b : d.bracketStarts ) if( b.positionData.placement == mx::api::Placement::unspecified ) b.positionData.placement = d.placement;
                for( auto& b : d.bracketStops ) if( b.positionData.placement == mx::api::Placement::unspecified ) b.positionData.placement = d.placement;
                for( auto& k : d.marks ) if( !hasOwnText( k.markType ) ) k.name.clear();
            }
        }
    }
    for( auto& p : s.parts ) for( auto& m : p.measures ) for( auto& st : m.staves ) for( auto& v : st.voices ) for( auto& n : v.second.notes )
    {
        // the voice of a note is where it sits; the number is only a request
        n.userRequestedVoiceNumber = -1;
        // only the sum of the alteration is written
        n.pitchData.cents += 100.0 * n.pitchData.alter; n.pitchData.alter = 0;
        for( auto& t : n.noteAttachmentData.tupletStarts )
        {
            if( t.actualDots < 0 ) t.actualDots = 0;
            if( t.normalDots < 0 ) t.normalDots = 0;
        }
        if( n.isMeasureRest ) n.durationData.durationName = mx::api::DurationName::unspecified; // a measure rest has no type, a reader may derive one
        auto& mk = n.noteAttachmentData.marks;
        for( auto& k : mk ) if( mx::api::isMarkFermata( k.markType ) ) k.positionData.placement = mx::api::Placement::unspecified; // fermata has no placement in MusicXML
        for( auto& k : mk ) if( !hasOwnText( k.markType ) ) k.name.clear();
        // MusicXML groups the marks of a note by family; the order within a family is kept
        std::stable_sort( mk.begin(), mk.end(), []( const mx::api::MarkData& a, const mx::api::MarkData& b ) { return family( a.markType ) < family( b.markType ); } );
    }
}
inline std::vector<rf::Leaf> select( std::vector<rf::Leaf> v, const std::string& area )
{
    std::vector<rf::Leaf> o;
    for( auto& l : v )
    {
        bool inStaff = l.path.find( ".staves[" ) != std::string::npos && l.path.find( ".voices" ) != std::string::npos;
        bool size = l.path == "parts.size" || l.path.find( ".staves.size" ) != std::string::npos || l.path.find( "measures.size" ) != std::string::npos;
        if( area == "header" && ( l.path.find( ".measures[" ) == std::string::npos ) && l.path != "ticksPerQuarter" ) o.push_back( l );
        if( area == "measures" && !inStaff && l.path.find( ".measures[" ) != std::string::npos ) o.push_back( l );
        if( area == "notes" && ( inStaff || size || l.path == "ticksPerQuarter" ) ) o.push_back( l );
    }
    return o;
}
