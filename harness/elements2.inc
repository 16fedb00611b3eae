// written by lib/genelements.py
#include "mx/core/elements/Accent.h"
#include "mx/core/elements/AccidentalMark.h"
#include "mx/core/elements/AccidentalMarkAttributes.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/Accord.h"
#include "mx/core/elements/Alter.h"
#include "mx/core/elements/Appearance.h"
#include "mx/core/elements/Arpeggiate.h"
#include "mx/core/elements/Arrow.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/ArticulationsChoice.h"
#include "mx/core/elements/BassAlter.h"
#include "mx/core/elements/BassAlterAttributes.h"
#include "mx/core/elements/BeatRepeat.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/BeatUnitPer.h"
#include "mx/core/elements/Bend.h"
#include "mx/core/elements/BottomMargin.h"
#include "mx/core/elements/BreathMark.h"
#include "mx/core/elements/Caesura.h"
#include "mx/core/elements/CircularArrow.h"
#include "mx/core/elements/Clef.h"
#include "mx/core/elements/CreditType.h"
#include "mx/core/elements/Defaults.h"
#include "mx/core/elements/DetachedLegato.h"
#include "mx/core/elements/Diatonic.h"
#include "mx/core/elements/Directive.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Divisions.h"
#include "mx/core/elements/Doit.h"
#include "mx/core/elements/DoubleTongue.h"
#include "mx/core/elements/DownBow.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/Elision.h"
#include "mx/core/elements/ElisionSyllabicGroup.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/EndParagraph.h"
#include "mx/core/elements/Falloff.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/Fifths.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/Fingernails.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/Function.h"
#include "mx/core/elements/FunctionAttributes.h"
#include "mx/core/elements/Glissando.h"
#include "mx/core/elements/GroupBarline.h"
#include "mx/core/elements/GroupBarlineAttributes.h"
#include "mx/core/elements/HammerOn.h"
#include "mx/core/elements/Handbell.h"
#include "mx/core/elements/Harmonic.h"
#include "mx/core/elements/HarmonicAttributes.h"
#include "mx/core/elements/HarmonicInfoChoice.h"
#include "mx/core/elements/HarmonicTypeChoice.h"
#include "mx/core/elements/Heel.h"
#include "mx/core/elements/Hole.h"
#include "mx/core/elements/HoleClosed.h"
#include "mx/core/elements/HoleClosedAttributes.h"
#include "mx/core/elements/InstrumentName.h"
#include "mx/core/elements/Instruments.h"
#include "mx/core/elements/Key.h"
#include "mx/core/elements/KeyAttributes.h"
#include "mx/core/elements/KeyChoice.h"
#include "mx/core/elements/KeyOctave.h"
#include "mx/core/elements/LayoutGroup.h"
#include "mx/core/elements/LyricFont.h"
#include "mx/core/elements/LyricFontAttributes.h"
#include "mx/core/elements/LyricLanguage.h"
#include "mx/core/elements/MeasureRepeat.h"
#include "mx/core/elements/MeasureStyle.h"
#include "mx/core/elements/MeasureStyleChoice.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeRelation.h"
#include "mx/core/elements/MetronomeRelationGroup.h"
#include "mx/core/elements/MidiName.h"
#include "mx/core/elements/MovementNumber.h"
#include "mx/core/elements/MultipleRest.h"
#include "mx/core/elements/MusicFont.h"
#include "mx/core/elements/NonArpeggiate.h"
#include "mx/core/elements/NonArpeggiateAttributes.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/Octave.h"
#include "mx/core/elements/OpenString.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/OtherAppearance.h"
#include "mx/core/elements/OtherAppearanceAttributes.h"
#include "mx/core/elements/OtherArticulation.h"
#include "mx/core/elements/OtherNotation.h"
#include "mx/core/elements/OtherTechnical.h"
#include "mx/core/elements/PageHeight.h"
#include "mx/core/elements/PageLayout.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartSymbol.h"
#include "mx/core/elements/PedalAlter.h"
#include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
#include "mx/core/elements/Pitched.h"
#include "mx/core/elements/Plop.h"
#include "mx/core/elements/Pluck.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/PullOff.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/Scaling.h"
#include "mx/core/elements/Scoop.h"
#include "mx/core/elements/Scordatura.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/SenzaMisura.h"
#include "mx/core/elements/Slash.h"
#include "mx/core/elements/Slide.h"
#include "mx/core/elements/Slur.h"
#include "mx/core/elements/SnapPizzicato.h"
#include "mx/core/elements/Spiccato.h"
#include "mx/core/elements/Staccatissimo.h"
#include "mx/core/elements/Staccato.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffDetails.h"
#include "mx/core/elements/StaffLayout.h"
#include "mx/core/elements/StaffTuning.h"
#include "mx/core/elements/StaffTuningAttributes.h"
#include "mx/core/elements/Staves.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/Stopped.h"
#include "mx/core/elements/Stress.h"
#include "mx/core/elements/String.h"
#include "mx/core/elements/StrongAccent.h"
#include "mx/core/elements/Syllabic.h"
#include "mx/core/elements/SystemLayout.h"
#include "mx/core/elements/Tap.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/TechnicalChoice.h"
#include "mx/core/elements/Tenuto.h"
#include "mx/core/elements/ThumbPosition.h"
#include "mx/core/elements/Tied.h"
#include "mx/core/elements/Time.h"
#include "mx/core/elements/TimeChoice.h"
#include "mx/core/elements/TimeSignatureGroup.h"
#include "mx/core/elements/Toe.h"
#include "mx/core/elements/ToeAttributes.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/TripleTongue.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TuningOctave.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletNumberAttributes.h"
#include "mx/core/elements/Unstress.h"
#include "mx/core/elements/UpBow.h"
#include "mx/core/elements/VirtualInstrument.h"
#include "mx/core/elements/VirtualLibrary.h"
#include "mx/core/elements/VirtualName.h"
#include "mx/core/elements/Wood.h"
#include "mx/core/elements/WordFont.h"
using namespace mx::core;
void registerElements2( std::vector<el::Klass>& all )
{
KLASS( AccidentalMark )
  ATTRS( AccidentalMark, AccidentalMarkAttributes )
  FIELD( AccidentalMark, AccidentalMarkAttributes, defaultX, hasDefaultX )
  FIELD( AccidentalMark, AccidentalMarkAttributes, defaultY, hasDefaultY )
  FIELD( AccidentalMark, AccidentalMarkAttributes, relativeX, hasRelativeX )
  FIELD( AccidentalMark, AccidentalMarkAttributes, relativeY, hasRelativeY )
  FIELD( AccidentalMark, AccidentalMarkAttributes, fontFamily, hasFontFamily )
  FIELD( AccidentalMark, AccidentalMarkAttributes, fontStyle, hasFontStyle )
  FIELD( AccidentalMark, AccidentalMarkAttributes, fontSize, hasFontSize )
  FIELD( AccidentalMark, AccidentalMarkAttributes, fontWeight, hasFontWeight )
  FIELD( AccidentalMark, AccidentalMarkAttributes, placement, hasPlacement )
  VALUE( AccidentalMark, Value )
END
KLASS( Alter )
  VALUE( Alter, Value )
END
KLASS( ArticulationsChoice )
  ONE( ArticulationsChoice, Accent, Accent )
  ONE( ArticulationsChoice, StrongAccent, StrongAccent )
  ONE( ArticulationsChoice, Staccato, Staccato )
  ONE( ArticulationsChoice, Tenuto, Tenuto )
  ONE( ArticulationsChoice, DetachedLegato, DetachedLegato )
  ONE( ArticulationsChoice, Staccatissimo, Staccatissimo )
  ONE( ArticulationsChoice, Spiccato, Spiccato )
  ONE( ArticulationsChoice, Scoop, Scoop )
  ONE( ArticulationsChoice, Plop, Plop )
  ONE( ArticulationsChoice, Doit, Doit )
  ONE( ArticulationsChoice, Falloff, Falloff )
  ONE( ArticulationsChoice, BreathMark, BreathMark )
  ONE( ArticulationsChoice, Caesura, Caesura )
  ONE( ArticulationsChoice, Stress, Stress )
  ONE( ArticulationsChoice, Unstress, Unstress )
  ONE( ArticulationsChoice, OtherArticulation, OtherArticulation )
  CHOICE( ArticulationsChoice, { "accent", 1 }, { "strongAccent", 2 }, { "staccato", 3 }, { "tenuto", 4 }, { "detachedLegato", 5 }, { "staccatissimo", 6 }, { "spiccato", 7 }, { "scoop", 8 }, { "plop", 9 }, { "doit", 10 }, { "falloff", 11 }, { "breathMark", 12 }, { "caesura", 13 }, { "stress", 14 }, { "unstress", 15 }, { "otherArticulation", 16 } )
END
KLASS( BassAlter )
  ATTRS( BassAlter, BassAlterAttributes )
  FIELD( BassAlter, BassAlterAttributes, printObject, hasPrintObject )
  FIELD( BassAlter, BassAlterAttributes, defaultX, hasDefaultX )
  FIELD( BassAlter, BassAlterAttributes, defaultY, hasDefaultY )
  FIELD( BassAlter, BassAlterAttributes, relativeX, hasRelativeX )
  FIELD( BassAlter, BassAlterAttributes, relativeY, hasRelativeY )
  FIELD( BassAlter, BassAlterAttributes, fontFamily, hasFontFamily )
  FIELD( BassAlter, BassAlterAttributes, fontStyle, hasFontStyle )
  FIELD( BassAlter, BassAlterAttributes, fontSize, hasFontSize )
  FIELD( BassAlter, BassAlterAttributes, fontWeight, hasFontWeight )
  FIELD( BassAlter, BassAlterAttributes, location, hasLocation )
  VALUE( BassAlter, Value )
END
KLASS( BeatUnitPer )
  ONE( BeatUnitPer, BeatUnitGroup, BeatUnitGroup )
  READ( BeatUnitPer, PerMinuteOrBeatUnitChoice )
END
KLASS( BottomMargin )
  VALUE( BottomMargin, Value )
END
KLASS( CircularArrow )
  VALUE( CircularArrow, Value )
END
KLASS( CreditType )
  VALUE( CreditType, Value )
END
KLASS( Defaults )
  OPT( Defaults, Scaling, Scaling )
  ONE( Defaults, LayoutGroup, LayoutGroup )
  OPT( Defaults, Appearance, Appearance )
  OPT( Defaults, MusicFont, MusicFont )
  OPT( Defaults, WordFont, WordFont )
  COLL( Defaults, LyricFont, LyricFont, 0, -1 )
  COLL( Defaults, LyricLanguage, LyricLanguage, 0, -1 )
END
KLASS( Diatonic )
  VALUE( Diatonic, Value )
END
KLASS( DisplayTextOrAccidentalText )
  ONE( DisplayTextOrAccidentalText, DisplayText, DisplayText )
  ONE( DisplayTextOrAccidentalText, AccidentalText, AccidentalText )
  CHOICE( DisplayTextOrAccidentalText, { "displayText", 1 }, { "accidentalText", 2 } )
END
KLASS( Duration )
  VALUE( Duration, Value )
END
KLASS( ElisionSyllabicGroup )
  ONE( ElisionSyllabicGroup, Elision, Elision )
  OPT( ElisionSyllabicGroup, Syllabic, Syllabic )
END
KLASS( EndParagraph )
END
KLASS( Fifths )
  VALUE( Fifths, Value )
END
KLASS( Forward )
  ONE( Forward, Duration, Duration )
  ONE( Forward, EditorialVoiceGroup, EditorialVoiceGroup )
  OPT( Forward, Staff, Staff )
END
KLASS( Function )
  ATTRS( Function, FunctionAttributes )
  FIELD( Function, FunctionAttributes, defaultX, hasDefaultX )
  FIELD( Function, FunctionAttributes, defaultY, hasDefaultY )
  FIELD( Function, FunctionAttributes, relativeX, hasRelativeX )
  FIELD( Function, FunctionAttributes, relativeY, hasRelativeY )
  FIELD( Function, FunctionAttributes, fontFamily, hasFontFamily )
  FIELD( Function, FunctionAttributes, fontStyle, hasFontStyle )
  FIELD( Function, FunctionAttributes, fontSize, hasFontSize )
  FIELD( Function, FunctionAttributes, fontWeight, hasFontWeight )
  VALUE( Function, Value )
END
KLASS( GroupBarline )
  ATTRS( GroupBarline, GroupBarlineAttributes )
  FIELD( GroupBarline, GroupBarlineAttributes, color, hasColor )
  VALUE( GroupBarline, Value )
END
KLASS( Harmonic )
  ATTRS( Harmonic, HarmonicAttributes )
  FIELD( Harmonic, HarmonicAttributes, printObject, hasPrintObject )
  FIELD( Harmonic, HarmonicAttributes, defaultX, hasDefaultX )
  FIELD( Harmonic, HarmonicAttributes, defaultY, hasDefaultY )
  FIELD( Harmonic, HarmonicAttributes, relativeX, hasRelativeX )
  FIELD( Harmonic, HarmonicAttributes, relativeY, hasRelativeY )
  FIELD( Harmonic, HarmonicAttributes, fontFamily, hasFontFamily )
  FIELD( Harmonic, HarmonicAttributes, fontStyle, hasFontStyle )
  FIELD( Harmonic, HarmonicAttributes, fontSize, hasFontSize )
  FIELD( Harmonic, HarmonicAttributes, fontWeight, hasFontWeight )
  FIELD( Harmonic, HarmonicAttributes, color, hasColor )
  FIELD( Harmonic, HarmonicAttributes, placement, hasPlacement )
  OPT( Harmonic, HarmonicTypeChoice, HarmonicTypeChoice )
  OPT( Harmonic, HarmonicInfoChoice, HarmonicInfoChoice )
END
KLASS( HoleClosed )
  ATTRS( HoleClosed, HoleClosedAttributes )
  FIELD( HoleClosed, HoleClosedAttributes, location, hasLocation )
  VALUE( HoleClosed, Value )
END
KLASS( InstrumentName )
  VALUE( InstrumentName, Value )
END
KLASS( Key )
  ATTRS( Key, KeyAttributes )
  FIELD( Key, KeyAttributes, number, hasNumber )
  FIELD( Key, KeyAttributes, defaultX, hasDefaultX )
  FIELD( Key, KeyAttributes, defaultY, hasDefaultY )
  FIELD( Key, KeyAttributes, relativeX, hasRelativeX )
  FIELD( Key, KeyAttributes, relativeY, hasRelativeY )
  FIELD( Key, KeyAttributes, fontFamily, hasFontFamily )
  FIELD( Key, KeyAttributes, fontStyle, hasFontStyle )
  FIELD( Key, KeyAttributes, fontSize, hasFontSize )
  FIELD( Key, KeyAttributes, fontWeight, hasFontWeight )
  FIELD( Key, KeyAttributes, color, hasColor )
  FIELD( Key, KeyAttributes, printObject, hasPrintObject )
  ONE( Key, KeyChoice, KeyChoice )
  COLLN( Key, KeyOctave, KeyOctave, 0, -1 )
END
KLASS( LayoutGroup )
  OPT( LayoutGroup, PageLayout, PageLayout )
  OPT( LayoutGroup, SystemLayout, SystemLayout )
  COLL( LayoutGroup, StaffLayout, StaffLayout, 0, -1 )
END
KLASS( LyricFont )
  ATTRS( LyricFont, LyricFontAttributes )
  FIELD( LyricFont, LyricFontAttributes, number, hasNumber )
  FIELD( LyricFont, LyricFontAttributes, name, hasName )
  FIELD( LyricFont, LyricFontAttributes, fontFamily, hasFontFamily )
  FIELD( LyricFont, LyricFontAttributes, fontStyle, hasFontStyle )
  FIELD( LyricFont, LyricFontAttributes, fontSize, hasFontSize )
  FIELD( LyricFont, LyricFontAttributes, fontWeight, hasFontWeight )
END
KLASS( MeasureStyleChoice )
  ONE( MeasureStyleChoice, MultipleRest, MultipleRest )
  ONE( MeasureStyleChoice, MeasureRepeat, MeasureRepeat )
  ONE( MeasureStyleChoice, BeatRepeat, BeatRepeat )
  ONE( MeasureStyleChoice, Slash, Slash )
  CHOICE( MeasureStyleChoice, { "multipleRest", 0 }, { "measureRepeat", 1 }, { "beatRepeat", 2 }, { "slash", 3 } )
END
KLASS( MetronomeRelationGroup )
  ONE( MetronomeRelationGroup, MetronomeRelation, MetronomeRelation )
  ONE( MetronomeRelationGroup, MetronomeNote, MetronomeNote )
END
KLASS( MidiName )
  VALUE( MidiName, Value )
END
KLASS( MovementNumber )
  VALUE( MovementNumber, Value )
END
KLASS( NonArpeggiate )
  ATTRS( NonArpeggiate, NonArpeggiateAttributes )
  FIELD0( NonArpeggiate, NonArpeggiateAttributes, type )
  FIELD( NonArpeggiate, NonArpeggiateAttributes, number, hasNumber )
  FIELD( NonArpeggiate, NonArpeggiateAttributes, defaultX, hasDefaultX )
  FIELD( NonArpeggiate, NonArpeggiateAttributes, defaultY, hasDefaultY )
  FIELD( NonArpeggiate, NonArpeggiateAttributes, relativeX, hasRelativeX )
  FIELD( NonArpeggiate, NonArpeggiateAttributes, relativeY, hasRelativeY )
  FIELD( NonArpeggiate, NonArpeggiateAttributes, placement, hasPlacement )
END
KLASS( NotationsChoice )
  ONE( NotationsChoice, Tied, Tied )
  ONE( NotationsChoice, Slur, Slur )
  ONE( NotationsChoice, Tuplet, Tuplet )
  ONE( NotationsChoice, Glissando, Glissando )
  ONE( NotationsChoice, Slide, Slide )
  ONE( NotationsChoice, Ornaments, Ornaments )
  ONE( NotationsChoice, Technical, Technical )
  ONE( NotationsChoice, Articulations, Articulations )
  ONE( NotationsChoice, Dynamics, Dynamics )
  ONE( NotationsChoice, Fermata, Fermata )
  ONE( NotationsChoice, Arpeggiate, Arpeggiate )
  ONE( NotationsChoice, NonArpeggiate, NonArpeggiate )
  ONE( NotationsChoice, AccidentalMark, AccidentalMark )
  ONE( NotationsChoice, OtherNotation, OtherNotation )
  CHOICE( NotationsChoice, { "tied", 1 }, { "slur", 2 }, { "tuplet", 3 }, { "glissando", 4 }, { "slide", 5 }, { "ornaments", 6 }, { "technical", 7 }, { "articulations", 8 }, { "dynamics", 9 }, { "fermata", 10 }, { "arpeggiate", 11 }, { "nonArpeggiate", 12 }, { "accidentalMark", 13 }, { "otherNotation", 14 } )
END
KLASS( Octave )
  VALUE( Octave, Value )
END
KLASS( OtherAppearance )
  ATTRS( OtherAppearance, OtherAppearanceAttributes )
  FIELD0( OtherAppearance, OtherAppearanceAttributes, type )
  VALUE( OtherAppearance, Value )
END
KLASS( PageHeight )
  VALUE( PageHeight, Value )
END
KLASS( PartGroupOrScorePart )
  ONE( PartGroupOrScorePart, PartGroup, PartGroup )
  ONE( PartGroupOrScorePart, ScorePart, ScorePart )
  CHOICE( PartGroupOrScorePart, { "partGroup", 1 }, { "scorePart", 2 } )
END
KLASS( PedalAlter )
  VALUE( PedalAlter, Value )
END
KLASS( Pitched )
  VALUE( Pitched, Value )
END
KLASS( Properties )
  ONE( Properties, EditorialGroup, EditorialGroup )
  OPT( Properties, Divisions, Divisions )
  OPT( Properties, Staves, Staves )
  OPT( Properties, PartSymbol, PartSymbol )
  OPT( Properties, Instruments, Instruments )
  COLL( Properties, Key, Key, 0, -1 )
  COLL( Properties, Time, Time, 0, -1 )
  COLL( Properties, Clef, Clef, 0, -1 )
  COLL( Properties, StaffDetails, StaffDetails, 0, -1 )
  COLL( Properties, Transpose, Transpose, 0, -1 )
  COLL( Properties, Directive, Directive, 0, -1 )
  COLL( Properties, MeasureStyle, MeasureStyle, 0, -1 )
END
KLASS( RightMargin )
  VALUE( RightMargin, Value )
END
KLASS( Scordatura )
  COLL( Scordatura, Accord, Accord, 1, -1 )
END
KLASS( SenzaMisura )
  VALUE( SenzaMisura, Value )
END
KLASS( SnapPizzicato )
  ATTRS( SnapPizzicato, EmptyPlacementAttributes )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( SnapPizzicato, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Staccatissimo )
  ATTRS( Staccatissimo, EmptyPlacementAttributes )
  FIELD( Staccatissimo, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Staccatissimo, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Staccatissimo, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Staccatissimo, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Staccatissimo, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Staccatissimo, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Staccatissimo, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Staccatissimo, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Staccatissimo, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( StaffTuning )
  ATTRS( StaffTuning, StaffTuningAttributes )
  FIELD( StaffTuning, StaffTuningAttributes, line, hasLine )
  ONE( StaffTuning, TuningStep, TuningStep )
  OPT( StaffTuning, TuningAlter, TuningAlter )
  ONE( StaffTuning, TuningOctave, TuningOctave )
END
KLASS( StickType )
  VALUE( StickType, Value )
END
KLASS( Syllabic )
  VALUE( Syllabic, Value )
END
KLASS( TechnicalChoice )
  ONE( TechnicalChoice, UpBow, UpBow )
  ONE( TechnicalChoice, DownBow, DownBow )
  ONE( TechnicalChoice, Harmonic, Harmonic )
  ONE( TechnicalChoice, OpenString, OpenString )
  ONE( TechnicalChoice, ThumbPosition, ThumbPosition )
  ONE( TechnicalChoice, Fingering, Fingering )
  ONE( TechnicalChoice, Pluck, Pluck )
  ONE( TechnicalChoice, DoubleTongue, DoubleTongue )
  ONE( TechnicalChoice, TripleTongue, TripleTongue )
  ONE( TechnicalChoice, Stopped, Stopped )
  ONE( TechnicalChoice, SnapPizzicato, SnapPizzicato )
  ONE( TechnicalChoice, Fret, Fret )
  ONE( TechnicalChoice, String, String )
  ONE( TechnicalChoice, HammerOn, HammerOn )
  ONE( TechnicalChoice, PullOff, PullOff )
  ONE( TechnicalChoice, Bend, Bend )
  ONE( TechnicalChoice, Tap, Tap )
  ONE( TechnicalChoice, Heel, Heel )
  ONE( TechnicalChoice, Toe, Toe )
  ONE( TechnicalChoice, Fingernails, Fingernails )
  ONE( TechnicalChoice, Hole, Hole )
  ONE( TechnicalChoice, Arrow, Arrow )
  ONE( TechnicalChoice, Handbell, Handbell )
  ONE( TechnicalChoice, OtherTechnical, OtherTechnical )
  CHOICE( TechnicalChoice, { "upBow", 1 }, { "downBow", 2 }, { "harmonic", 3 }, { "openString", 4 }, { "thumbPosition", 5 }, { "fingering", 6 }, { "pluck", 7 }, { "doubleTongue", 8 }, { "tripleTongue", 9 }, { "stopped", 10 }, { "snapPizzicato", 11 }, { "fret", 12 }, { "string_", 13 }, { "hammerOn", 14 }, { "pullOff", 15 }, { "bend", 16 }, { "tap", 17 }, { "heel", 18 }, { "toe", 19 }, { "fingernails", 20 }, { "hole", 21 }, { "arrow", 22 }, { "handbell", 23 }, { "otherTechnical", 24 } )
END
KLASS( TimeChoice )
  ONE( TimeChoice, SenzaMisura, SenzaMisura )
  COLL( TimeChoice, TimeSignatureGroup, TimeSignatureGroup, 1, -1 )
  CHOICE( TimeChoice, { "timeSignature", 0 }, { "senzaMisura", 1 } )
END
KLASS( Toe )
  ATTRS( Toe, ToeAttributes )
  FIELD( Toe, ToeAttributes, defaultX, hasDefaultX )
  FIELD( Toe, ToeAttributes, defaultY, hasDefaultY )
  FIELD( Toe, ToeAttributes, relativeX, hasRelativeX )
  FIELD( Toe, ToeAttributes, relativeY, hasRelativeY )
  FIELD( Toe, ToeAttributes, fontFamily, hasFontFamily )
  FIELD( Toe, ToeAttributes, fontStyle, hasFontStyle )
  FIELD( Toe, ToeAttributes, fontSize, hasFontSize )
  FIELD( Toe, ToeAttributes, fontWeight, hasFontWeight )
  FIELD( Toe, ToeAttributes, color, hasColor )
  FIELD( Toe, ToeAttributes, placement, hasPlacement )
  FIELD( Toe, ToeAttributes, substitution, hasSubstitution )
END
KLASS( TripleTongue )
  ATTRS( TripleTongue, EmptyPlacementAttributes )
  FIELD( TripleTongue, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( TripleTongue, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( TripleTongue, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( TripleTongue, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( TripleTongue, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( TripleTongue, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( TripleTongue, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( TripleTongue, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( TripleTongue, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( TupletNumber )
  ATTRS( TupletNumber, TupletNumberAttributes )
  FIELD( TupletNumber, TupletNumberAttributes, fontFamily, hasFontFamily )
  FIELD( TupletNumber, TupletNumberAttributes, fontStyle, hasFontStyle )
  FIELD( TupletNumber, TupletNumberAttributes, fontSize, hasFontSize )
  FIELD( TupletNumber, TupletNumberAttributes, fontWeight, hasFontWeight )
  VALUE( TupletNumber, Value )
END
KLASS( VirtualInstrument )
  OPT( VirtualInstrument, VirtualLibrary, VirtualLibrary )
  OPT( VirtualInstrument, VirtualName, VirtualName )
END
KLASS( Wood )
  VALUE( Wood, Value )
END
}
