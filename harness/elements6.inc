// written by lib/genelements.py
#include "mx/core/elements/AccordionLow.h"
#include "mx/core/elements/ArrowDirection.h"
#include "mx/core/elements/BarStyle.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/BarlineAttributes.h"
#include "mx/core/elements/Bass.h"
#include "mx/core/elements/BeatType.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/Beats.h"
#include "mx/core/elements/Bend.h"
#include "mx/core/elements/BendAlter.h"
#include "mx/core/elements/BendAttributes.h"
#include "mx/core/elements/BendChoice.h"
#include "mx/core/elements/Cancel.h"
#include "mx/core/elements/CancelAttributes.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/Creator.h"
#include "mx/core/elements/CreatorAttributes.h"
#include "mx/core/elements/Cue.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/Degree.h"
#include "mx/core/elements/DegreeValue.h"
#include "mx/core/elements/DegreeValueAttributes.h"
#include "mx/core/elements/DisplayOctave.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/Dot.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/Encoder.h"
#include "mx/core/elements/Encoding.h"
#include "mx/core/elements/EncodingChoice.h"
#include "mx/core/elements/EncodingDate.h"
#include "mx/core/elements/EncodingDescription.h"
#include "mx/core/elements/Ending.h"
#include "mx/core/elements/Eyeglasses.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/Fifths.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/FingeringAttributes.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/FrameStrings.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/Function.h"
#include "mx/core/elements/Grace.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/GroupTime.h"
#include "mx/core/elements/HarmonyChordGroup.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Interchangeable.h"
#include "mx/core/elements/Inversion.h"
#include "mx/core/elements/InversionAttributes.h"
#include "mx/core/elements/KeyOctave.h"
#include "mx/core/elements/KeyOctaveAttributes.h"
#include "mx/core/elements/Kind.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/Line.h"
#include "mx/core/elements/MeasureDistance.h"
#include "mx/core/elements/MeasureLayout.h"
#include "mx/core/elements/MetronomeBeam.h"
#include "mx/core/elements/MetronomeBeamAttributes.h"
#include "mx/core/elements/MidiChannel.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/Miscellaneous.h"
#include "mx/core/elements/MiscellaneousField.h"
#include "mx/core/elements/Mode.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/NormalNotes.h"
#include "mx/core/elements/NoteSize.h"
#include "mx/core/elements/NoteSizeAttributes.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/OpenString.h"
#include "mx/core/elements/OtherOrnament.h"
#include "mx/core/elements/OtherOrnamentAttributes.h"
#include "mx/core/elements/Pan.h"
#include "mx/core/elements/PartSymbol.h"
#include "mx/core/elements/PartSymbolAttributes.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PerMinute.h"
#include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/PreBend.h"
#include "mx/core/elements/Relation.h"
#include "mx/core/elements/Release.h"
#include "mx/core/elements/Repeat.h"
#include "mx/core/elements/Rights.h"
#include "mx/core/elements/Root.h"
#include "mx/core/elements/RootStep.h"
#include "mx/core/elements/RootStepAttributes.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScorePartwiseAttributes.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/SlashDot.h"
#include "mx/core/elements/Software.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/SoundAttributes.h"
#include "mx/core/elements/Source.h"
#include "mx/core/elements/StaffDistance.h"
#include "mx/core/elements/Step.h"
#include "mx/core/elements/StringMute.h"
#include "mx/core/elements/StringMuteAttributes.h"
#include "mx/core/elements/Supports.h"
#include "mx/core/elements/SystemDistance.h"
#include "mx/core/elements/SystemDividers.h"
#include "mx/core/elements/SystemLayout.h"
#include "mx/core/elements/SystemMargins.h"
#include "mx/core/elements/ThumbPosition.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TimeSignatureGroup.h"
#include "mx/core/elements/TopSystemDistance.h"
#include "mx/core/elements/TraditionalKey.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/TupletActual.h"
#include "mx/core/elements/TupletAttributes.h"
#include "mx/core/elements/TupletNormal.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/Voice.h"
#include "mx/core/elements/Volume.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/WithBar.h"
#include "mx/core/elements/WorkNumber.h"
using namespace mx::core;
void registerElements6( std::vector<el::Klass>& all )
{
KLASS( AccordionLow )
END
KLASS( ArrowDirection )
  VALUE( ArrowDirection, Value )
END
KLASS( Barline )
  ATTRS( Barline, BarlineAttributes )
  FIELD( Barline, BarlineAttributes, location, hasLocation )
  FIELD( Barline, BarlineAttributes, segno, hasSegno )
  FIELD( Barline, BarlineAttributes, coda, hasCoda )
  FIELD( Barline, BarlineAttributes, divisions, hasDivisions )
  OPT( Barline, BarStyle, BarStyle )
  ONE( Barline, EditorialGroup, EditorialGroup )
  OPT( Barline, WavyLine, WavyLine )
  OPT( Barline, Segno, Segno )
  OPT( Barline, Coda, Coda )
  OPT( Barline, Ending, Ending )
  OPT( Barline, Repeat, Repeat )
  COLL( Barline, Fermata, Fermata, 0, 2 )
END
KLASS( BeatType )
  VALUE( BeatType, Value )
END
KLASS( Bend )
  ATTRS( Bend, BendAttributes )
  FIELD( Bend, BendAttributes, defaultX, hasDefaultX )
  FIELD( Bend, BendAttributes, defaultY, hasDefaultY )
  FIELD( Bend, BendAttributes, relativeX, hasRelativeX )
  FIELD( Bend, BendAttributes, relativeY, hasRelativeY )
  FIELD( Bend, BendAttributes, fontFamily, hasFontFamily )
  FIELD( Bend, BendAttributes, fontStyle, hasFontStyle )
  FIELD( Bend, BendAttributes, fontSize, hasFontSize )
  FIELD( Bend, BendAttributes, fontWeight, hasFontWeight )
  FIELD( Bend, BendAttributes, color, hasColor )
  FIELD( Bend, BendAttributes, accelerate, hasAccelerate )
  FIELD( Bend, BendAttributes, beats, hasBeats )
  FIELD( Bend, BendAttributes, firstBeat, hasFirstBeat )
  FIELD( Bend, BendAttributes, lastBeat, hasLastBeat )
  ONE( Bend, BendAlter, BendAlter )
  OPT( Bend, BendChoice, BendChoice )
  OPT( Bend, WithBar, WithBar )
END
KLASS( Cancel )
  ATTRS( Cancel, CancelAttributes )
  FIELD( Cancel, CancelAttributes, location, hasLocation )
  VALUE( Cancel, Value )
END
KLASS( Creator )
  ATTRS( Creator, CreatorAttributes )
  FIELD( Creator, CreatorAttributes, type, hasType )
  VALUE( Creator, Value )
END
KLASS( CueNoteGroup )
  ONE( CueNoteGroup, Cue, Cue )
  ONE( CueNoteGroup, FullNoteGroup, FullNoteGroup )
  ONE( CueNoteGroup, Duration, Duration )
END
KLASS( DegreeValue )
  ATTRS( DegreeValue, DegreeValueAttributes )
  FIELD( DegreeValue, DegreeValueAttributes, symbol, hasSymbol )
  FIELD( DegreeValue, DegreeValueAttributes, text, hasText )
  FIELD( DegreeValue, DegreeValueAttributes, defaultX, hasDefaultX )
  FIELD( DegreeValue, DegreeValueAttributes, defaultY, hasDefaultY )
  FIELD( DegreeValue, DegreeValueAttributes, relativeX, hasRelativeX )
  FIELD( DegreeValue, DegreeValueAttributes, relativeY, hasRelativeY )
  FIELD( DegreeValue, DegreeValueAttributes, fontFamily, hasFontFamily )
  FIELD( DegreeValue, DegreeValueAttributes, fontStyle, hasFontStyle )
  FIELD( DegreeValue, DegreeValueAttributes, fontSize, hasFontSize )
  FIELD( DegreeValue, DegreeValueAttributes, fontWeight, hasFontWeight )
  VALUE( DegreeValue, Value )
END
KLASS( DisplayOctave )
  VALUE( DisplayOctave, Value )
END
KLASS( Dot )
  ATTRS( Dot, EmptyPlacementAttributes )
  FIELD( Dot, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Dot, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Dot, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Dot, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Dot, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Dot, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Dot, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Dot, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Dot, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( EditorialVoiceGroup )
  OPT( EditorialVoiceGroup, Footnote, Footnote )
  OPT( EditorialVoiceGroup, Level, Level )
  OPT( EditorialVoiceGroup, Voice, Voice )
END
KLASS( EncodingChoice )
  ONE( EncodingChoice, EncodingDate, EncodingDate )
  ONE( EncodingChoice, Encoder, Encoder )
  ONE( EncodingChoice, Software, Software )
  ONE( EncodingChoice, EncodingDescription, EncodingDescription )
  ONE( EncodingChoice, Supports, Supports )
  CHOICE( EncodingChoice, { "encodingDate", 1 }, { "encoder", 2 }, { "software", 3 }, { "encodingDescription", 4 }, { "supports", 5 } )
END
KLASS( Eyeglasses )
  ATTRS( Eyeglasses, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( Fingering )
  ATTRS( Fingering, FingeringAttributes )
  FIELD( Fingering, FingeringAttributes, substitution, hasSubstitution )
  FIELD( Fingering, FingeringAttributes, alternate, hasAlternate )
  FIELD( Fingering, FingeringAttributes, defaultX, hasDefaultX )
  FIELD( Fingering, FingeringAttributes, defaultY, hasDefaultY )
  FIELD( Fingering, FingeringAttributes, relativeX, hasRelativeX )
  FIELD( Fingering, FingeringAttributes, relativeY, hasRelativeY )
  FIELD( Fingering, FingeringAttributes, fontFamily, hasFontFamily )
  FIELD( Fingering, FingeringAttributes, fontStyle, hasFontStyle )
  FIELD( Fingering, FingeringAttributes, fontSize, hasFontSize )
  FIELD( Fingering, FingeringAttributes, fontWeight, hasFontWeight )
  FIELD( Fingering, FingeringAttributes, placement, hasPlacement )
  VALUE( Fingering, Value )
END
KLASS( FrameStrings )
  VALUE( FrameStrings, Value )
END
KLASS( GraceNoteGroup )
  ONE( GraceNoteGroup, Grace, Grace )
  ONE( GraceNoteGroup, FullNoteGroup, FullNoteGroup )
  COLL( GraceNoteGroup, Tie, Tie, 0, 2 )
END
KLASS( GroupTime )
END
KLASS( HarmonyChordGroup )
  ONE( HarmonyChordGroup, Root, Root )
  ONE( HarmonyChordGroup, Function, Function )
  ONE( HarmonyChordGroup, Kind, Kind )
  OPT( HarmonyChordGroup, Inversion, Inversion )
  OPT( HarmonyChordGroup, Bass, Bass )
  COLL( HarmonyChordGroup, Degree, Degree, 0, -1 )
  CHOICE( HarmonyChordGroup, { "root", 1 }, { "function", 2 } )
END
KLASS( Identification )
  OPT( Identification, Encoding, Encoding )
  OPT( Identification, Source, Source )
  OPT( Identification, Miscellaneous, Miscellaneous )
  COLL( Identification, Creator, Creator, 0, -1 )
  COLL( Identification, Rights, Rights, 0, -1 )
  COLL( Identification, Relation, Relation, 0, -1 )
END
KLASS( Inversion )
  ATTRS( Inversion, InversionAttributes )
  FIELD( Inversion, InversionAttributes, defaultX, hasDefaultX )
  FIELD( Inversion, InversionAttributes, defaultY, hasDefaultY )
  FIELD( Inversion, InversionAttributes, relativeX, hasRelativeX )
  FIELD( Inversion, InversionAttributes, relativeY, hasRelativeY )
  FIELD( Inversion, InversionAttributes, fontFamily, hasFontFamily )
  FIELD( Inversion, InversionAttributes, fontStyle, hasFontStyle )
  FIELD( Inversion, InversionAttributes, fontSize, hasFontSize )
  FIELD( Inversion, InversionAttributes, fontWeight, hasFontWeight )
  VALUE( Inversion, Value )
END
KLASS( KeyOctave )
  ATTRS( KeyOctave, KeyOctaveAttributes )
  FIELD0( KeyOctave, KeyOctaveAttributes, number )
  FIELD( KeyOctave, KeyOctaveAttributes, cancel, hasCancel )
  VALUE( KeyOctave, Value )
END
KLASS( Line )
  VALUE( Line, Value )
END
KLASS( MeasureLayout )
  OPT( MeasureLayout, MeasureDistance, MeasureDistance )
END
KLASS( MetronomeBeam )
  ATTRS( MetronomeBeam, MetronomeBeamAttributes )
  FIELD( MetronomeBeam, MetronomeBeamAttributes, number, hasNumber )
  VALUE( MetronomeBeam, Value )
END
KLASS( MidiChannel )
  VALUE( MidiChannel, Value )
END
KLASS( Miscellaneous )
  COLL( Miscellaneous, MiscellaneousField, MiscellaneousField, 0, -1 )
END
KLASS( MusicDataGroup )
  COLL( MusicDataGroup, MusicDataChoice, MusicDataChoice, 0, -1 )
END
KLASS( NormalNotes )
  VALUE( NormalNotes, Value )
END
KLASS( NoteSize )
  ATTRS( NoteSize, NoteSizeAttributes )
  FIELD0( NoteSize, NoteSizeAttributes, type )
  VALUE( NoteSize, Value )
END
KLASS( OpenString )
  ATTRS( OpenString, EmptyPlacementAttributes )
  FIELD( OpenString, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( OpenString, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( OpenString, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( OpenString, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( OpenString, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( OpenString, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( OpenString, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( OpenString, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( OpenString, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( OtherOrnament )
  ATTRS( OtherOrnament, OtherOrnamentAttributes )
  FIELD( OtherOrnament, OtherOrnamentAttributes, defaultX, hasDefaultX )
  FIELD( OtherOrnament, OtherOrnamentAttributes, defaultY, hasDefaultY )
  FIELD( OtherOrnament, OtherOrnamentAttributes, relativeX, hasRelativeX )
  FIELD( OtherOrnament, OtherOrnamentAttributes, relativeY, hasRelativeY )
  FIELD( OtherOrnament, OtherOrnamentAttributes, fontFamily, hasFontFamily )
  FIELD( OtherOrnament, OtherOrnamentAttributes, fontStyle, hasFontStyle )
  FIELD( OtherOrnament, OtherOrnamentAttributes, fontSize, hasFontSize )
  FIELD( OtherOrnament, OtherOrnamentAttributes, fontWeight, hasFontWeight )
  FIELD( OtherOrnament, OtherOrnamentAttributes, placement, hasPlacement )
  VALUE( OtherOrnament, Value )
END
KLASS( Pan )
  VALUE( Pan, Value )
END
KLASS( PartSymbol )
  ATTRS( PartSymbol, PartSymbolAttributes )
  FIELD( PartSymbol, PartSymbolAttributes, topStaff, hasTopStaff )
  FIELD( PartSymbol, PartSymbolAttributes, bottomStaff, hasBottomStaff )
  FIELD( PartSymbol, PartSymbolAttributes, defaultX, hasDefaultX )
  FIELD( PartSymbol, PartSymbolAttributes, defaultY, hasDefaultY )
  FIELD( PartSymbol, PartSymbolAttributes, relativeX, hasRelativeX )
  FIELD( PartSymbol, PartSymbolAttributes, relativeY, hasRelativeY )
  VALUE( PartSymbol, Value )
END
KLASS( PerMinuteOrBeatUnitChoice )
  ONE( PerMinuteOrBeatUnitChoice, PerMinute, PerMinute )
  ONE( PerMinuteOrBeatUnitChoice, BeatUnitGroup, BeatUnitGroup )
  CHOICE( PerMinuteOrBeatUnitChoice, { "perMinute", 0 }, { "beatUnitGroup", 1 } )
END
KLASS( PreBend )
END
KLASS( Release )
END
KLASS( RootStep )
  ATTRS( RootStep, RootStepAttributes )
  FIELD( RootStep, RootStepAttributes, text, hasText )
  FIELD( RootStep, RootStepAttributes, defaultX, hasDefaultX )
  FIELD( RootStep, RootStepAttributes, defaultY, hasDefaultY )
  FIELD( RootStep, RootStepAttributes, relativeX, hasRelativeX )
  FIELD( RootStep, RootStepAttributes, relativeY, hasRelativeY )
  FIELD( RootStep, RootStepAttributes, fontFamily, hasFontFamily )
  FIELD( RootStep, RootStepAttributes, fontStyle, hasFontStyle )
  FIELD( RootStep, RootStepAttributes, fontSize, hasFontSize )
  FIELD( RootStep, RootStepAttributes, fontWeight, hasFontWeight )
  VALUE( RootStep, Value )
END
KLASS( ScorePartwise )
  ATTRS( ScorePartwise, ScorePartwiseAttributes )
  FIELD( ScorePartwise, ScorePartwiseAttributes, version, hasVersion )
  ONE( ScorePartwise, ScoreHeaderGroup, ScoreHeaderGroup )
  COLL( ScorePartwise, PartwisePart, PartwisePart, 1, -1 )
END
KLASS( SlashDot )
END
KLASS( Sound )
  ATTRS( Sound, SoundAttributes )
  FIELD( Sound, SoundAttributes, tempo, hasTempo )
  FIELD( Sound, SoundAttributes, dynamics, hasDynamics )
  FIELD( Sound, SoundAttributes, dacapo, hasDacapo )
  FIELD( Sound, SoundAttributes, segno, hasSegno )
  FIELD( Sound, SoundAttributes, dalsegno, hasDalsegno )
  FIELD( Sound, SoundAttributes, coda, hasCoda )
  FIELD( Sound, SoundAttributes, tocoda, hasTocoda )
  FIELD( Sound, SoundAttributes, divisions, hasDivisions )
  FIELD( Sound, SoundAttributes, forwardRepeat, hasForwardRepeat )
  FIELD( Sound, SoundAttributes, fine, hasFine )
  FIELD( Sound, SoundAttributes, timeOnly, hasTimeOnly )
  FIELD( Sound, SoundAttributes, pizzicato, hasPizzicato )
  FIELD( Sound, SoundAttributes, pan, hasPan )
  FIELD( Sound, SoundAttributes, elevation, hasElevation )
  FIELD( Sound, SoundAttributes, damperPedal, hasDamperPedal )
  FIELD( Sound, SoundAttributes, softPedal, hasSoftPedal )
  FIELD( Sound, SoundAttributes, sostenutoPedal, hasSostenutoPedal )
  OPT( Sound, MidiDevice, MidiDevice )
  OPT( Sound, MidiInstrument, MidiInstrument )
  OPT( Sound, Play, Play )
  OPT( Sound, Offset, Offset )
END
KLASS( StaffDistance )
  VALUE( StaffDistance, Value )
END
KLASS( Step )
  VALUE( Step, Value )
END
KLASS( StringMute )
  ATTRS( StringMute, StringMuteAttributes )
  FIELD0( StringMute, StringMuteAttributes, type )
  FIELD( StringMute, StringMuteAttributes, defaultX, hasDefaultX )
  FIELD( StringMute, StringMuteAttributes, defaultY, hasDefaultY )
  FIELD( StringMute, StringMuteAttributes, relativeX, hasRelativeX )
  FIELD( StringMute, StringMuteAttributes, relativeY, hasRelativeY )
  FIELD( StringMute, StringMuteAttributes, fontFamily, hasFontFamily )
  FIELD( StringMute, StringMuteAttributes, fontStyle, hasFontStyle )
  FIELD( StringMute, StringMuteAttributes, fontSize, hasFontSize )
  FIELD( StringMute, StringMuteAttributes, fontWeight, hasFontWeight )
  FIELD( StringMute, StringMuteAttributes, halign, hasHalign )
END
KLASS( SystemLayout )
  OPT( SystemLayout, SystemMargins, SystemMargins )
  OPT( SystemLayout, SystemDistance, SystemDistance )
  OPT( SystemLayout, TopSystemDistance, TopSystemDistance )
  OPT( SystemLayout, SystemDividers, SystemDividers )
END
KLASS( ThumbPosition )
  ATTRS( ThumbPosition, EmptyPlacementAttributes )
  FIELD( ThumbPosition, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( ThumbPosition, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( ThumbPosition, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( ThumbPosition, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( ThumbPosition, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( ThumbPosition, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( ThumbPosition, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( ThumbPosition, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( ThumbPosition, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( TimeSignatureGroup )
  ONE( TimeSignatureGroup, Beats, Beats )
  ONE( TimeSignatureGroup, BeatType, BeatType )
  OPT( TimeSignatureGroup, Interchangeable, Interchangeable )
END
KLASS( TraditionalKey )
  OPT( TraditionalKey, Cancel, Cancel )
  ONE( TraditionalKey, Fifths, Fifths )
  OPT( TraditionalKey, Mode, Mode )
END
KLASS( Tuplet )
  ATTRS( Tuplet, TupletAttributes )
  FIELD0( Tuplet, TupletAttributes, type )
  FIELD( Tuplet, TupletAttributes, number, hasNumber )
  FIELD( Tuplet, TupletAttributes, bracket, hasBracket )
  FIELD( Tuplet, TupletAttributes, showNumber, hasShowNumber )
  FIELD( Tuplet, TupletAttributes, showType, hasShowType )
  FIELD( Tuplet, TupletAttributes, lineShape, hasLineShape )
  FIELD( Tuplet, TupletAttributes, defaultX, hasDefaultX )
  FIELD( Tuplet, TupletAttributes, defaultY, hasDefaultY )
  FIELD( Tuplet, TupletAttributes, relativeX, hasRelativeX )
  FIELD( Tuplet, TupletAttributes, relativeY, hasRelativeY )
  FIELD( Tuplet, TupletAttributes, placement, hasPlacement )
  OPT( Tuplet, TupletActual, TupletActual )
  OPT( Tuplet, TupletNormal, TupletNormal )
END
KLASS( Unpitched )
  OPT( Unpitched, DisplayStepOctaveGroup, DisplayStepOctaveGroup )
END
KLASS( Volume )
  VALUE( Volume, Value )
END
KLASS( WorkNumber )
  VALUE( WorkNumber, Value )
END
}
