// written by lib/genelements.py
#include "mx/core/elements/AccordionHigh.h"
#include "mx/core/elements/Arrow.h"
#include "mx/core/elements/ArrowAttributes.h"
#include "mx/core/elements/ArrowGroup.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/BarStyle.h"
#include "mx/core/elements/BarStyleAttributes.h"
#include "mx/core/elements/Barline.h"
#include "mx/core/elements/Barre.h"
#include "mx/core/elements/BeatRepeat.h"
#include "mx/core/elements/BeatRepeatAttributes.h"
#include "mx/core/elements/BeatType.h"
#include "mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.h"
#include "mx/core/elements/Beats.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/Caesura.h"
#include "mx/core/elements/Capo.h"
#include "mx/core/elements/CircularArrow.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/Cue.h"
#include "mx/core/elements/DegreeType.h"
#include "mx/core/elements/DegreeTypeAttributes.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/Directive.h"
#include "mx/core/elements/DirectiveAttributes.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Doit.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EditorialVoiceDirectionGroup.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/Encoding.h"
#include "mx/core/elements/EncodingChoice.h"
#include "mx/core/elements/Ensemble.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/ExtendAttributes.h"
#include "mx/core/elements/Figure.h"
#include "mx/core/elements/FiguredBass.h"
#include "mx/core/elements/FiguredBassAttributes.h"
#include "mx/core/elements/Fingering.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/Forward.h"
#include "mx/core/elements/Frame.h"
#include "mx/core/elements/FrameNote.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/Grace.h"
#include "mx/core/elements/GraceAttributes.h"
#include "mx/core/elements/Group.h"
#include "mx/core/elements/GroupSymbol.h"
#include "mx/core/elements/GroupSymbolAttributes.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/Harmony.h"
#include "mx/core/elements/HarmonyAttributes.h"
#include "mx/core/elements/HarmonyChordGroup.h"
#include "mx/core/elements/Humming.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Interchangeable.h"
#include "mx/core/elements/InterchangeableAttributes.h"
#include "mx/core/elements/KeyChoice.h"
#include "mx/core/elements/LeftDivider.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/LevelAttributes.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/MeasureDistance.h"
#include "mx/core/elements/Metronome.h"
#include "mx/core/elements/MetronomeAttributes.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeRelationGroup.h"
#include "mx/core/elements/MidiBank.h"
#include "mx/core/elements/MidiDeviceInstrumentGroup.h"
#include "mx/core/elements/Millimeters.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/NonTraditionalKey.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteRelationNote.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/OffsetAttributes.h"
#include "mx/core/elements/Opus.h"
#include "mx/core/elements/OtherNotation.h"
#include "mx/core/elements/OtherNotationAttributes.h"
#include "mx/core/elements/PageWidth.h"
#include "mx/core/elements/PartAbbreviation.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartName.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/PartNameDisplayAttributes.h"
#include "mx/core/elements/PerMinute.h"
#include "mx/core/elements/PerMinuteAttributes.h"
#include "mx/core/elements/Pluck.h"
#include "mx/core/elements/PluckAttributes.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/Relation.h"
#include "mx/core/elements/RelationAttributes.h"
#include "mx/core/elements/RightDivider.h"
#include "mx/core/elements/RootAlter.h"
#include "mx/core/elements/RootAlterAttributes.h"
#include "mx/core/elements/ScoreInstrument.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/ScorePartAttributes.h"
#include "mx/core/elements/Slash.h"
#include "mx/core/elements/SlashAttributes.h"
#include "mx/core/elements/SlashDot.h"
#include "mx/core/elements/SlashType.h"
#include "mx/core/elements/Solo.h"
#include "mx/core/elements/SoloOrEnsembleChoice.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffDetails.h"
#include "mx/core/elements/StaffDetailsAttributes.h"
#include "mx/core/elements/StaffLines.h"
#include "mx/core/elements/StaffSize.h"
#include "mx/core/elements/StaffTuning.h"
#include "mx/core/elements/StaffType.h"
#include "mx/core/elements/Stem.h"
#include "mx/core/elements/StemAttributes.h"
#include "mx/core/elements/String.h"
#include "mx/core/elements/StringAttributes.h"
#include "mx/core/elements/SystemDividers.h"
#include "mx/core/elements/Text.h"
#include "mx/core/elements/TextAttributes.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TimeRelation.h"
#include "mx/core/elements/TouchingPitch.h"
#include "mx/core/elements/TraditionalKey.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Type.h"
#include "mx/core/elements/TypeAttributes.h"
#include "mx/core/elements/Voice.h"
#include "mx/core/elements/Work.h"
#include "mx/core/elements/WorkNumber.h"
#include "mx/core/elements/WorkTitle.h"
using namespace mx::core;
void registerElements5( std::vector<el::Klass>& all )
{
KLASS( AccordionHigh )
END
KLASS( Arrow )
  ATTRS( Arrow, ArrowAttributes )
  FIELD( Arrow, ArrowAttributes, defaultX, hasDefaultX )
  FIELD( Arrow, ArrowAttributes, defaultY, hasDefaultY )
  FIELD( Arrow, ArrowAttributes, relativeX, hasRelativeX )
  FIELD( Arrow, ArrowAttributes, relativeY, hasRelativeY )
  FIELD( Arrow, ArrowAttributes, fontFamily, hasFontFamily )
  FIELD( Arrow, ArrowAttributes, fontStyle, hasFontStyle )
  FIELD( Arrow, ArrowAttributes, fontSize, hasFontSize )
  FIELD( Arrow, ArrowAttributes, fontWeight, hasFontWeight )
  FIELD( Arrow, ArrowAttributes, color, hasColor )
  FIELD( Arrow, ArrowAttributes, placement, hasPlacement )
  ONE( Arrow, ArrowGroup, ArrowGroup )
  ONE( Arrow, CircularArrow, CircularArrow )
  CHOICE( Arrow, { "arrowGroup", 1 }, { "circularArrow", 2 } )
END
KLASS( BarStyle )
  ATTRS( BarStyle, BarStyleAttributes )
  FIELD( BarStyle, BarStyleAttributes, color, hasColor )
  VALUE( BarStyle, Value )
END
KLASS( BeatRepeat )
  ATTRS( BeatRepeat, BeatRepeatAttributes )
  FIELD0( BeatRepeat, BeatRepeatAttributes, type )
  FIELD( BeatRepeat, BeatRepeatAttributes, slashes, hasSlashes )
  FIELD( BeatRepeat, BeatRepeatAttributes, useDots, hasUseDots )
  ONE( BeatRepeat, SlashType, SlashType )
  COLLN( BeatRepeat, SlashDot, SlashDot, 0, -1 )
END
KLASS( Beats )
  VALUE( Beats, Value )
END
KLASS( Caesura )
  ATTRS( Caesura, EmptyPlacementAttributes )
  FIELD( Caesura, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Caesura, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Caesura, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Caesura, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Caesura, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Caesura, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Caesura, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Caesura, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Caesura, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Coda )
  ATTRS( Coda, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( Cue )
END
KLASS( DegreeType )
  ATTRS( DegreeType, DegreeTypeAttributes )
  FIELD( DegreeType, DegreeTypeAttributes, text, hasText )
  FIELD( DegreeType, DegreeTypeAttributes, defaultX, hasDefaultX )
  FIELD( DegreeType, DegreeTypeAttributes, defaultY, hasDefaultY )
  FIELD( DegreeType, DegreeTypeAttributes, relativeX, hasRelativeX )
  FIELD( DegreeType, DegreeTypeAttributes, relativeY, hasRelativeY )
  FIELD( DegreeType, DegreeTypeAttributes, fontFamily, hasFontFamily )
  FIELD( DegreeType, DegreeTypeAttributes, fontStyle, hasFontStyle )
  FIELD( DegreeType, DegreeTypeAttributes, fontSize, hasFontSize )
  FIELD( DegreeType, DegreeTypeAttributes, fontWeight, hasFontWeight )
  VALUE( DegreeType, Value )
END
KLASS( Directive )
  ATTRS( Directive, DirectiveAttributes )
  FIELD( Directive, DirectiveAttributes, defaultX, hasDefaultX )
  FIELD( Directive, DirectiveAttributes, defaultY, hasDefaultY )
  FIELD( Directive, DirectiveAttributes, relativeX, hasRelativeX )
  FIELD( Directive, DirectiveAttributes, relativeY, hasRelativeY )
  FIELD( Directive, DirectiveAttributes, fontFamily, hasFontFamily )
  FIELD( Directive, DirectiveAttributes, fontStyle, hasFontStyle )
  FIELD( Directive, DirectiveAttributes, fontSize, hasFontSize )
  FIELD( Directive, DirectiveAttributes, fontWeight, hasFontWeight )
  FIELD( Directive, DirectiveAttributes, lang, hasLang )
  VALUE( Directive, Value )
END
KLASS( Doit )
  ATTRS( Doit, EmptyLineAttributes )
  FIELD( Doit, EmptyLineAttributes, lineShape, hasLineShape )
  FIELD( Doit, EmptyLineAttributes, lineType, hasLineType )
  FIELD( Doit, EmptyLineAttributes, dashLength, hasDashLength )
  FIELD( Doit, EmptyLineAttributes, spaceLength, hasSpaceLength )
  FIELD( Doit, EmptyLineAttributes, defaultX, hasDefaultX )
  FIELD( Doit, EmptyLineAttributes, defaultY, hasDefaultY )
  FIELD( Doit, EmptyLineAttributes, relativeX, hasRelativeX )
  FIELD( Doit, EmptyLineAttributes, relativeY, hasRelativeY )
  FIELD( Doit, EmptyLineAttributes, fontFamily, hasFontFamily )
  FIELD( Doit, EmptyLineAttributes, fontStyle, hasFontStyle )
  FIELD( Doit, EmptyLineAttributes, fontSize, hasFontSize )
  FIELD( Doit, EmptyLineAttributes, fontWeight, hasFontWeight )
  FIELD( Doit, EmptyLineAttributes, placement, hasPlacement )
END
KLASS( EditorialVoiceDirectionGroup )
  OPT( EditorialVoiceDirectionGroup, Footnote, Footnote )
  OPT( EditorialVoiceDirectionGroup, Level, Level )
  OPT( EditorialVoiceDirectionGroup, Voice, Voice )
END
KLASS( Encoding )
  COLLN( Encoding, EncodingChoice, EncodingChoice, 0, -1 )
END
KLASS( Extend )
  ATTRS( Extend, ExtendAttributes )
  FIELD( Extend, ExtendAttributes, type, hasType )
  FIELD( Extend, ExtendAttributes, defaultX, hasDefaultX )
  FIELD( Extend, ExtendAttributes, defaultY, hasDefaultY )
  FIELD( Extend, ExtendAttributes, relativeX, hasRelativeX )
  FIELD( Extend, ExtendAttributes, relativeY, hasRelativeY )
  FIELD( Extend, ExtendAttributes, fontFamily, hasFontFamily )
  FIELD( Extend, ExtendAttributes, fontStyle, hasFontStyle )
  FIELD( Extend, ExtendAttributes, fontSize, hasFontSize )
  FIELD( Extend, ExtendAttributes, fontWeight, hasFontWeight )
END
KLASS( FiguredBass )
  ATTRS( FiguredBass, FiguredBassAttributes )
  FIELD( FiguredBass, FiguredBassAttributes, defaultX, hasDefaultX )
  FIELD( FiguredBass, FiguredBassAttributes, defaultY, hasDefaultY )
  FIELD( FiguredBass, FiguredBassAttributes, relativeX, hasRelativeX )
  FIELD( FiguredBass, FiguredBassAttributes, relativeY, hasRelativeY )
  FIELD( FiguredBass, FiguredBassAttributes, fontFamily, hasFontFamily )
  FIELD( FiguredBass, FiguredBassAttributes, fontStyle, hasFontStyle )
  FIELD( FiguredBass, FiguredBassAttributes, fontSize, hasFontSize )
  FIELD( FiguredBass, FiguredBassAttributes, fontWeight, hasFontWeight )
  FIELD( FiguredBass, FiguredBassAttributes, color, hasColor )
  FIELD( FiguredBass, FiguredBassAttributes, printObject, hasPrintObject )
  FIELD( FiguredBass, FiguredBassAttributes, printDot, hasPrintDot )
  FIELD( FiguredBass, FiguredBassAttributes, printSpacing, hasPrintSpacing )
  FIELD( FiguredBass, FiguredBassAttributes, printLyric, hasPrintLyric )
  FIELD( FiguredBass, FiguredBassAttributes, parentheses, hasParentheses )
  OPT( FiguredBass, Duration, Duration )
  ONE( FiguredBass, EditorialGroup, EditorialGroup )
  COLL( FiguredBass, Figure, Figure, 1, -1 )
END
KLASS( FrameNote )
  ONE( FrameNote, String, String )
  ONE( FrameNote, Fret, Fret )
  OPT( FrameNote, Fingering, Fingering )
  OPT( FrameNote, Barre, Barre )
END
KLASS( Grace )
  ATTRS( Grace, GraceAttributes )
  FIELD( Grace, GraceAttributes, stealTimePrevious, hasStealTimePrevious )
  FIELD( Grace, GraceAttributes, stealTimeFollowing, hasStealTimeFollowing )
  FIELD( Grace, GraceAttributes, makeTime, hasMakeTime )
  FIELD( Grace, GraceAttributes, slash, hasSlash )
END
KLASS( GroupSymbol )
  ATTRS( GroupSymbol, GroupSymbolAttributes )
  FIELD( GroupSymbol, GroupSymbolAttributes, defaultX, hasDefaultX )
  FIELD( GroupSymbol, GroupSymbolAttributes, defaultY, hasDefaultY )
  FIELD( GroupSymbol, GroupSymbolAttributes, relativeX, hasRelativeX )
  FIELD( GroupSymbol, GroupSymbolAttributes, relativeY, hasRelativeY )
  VALUE( GroupSymbol, Value )
END
KLASS( Harmony )
  ATTRS( Harmony, HarmonyAttributes )
  FIELD( Harmony, HarmonyAttributes, type, hasType )
  FIELD( Harmony, HarmonyAttributes, printObject, hasPrintObject )
  FIELD( Harmony, HarmonyAttributes, printFrame, hasPrintFrame )
  FIELD( Harmony, HarmonyAttributes, defaultX, hasDefaultX )
  FIELD( Harmony, HarmonyAttributes, defaultY, hasDefaultY )
  FIELD( Harmony, HarmonyAttributes, relativeX, hasRelativeX )
  FIELD( Harmony, HarmonyAttributes, relativeY, hasRelativeY )
  FIELD( Harmony, HarmonyAttributes, fontFamily, hasFontFamily )
  FIELD( Harmony, HarmonyAttributes, fontStyle, hasFontStyle )
  FIELD( Harmony, HarmonyAttributes, fontSize, hasFontSize )
  FIELD( Harmony, HarmonyAttributes, fontWeight, hasFontWeight )
  FIELD( Harmony, HarmonyAttributes, color, hasColor )
  FIELD( Harmony, HarmonyAttributes, placement, hasPlacement )
  OPT( Harmony, Frame, Frame )
  OPT( Harmony, Offset, Offset )
  ONE( Harmony, EditorialGroup, EditorialGroup )
  OPT( Harmony, Staff, Staff )
  COLL( Harmony, HarmonyChordGroup, HarmonyChordGroup, 1, -1 )
END
KLASS( Humming )
END
KLASS( Interchangeable )
  ATTRS( Interchangeable, InterchangeableAttributes )
  FIELD( Interchangeable, InterchangeableAttributes, symbol, hasSymbol )
  FIELD( Interchangeable, InterchangeableAttributes, separator, hasSeparator )
  OPT( Interchangeable, TimeRelation, TimeRelation )
  ONE( Interchangeable, Beats, Beats )
  ONE( Interchangeable, BeatType, BeatType )
END
KLASS( KeyChoice )
  ONE( KeyChoice, TraditionalKey, TraditionalKey )
  COLLN( KeyChoice, NonTraditionalKey, NonTraditionalKey, 0, -1 )
  CHOICE( KeyChoice, { "traditionalKey", 0 }, { "nonTraditionalKey", 1 } )
END
KLASS( Level )
  ATTRS( Level, LevelAttributes )
  FIELD( Level, LevelAttributes, reference, hasReference )
  FIELD( Level, LevelAttributes, parentheses, hasParentheses )
  FIELD( Level, LevelAttributes, bracket, hasBracket )
  FIELD( Level, LevelAttributes, size, hasSize )
  VALUE( Level, Value )
END
KLASS( MeasureDistance )
  VALUE( MeasureDistance, Value )
END
KLASS( Metronome )
  ATTRS( Metronome, MetronomeAttributes )
  FIELD( Metronome, MetronomeAttributes, defaultX, hasDefaultX )
  FIELD( Metronome, MetronomeAttributes, defaultY, hasDefaultY )
  FIELD( Metronome, MetronomeAttributes, relativeX, hasRelativeX )
  FIELD( Metronome, MetronomeAttributes, relativeY, hasRelativeY )
  FIELD( Metronome, MetronomeAttributes, fontFamily, hasFontFamily )
  FIELD( Metronome, MetronomeAttributes, fontStyle, hasFontStyle )
  FIELD( Metronome, MetronomeAttributes, fontSize, hasFontSize )
  FIELD( Metronome, MetronomeAttributes, fontWeight, hasFontWeight )
  FIELD( Metronome, MetronomeAttributes, color, hasColor )
  FIELD( Metronome, MetronomeAttributes, halign, hasHalign )
  FIELD( Metronome, MetronomeAttributes, valign, hasValign )
  FIELD( Metronome, MetronomeAttributes, justify, hasJustify )
  FIELD( Metronome, MetronomeAttributes, parentheses, hasParentheses )
  ONE( Metronome, BeatUnitPerOrNoteRelationNoteChoice, BeatUnitPerOrNoteRelationNoteChoice )
END
KLASS( MidiBank )
  VALUE( MidiBank, Value )
END
KLASS( Millimeters )
  VALUE( Millimeters, Value )
END
KLASS( MusicDataChoice )
  ONE( MusicDataChoice, Note, Note )
  ONE( MusicDataChoice, Backup, Backup )
  ONE( MusicDataChoice, Forward, Forward )
  ONE( MusicDataChoice, Direction, Direction )
  ONE( MusicDataChoice, Properties, Properties )
  ONE( MusicDataChoice, Harmony, Harmony )
  ONE( MusicDataChoice, FiguredBass, FiguredBass )
  ONE( MusicDataChoice, Print, Print )
  ONE( MusicDataChoice, Sound, Sound )
  ONE( MusicDataChoice, Barline, Barline )
  ONE( MusicDataChoice, Grouping, Grouping )
  ONE( MusicDataChoice, Link, Link )
  ONE( MusicDataChoice, Bookmark, Bookmark )
  CHOICE( MusicDataChoice, { "note", 1 }, { "backup", 2 }, { "forward", 3 }, { "direction", 4 }, { "properties", 5 }, { "harmony", 6 }, { "figuredBass", 7 }, { "print", 8 }, { "sound", 9 }, { "barline", 10 }, { "grouping", 11 }, { "link", 12 }, { "bookmark", 13 } )
END
KLASS( NormalNoteGroup )
  ONE( NormalNoteGroup, FullNoteGroup, FullNoteGroup )
  ONE( NormalNoteGroup, Duration, Duration )
  COLL( NormalNoteGroup, Tie, Tie, 0, 2 )
END
KLASS( NoteRelationNote )
  OPT( NoteRelationNote, MetronomeRelationGroup, MetronomeRelationGroup )
  COLLN( NoteRelationNote, MetronomeNote, MetronomeNote, 1, -1 )
END
KLASS( Offset )
  ATTRS( Offset, OffsetAttributes )
  FIELD( Offset, OffsetAttributes, sound, hasSound )
  VALUE( Offset, Value )
END
KLASS( OtherNotation )
  ATTRS( OtherNotation, OtherNotationAttributes )
  FIELD0( OtherNotation, OtherNotationAttributes, type )
  FIELD( OtherNotation, OtherNotationAttributes, number, hasNumber )
  FIELD( OtherNotation, OtherNotationAttributes, printObject, hasPrintObject )
  FIELD( OtherNotation, OtherNotationAttributes, defaultX, hasDefaultX )
  FIELD( OtherNotation, OtherNotationAttributes, defaultY, hasDefaultY )
  FIELD( OtherNotation, OtherNotationAttributes, relativeX, hasRelativeX )
  FIELD( OtherNotation, OtherNotationAttributes, relativeY, hasRelativeY )
  FIELD( OtherNotation, OtherNotationAttributes, fontFamily, hasFontFamily )
  FIELD( OtherNotation, OtherNotationAttributes, fontStyle, hasFontStyle )
  FIELD( OtherNotation, OtherNotationAttributes, fontSize, hasFontSize )
  FIELD( OtherNotation, OtherNotationAttributes, fontWeight, hasFontWeight )
  FIELD( OtherNotation, OtherNotationAttributes, placement, hasPlacement )
  VALUE( OtherNotation, Value )
END
KLASS( PageWidth )
  VALUE( PageWidth, Value )
END
KLASS( PartNameDisplay )
  ATTRS( PartNameDisplay, PartNameDisplayAttributes )
  FIELD( PartNameDisplay, PartNameDisplayAttributes, printObject, hasPrintObject )
  COLL( PartNameDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 )
END
KLASS( PerMinute )
  ATTRS( PerMinute, PerMinuteAttributes )
  FIELD( PerMinute, PerMinuteAttributes, fontFamily, hasFontFamily )
  FIELD( PerMinute, PerMinuteAttributes, fontStyle, hasFontStyle )
  FIELD( PerMinute, PerMinuteAttributes, fontSize, hasFontSize )
  FIELD( PerMinute, PerMinuteAttributes, fontWeight, hasFontWeight )
  VALUE( PerMinute, Value )
END
KLASS( Pluck )
  ATTRS( Pluck, PluckAttributes )
  FIELD( Pluck, PluckAttributes, defaultX, hasDefaultX )
  FIELD( Pluck, PluckAttributes, defaultY, hasDefaultY )
  FIELD( Pluck, PluckAttributes, relativeX, hasRelativeX )
  FIELD( Pluck, PluckAttributes, relativeY, hasRelativeY )
  FIELD( Pluck, PluckAttributes, fontFamily, hasFontFamily )
  FIELD( Pluck, PluckAttributes, fontStyle, hasFontStyle )
  FIELD( Pluck, PluckAttributes, fontSize, hasFontSize )
  FIELD( Pluck, PluckAttributes, fontWeight, hasFontWeight )
  FIELD( Pluck, PluckAttributes, placement, hasPlacement )
  VALUE( Pluck, Value )
END
KLASS( Relation )
  ATTRS( Relation, RelationAttributes )
  FIELD( Relation, RelationAttributes, type, hasType )
  VALUE( Relation, Value )
END
KLASS( RootAlter )
  ATTRS( RootAlter, RootAlterAttributes )
  FIELD( RootAlter, RootAlterAttributes, printObject, hasPrintObject )
  FIELD( RootAlter, RootAlterAttributes, defaultX, hasDefaultX )
  FIELD( RootAlter, RootAlterAttributes, defaultY, hasDefaultY )
  FIELD( RootAlter, RootAlterAttributes, relativeX, hasRelativeX )
  FIELD( RootAlter, RootAlterAttributes, relativeY, hasRelativeY )
  FIELD( RootAlter, RootAlterAttributes, fontFamily, hasFontFamily )
  FIELD( RootAlter, RootAlterAttributes, fontStyle, hasFontStyle )
  FIELD( RootAlter, RootAlterAttributes, fontSize, hasFontSize )
  FIELD( RootAlter, RootAlterAttributes, fontWeight, hasFontWeight )
  FIELD( RootAlter, RootAlterAttributes, location, hasLocation )
  VALUE( RootAlter, Value )
END
KLASS( ScorePart )
  ATTRS( ScorePart, ScorePartAttributes )
  FIELD0( ScorePart, ScorePartAttributes, id )
  OPT( ScorePart, Identification, Identification )
  ONE( ScorePart, PartName, PartName )
  OPT( ScorePart, PartNameDisplay, PartNameDisplay )
  OPT( ScorePart, PartAbbreviation, PartAbbreviation )
  OPT( ScorePart, PartAbbreviationDisplay, PartAbbreviationDisplay )
  COLL( ScorePart, Group, Group, 0, -1 )
  COLL( ScorePart, ScoreInstrument, ScoreInstrument, 0, -1 )
  COLL( ScorePart, MidiDeviceInstrumentGroup, MidiDeviceInstrumentGroup, 0, -1 )
END
KLASS( Slash )
  ATTRS( Slash, SlashAttributes )
  FIELD0( Slash, SlashAttributes, type )
  FIELD( Slash, SlashAttributes, useDots, hasUseDots )
  FIELD( Slash, SlashAttributes, useStems, hasUseStems )
  ONE( Slash, SlashType, SlashType )
  COLLN( Slash, SlashDot, SlashDot, 0, -1 )
END
KLASS( SoloOrEnsembleChoice )
  ONE( SoloOrEnsembleChoice, Solo, Solo )
  ONE( SoloOrEnsembleChoice, Ensemble, Ensemble )
  CHOICE( SoloOrEnsembleChoice, { "solo", 1 }, { "ensemble", 2 } )
END
KLASS( StaffDetails )
  ATTRS( StaffDetails, StaffDetailsAttributes )
  FIELD( StaffDetails, StaffDetailsAttributes, number, hasNumber )
  FIELD( StaffDetails, StaffDetailsAttributes, showFrets, hasShowFrets )
  FIELD( StaffDetails, StaffDetailsAttributes, printObject, hasPrintObject )
  FIELD( StaffDetails, StaffDetailsAttributes, printSpacing, hasPrintSpacing )
  OPT( StaffDetails, StaffType, StaffType )
  OPT( StaffDetails, StaffLines, StaffLines )
  OPT( StaffDetails, Capo, Capo )
  OPT( StaffDetails, StaffSize, StaffSize )
  COLLN( StaffDetails, StaffTuning, StaffTuning, 0, -1 )
END
KLASS( Stem )
  ATTRS( Stem, StemAttributes )
  FIELD( Stem, StemAttributes, defaultX, hasDefaultX )
  FIELD( Stem, StemAttributes, defaultY, hasDefaultY )
  FIELD( Stem, StemAttributes, relativeX, hasRelativeX )
  FIELD( Stem, StemAttributes, relativeY, hasRelativeY )
  VALUE( Stem, Value )
END
KLASS( String )
  ATTRS( String, StringAttributes )
  FIELD( String, StringAttributes, defaultX, hasDefaultX )
  FIELD( String, StringAttributes, defaultY, hasDefaultY )
  FIELD( String, StringAttributes, relativeX, hasRelativeX )
  FIELD( String, StringAttributes, relativeY, hasRelativeY )
  FIELD( String, StringAttributes, fontFamily, hasFontFamily )
  FIELD( String, StringAttributes, fontStyle, hasFontStyle )
  FIELD( String, StringAttributes, fontSize, hasFontSize )
  FIELD( String, StringAttributes, fontWeight, hasFontWeight )
  FIELD( String, StringAttributes, color, hasColor )
  FIELD( String, StringAttributes, placement, hasPlacement )
  VALUE( String, Value )
END
KLASS( SystemDividers )
  ONE( SystemDividers, LeftDivider, LeftDivider )
  ONE( SystemDividers, RightDivider, RightDivider )
END
KLASS( Text )
  ATTRS( Text, TextAttributes )
  FIELD( Text, TextAttributes, fontFamily, hasFontFamily )
  FIELD( Text, TextAttributes, fontStyle, hasFontStyle )
  FIELD( Text, TextAttributes, fontSize, hasFontSize )
  FIELD( Text, TextAttributes, fontWeight, hasFontWeight )
  FIELD( Text, TextAttributes, underline, hasUnderline )
  FIELD( Text, TextAttributes, overline, hasOverline )
  FIELD( Text, TextAttributes, lineThrough, hasLineThrough )
  FIELD( Text, TextAttributes, rotation, hasRotation )
  FIELD( Text, TextAttributes, letterSpacing, hasLetterSpacing )
  FIELD( Text, TextAttributes, lang, hasLang )
  VALUE( Text, Value )
END
KLASS( TimeRelation )
  VALUE( TimeRelation, Value )
END
KLASS( TouchingPitch )
END
KLASS( TuningStep )
  VALUE( TuningStep, Value )
END
KLASS( Type )
  ATTRS( Type, TypeAttributes )
  FIELD( Type, TypeAttributes, size, hasSize )
  VALUE( Type, Value )
END
KLASS( Voice )
  VALUE( Voice, Value )
END
KLASS( Work )
  OPT( Work, WorkNumber, WorkNumber )
  OPT( Work, WorkTitle, WorkTitle )
  OPT( Work, Opus, Opus )
END
}
