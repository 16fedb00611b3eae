// written by lib/genelements.py
#include "mx/core/elements/Accidental.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/AccidentalTextAttributes.h"
#include "mx/core/elements/ActualNotes.h"
#include "mx/core/elements/Appearance.h"
#include "mx/core/elements/Artificial.h"
#include "mx/core/elements/BasePitch.h"
#include "mx/core/elements/BassStep.h"
#include "mx/core/elements/BassStepAttributes.h"
#include "mx/core/elements/Beam.h"
#include "mx/core/elements/BeatUnitPer.h"
#include "mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.h"
#include "mx/core/elements/Bracket.h"
#include "mx/core/elements/BracketAttributes.h"
#include "mx/core/elements/Clef.h"
#include "mx/core/elements/ClefAttributes.h"
#include "mx/core/elements/ClefOctaveChange.h"
#include "mx/core/elements/Credit.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsAttributes.h"
#include "mx/core/elements/Defaults.h"
#include "mx/core/elements/Degree.h"
#include "mx/core/elements/DegreeAlter.h"
#include "mx/core/elements/DegreeAttributes.h"
#include "mx/core/elements/DegreeType.h"
#include "mx/core/elements/DegreeValue.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/DirectionAttributes.h"
#include "mx/core/elements/DirectionType.h"
#include "mx/core/elements/Distance.h"
#include "mx/core/elements/DistanceAttributes.h"
#include "mx/core/elements/Dot.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialVoiceDirectionGroup.h"
#include "mx/core/elements/EditorialVoiceGroup.h"
#include "mx/core/elements/ElisionSyllabicGroup.h"
#include "mx/core/elements/ElisionSyllabicTextGroup.h"
#include "mx/core/elements/EmptyFontAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/EmptyTrillSoundAttributes.h"
#include "mx/core/elements/Ending.h"
#include "mx/core/elements/EndingAttributes.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/Figure.h"
#include "mx/core/elements/FigureNumber.h"
#include "mx/core/elements/FirstFret.h"
#include "mx/core/elements/Frame.h"
#include "mx/core/elements/FrameAttributes.h"
#include "mx/core/elements/FrameFrets.h"
#include "mx/core/elements/FrameNote.h"
#include "mx/core/elements/FrameStrings.h"
#include "mx/core/elements/Glass.h"
#include "mx/core/elements/GroupName.h"
#include "mx/core/elements/GroupNameAttributes.h"
#include "mx/core/elements/HarmonicInfoChoice.h"
#include "mx/core/elements/HoleShape.h"
#include "mx/core/elements/Identification.h"
#include "mx/core/elements/Instrument.h"
#include "mx/core/elements/InstrumentSound.h"
#include "mx/core/elements/Ipa.h"
#include "mx/core/elements/KeyAccidental.h"
#include "mx/core/elements/KeyAlter.h"
#include "mx/core/elements/KeyStep.h"
#include "mx/core/elements/LeftDivider.h"
#include "mx/core/elements/Line.h"
#include "mx/core/elements/LineWidth.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/LyricLanguage.h"
#include "mx/core/elements/LyricLanguageAttributes.h"
#include "mx/core/elements/Membrane.h"
#include "mx/core/elements/MetronomeTuplet.h"
#include "mx/core/elements/MetronomeTupletAttributes.h"
#include "mx/core/elements/MidiProgram.h"
#include "mx/core/elements/MovementNumber.h"
#include "mx/core/elements/MovementTitle.h"
#include "mx/core/elements/Mute.h"
#include "mx/core/elements/NonTraditionalKey.h"
#include "mx/core/elements/NormalNotes.h"
#include "mx/core/elements/NormalTypeNormalDotGroup.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/NoteAttributes.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/NoteRelationNote.h"
#include "mx/core/elements/NoteSize.h"
#include "mx/core/elements/Notehead.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/OctaveChange.h"
#include "mx/core/elements/Offset.h"
#include "mx/core/elements/OtherAppearance.h"
#include "mx/core/elements/OtherArticulation.h"
#include "mx/core/elements/OtherArticulationAttributes.h"
#include "mx/core/elements/OtherPlay.h"
#include "mx/core/elements/PageHeight.h"
#include "mx/core/elements/PageLayout.h"
#include "mx/core/elements/PageMargins.h"
#include "mx/core/elements/PageWidth.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupOrScorePart.h"
#include "mx/core/elements/PartList.h"
#include "mx/core/elements/PedalStep.h"
#include "mx/core/elements/Play.h"
#include "mx/core/elements/PlayAttributes.h"
#include "mx/core/elements/Prefix.h"
#include "mx/core/elements/PullOff.h"
#include "mx/core/elements/PullOffAttributes.h"
#include "mx/core/elements/Rights.h"
#include "mx/core/elements/RightsAttributes.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScorePart.h"
#include "mx/core/elements/SemiPitched.h"
#include "mx/core/elements/Shake.h"
#include "mx/core/elements/Sign.h"
#include "mx/core/elements/Software.h"
#include "mx/core/elements/Sound.h"
#include "mx/core/elements/SoundingPitch.h"
#include "mx/core/elements/Staccato.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/StaffType.h"
#include "mx/core/elements/Stem.h"
#include "mx/core/elements/Stopped.h"
#include "mx/core/elements/Suffix.h"
#include "mx/core/elements/Syllabic.h"
#include "mx/core/elements/SyllabicTextGroup.h"
#include "mx/core/elements/Tenths.h"
#include "mx/core/elements/Text.h"
#include "mx/core/elements/TimeModification.h"
#include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
#include "mx/core/elements/TopMargin.h"
#include "mx/core/elements/TouchingPitch.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/TupletTypeAttributes.h"
#include "mx/core/elements/Type.h"
#include "mx/core/elements/VirtualLibrary.h"
#include "mx/core/elements/WordFont.h"
#include "mx/core/elements/Work.h"
using namespace mx::core;
void registerElements3( std::vector<el::Klass>& all )
{
KLASS( AccidentalText )
  ATTRS( AccidentalText, AccidentalTextAttributes )
  FIELD( AccidentalText, AccidentalTextAttributes, justify, hasJustify )
  FIELD( AccidentalText, AccidentalTextAttributes, defaultX, hasDefaultX )
  FIELD( AccidentalText, AccidentalTextAttributes, defaultY, hasDefaultY )
  FIELD( AccidentalText, AccidentalTextAttributes, relativeX, hasRelativeX )
  FIELD( AccidentalText, AccidentalTextAttributes, relativeY, hasRelativeY )
  FIELD( AccidentalText, AccidentalTextAttributes, fontFamily, hasFontFamily )
  FIELD( AccidentalText, AccidentalTextAttributes, fontStyle, hasFontStyle )
  FIELD( AccidentalText, AccidentalTextAttributes, fontSize, hasFontSize )
  FIELD( AccidentalText, AccidentalTextAttributes, fontWeight, hasFontWeight )
  FIELD( AccidentalText, AccidentalTextAttributes, halign, hasHalign )
  FIELD( AccidentalText, AccidentalTextAttributes, underline, hasUnderline )
  FIELD( AccidentalText, AccidentalTextAttributes, overline, hasOverline )
  FIELD( AccidentalText, AccidentalTextAttributes, lineThrough, hasLineThrough )
  FIELD( AccidentalText, AccidentalTextAttributes, rotation, hasRotation )
  FIELD( AccidentalText, AccidentalTextAttributes, letterSpacing, hasLetterSpacing )
  FIELD( AccidentalText, AccidentalTextAttributes, lineHeight, hasLineHeight )
  FIELD( AccidentalText, AccidentalTextAttributes, lang, hasLang )
  FIELD( AccidentalText, AccidentalTextAttributes, space, hasSpace )
  FIELD( AccidentalText, AccidentalTextAttributes, enclosure, hasEnclosure )
  VALUE( AccidentalText, Value )
END
KLASS( Appearance )
  COLL( Appearance, LineWidth, LineWidth, 0, -1 )
  COLL( Appearance, NoteSize, NoteSize, 0, -1 )
  COLL( Appearance, Distance, Distance, 0, -1 )
  COLL( Appearance, OtherAppearance, OtherAppearance, 0, -1 )
END
KLASS( Artificial )
END
KLASS( BassStep )
  ATTRS( BassStep, BassStepAttributes )
  FIELD( BassStep, BassStepAttributes, text, hasText )
  FIELD( BassStep, BassStepAttributes, defaultX, hasDefaultX )
  FIELD( BassStep, BassStepAttributes, defaultY, hasDefaultY )
  FIELD( BassStep, BassStepAttributes, relativeX, hasRelativeX )
  FIELD( BassStep, BassStepAttributes, relativeY, hasRelativeY )
  FIELD( BassStep, BassStepAttributes, fontFamily, hasFontFamily )
  FIELD( BassStep, BassStepAttributes, fontStyle, hasFontStyle )
  FIELD( BassStep, BassStepAttributes, fontSize, hasFontSize )
  FIELD( BassStep, BassStepAttributes, fontWeight, hasFontWeight )
  VALUE( BassStep, Value )
END
KLASS( BeatUnitPerOrNoteRelationNoteChoice )
  ONE( BeatUnitPerOrNoteRelationNoteChoice, BeatUnitPer, BeatUnitPer )
  ONE( BeatUnitPerOrNoteRelationNoteChoice, NoteRelationNote, NoteRelationNote )
  CHOICE( BeatUnitPerOrNoteRelationNoteChoice, { "beatUnitPer", 0 }, { "noteRelationNote", 1 } )
END
KLASS( Bracket )
  ATTRS( Bracket, BracketAttributes )
  FIELD0( Bracket, BracketAttributes, type )
  FIELD( Bracket, BracketAttributes, number, hasNumber )
  FIELD0( Bracket, BracketAttributes, lineEnd )
  FIELD( Bracket, BracketAttributes, endLength, hasEndLength )
  FIELD( Bracket, BracketAttributes, lineType, hasLineType )
  FIELD( Bracket, BracketAttributes, dashLength, hasDashLength )
  FIELD( Bracket, BracketAttributes, spaceLength, hasSpaceLength )
  FIELD( Bracket, BracketAttributes, defaultX, hasDefaultX )
  FIELD( Bracket, BracketAttributes, defaultY, hasDefaultY )
  FIELD( Bracket, BracketAttributes, relativeX, hasRelativeX )
  FIELD( Bracket, BracketAttributes, relativeY, hasRelativeY )
  FIELD( Bracket, BracketAttributes, color, hasColor )
END
KLASS( Clef )
  ATTRS( Clef, ClefAttributes )
  FIELD( Clef, ClefAttributes, number, hasNumber )
  FIELD( Clef, ClefAttributes, additional, hasAdditional )
  FIELD( Clef, ClefAttributes, size, hasSize )
  FIELD( Clef, ClefAttributes, afterBarline, hasAfterBarline )
  FIELD( Clef, ClefAttributes, defaultX, hasDefaultX )
  FIELD( Clef, ClefAttributes, defaultY, hasDefaultY )
  FIELD( Clef, ClefAttributes, relativeX, hasRelativeX )
  FIELD( Clef, ClefAttributes, relativeY, hasRelativeY )
  FIELD( Clef, ClefAttributes, fontFamily, hasFontFamily )
  FIELD( Clef, ClefAttributes, fontStyle, hasFontStyle )
  FIELD( Clef, ClefAttributes, fontSize, hasFontSize )
  FIELD( Clef, ClefAttributes, fontWeight, hasFontWeight )
  FIELD( Clef, ClefAttributes, color, hasColor )
  FIELD( Clef, ClefAttributes, printObject, hasPrintObject )
  ONE( Clef, Sign, Sign )
  OPT( Clef, Line, Line )
  OPT( Clef, ClefOctaveChange, ClefOctaveChange )
END
KLASS( CreditWords )
  ATTRS( CreditWords, CreditWordsAttributes )
  FIELD( CreditWords, CreditWordsAttributes, justify, hasJustify )
  FIELD( CreditWords, CreditWordsAttributes, defaultX, hasDefaultX )
  FIELD( CreditWords, CreditWordsAttributes, defaultY, hasDefaultY )
  FIELD( CreditWords, CreditWordsAttributes, relativeX, hasRelativeX )
  FIELD( CreditWords, CreditWordsAttributes, relativeY, hasRelativeY )
  FIELD( CreditWords, CreditWordsAttributes, fontFamily, hasFontFamily )
  FIELD( CreditWords, CreditWordsAttributes, fontStyle, hasFontStyle )
  FIELD( CreditWords, CreditWordsAttributes, fontSize, hasFontSize )
  FIELD( CreditWords, CreditWordsAttributes, fontWeight, hasFontWeight )
  FIELD( CreditWords, CreditWordsAttributes, color, hasColor )
  FIELD( CreditWords, CreditWordsAttributes, halign, hasHalign )
  FIELD( CreditWords, CreditWordsAttributes, valign, hasValign )
  FIELD( CreditWords, CreditWordsAttributes, underline, hasUnderline )
  FIELD( CreditWords, CreditWordsAttributes, overline, hasOverline )
  FIELD( CreditWords, CreditWordsAttributes, lineThrough, hasLineThrough )
  FIELD( CreditWords, CreditWordsAttributes, rotation, hasRotation )
  FIELD( CreditWords, CreditWordsAttributes, letterSpacing, hasLetterSpacing )
  FIELD( CreditWords, CreditWordsAttributes, lineHeight, hasLineHeight )
  FIELD( CreditWords, CreditWordsAttributes, lang, hasLang )
  FIELD( CreditWords, CreditWordsAttributes, space, hasSpace )
  FIELD( CreditWords, CreditWordsAttributes, enclosure, hasEnclosure )
  VALUE( CreditWords, Value )
END
KLASS( Degree )
  ATTRS( Degree, DegreeAttributes )
  FIELD( Degree, DegreeAttributes, printObject, hasPrintObject )
  ONE( Degree, DegreeValue, DegreeValue )
  ONE( Degree, DegreeAlter, DegreeAlter )
  ONE( Degree, DegreeType, DegreeType )
END
KLASS( Direction )
  ATTRS( Direction, DirectionAttributes )
  FIELD( Direction, DirectionAttributes, placement, hasPlacement )
  FIELD( Direction, DirectionAttributes, directive, hasDirective )
  OPT( Direction, Offset, Offset )
  ONE( Direction, EditorialVoiceDirectionGroup, EditorialVoiceDirectionGroup )
  OPT( Direction, Staff, Staff )
  OPT( Direction, Sound, Sound )
  COLL( Direction, DirectionType, DirectionType, 1, -1 )
END
KLASS( Distance )
  ATTRS( Distance, DistanceAttributes )
  FIELD0( Distance, DistanceAttributes, type )
  VALUE( Distance, Value )
END
KLASS( Dynamics )
  VALUE( Dynamics, Value )
END
KLASS( ElisionSyllabicTextGroup )
  OPT( ElisionSyllabicTextGroup, ElisionSyllabicGroup, ElisionSyllabicGroup )
  ONE( ElisionSyllabicTextGroup, Text, Text )
  VALUE( ElisionSyllabicTextGroup, Text )
END
KLASS( Ending )
  ATTRS( Ending, EndingAttributes )
  FIELD0( Ending, EndingAttributes, number )
  FIELD0( Ending, EndingAttributes, type )
  FIELD( Ending, EndingAttributes, printObject, hasPrintObject )
  FIELD( Ending, EndingAttributes, defaultX, hasDefaultX )
  FIELD( Ending, EndingAttributes, defaultY, hasDefaultY )
  FIELD( Ending, EndingAttributes, relativeX, hasRelativeX )
  FIELD( Ending, EndingAttributes, relativeY, hasRelativeY )
  FIELD( Ending, EndingAttributes, fontFamily, hasFontFamily )
  FIELD( Ending, EndingAttributes, fontStyle, hasFontStyle )
  FIELD( Ending, EndingAttributes, fontSize, hasFontSize )
  FIELD( Ending, EndingAttributes, fontWeight, hasFontWeight )
  FIELD( Ending, EndingAttributes, endLength, hasEndLength )
  FIELD( Ending, EndingAttributes, textX, hasTextX )
  FIELD( Ending, EndingAttributes, textY, hasTextY )
  VALUE( Ending, Value )
END
KLASS( Figure )
  OPT( Figure, Prefix, Prefix )
  OPT( Figure, FigureNumber, FigureNumber )
  OPT( Figure, Suffix, Suffix )
  OPT( Figure, Extend, Extend )
END
KLASS( Frame )
  ATTRS( Frame, FrameAttributes )
  FIELD( Frame, FrameAttributes, defaultX, hasDefaultX )
  FIELD( Frame, FrameAttributes, defaultY, hasDefaultY )
  FIELD( Frame, FrameAttributes, relativeX, hasRelativeX )
  FIELD( Frame, FrameAttributes, relativeY, hasRelativeY )
  FIELD( Frame, FrameAttributes, color, hasColor )
  FIELD( Frame, FrameAttributes, halign, hasHalign )
  FIELD( Frame, FrameAttributes, valign, hasValign )
  FIELD( Frame, FrameAttributes, height, hasHeight )
  FIELD( Frame, FrameAttributes, width, hasWidth )
  FIELD( Frame, FrameAttributes, unplayed, hasUnplayed )
  ONE( Frame, FrameStrings, FrameStrings )
  ONE( Frame, FrameFrets, FrameFrets )
  OPT( Frame, FirstFret, FirstFret )
  COLL( Frame, FrameNote, FrameNote, 1, -1 )
END
KLASS( Glass )
  VALUE( Glass, Value )
END
KLASS( GroupName )
  ATTRS( GroupName, GroupNameAttributes )
  FIELD( GroupName, GroupNameAttributes, defaultX, hasDefaultX )
  FIELD( GroupName, GroupNameAttributes, defaultY, hasDefaultY )
  FIELD( GroupName, GroupNameAttributes, relativeX, hasRelativeX )
  FIELD( GroupName, GroupNameAttributes, relativeY, hasRelativeY )
  FIELD( GroupName, GroupNameAttributes, fontFamily, hasFontFamily )
  FIELD( GroupName, GroupNameAttributes, fontStyle, hasFontStyle )
  FIELD( GroupName, GroupNameAttributes, fontSize, hasFontSize )
  FIELD( GroupName, GroupNameAttributes, fontWeight, hasFontWeight )
  FIELD( GroupName, GroupNameAttributes, justify, hasJustify )
  VALUE( GroupName, Value )
END
KLASS( HarmonicInfoChoice )
  ONE( HarmonicInfoChoice, BasePitch, BasePitch )
  ONE( HarmonicInfoChoice, TouchingPitch, TouchingPitch )
  ONE( HarmonicInfoChoice, SoundingPitch, SoundingPitch )
  CHOICE( HarmonicInfoChoice, { "basePitch", 1 }, { "touchingPitch", 2 }, { "soundingPitch", 3 } )
END
KLASS( HoleShape )
  VALUE( HoleShape, Value )
END
KLASS( InstrumentSound )
  VALUE( InstrumentSound, Value )
END
KLASS( KeyAccidental )
  VALUE( KeyAccidental, Value )
END
KLASS( LeftDivider )
  ATTRS( LeftDivider, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( LyricLanguage )
  ATTRS( LyricLanguage, LyricLanguageAttributes )
  FIELD( LyricLanguage, LyricLanguageAttributes, number, hasNumber )
  FIELD( LyricLanguage, LyricLanguageAttributes, name, hasName )
  FIELD0( LyricLanguage, LyricLanguageAttributes, lang )
END
KLASS( Membrane )
  VALUE( Membrane, Value )
END
KLASS( MetronomeTuplet )
  ATTRS( MetronomeTuplet, MetronomeTupletAttributes )
  FIELD0( MetronomeTuplet, MetronomeTupletAttributes, type )
  FIELD( MetronomeTuplet, MetronomeTupletAttributes, bracket, hasBracket )
  FIELD( MetronomeTuplet, MetronomeTupletAttributes, showNumber, hasShowNumber )
  ONE( MetronomeTuplet, ActualNotes, ActualNotes )
  ONE( MetronomeTuplet, NormalNotes, NormalNotes )
  OPT( MetronomeTuplet, TimeModificationNormalTypeNormalDot, TimeModificationNormalTypeNormalDot )
END
KLASS( MidiProgram )
  VALUE( MidiProgram, Value )
END
KLASS( MovementTitle )
  VALUE( MovementTitle, Value )
END
KLASS( NonTraditionalKey )
  ONE( NonTraditionalKey, KeyStep, KeyStep )
  ONE( NonTraditionalKey, KeyAlter, KeyAlter )
  OPT( NonTraditionalKey, KeyAccidental, KeyAccidental )
END
KLASS( Note )
  ATTRS( Note, NoteAttributes )
  FIELD( Note, NoteAttributes, defaultX, hasDefaultX )
  FIELD( Note, NoteAttributes, defaultY, hasDefaultY )
  FIELD( Note, NoteAttributes, relativeX, hasRelativeX )
  FIELD( Note, NoteAttributes, relativeY, hasRelativeY )
  FIELD( Note, NoteAttributes, fontFamily, hasFontFamily )
  FIELD( Note, NoteAttributes, fontStyle, hasFontStyle )
  FIELD( Note, NoteAttributes, fontSize, hasFontSize )
  FIELD( Note, NoteAttributes, fontWeight, hasFontWeight )
  FIELD( Note, NoteAttributes, color, hasColor )
  FIELD( Note, NoteAttributes, printObject, hasPrintObject )
  FIELD( Note, NoteAttributes, printDot, hasPrintDot )
  FIELD( Note, NoteAttributes, printSpacing, hasPrintSpacing )
  FIELD( Note, NoteAttributes, printLyric, hasPrintLyric )
  FIELD( Note, NoteAttributes, dynamics, hasDynamics )
  FIELD( Note, NoteAttributes, endDynamics, hasEndDynamics )
  FIELD( Note, NoteAttributes, attack, hasAttack )
  FIELD( Note, NoteAttributes, release, hasRelease )
  FIELD( Note, NoteAttributes, timeOnly, hasTimeOnly )
  FIELD( Note, NoteAttributes, pizzicato, hasPizzicato )
  ONE( Note, NoteChoice, NoteChoice )
  OPT( Note, Instrument, Instrument )
  ONE( Note, EditorialVoiceGroup, EditorialVoiceGroup )
  OPT( Note, Type, Type )
  OPT( Note, Accidental, Accidental )
  OPT( Note, TimeModification, TimeModification )
  OPT( Note, Stem, Stem )
  OPT( Note, Notehead, Notehead )
  OPT( Note, NoteheadText, NoteheadText )
  OPT( Note, Staff, Staff )
  OPT( Note, Play, Play )
  COLL( Note, Dot, Dot, 0, -1 )
  COLL( Note, Beam, Beam, 0, 8 )
  COLL( Note, Notations, Notations, 0, -1 )
  COLL( Note, Lyric, Lyric, 0, -1 )
END
KLASS( OctaveChange )
  VALUE( OctaveChange, Value )
END
KLASS( OtherArticulation )
  ATTRS( OtherArticulation, OtherArticulationAttributes )
  FIELD( OtherArticulation, OtherArticulationAttributes, defaultX, hasDefaultX )
  FIELD( OtherArticulation, OtherArticulationAttributes, defaultY, hasDefaultY )
  FIELD( OtherArticulation, OtherArticulationAttributes, relativeX, hasRelativeX )
  FIELD( OtherArticulation, OtherArticulationAttributes, relativeY, hasRelativeY )
  FIELD( OtherArticulation, OtherArticulationAttributes, fontFamily, hasFontFamily )
  FIELD( OtherArticulation, OtherArticulationAttributes, fontStyle, hasFontStyle )
  FIELD( OtherArticulation, OtherArticulationAttributes, fontSize, hasFontSize )
  FIELD( OtherArticulation, OtherArticulationAttributes, fontWeight, hasFontWeight )
  FIELD( OtherArticulation, OtherArticulationAttributes, placement, hasPlacement )
  VALUE( OtherArticulation, Value )
END
KLASS( PageLayout )
  ONE( PageLayout, PageHeight, PageHeight )
  ONE( PageLayout, PageWidth, PageWidth )
  COLL( PageLayout, PageMargins, PageMargins, 0, 2 )
END
KLASS( PartList )
  ONE( PartList, ScorePart, ScorePart )
  COLL( PartList, PartGroup, PartGroup, 0, -1 )
  COLL( PartList, PartGroupOrScorePart, PartGroupOrScorePart, 0, -1 )
END
KLASS( PedalStep )
  VALUE( PedalStep, Value )
END
KLASS( Play )
  ATTRS( Play, PlayAttributes )
  FIELD( Play, PlayAttributes, id, hasId )
  ONE( Play, Ipa, Ipa )
  ONE( Play, Mute, Mute )
  ONE( Play, SemiPitched, SemiPitched )
  ONE( Play, OtherPlay, OtherPlay )
  CHOICE( Play, { "ipa", 1 }, { "mute", 2 }, { "semiPitched", 3 }, { "otherPlay", 4 } )
END
KLASS( PullOff )
  ATTRS( PullOff, PullOffAttributes )
  FIELD0( PullOff, PullOffAttributes, type )
  FIELD( PullOff, PullOffAttributes, number, hasNumber )
  FIELD( PullOff, PullOffAttributes, defaultX, hasDefaultX )
  FIELD( PullOff, PullOffAttributes, defaultY, hasDefaultY )
  FIELD( PullOff, PullOffAttributes, relativeX, hasRelativeX )
  FIELD( PullOff, PullOffAttributes, relativeY, hasRelativeY )
  FIELD( PullOff, PullOffAttributes, fontFamily, hasFontFamily )
  FIELD( PullOff, PullOffAttributes, fontStyle, hasFontStyle )
  FIELD( PullOff, PullOffAttributes, fontSize, hasFontSize )
  FIELD( PullOff, PullOffAttributes, fontWeight, hasFontWeight )
  FIELD( PullOff, PullOffAttributes, placement, hasPlacement )
  VALUE( PullOff, Value )
END
KLASS( Rights )
  ATTRS( Rights, RightsAttributes )
  FIELD( Rights, RightsAttributes, type, hasType )
  VALUE( Rights, Value )
END
KLASS( ScoreHeaderGroup )
  OPT( ScoreHeaderGroup, Work, Work )
  OPT( ScoreHeaderGroup, MovementNumber, MovementNumber )
  OPT( ScoreHeaderGroup, MovementTitle, MovementTitle )
  OPT( ScoreHeaderGroup, Identification, Identification )
  OPT( ScoreHeaderGroup, Defaults, Defaults )
  ONE( ScoreHeaderGroup, PartList, PartList )
  COLL( ScoreHeaderGroup, Credit, Credit, 0, -1 )
END
KLASS( Shake )
  ATTRS( Shake, EmptyTrillSoundAttributes )
  FIELD( Shake, EmptyTrillSoundAttributes, defaultX, hasDefaultX )
  FIELD( Shake, EmptyTrillSoundAttributes, defaultY, hasDefaultY )
  FIELD( Shake, EmptyTrillSoundAttributes, relativeX, hasRelativeX )
  FIELD( Shake, EmptyTrillSoundAttributes, relativeY, hasRelativeY )
  FIELD( Shake, EmptyTrillSoundAttributes, fontFamily, hasFontFamily )
  FIELD( Shake, EmptyTrillSoundAttributes, fontStyle, hasFontStyle )
  FIELD( Shake, EmptyTrillSoundAttributes, fontSize, hasFontSize )
  FIELD( Shake, EmptyTrillSoundAttributes, fontWeight, hasFontWeight )
  FIELD( Shake, EmptyTrillSoundAttributes, placement, hasPlacement )
  FIELD( Shake, EmptyTrillSoundAttributes, startNote, hasStartNote )
  FIELD( Shake, EmptyTrillSoundAttributes, trillStep, hasTrillStep )
  FIELD( Shake, EmptyTrillSoundAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( Shake, EmptyTrillSoundAttributes, accelerate, hasAccelerate )
  FIELD( Shake, EmptyTrillSoundAttributes, beats, hasBeats )
  FIELD( Shake, EmptyTrillSoundAttributes, secondBeat, hasSecondBeat )
  FIELD( Shake, EmptyTrillSoundAttributes, lastBeat, hasLastBeat )
END
KLASS( Software )
  VALUE( Software, Value )
END
KLASS( Staccato )
  ATTRS( Staccato, EmptyPlacementAttributes )
  FIELD( Staccato, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Staccato, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Staccato, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Staccato, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Staccato, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Staccato, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Staccato, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Staccato, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Staccato, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( StaffType )
  VALUE( StaffType, Value )
END
KLASS( Stopped )
  ATTRS( Stopped, EmptyPlacementAttributes )
  FIELD( Stopped, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Stopped, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Stopped, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Stopped, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Stopped, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Stopped, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Stopped, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Stopped, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Stopped, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( SyllabicTextGroup )
  OPT( SyllabicTextGroup, Syllabic, Syllabic )
  ONE( SyllabicTextGroup, Text, Text )
  OPT( SyllabicTextGroup, Extend, Extend )
  COLL( SyllabicTextGroup, ElisionSyllabicTextGroup, ElisionSyllabicTextGroup, 0, -1 )
  VALUE( SyllabicTextGroup, Text )
END
KLASS( Tenths )
  VALUE( Tenths, Value )
END
KLASS( TimeModification )
  ONE( TimeModification, ActualNotes, ActualNotes )
  ONE( TimeModification, NormalNotes, NormalNotes )
  OPT( TimeModification, NormalTypeNormalDotGroup, NormalTypeNormalDotGroup )
END
KLASS( TopMargin )
  VALUE( TopMargin, Value )
END
KLASS( TuningAlter )
  VALUE( TuningAlter, Value )
END
KLASS( TupletType )
  ATTRS( TupletType, TupletTypeAttributes )
  FIELD( TupletType, TupletTypeAttributes, fontFamily, hasFontFamily )
  FIELD( TupletType, TupletTypeAttributes, fontStyle, hasFontStyle )
  FIELD( TupletType, TupletTypeAttributes, fontSize, hasFontSize )
  FIELD( TupletType, TupletTypeAttributes, fontWeight, hasFontWeight )
  VALUE( TupletType, Value )
END
KLASS( VirtualLibrary )
  VALUE( VirtualLibrary, Value )
END
KLASS( WordFont )
  ATTRS( WordFont, EmptyFontAttributes )
  FIELD( WordFont, EmptyFontAttributes, fontFamily, hasFontFamily )
  FIELD( WordFont, EmptyFontAttributes, fontStyle, hasFontStyle )
  FIELD( WordFont, EmptyFontAttributes, fontSize, hasFontSize )
  FIELD( WordFont, EmptyFontAttributes, fontWeight, hasFontWeight )
END
}
