// written by lib/genelements.py
#include "mx/core/elements/Accidental.h"
#include "mx/core/elements/AccidentalAttributes.h"
#include "mx/core/elements/AccidentalText.h"
#include "mx/core/elements/ActualNotes.h"
#include "mx/core/elements/Alter.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/ArticulationsChoice.h"
#include "mx/core/elements/Bass.h"
#include "mx/core/elements/BassAlter.h"
#include "mx/core/elements/BassStep.h"
#include "mx/core/elements/BeatUnit.h"
#include "mx/core/elements/BeatUnitDot.h"
#include "mx/core/elements/BeatUnitGroup.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/BookmarkAttributes.h"
#include "mx/core/elements/Chromatic.h"
#include "mx/core/elements/CreditImage.h"
#include "mx/core/elements/CreditImageAttributes.h"
#include "mx/core/elements/Dashes.h"
#include "mx/core/elements/DashesAttributes.h"
#include "mx/core/elements/DelayedInvertedTurn.h"
#include "mx/core/elements/DelayedTurn.h"
#include "mx/core/elements/DetachedLegato.h"
#include "mx/core/elements/DisplayText.h"
#include "mx/core/elements/DisplayTextAttributes.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/DownBow.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/Elevation.h"
#include "mx/core/elements/Elision.h"
#include "mx/core/elements/ElisionAttributes.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/EmptyTrillSoundAttributes.h"
#include "mx/core/elements/EndLine.h"
#include "mx/core/elements/EndParagraph.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/FermataAttributes.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/FootnoteAttributes.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/GroupAbbreviation.h"
#include "mx/core/elements/GroupAbbreviationDisplay.h"
#include "mx/core/elements/GroupAbbreviationDisplayAttributes.h"
#include "mx/core/elements/GroupBarline.h"
#include "mx/core/elements/GroupName.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/GroupSymbol.h"
#include "mx/core/elements/GroupTime.h"
#include "mx/core/elements/Handbell.h"
#include "mx/core/elements/HandbellAttributes.h"
#include "mx/core/elements/Hole.h"
#include "mx/core/elements/HoleAttributes.h"
#include "mx/core/elements/HoleClosed.h"
#include "mx/core/elements/HoleShape.h"
#include "mx/core/elements/HoleType.h"
#include "mx/core/elements/InstrumentAbbreviation.h"
#include "mx/core/elements/InvertedMordent.h"
#include "mx/core/elements/InvertedTurn.h"
#include "mx/core/elements/Ipa.h"
#include "mx/core/elements/Laughing.h"
#include "mx/core/elements/LayoutGroup.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/LyricAttributes.h"
#include "mx/core/elements/LyricTextChoice.h"
#include "mx/core/elements/MeasureLayout.h"
#include "mx/core/elements/MeasureNumbering.h"
#include "mx/core/elements/MeasureStyle.h"
#include "mx/core/elements/MeasureStyleAttributes.h"
#include "mx/core/elements/MeasureStyleChoice.h"
#include "mx/core/elements/MetronomeRelation.h"
#include "mx/core/elements/MidiBank.h"
#include "mx/core/elements/MidiChannel.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/MidiInstrumentAttributes.h"
#include "mx/core/elements/MidiName.h"
#include "mx/core/elements/MidiProgram.h"
#include "mx/core/elements/MidiUnpitched.h"
#include "mx/core/elements/Mordent.h"
#include "mx/core/elements/MordentAttributes.h"
#include "mx/core/elements/Natural.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/NotationsAttributes.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/NoteheadTextChoice.h"
#include "mx/core/elements/Octave.h"
#include "mx/core/elements/OrnamentsChoice.h"
#include "mx/core/elements/OtherOrnament.h"
#include "mx/core/elements/OtherTechnical.h"
#include "mx/core/elements/OtherTechnicalAttributes.h"
#include "mx/core/elements/Pan.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartGroup.h"
#include "mx/core/elements/PartGroupAttributes.h"
#include "mx/core/elements/PartNameDisplay.h"
#include "mx/core/elements/Pedal.h"
#include "mx/core/elements/PedalAttributes.h"
#include "mx/core/elements/Pitch.h"
#include "mx/core/elements/Print.h"
#include "mx/core/elements/PrintAttributes.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/RightDivider.h"
#include "mx/core/elements/Schleifer.h"
#include "mx/core/elements/Scoop.h"
#include "mx/core/elements/SemiPitched.h"
#include "mx/core/elements/Shake.h"
#include "mx/core/elements/Slur.h"
#include "mx/core/elements/SlurAttributes.h"
#include "mx/core/elements/Spiccato.h"
#include "mx/core/elements/StaffSize.h"
#include "mx/core/elements/Step.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/Supports.h"
#include "mx/core/elements/SupportsAttributes.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/TechnicalChoice.h"
#include "mx/core/elements/Time.h"
#include "mx/core/elements/TimeAttributes.h"
#include "mx/core/elements/TimeChoice.h"
#include "mx/core/elements/Timpani.h"
#include "mx/core/elements/Tremolo.h"
#include "mx/core/elements/TrillMark.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletNormal.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/Turn.h"
#include "mx/core/elements/Unpitched.h"
#include "mx/core/elements/VerticalTurn.h"
#include "mx/core/elements/Volume.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/WithBar.h"
#include "mx/core/elements/WithBarAttributes.h"
using namespace mx::core;
void registerElements1( std::vector<el::Klass>& all )
{
KLASS( Accidental )
  ATTRS( Accidental, AccidentalAttributes )
  FIELD( Accidental, AccidentalAttributes, cautionary, hasCautionary )
  FIELD( Accidental, AccidentalAttributes, editorial, hasEditorial )
  FIELD( Accidental, AccidentalAttributes, parentheses, hasParentheses )
  FIELD( Accidental, AccidentalAttributes, bracket, hasBracket )
  FIELD( Accidental, AccidentalAttributes, size, hasSize )
  FIELD( Accidental, AccidentalAttributes, defaultX, hasDefaultX )
  FIELD( Accidental, AccidentalAttributes, defaultY, hasDefaultY )
  FIELD( Accidental, AccidentalAttributes, relativeX, hasRelativeX )
  FIELD( Accidental, AccidentalAttributes, relativeY, hasRelativeY )
  FIELD( Accidental, AccidentalAttributes, fontFamily, hasFontFamily )
  FIELD( Accidental, AccidentalAttributes, fontStyle, hasFontStyle )
  FIELD( Accidental, AccidentalAttributes, fontSize, hasFontSize )
  FIELD( Accidental, AccidentalAttributes, fontWeight, hasFontWeight )
  VALUE( Accidental, Value )
END
KLASS( ActualNotes )
  VALUE( ActualNotes, Value )
END
KLASS( Articulations )
  COLL( Articulations, ArticulationsChoice, ArticulationsChoice, 0, -1 )
END
KLASS( Bass )
  ONE( Bass, BassStep, BassStep )
  OPT( Bass, BassAlter, BassAlter )
END
KLASS( BeatUnitGroup )
  ONE( BeatUnitGroup, BeatUnit, BeatUnit )
  COLLN( BeatUnitGroup, BeatUnitDot, BeatUnitDot, 0, -1 )
END
KLASS( Bookmark )
  ATTRS( Bookmark, BookmarkAttributes )
  FIELD0( Bookmark, BookmarkAttributes, id )
  FIELD( Bookmark, BookmarkAttributes, name, hasName )
  FIELD( Bookmark, BookmarkAttributes, element, hasElement )
  FIELD( Bookmark, BookmarkAttributes, position, hasPosition )
END
KLASS( Chromatic )
  VALUE( Chromatic, Value )
END
KLASS( CreditImage )
  ATTRS( CreditImage, CreditImageAttributes )
  FIELD0( CreditImage, CreditImageAttributes, source )
  FIELD0( CreditImage, CreditImageAttributes, type )
  FIELD( CreditImage, CreditImageAttributes, defaultX, hasDefaultX )
  FIELD( CreditImage, CreditImageAttributes, defaultY, hasDefaultY )
  FIELD( CreditImage, CreditImageAttributes, relativeX, hasRelativeX )
  FIELD( CreditImage, CreditImageAttributes, relativeY, hasRelativeY )
  FIELD( CreditImage, CreditImageAttributes, halign, hasHalign )
END
KLASS( Dashes )
  ATTRS( Dashes, DashesAttributes )
  FIELD0( Dashes, DashesAttributes, type )
  FIELD( Dashes, DashesAttributes, number, hasNumber )
  FIELD( Dashes, DashesAttributes, dashLength, hasDashLength )
  FIELD( Dashes, DashesAttributes, spaceLength, hasSpaceLength )
  FIELD( Dashes, DashesAttributes, defaultX, hasDefaultX )
  FIELD( Dashes, DashesAttributes, defaultY, hasDefaultY )
  FIELD( Dashes, DashesAttributes, relativeX, hasRelativeX )
  FIELD( Dashes, DashesAttributes, relativeY, hasRelativeY )
END
KLASS( DetachedLegato )
  ATTRS( DetachedLegato, EmptyPlacementAttributes )
  FIELD( DetachedLegato, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( DetachedLegato, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( DetachedLegato, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( DetachedLegato, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( DetachedLegato, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( DetachedLegato, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( DetachedLegato, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( DetachedLegato, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( DetachedLegato, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( DisplayText )
  ATTRS( DisplayText, DisplayTextAttributes )
  FIELD( DisplayText, DisplayTextAttributes, justify, hasJustify )
  FIELD( DisplayText, DisplayTextAttributes, defaultX, hasDefaultX )
  FIELD( DisplayText, DisplayTextAttributes, defaultY, hasDefaultY )
  FIELD( DisplayText, DisplayTextAttributes, relativeX, hasRelativeX )
  FIELD( DisplayText, DisplayTextAttributes, relativeY, hasRelativeY )
  FIELD( DisplayText, DisplayTextAttributes, fontFamily, hasFontFamily )
  FIELD( DisplayText, DisplayTextAttributes, fontStyle, hasFontStyle )
  FIELD( DisplayText, DisplayTextAttributes, fontSize, hasFontSize )
  FIELD( DisplayText, DisplayTextAttributes, fontWeight, hasFontWeight )
  FIELD( DisplayText, DisplayTextAttributes, halign, hasHalign )
  FIELD( DisplayText, DisplayTextAttributes, underline, hasUnderline )
  FIELD( DisplayText, DisplayTextAttributes, overline, hasOverline )
  FIELD( DisplayText, DisplayTextAttributes, lineThrough, hasLineThrough )
  FIELD( DisplayText, DisplayTextAttributes, rotation, hasRotation )
  FIELD( DisplayText, DisplayTextAttributes, letterSpacing, hasLetterSpacing )
  FIELD( DisplayText, DisplayTextAttributes, lineHeight, hasLineHeight )
  FIELD( DisplayText, DisplayTextAttributes, lang, hasLang )
  FIELD( DisplayText, DisplayTextAttributes, space, hasSpace )
  FIELD( DisplayText, DisplayTextAttributes, enclosure, hasEnclosure )
  VALUE( DisplayText, Value )
END
KLASS( DownBow )
  ATTRS( DownBow, EmptyPlacementAttributes )
  FIELD( DownBow, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( DownBow, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( DownBow, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( DownBow, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( DownBow, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( DownBow, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( DownBow, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( DownBow, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( DownBow, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Elision )
  ATTRS( Elision, ElisionAttributes )
  FIELD( Elision, ElisionAttributes, fontFamily, hasFontFamily )
  FIELD( Elision, ElisionAttributes, fontStyle, hasFontStyle )
  FIELD( Elision, ElisionAttributes, fontSize, hasFontSize )
  FIELD( Elision, ElisionAttributes, fontWeight, hasFontWeight )
  FIELD( Elision, ElisionAttributes, underline, hasUnderline )
  FIELD( Elision, ElisionAttributes, overline, hasOverline )
  FIELD( Elision, ElisionAttributes, lineThrough, hasLineThrough )
  FIELD( Elision, ElisionAttributes, rotation, hasRotation )
  FIELD( Elision, ElisionAttributes, letterSpacing, hasLetterSpacing )
  FIELD( Elision, ElisionAttributes, lang, hasLang )
  VALUE( Elision, Value )
END
KLASS( EndLine )
END
KLASS( Fermata )
  ATTRS( Fermata, FermataAttributes )
  FIELD( Fermata, FermataAttributes, type, hasType )
  FIELD( Fermata, FermataAttributes, defaultX, hasDefaultX )
  FIELD( Fermata, FermataAttributes, defaultY, hasDefaultY )
  FIELD( Fermata, FermataAttributes, relativeX, hasRelativeX )
  FIELD( Fermata, FermataAttributes, relativeY, hasRelativeY )
  FIELD( Fermata, FermataAttributes, fontFamily, hasFontFamily )
  FIELD( Fermata, FermataAttributes, fontStyle, hasFontStyle )
  FIELD( Fermata, FermataAttributes, fontSize, hasFontSize )
  FIELD( Fermata, FermataAttributes, fontWeight, hasFontWeight )
  FIELD( Fermata, FermataAttributes, color, hasColor )
  VALUE( Fermata, Value )
END
KLASS( Footnote )
  ATTRS( Footnote, FootnoteAttributes )
  FIELD( Footnote, FootnoteAttributes, justify, hasJustify )
  FIELD( Footnote, FootnoteAttributes, defaultX, hasDefaultX )
  FIELD( Footnote, FootnoteAttributes, defaultY, hasDefaultY )
  FIELD( Footnote, FootnoteAttributes, relativeX, hasRelativeX )
  FIELD( Footnote, FootnoteAttributes, relativeY, hasRelativeY )
  FIELD( Footnote, FootnoteAttributes, fontFamily, hasFontFamily )
  FIELD( Footnote, FootnoteAttributes, fontStyle, hasFontStyle )
  FIELD( Footnote, FootnoteAttributes, fontSize, hasFontSize )
  FIELD( Footnote, FootnoteAttributes, fontWeight, hasFontWeight )
  FIELD( Footnote, FootnoteAttributes, halign, hasHalign )
  FIELD( Footnote, FootnoteAttributes, underline, hasUnderline )
  FIELD( Footnote, FootnoteAttributes, overline, hasOverline )
  FIELD( Footnote, FootnoteAttributes, lineThrough, hasLineThrough )
  FIELD( Footnote, FootnoteAttributes, rotation, hasRotation )
  FIELD( Footnote, FootnoteAttributes, letterSpacing, hasLetterSpacing )
  FIELD( Footnote, FootnoteAttributes, lineHeight, hasLineHeight )
  FIELD( Footnote, FootnoteAttributes, lang, hasLang )
  FIELD( Footnote, FootnoteAttributes, space, hasSpace )
  FIELD( Footnote, FootnoteAttributes, enclosure, hasEnclosure )
  VALUE( Footnote, Value )
END
KLASS( FullNoteTypeChoice )
  ONE( FullNoteTypeChoice, Pitch, Pitch )
  ONE( FullNoteTypeChoice, Unpitched, Unpitched )
  ONE( FullNoteTypeChoice, Rest, Rest )
  CHOICE( FullNoteTypeChoice, { "pitch", 1 }, { "unpitched", 2 }, { "rest", 3 } )
END
KLASS( GroupAbbreviationDisplay )
  ATTRS( GroupAbbreviationDisplay, GroupAbbreviationDisplayAttributes )
  FIELD( GroupAbbreviationDisplay, GroupAbbreviationDisplayAttributes, printObject, hasPrintObject )
  COLL( GroupAbbreviationDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 )
END
KLASS( Handbell )
  ATTRS( Handbell, HandbellAttributes )
  FIELD( Handbell, HandbellAttributes, defaultX, hasDefaultX )
  FIELD( Handbell, HandbellAttributes, defaultY, hasDefaultY )
  FIELD( Handbell, HandbellAttributes, relativeX, hasRelativeX )
  FIELD( Handbell, HandbellAttributes, relativeY, hasRelativeY )
  FIELD( Handbell, HandbellAttributes, fontFamily, hasFontFamily )
  FIELD( Handbell, HandbellAttributes, fontStyle, hasFontStyle )
  FIELD( Handbell, HandbellAttributes, fontSize, hasFontSize )
  FIELD( Handbell, HandbellAttributes, fontWeight, hasFontWeight )
  FIELD( Handbell, HandbellAttributes, placement, hasPlacement )
  VALUE( Handbell, Value )
END
KLASS( Hole )
  ATTRS( Hole, HoleAttributes )
  FIELD( Hole, HoleAttributes, defaultX, hasDefaultX )
  FIELD( Hole, HoleAttributes, defaultY, hasDefaultY )
  FIELD( Hole, HoleAttributes, relativeX, hasRelativeX )
  FIELD( Hole, HoleAttributes, relativeY, hasRelativeY )
  FIELD( Hole, HoleAttributes, fontFamily, hasFontFamily )
  FIELD( Hole, HoleAttributes, fontStyle, hasFontStyle )
  FIELD( Hole, HoleAttributes, fontSize, hasFontSize )
  FIELD( Hole, HoleAttributes, fontWeight, hasFontWeight )
  FIELD( Hole, HoleAttributes, color, hasColor )
  FIELD( Hole, HoleAttributes, placement, hasPlacement )
  OPT( Hole, HoleType, HoleType )
  ONE( Hole, HoleClosed, HoleClosed )
  OPT( Hole, HoleShape, HoleShape )
END
KLASS( InstrumentAbbreviation )
  VALUE( InstrumentAbbreviation, Value )
END
KLASS( Ipa )
  VALUE( Ipa, Value )
END
KLASS( Laughing )
END
KLASS( Lyric )
  ATTRS( Lyric, LyricAttributes )
  FIELD( Lyric, LyricAttributes, number, hasNumber )
  FIELD( Lyric, LyricAttributes, name, hasName )
  FIELD( Lyric, LyricAttributes, justify, hasJustify )
  FIELD( Lyric, LyricAttributes, defaultX, hasDefaultX )
  FIELD( Lyric, LyricAttributes, defaultY, hasDefaultY )
  FIELD( Lyric, LyricAttributes, relativeX, hasRelativeX )
  FIELD( Lyric, LyricAttributes, relativeY, hasRelativeY )
  FIELD( Lyric, LyricAttributes, placement, hasPlacement )
  FIELD( Lyric, LyricAttributes, color, hasColor )
  FIELD( Lyric, LyricAttributes, printObject, hasPrintObject )
  ONE( Lyric, LyricTextChoice, LyricTextChoice )
  OPT( Lyric, EndLine, EndLine )
  OPT( Lyric, EndParagraph, EndParagraph )
  ONE( Lyric, EditorialGroup, EditorialGroup )
END
KLASS( MeasureStyle )
  ATTRS( MeasureStyle, MeasureStyleAttributes )
  FIELD( MeasureStyle, MeasureStyleAttributes, number, hasNumber )
  FIELD( MeasureStyle, MeasureStyleAttributes, fontFamily, hasFontFamily )
  FIELD( MeasureStyle, MeasureStyleAttributes, fontStyle, hasFontStyle )
  FIELD( MeasureStyle, MeasureStyleAttributes, fontSize, hasFontSize )
  FIELD( MeasureStyle, MeasureStyleAttributes, fontWeight, hasFontWeight )
  FIELD( MeasureStyle, MeasureStyleAttributes, color, hasColor )
  ONE( MeasureStyle, MeasureStyleChoice, MeasureStyleChoice )
END
KLASS( MetronomeRelation )
  VALUE( MetronomeRelation, Value )
END
KLASS( MidiInstrument )
  ATTRS( MidiInstrument, MidiInstrumentAttributes )
  FIELD0( MidiInstrument, MidiInstrumentAttributes, id )
  OPT( MidiInstrument, MidiChannel, MidiChannel )
  OPT( MidiInstrument, MidiName, MidiName )
  OPT( MidiInstrument, MidiBank, MidiBank )
  OPT( MidiInstrument, MidiProgram, MidiProgram )
  OPT( MidiInstrument, MidiUnpitched, MidiUnpitched )
  OPT( MidiInstrument, Volume, Volume )
  OPT( MidiInstrument, Pan, Pan )
  OPT( MidiInstrument, Elevation, Elevation )
END
KLASS( Mordent )
  ATTRS( Mordent, MordentAttributes )
  FIELD( Mordent, MordentAttributes, defaultX, hasDefaultX )
  FIELD( Mordent, MordentAttributes, defaultY, hasDefaultY )
  FIELD( Mordent, MordentAttributes, relativeX, hasRelativeX )
  FIELD( Mordent, MordentAttributes, relativeY, hasRelativeY )
  FIELD( Mordent, MordentAttributes, fontFamily, hasFontFamily )
  FIELD( Mordent, MordentAttributes, fontStyle, hasFontStyle )
  FIELD( Mordent, MordentAttributes, fontSize, hasFontSize )
  FIELD( Mordent, MordentAttributes, fontWeight, hasFontWeight )
  FIELD( Mordent, MordentAttributes, color, hasColor )
  FIELD( Mordent, MordentAttributes, placement, hasPlacement )
  FIELD( Mordent, MordentAttributes, startNote, hasStartNote )
  FIELD( Mordent, MordentAttributes, trillStep, hasTrillStep )
  FIELD( Mordent, MordentAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( Mordent, MordentAttributes, accelerate, hasAccelerate )
  FIELD( Mordent, MordentAttributes, beats, hasBeats )
  FIELD( Mordent, MordentAttributes, secondBeat, hasSecondBeat )
  FIELD( Mordent, MordentAttributes, lastBeat, hasLastBeat )
  FIELD( Mordent, MordentAttributes, long_, hasLong )
  FIELD( Mordent, MordentAttributes, approach, hasApproach )
  FIELD( Mordent, MordentAttributes, departure, hasDeparture )
END
KLASS( Natural )
END
KLASS( Notations )
  ATTRS( Notations, NotationsAttributes )
  FIELD( Notations, NotationsAttributes, printObject, hasPrintObject )
  ONE( Notations, EditorialGroup, EditorialGroup )
  COLL( Notations, NotationsChoice, NotationsChoice, 0, -1 )
END
KLASS( NoteheadTextChoice )
  ONE( NoteheadTextChoice, DisplayText, DisplayText )
  ONE( NoteheadTextChoice, AccidentalText, AccidentalText )
  CHOICE( NoteheadTextChoice, { "displayText", 0 }, { "accidentalText", 1 } )
END
KLASS( OrnamentsChoice )
  ONE( OrnamentsChoice, TrillMark, TrillMark )
  ONE( OrnamentsChoice, Turn, Turn )
  ONE( OrnamentsChoice, DelayedTurn, DelayedTurn )
  ONE( OrnamentsChoice, InvertedTurn, InvertedTurn )
  ONE( OrnamentsChoice, DelayedInvertedTurn, DelayedInvertedTurn )
  ONE( OrnamentsChoice, VerticalTurn, VerticalTurn )
  ONE( OrnamentsChoice, Shake, Shake )
  ONE( OrnamentsChoice, WavyLine, WavyLine )
  ONE( OrnamentsChoice, Mordent, Mordent )
  ONE( OrnamentsChoice, InvertedMordent, InvertedMordent )
  ONE( OrnamentsChoice, Schleifer, Schleifer )
  ONE( OrnamentsChoice, Tremolo, Tremolo )
  ONE( OrnamentsChoice, OtherOrnament, OtherOrnament )
  CHOICE( OrnamentsChoice, { "trillMark", 1 }, { "turn", 2 }, { "delayedTurn", 3 }, { "invertedTurn", 4 }, { "delayedInvertedTurn", 5 }, { "verticalTurn", 6 }, { "shake", 7 }, { "wavyLine", 8 }, { "mordent", 9 }, { "invertedMordent", 10 }, { "schleifer", 11 }, { "tremolo", 12 }, { "otherOrnament", 13 } )
END
KLASS( OtherTechnical )
  ATTRS( OtherTechnical, OtherTechnicalAttributes )
  FIELD( OtherTechnical, OtherTechnicalAttributes, defaultX, hasDefaultX )
  FIELD( OtherTechnical, OtherTechnicalAttributes, defaultY, hasDefaultY )
  FIELD( OtherTechnical, OtherTechnicalAttributes, relativeX, hasRelativeX )
  FIELD( OtherTechnical, OtherTechnicalAttributes, relativeY, hasRelativeY )
  FIELD( OtherTechnical, OtherTechnicalAttributes, fontFamily, hasFontFamily )
  FIELD( OtherTechnical, OtherTechnicalAttributes, fontStyle, hasFontStyle )
  FIELD( OtherTechnical, OtherTechnicalAttributes, fontSize, hasFontSize )
  FIELD( OtherTechnical, OtherTechnicalAttributes, fontWeight, hasFontWeight )
  FIELD( OtherTechnical, OtherTechnicalAttributes, placement, hasPlacement )
  VALUE( OtherTechnical, Value )
END
KLASS( PartGroup )
  ATTRS( PartGroup, PartGroupAttributes )
  FIELD0( PartGroup, PartGroupAttributes, type )
  FIELD( PartGroup, PartGroupAttributes, number, hasNumber )
  OPT( PartGroup, GroupName, GroupName )
  OPT( PartGroup, GroupNameDisplay, GroupNameDisplay )
  OPT( PartGroup, GroupAbbreviation, GroupAbbreviation )
  OPT( PartGroup, GroupAbbreviationDisplay, GroupAbbreviationDisplay )
  OPT( PartGroup, GroupSymbol, GroupSymbol )
  OPT( PartGroup, GroupBarline, GroupBarline )
  OPT( PartGroup, GroupTime, GroupTime )
  ONE( PartGroup, EditorialGroup, EditorialGroup )
END
KLASS( Pedal )
  ATTRS( Pedal, PedalAttributes )
  FIELD0( Pedal, PedalAttributes, type )
  FIELD( Pedal, PedalAttributes, line, hasLine )
  FIELD( Pedal, PedalAttributes, sign, hasSign )
  FIELD( Pedal, PedalAttributes, defaultX, hasDefaultX )
  FIELD( Pedal, PedalAttributes, defaultY, hasDefaultY )
  FIELD( Pedal, PedalAttributes, relativeX, hasRelativeX )
  FIELD( Pedal, PedalAttributes, relativeY, hasRelativeY )
  FIELD( Pedal, PedalAttributes, fontFamily, hasFontFamily )
  FIELD( Pedal, PedalAttributes, fontStyle, hasFontStyle )
  FIELD( Pedal, PedalAttributes, fontSize, hasFontSize )
  FIELD( Pedal, PedalAttributes, fontWeight, hasFontWeight )
  FIELD( Pedal, PedalAttributes, halign, hasHalign )
END
KLASS( Pitch )
  ONE( Pitch, Step, Step )
  OPT( Pitch, Alter, Alter )
  ONE( Pitch, Octave, Octave )
END
KLASS( Print )
  ATTRS( Print, PrintAttributes )
  FIELD( Print, PrintAttributes, staffSpacing, hasStaffSpacing )
  FIELD( Print, PrintAttributes, newSystem, hasNewSystem )
  FIELD( Print, PrintAttributes, newPage, hasNewPage )
  FIELD( Print, PrintAttributes, blankPage, hasBlankPage )
  FIELD( Print, PrintAttributes, pageNumber, hasPageNumber )
  ONE( Print, LayoutGroup, LayoutGroup )
  OPT( Print, MeasureLayout, MeasureLayout )
  OPT( Print, MeasureNumbering, MeasureNumbering )
  OPT( Print, PartNameDisplay, PartNameDisplay )
  OPT( Print, PartAbbreviationDisplay, PartAbbreviationDisplay )
END
KLASS( RightDivider )
  ATTRS( RightDivider, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( Scoop )
  ATTRS( Scoop, EmptyLineAttributes )
  FIELD( Scoop, EmptyLineAttributes, lineShape, hasLineShape )
  FIELD( Scoop, EmptyLineAttributes, lineType, hasLineType )
  FIELD( Scoop, EmptyLineAttributes, dashLength, hasDashLength )
  FIELD( Scoop, EmptyLineAttributes, spaceLength, hasSpaceLength )
  FIELD( Scoop, EmptyLineAttributes, defaultX, hasDefaultX )
  FIELD( Scoop, EmptyLineAttributes, defaultY, hasDefaultY )
  FIELD( Scoop, EmptyLineAttributes, relativeX, hasRelativeX )
  FIELD( Scoop, EmptyLineAttributes, relativeY, hasRelativeY )
  FIELD( Scoop, EmptyLineAttributes, fontFamily, hasFontFamily )
  FIELD( Scoop, EmptyLineAttributes, fontStyle, hasFontStyle )
  FIELD( Scoop, EmptyLineAttributes, fontSize, hasFontSize )
  FIELD( Scoop, EmptyLineAttributes, fontWeight, hasFontWeight )
  FIELD( Scoop, EmptyLineAttributes, placement, hasPlacement )
END
KLASS( SemiPitched )
  VALUE( SemiPitched, Value )
END
KLASS( Slur )
  ATTRS( Slur, SlurAttributes )
  FIELD0( Slur, SlurAttributes, type )
  FIELD( Slur, SlurAttributes, number, hasNumber )
  FIELD( Slur, SlurAttributes, lineType, hasLineType )
  FIELD( Slur, SlurAttributes, dashLength, hasDashLength )
  FIELD( Slur, SlurAttributes, spaceLength, hasSpaceLength )
  FIELD( Slur, SlurAttributes, defaultX, hasDefaultX )
  FIELD( Slur, SlurAttributes, defaultY, hasDefaultY )
  FIELD( Slur, SlurAttributes, relativeX, hasRelativeX )
  FIELD( Slur, SlurAttributes, relativeY, hasRelativeY )
  FIELD( Slur, SlurAttributes, placement, hasPlacement )
  FIELD( Slur, SlurAttributes, orientation, hasOrientation )
  FIELD( Slur, SlurAttributes, bezierOffset, hasBezierOffset )
  FIELD( Slur, SlurAttributes, bezierOffset2, hasBezierOffset2 )
  FIELD( Slur, SlurAttributes, bezierX, hasBezierX )
  FIELD( Slur, SlurAttributes, bezierY, hasBezierY )
  FIELD( Slur, SlurAttributes, bezierX2, hasBezierX2 )
  FIELD( Slur, SlurAttributes, bezierY2, hasBezierY2 )
  FIELD( Slur, SlurAttributes, color, hasColor )
END
KLASS( Spiccato )
  ATTRS( Spiccato, EmptyPlacementAttributes )
  FIELD( Spiccato, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Spiccato, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Spiccato, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Spiccato, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Spiccato, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Spiccato, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Spiccato, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Spiccato, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Spiccato, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( StaffSize )
  VALUE( StaffSize, Value )
END
KLASS( StickMaterial )
  VALUE( StickMaterial, Value )
END
KLASS( Supports )
  ATTRS( Supports, SupportsAttributes )
  FIELD0( Supports, SupportsAttributes, type )
  FIELD0( Supports, SupportsAttributes, element )
  FIELD( Supports, SupportsAttributes, attribute, hasAttribute )
  FIELD( Supports, SupportsAttributes, value, hasValue )
END
KLASS( Technical )
  COLL( Technical, TechnicalChoice, TechnicalChoice, 0, -1 )
END
KLASS( Time )
  ATTRS( Time, TimeAttributes )
  FIELD( Time, TimeAttributes, number, hasNumber )
  FIELD( Time, TimeAttributes, symbol, hasSymbol )
  FIELD( Time, TimeAttributes, separator, hasSeparator )
  FIELD( Time, TimeAttributes, defaultX, hasDefaultX )
  FIELD( Time, TimeAttributes, defaultY, hasDefaultY )
  FIELD( Time, TimeAttributes, relativeX, hasRelativeX )
  FIELD( Time, TimeAttributes, relativeY, hasRelativeY )
  FIELD( Time, TimeAttributes, fontFamily, hasFontFamily )
  FIELD( Time, TimeAttributes, fontStyle, hasFontStyle )
  FIELD( Time, TimeAttributes, fontSize, hasFontSize )
  FIELD( Time, TimeAttributes, fontWeight, hasFontWeight )
  FIELD( Time, TimeAttributes, color, hasColor )
  FIELD( Time, TimeAttributes, halign, hasHalign )
  FIELD( Time, TimeAttributes, valign, hasValign )
  FIELD( Time, TimeAttributes, printObject, hasPrintObject )
  ONE( Time, TimeChoice, TimeChoice )
END
KLASS( Timpani )
END
KLASS( TrillMark )
  ATTRS( TrillMark, EmptyTrillSoundAttributes )
  FIELD( TrillMark, EmptyTrillSoundAttributes, defaultX, hasDefaultX )
  FIELD( TrillMark, EmptyTrillSoundAttributes, defaultY, hasDefaultY )
  FIELD( TrillMark, EmptyTrillSoundAttributes, relativeX, hasRelativeX )
  FIELD( TrillMark, EmptyTrillSoundAttributes, relativeY, hasRelativeY )
  FIELD( TrillMark, EmptyTrillSoundAttributes, fontFamily, hasFontFamily )
  FIELD( TrillMark, EmptyTrillSoundAttributes, fontStyle, hasFontStyle )
  FIELD( TrillMark, EmptyTrillSoundAttributes, fontSize, hasFontSize )
  FIELD( TrillMark, EmptyTrillSoundAttributes, fontWeight, hasFontWeight )
  FIELD( TrillMark, EmptyTrillSoundAttributes, placement, hasPlacement )
  FIELD( TrillMark, EmptyTrillSoundAttributes, startNote, hasStartNote )
  FIELD( TrillMark, EmptyTrillSoundAttributes, trillStep, hasTrillStep )
  FIELD( TrillMark, EmptyTrillSoundAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( TrillMark, EmptyTrillSoundAttributes, accelerate, hasAccelerate )
  FIELD( TrillMark, EmptyTrillSoundAttributes, beats, hasBeats )
  FIELD( TrillMark, EmptyTrillSoundAttributes, secondBeat, hasSecondBeat )
  FIELD( TrillMark, EmptyTrillSoundAttributes, lastBeat, hasLastBeat )
END
KLASS( TupletNormal )
  OPT( TupletNormal, TupletNumber, TupletNumber )
  OPT( TupletNormal, TupletType, TupletType )
  COLL( TupletNormal, TupletDot, TupletDot, 0, -1 )
END
KLASS( VerticalTurn )
  ATTRS( VerticalTurn, EmptyTrillSoundAttributes )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, defaultX, hasDefaultX )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, defaultY, hasDefaultY )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, relativeX, hasRelativeX )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, relativeY, hasRelativeY )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, fontFamily, hasFontFamily )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, fontStyle, hasFontStyle )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, fontSize, hasFontSize )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, fontWeight, hasFontWeight )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, placement, hasPlacement )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, startNote, hasStartNote )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, trillStep, hasTrillStep )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, accelerate, hasAccelerate )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, beats, hasBeats )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, secondBeat, hasSecondBeat )
  FIELD( VerticalTurn, EmptyTrillSoundAttributes, lastBeat, hasLastBeat )
END
KLASS( WithBar )
  ATTRS( WithBar, WithBarAttributes )
  FIELD( WithBar, WithBarAttributes, defaultX, hasDefaultX )
  FIELD( WithBar, WithBarAttributes, defaultY, hasDefaultY )
  FIELD( WithBar, WithBarAttributes, relativeX, hasRelativeX )
  FIELD( WithBar, WithBarAttributes, relativeY, hasRelativeY )
  FIELD( WithBar, WithBarAttributes, fontFamily, hasFontFamily )
  FIELD( WithBar, WithBarAttributes, fontStyle, hasFontStyle )
  FIELD( WithBar, WithBarAttributes, fontSize, hasFontSize )
  FIELD( WithBar, WithBarAttributes, fontWeight, hasFontWeight )
  FIELD( WithBar, WithBarAttributes, placement, hasPlacement )
  VALUE( WithBar, Value )
END
}
