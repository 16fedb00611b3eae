// written by lib/genelements.py
#include "mx/core/elements/AccordionMiddle.h"
#include "mx/core/elements/ArrowDirection.h"
#include "mx/core/elements/ArrowGroup.h"
#include "mx/core/elements/ArrowStyle.h"
#include "mx/core/elements/Barre.h"
#include "mx/core/elements/BarreAttributes.h"
#include "mx/core/elements/BeatUnit.h"
#include "mx/core/elements/BendAlter.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/Capo.h"
#include "mx/core/elements/Chromatic.h"
#include "mx/core/elements/Credit.h"
#include "mx/core/elements/CreditAttributes.h"
#include "mx/core/elements/CreditChoice.h"
#include "mx/core/elements/CreditType.h"
#include "mx/core/elements/Damp.h"
#include "mx/core/elements/DelayedInvertedTurn.h"
#include "mx/core/elements/DelayedInvertedTurnAttributes.h"
#include "mx/core/elements/Diatonic.h"
#include "mx/core/elements/DisplayStep.h"
#include "mx/core/elements/Double.h"
#include "mx/core/elements/Effect.h"
#include "mx/core/elements/EmptyFontAttributes.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/EncodingDate.h"
#include "mx/core/elements/Falloff.h"
#include "mx/core/elements/Feature.h"
#include "mx/core/elements/Fingernails.h"
#include "mx/core/elements/Fret.h"
#include "mx/core/elements/FretAttributes.h"
#include "mx/core/elements/Group.h"
#include "mx/core/elements/Grouping.h"
#include "mx/core/elements/GroupingAttributes.h"
#include "mx/core/elements/HarpPedals.h"
#include "mx/core/elements/HarpPedalsAttributes.h"
#include "mx/core/elements/Image.h"
#include "mx/core/elements/ImageAttributes.h"
#include "mx/core/elements/InvertedMordent.h"
#include "mx/core/elements/InvertedMordentAttributes.h"
#include "mx/core/elements/KeyStep.h"
#include "mx/core/elements/LeftMargin.h"
#include "mx/core/elements/LineWidth.h"
#include "mx/core/elements/LineWidthAttributes.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/MeasureAttributes.h"
#include "mx/core/elements/MeasureNumbering.h"
#include "mx/core/elements/MeasureNumberingAttributes.h"
#include "mx/core/elements/MetronomeDot.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiDeviceAttributes.h"
#include "mx/core/elements/Millimeters.h"
#include "mx/core/elements/MiscellaneousField.h"
#include "mx/core/elements/MiscellaneousFieldAttributes.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/MusicFont.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/Notehead.h"
#include "mx/core/elements/NoteheadAttributes.h"
#include "mx/core/elements/OctaveChange.h"
#include "mx/core/elements/Opus.h"
#include "mx/core/elements/OpusAttributes.h"
#include "mx/core/elements/OtherPercussion.h"
#include "mx/core/elements/PartAbbreviation.h"
#include "mx/core/elements/PartAbbreviationAttributes.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/PedalTuning.h"
#include "mx/core/elements/Percussion.h"
#include "mx/core/elements/PercussionAttributes.h"
#include "mx/core/elements/PercussionChoice.h"
#include "mx/core/elements/Prefix.h"
#include "mx/core/elements/PrefixAttributes.h"
#include "mx/core/elements/Repeat.h"
#include "mx/core/elements/RepeatAttributes.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/Scaling.h"
#include "mx/core/elements/ScoreHeaderGroup.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/ScoreTimewiseAttributes.h"
#include "mx/core/elements/SlashType.h"
#include "mx/core/elements/SoundingPitch.h"
#include "mx/core/elements/StaffDistance.h"
#include "mx/core/elements/StaffLayout.h"
#include "mx/core/elements/StaffLayoutAttributes.h"
#include "mx/core/elements/Stick.h"
#include "mx/core/elements/StickAttributes.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/StrongAccent.h"
#include "mx/core/elements/StrongAccentAttributes.h"
#include "mx/core/elements/SystemMargins.h"
#include "mx/core/elements/Tenths.h"
#include "mx/core/elements/Tie.h"
#include "mx/core/elements/TieAttributes.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/Transpose.h"
#include "mx/core/elements/TransposeAttributes.h"
#include "mx/core/elements/TupletActual.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletNumber.h"
#include "mx/core/elements/TupletType.h"
#include "mx/core/elements/Unstress.h"
#include "mx/core/elements/WavyLine.h"
#include "mx/core/elements/WavyLineAttributes.h"
#include "mx/core/elements/WorkTitle.h"
using namespace mx::core;
void registerElements7( std::vector<el::Klass>& all )
{
KLASS( AccordionMiddle )
  VALUE( AccordionMiddle, Value )
END
KLASS( ArrowGroup )
  ONE( ArrowGroup, ArrowDirection, ArrowDirection )
  OPT( ArrowGroup, ArrowStyle, ArrowStyle )
END
KLASS( Barre )
  ATTRS( Barre, BarreAttributes )
  FIELD0( Barre, BarreAttributes, type )
END
KLASS( BeatUnit )
  VALUE( BeatUnit, Value )
END
KLASS( BendAlter )
  VALUE( BendAlter, Value )
END
KLASS( Capo )
  VALUE( Capo, Value )
END
KLASS( Credit )
  ATTRS( Credit, CreditAttributes )
  FIELD( Credit, CreditAttributes, page, hasPage )
  ONE( Credit, CreditChoice, CreditChoice )
  COLL( Credit, CreditType, CreditType, 0, -1 )
  COLL( Credit, Link, Link, 0, -1 )
  COLL( Credit, Bookmark, Bookmark, 0, -1 )
END
KLASS( Damp )
  ATTRS( Damp, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( DelayedInvertedTurn )
  ATTRS( DelayedInvertedTurn, DelayedInvertedTurnAttributes )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, defaultX, hasDefaultX )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, defaultY, hasDefaultY )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, relativeX, hasRelativeX )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, relativeY, hasRelativeY )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, fontFamily, hasFontFamily )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, fontStyle, hasFontStyle )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, fontSize, hasFontSize )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, fontWeight, hasFontWeight )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, placement, hasPlacement )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, startNote, hasStartNote )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, trillStep, hasTrillStep )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, accelerate, hasAccelerate )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, beats, hasBeats )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, secondBeat, hasSecondBeat )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, lastBeat, hasLastBeat )
  FIELD( DelayedInvertedTurn, DelayedInvertedTurnAttributes, slash, hasSlash )
END
KLASS( DisplayStep )
  VALUE( DisplayStep, Value )
END
KLASS( Double )
END
KLASS( Effect )
  VALUE( Effect, Value )
END
KLASS( EncodingDate )
  VALUE( EncodingDate, Value )
END
KLASS( Falloff )
  ATTRS( Falloff, EmptyLineAttributes )
  FIELD( Falloff, EmptyLineAttributes, lineShape, hasLineShape )
  FIELD( Falloff, EmptyLineAttributes, lineType, hasLineType )
  FIELD( Falloff, EmptyLineAttributes, dashLength, hasDashLength )
  FIELD( Falloff, EmptyLineAttributes, spaceLength, hasSpaceLength )
  FIELD( Falloff, EmptyLineAttributes, defaultX, hasDefaultX )
  FIELD( Falloff, EmptyLineAttributes, defaultY, hasDefaultY )
  FIELD( Falloff, EmptyLineAttributes, relativeX, hasRelativeX )
  FIELD( Falloff, EmptyLineAttributes, relativeY, hasRelativeY )
  FIELD( Falloff, EmptyLineAttributes, fontFamily, hasFontFamily )
  FIELD( Falloff, EmptyLineAttributes, fontStyle, hasFontStyle )
  FIELD( Falloff, EmptyLineAttributes, fontSize, hasFontSize )
  FIELD( Falloff, EmptyLineAttributes, fontWeight, hasFontWeight )
  FIELD( Falloff, EmptyLineAttributes, placement, hasPlacement )
END
KLASS( Fingernails )
  ATTRS( Fingernails, EmptyPlacementAttributes )
  FIELD( Fingernails, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Fingernails, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Fingernails, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Fingernails, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Fingernails, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Fingernails, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Fingernails, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Fingernails, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Fingernails, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Fret )
  ATTRS( Fret, FretAttributes )
  FIELD( Fret, FretAttributes, fontFamily, hasFontFamily )
  FIELD( Fret, FretAttributes, fontStyle, hasFontStyle )
  FIELD( Fret, FretAttributes, fontSize, hasFontSize )
  FIELD( Fret, FretAttributes, fontWeight, hasFontWeight )
  VALUE( Fret, Value )
END
KLASS( Group )
  VALUE( Group, Value )
END
KLASS( Grouping )
  ATTRS( Grouping, GroupingAttributes )
  FIELD0( Grouping, GroupingAttributes, type )
  FIELD( Grouping, GroupingAttributes, number, hasNumber )
  FIELD( Grouping, GroupingAttributes, memberOf, hasMemberOf )
  COLL( Grouping, Feature, Feature, 0, -1 )
END
KLASS( HarpPedals )
  ATTRS( HarpPedals, HarpPedalsAttributes )
  FIELD( HarpPedals, HarpPedalsAttributes, defaultX, hasDefaultX )
  FIELD( HarpPedals, HarpPedalsAttributes, defaultY, hasDefaultY )
  FIELD( HarpPedals, HarpPedalsAttributes, relativeX, hasRelativeX )
  FIELD( HarpPedals, HarpPedalsAttributes, relativeY, hasRelativeY )
  FIELD( HarpPedals, HarpPedalsAttributes, fontFamily, hasFontFamily )
  FIELD( HarpPedals, HarpPedalsAttributes, fontStyle, hasFontStyle )
  FIELD( HarpPedals, HarpPedalsAttributes, fontSize, hasFontSize )
  FIELD( HarpPedals, HarpPedalsAttributes, fontWeight, hasFontWeight )
  FIELD( HarpPedals, HarpPedalsAttributes, color, hasColor )
  FIELD( HarpPedals, HarpPedalsAttributes, halign, hasHalign )
  FIELD( HarpPedals, HarpPedalsAttributes, valign, hasValign )
  COLL( HarpPedals, PedalTuning, PedalTuning, 1, -1 )
END
KLASS( Image )
  ATTRS( Image, ImageAttributes )
  FIELD0( Image, ImageAttributes, source )
  FIELD0( Image, ImageAttributes, type )
  FIELD( Image, ImageAttributes, defaultX, hasDefaultX )
  FIELD( Image, ImageAttributes, defaultY, hasDefaultY )
  FIELD( Image, ImageAttributes, relativeX, hasRelativeX )
  FIELD( Image, ImageAttributes, relativeY, hasRelativeY )
  FIELD( Image, ImageAttributes, halign, hasHalign )
END
KLASS( InvertedMordent )
  ATTRS( InvertedMordent, InvertedMordentAttributes )
  FIELD( InvertedMordent, InvertedMordentAttributes, defaultX, hasDefaultX )
  FIELD( InvertedMordent, InvertedMordentAttributes, defaultY, hasDefaultY )
  FIELD( InvertedMordent, InvertedMordentAttributes, relativeX, hasRelativeX )
  FIELD( InvertedMordent, InvertedMordentAttributes, relativeY, hasRelativeY )
  FIELD( InvertedMordent, InvertedMordentAttributes, fontFamily, hasFontFamily )
  FIELD( InvertedMordent, InvertedMordentAttributes, fontStyle, hasFontStyle )
  FIELD( InvertedMordent, InvertedMordentAttributes, fontSize, hasFontSize )
  FIELD( InvertedMordent, InvertedMordentAttributes, fontWeight, hasFontWeight )
  FIELD( InvertedMordent, InvertedMordentAttributes, color, hasColor )
  FIELD( InvertedMordent, InvertedMordentAttributes, placement, hasPlacement )
  FIELD( InvertedMordent, InvertedMordentAttributes, startNote, hasStartNote )
  FIELD( InvertedMordent, InvertedMordentAttributes, trillStep, hasTrillStep )
  FIELD( InvertedMordent, InvertedMordentAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( InvertedMordent, InvertedMordentAttributes, accelerate, hasAccelerate )
  FIELD( InvertedMordent, InvertedMordentAttributes, beats, hasBeats )
  FIELD( InvertedMordent, InvertedMordentAttributes, secondBeat, hasSecondBeat )
  FIELD( InvertedMordent, InvertedMordentAttributes, lastBeat, hasLastBeat )
  FIELD( InvertedMordent, InvertedMordentAttributes, long_, hasLong )
  FIELD( InvertedMordent, InvertedMordentAttributes, approach, hasApproach )
  FIELD( InvertedMordent, InvertedMordentAttributes, departure, hasDeparture )
END
KLASS( KeyStep )
  VALUE( KeyStep, Value )
END
KLASS( LineWidth )
  ATTRS( LineWidth, LineWidthAttributes )
  FIELD0( LineWidth, LineWidthAttributes, type )
  VALUE( LineWidth, Value )
END
KLASS( MeasureNumbering )
  ATTRS( MeasureNumbering, MeasureNumberingAttributes )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, defaultX, hasDefaultX )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, defaultY, hasDefaultY )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, relativeX, hasRelativeX )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, relativeY, hasRelativeY )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, fontFamily, hasFontFamily )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, fontStyle, hasFontStyle )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, fontSize, hasFontSize )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, fontWeight, hasFontWeight )
  FIELD( MeasureNumbering, MeasureNumberingAttributes, halign, hasHalign )
  VALUE( MeasureNumbering, Value )
END
KLASS( MetronomeDot )
END
KLASS( MidiDevice )
  ATTRS( MidiDevice, MidiDeviceAttributes )
  FIELD( MidiDevice, MidiDeviceAttributes, port, hasPort )
  FIELD( MidiDevice, MidiDeviceAttributes, id, hasId )
  VALUE( MidiDevice, Value )
END
KLASS( MiscellaneousField )
  ATTRS( MiscellaneousField, MiscellaneousFieldAttributes )
  FIELD0( MiscellaneousField, MiscellaneousFieldAttributes, name )
  VALUE( MiscellaneousField, Value )
END
KLASS( MusicFont )
  ATTRS( MusicFont, EmptyFontAttributes )
  FIELD( MusicFont, EmptyFontAttributes, fontFamily, hasFontFamily )
  FIELD( MusicFont, EmptyFontAttributes, fontStyle, hasFontStyle )
  FIELD( MusicFont, EmptyFontAttributes, fontSize, hasFontSize )
  FIELD( MusicFont, EmptyFontAttributes, fontWeight, hasFontWeight )
END
KLASS( NormalType )
  VALUE( NormalType, Value )
END
KLASS( Notehead )
  ATTRS( Notehead, NoteheadAttributes )
  FIELD( Notehead, NoteheadAttributes, filled, hasFilled )
  FIELD( Notehead, NoteheadAttributes, parentheses, hasParentheses )
  FIELD( Notehead, NoteheadAttributes, fontFamily, hasFontFamily )
  FIELD( Notehead, NoteheadAttributes, fontStyle, hasFontStyle )
  FIELD( Notehead, NoteheadAttributes, fontSize, hasFontSize )
  FIELD( Notehead, NoteheadAttributes, fontWeight, hasFontWeight )
  FIELD( Notehead, NoteheadAttributes, color, hasColor )
  VALUE( Notehead, Value )
END
KLASS( Opus )
  ATTRS( Opus, OpusAttributes )
  FIELD0( Opus, OpusAttributes, href )
  FIELD( Opus, OpusAttributes, type, hasType )
  FIELD( Opus, OpusAttributes, role, hasRole )
  FIELD( Opus, OpusAttributes, title, hasTitle )
  FIELD( Opus, OpusAttributes, show, hasShow )
  FIELD( Opus, OpusAttributes, actuate, hasActuate )
END
KLASS( OtherPercussion )
  VALUE( OtherPercussion, Value )
END
KLASS( PartAbbreviation )
  ATTRS( PartAbbreviation, PartAbbreviationAttributes )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, defaultX, hasDefaultX )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, defaultY, hasDefaultY )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, relativeX, hasRelativeX )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, relativeY, hasRelativeY )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, fontFamily, hasFontFamily )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, fontStyle, hasFontStyle )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, fontSize, hasFontSize )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, fontWeight, hasFontWeight )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, printObject, hasPrintObject )
  FIELD( PartAbbreviation, PartAbbreviationAttributes, justify, hasJustify )
  VALUE( PartAbbreviation, Value )
END
KLASS( PartwiseMeasure )
  ATTRS( PartwiseMeasure, MeasureAttributes )
  FIELD0( PartwiseMeasure, MeasureAttributes, number )
  FIELD( PartwiseMeasure, MeasureAttributes, implicit, hasImplicit )
  FIELD( PartwiseMeasure, MeasureAttributes, nonControlling, hasNonControlling )
  FIELD( PartwiseMeasure, MeasureAttributes, width, hasWidth )
  ONE( PartwiseMeasure, MusicDataGroup, MusicDataGroup )
END
KLASS( Percussion )
  ATTRS( Percussion, PercussionAttributes )
  FIELD( Percussion, PercussionAttributes, defaultX, hasDefaultX )
  FIELD( Percussion, PercussionAttributes, defaultY, hasDefaultY )
  FIELD( Percussion, PercussionAttributes, relativeX, hasRelativeX )
  FIELD( Percussion, PercussionAttributes, relativeY, hasRelativeY )
  FIELD( Percussion, PercussionAttributes, fontFamily, hasFontFamily )
  FIELD( Percussion, PercussionAttributes, fontStyle, hasFontStyle )
  FIELD( Percussion, PercussionAttributes, fontSize, hasFontSize )
  FIELD( Percussion, PercussionAttributes, fontWeight, hasFontWeight )
  FIELD( Percussion, PercussionAttributes, color, hasColor )
  FIELD( Percussion, PercussionAttributes, halign, hasHalign )
  FIELD( Percussion, PercussionAttributes, valign, hasValign )
  FIELD( Percussion, PercussionAttributes, enclosure, hasEnclosure )
  ONE( Percussion, PercussionChoice, PercussionChoice )
END
KLASS( Prefix )
  ATTRS( Prefix, PrefixAttributes )
  FIELD( Prefix, PrefixAttributes, defaultX, hasDefaultX )
  FIELD( Prefix, PrefixAttributes, defaultY, hasDefaultY )
  FIELD( Prefix, PrefixAttributes, relativeX, hasRelativeX )
  FIELD( Prefix, PrefixAttributes, relativeY, hasRelativeY )
  FIELD( Prefix, PrefixAttributes, fontFamily, hasFontFamily )
  FIELD( Prefix, PrefixAttributes, fontStyle, hasFontStyle )
  FIELD( Prefix, PrefixAttributes, fontSize, hasFontSize )
  FIELD( Prefix, PrefixAttributes, fontWeight, hasFontWeight )
  VALUE( Prefix, Value )
END
KLASS( Repeat )
  ATTRS( Repeat, RepeatAttributes )
  FIELD0( Repeat, RepeatAttributes, direction )
  FIELD( Repeat, RepeatAttributes, times, hasTimes )
  FIELD( Repeat, RepeatAttributes, winged, hasWinged )
END
KLASS( Scaling )
  ONE( Scaling, Millimeters, Millimeters )
  ONE( Scaling, Tenths, Tenths )
END
KLASS( ScoreTimewise )
  ATTRS( ScoreTimewise, ScoreTimewiseAttributes )
  FIELD( ScoreTimewise, ScoreTimewiseAttributes, version, hasVersion )
  ONE( ScoreTimewise, ScoreHeaderGroup, ScoreHeaderGroup )
  COLL( ScoreTimewise, TimewiseMeasure, TimewiseMeasure, 1, -1 )
END
KLASS( SlashType )
  VALUE( SlashType, Value )
END
KLASS( SoundingPitch )
END
KLASS( StaffLayout )
  ATTRS( StaffLayout, StaffLayoutAttributes )
  FIELD( StaffLayout, StaffLayoutAttributes, number, hasNumber )
  OPT( StaffLayout, StaffDistance, StaffDistance )
END
KLASS( Stick )
  ATTRS( Stick, StickAttributes )
  FIELD( Stick, StickAttributes, tip, hasTip )
  ONE( Stick, StickType, StickType )
  ONE( Stick, StickMaterial, StickMaterial )
END
KLASS( StrongAccent )
  ATTRS( StrongAccent, StrongAccentAttributes )
  FIELD( StrongAccent, StrongAccentAttributes, defaultX, hasDefaultX )
  FIELD( StrongAccent, StrongAccentAttributes, defaultY, hasDefaultY )
  FIELD( StrongAccent, StrongAccentAttributes, relativeX, hasRelativeX )
  FIELD( StrongAccent, StrongAccentAttributes, relativeY, hasRelativeY )
  FIELD( StrongAccent, StrongAccentAttributes, fontFamily, hasFontFamily )
  FIELD( StrongAccent, StrongAccentAttributes, fontStyle, hasFontStyle )
  FIELD( StrongAccent, StrongAccentAttributes, fontSize, hasFontSize )
  FIELD( StrongAccent, StrongAccentAttributes, fontWeight, hasFontWeight )
  FIELD( StrongAccent, StrongAccentAttributes, color, hasColor )
  FIELD( StrongAccent, StrongAccentAttributes, placement, hasPlacement )
  FIELD( StrongAccent, StrongAccentAttributes, type, hasType )
END
KLASS( SystemMargins )
  ONE( SystemMargins, LeftMargin, LeftMargin )
  ONE( SystemMargins, RightMargin, RightMargin )
END
KLASS( Tie )
  ATTRS( Tie, TieAttributes )
  FIELD0( Tie, TieAttributes, type )
  FIELD( Tie, TieAttributes, timeOnly, hasTimeOnly )
END
KLASS( TimewiseMeasure )
  ATTRS( TimewiseMeasure, MeasureAttributes )
  FIELD0( TimewiseMeasure, MeasureAttributes, number )
  FIELD( TimewiseMeasure, MeasureAttributes, implicit, hasImplicit )
  FIELD( TimewiseMeasure, MeasureAttributes, nonControlling, hasNonControlling )
  FIELD( TimewiseMeasure, MeasureAttributes, width, hasWidth )
  COLL( TimewiseMeasure, TimewisePart, TimewisePart, 1, -1 )
END
KLASS( Transpose )
  ATTRS( Transpose, TransposeAttributes )
  FIELD( Transpose, TransposeAttributes, number, hasNumber )
  OPT( Transpose, Diatonic, Diatonic )
  ONE( Transpose, Chromatic, Chromatic )
  OPT( Transpose, OctaveChange, OctaveChange )
  OPT( Transpose, Double, Double )
END
KLASS( TupletActual )
  OPT( TupletActual, TupletNumber, TupletNumber )
  OPT( TupletActual, TupletType, TupletType )
  COLL( TupletActual, TupletDot, TupletDot, 0, -1 )
END
KLASS( Unstress )
  ATTRS( Unstress, EmptyPlacementAttributes )
  FIELD( Unstress, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Unstress, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Unstress, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Unstress, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Unstress, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Unstress, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Unstress, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Unstress, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Unstress, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( WavyLine )
  ATTRS( WavyLine, WavyLineAttributes )
  FIELD0( WavyLine, WavyLineAttributes, type )
  FIELD( WavyLine, WavyLineAttributes, number, hasNumber )
  FIELD( WavyLine, WavyLineAttributes, defaultX, hasDefaultX )
  FIELD( WavyLine, WavyLineAttributes, defaultY, hasDefaultY )
  FIELD( WavyLine, WavyLineAttributes, relativeX, hasRelativeX )
  FIELD( WavyLine, WavyLineAttributes, relativeY, hasRelativeY )
  FIELD( WavyLine, WavyLineAttributes, placement, hasPlacement )
  FIELD( WavyLine, WavyLineAttributes, startNote, hasStartNote )
  FIELD( WavyLine, WavyLineAttributes, trillStep, hasTrillStep )
  FIELD( WavyLine, WavyLineAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( WavyLine, WavyLineAttributes, accelerate, hasAccelerate )
  FIELD( WavyLine, WavyLineAttributes, beats, hasBeats )
  FIELD( WavyLine, WavyLineAttributes, secondBeat, hasSecondBeat )
  FIELD( WavyLine, WavyLineAttributes, lastBeat, hasLastBeat )
END
KLASS( WorkTitle )
  VALUE( WorkTitle, Value )
END
}
