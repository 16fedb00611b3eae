// written by lib/genelements.py
#include "mx/core/elements/Accent.h"
#include "mx/core/elements/AccidentalMark.h"
#include "mx/core/elements/AccordionHigh.h"
#include "mx/core/elements/AccordionLow.h"
#include "mx/core/elements/AccordionMiddle.h"
#include "mx/core/elements/AccordionRegistration.h"
#include "mx/core/elements/AccordionRegistrationAttributes.h"
#include "mx/core/elements/ArrowStyle.h"
#include "mx/core/elements/BasePitch.h"
#include "mx/core/elements/BeatUnitDot.h"
#include "mx/core/elements/Beater.h"
#include "mx/core/elements/BendChoice.h"
#include "mx/core/elements/Chord.h"
#include "mx/core/elements/CreditChoice.h"
#include "mx/core/elements/CreditImage.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsGroup.h"
#include "mx/core/elements/DampAll.h"
#include "mx/core/elements/DelayedTurn.h"
#include "mx/core/elements/DelayedTurnAttributes.h"
#include "mx/core/elements/DisplayOctave.h"
#include "mx/core/elements/DisplayStep.h"
#include "mx/core/elements/DisplayStepOctaveGroup.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/DoubleTongue.h"
#include "mx/core/elements/Effect.h"
#include "mx/core/elements/Elevation.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/EncodingDescription.h"
#include "mx/core/elements/Feature.h"
#include "mx/core/elements/FeatureAttributes.h"
#include "mx/core/elements/FirstFret.h"
#include "mx/core/elements/FirstFretAttributes.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include "mx/core/elements/Glass.h"
#include "mx/core/elements/GroupAbbreviation.h"
#include "mx/core/elements/GroupAbbreviationAttributes.h"
#include "mx/core/elements/HammerOn.h"
#include "mx/core/elements/HammerOnAttributes.h"
#include "mx/core/elements/Heel.h"
#include "mx/core/elements/HeelAttributes.h"
#include "mx/core/elements/Instrument.h"
#include "mx/core/elements/InstrumentAttributes.h"
#include "mx/core/elements/InvertedTurn.h"
#include "mx/core/elements/InvertedTurnAttributes.h"
#include "mx/core/elements/Kind.h"
#include "mx/core/elements/KindAttributes.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/LinkAttributes.h"
#include "mx/core/elements/MeasureRepeat.h"
#include "mx/core/elements/MeasureRepeatAttributes.h"
#include "mx/core/elements/Membrane.h"
#include "mx/core/elements/Metal.h"
#include "mx/core/elements/MetronomeBeam.h"
#include "mx/core/elements/MetronomeDot.h"
#include "mx/core/elements/MetronomeNote.h"
#include "mx/core/elements/MetronomeTuplet.h"
#include "mx/core/elements/MetronomeType.h"
#include "mx/core/elements/MidiDevice.h"
#include "mx/core/elements/MidiDeviceInstrumentGroup.h"
#include "mx/core/elements/MidiInstrument.h"
#include "mx/core/elements/Mode.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/Mute.h"
#include "mx/core/elements/NormalDot.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/NormalTypeNormalDotGroup.h"
#include "mx/core/elements/NoteheadText.h"
#include "mx/core/elements/NoteheadTextChoice.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/OrnamentsChoice.h"
#include "mx/core/elements/OtherPercussion.h"
#include "mx/core/elements/OtherPlay.h"
#include "mx/core/elements/OtherPlayAttributes.h"
#include "mx/core/elements/PartAbbreviationDisplay.h"
#include "mx/core/elements/PartAbbreviationDisplayAttributes.h"
#include "mx/core/elements/PartAttributes.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PercussionChoice.h"
#include "mx/core/elements/Pitched.h"
#include "mx/core/elements/PreBend.h"
#include "mx/core/elements/PrincipalVoice.h"
#include "mx/core/elements/PrincipalVoiceAttributes.h"
#include "mx/core/elements/Release.h"
#include "mx/core/elements/Rest.h"
#include "mx/core/elements/RestAttributes.h"
#include "mx/core/elements/Schleifer.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/Slide.h"
#include "mx/core/elements/SlideAttributes.h"
#include "mx/core/elements/Source.h"
#include "mx/core/elements/StaffLines.h"
#include "mx/core/elements/Stick.h"
#include "mx/core/elements/StickLocation.h"
#include "mx/core/elements/StickMaterial.h"
#include "mx/core/elements/StickType.h"
#include "mx/core/elements/Suffix.h"
#include "mx/core/elements/SuffixAttributes.h"
#include "mx/core/elements/Tap.h"
#include "mx/core/elements/TapAttributes.h"
#include "mx/core/elements/Tied.h"
#include "mx/core/elements/TiedAttributes.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/Timpani.h"
#include "mx/core/elements/Tremolo.h"
#include "mx/core/elements/TremoloAttributes.h"
#include "mx/core/elements/TupletDot.h"
#include "mx/core/elements/TupletDotAttributes.h"
#include "mx/core/elements/UpBow.h"
#include "mx/core/elements/Wedge.h"
#include "mx/core/elements/WedgeAttributes.h"
#include "mx/core/elements/Wood.h"
using namespace mx::core;
void registerElements0( std::vector<el::Klass>& all )
{
KLASS( Accent )
  ATTRS( Accent, EmptyPlacementAttributes )
  FIELD( Accent, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Accent, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Accent, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Accent, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Accent, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Accent, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Accent, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Accent, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Accent, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( AccordionRegistration )
  ATTRS( AccordionRegistration, AccordionRegistrationAttributes )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, defaultX, hasDefaultX )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, defaultY, hasDefaultY )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, relativeX, hasRelativeX )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, relativeY, hasRelativeY )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, fontFamily, hasFontFamily )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, fontStyle, hasFontStyle )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, fontSize, hasFontSize )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, fontWeight, hasFontWeight )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, color, hasColor )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, halign, hasHalign )
  FIELD( AccordionRegistration, AccordionRegistrationAttributes, valign, hasValign )
  OPT( AccordionRegistration, AccordionHigh, AccordionHigh )
  OPT( AccordionRegistration, AccordionMiddle, AccordionMiddle )
  OPT( AccordionRegistration, AccordionLow, AccordionLow )
END
KLASS( ArrowStyle )
  VALUE( ArrowStyle, Value )
END
KLASS( BasePitch )
END
KLASS( BeatUnitDot )
END
KLASS( BendChoice )
  ONE( BendChoice, PreBend, PreBend )
  ONE( BendChoice, Release, Release )
  CHOICE( BendChoice, { "preBend", 1 }, { "release", 2 } )
END
KLASS( Chord )
END
KLASS( CreditChoice )
  ONE( CreditChoice, CreditImage, CreditImage )
  ONE( CreditChoice, CreditWords, CreditWords )
  COLL( CreditChoice, CreditWordsGroup, CreditWordsGroup, 0, -1 )
  CHOICE( CreditChoice, { "creditImage", 1 }, { "creditWords", 2 } )
END
KLASS( DampAll )
  ATTRS( DampAll, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( DelayedTurn )
  ATTRS( DelayedTurn, DelayedTurnAttributes )
  FIELD( DelayedTurn, DelayedTurnAttributes, defaultX, hasDefaultX )
  FIELD( DelayedTurn, DelayedTurnAttributes, defaultY, hasDefaultY )
  FIELD( DelayedTurn, DelayedTurnAttributes, relativeX, hasRelativeX )
  FIELD( DelayedTurn, DelayedTurnAttributes, relativeY, hasRelativeY )
  FIELD( DelayedTurn, DelayedTurnAttributes, fontFamily, hasFontFamily )
  FIELD( DelayedTurn, DelayedTurnAttributes, fontStyle, hasFontStyle )
  FIELD( DelayedTurn, DelayedTurnAttributes, fontSize, hasFontSize )
  FIELD( DelayedTurn, DelayedTurnAttributes, fontWeight, hasFontWeight )
  FIELD( DelayedTurn, DelayedTurnAttributes, placement, hasPlacement )
  FIELD( DelayedTurn, DelayedTurnAttributes, startNote, hasStartNote )
  FIELD( DelayedTurn, DelayedTurnAttributes, trillStep, hasTrillStep )
  FIELD( DelayedTurn, DelayedTurnAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( DelayedTurn, DelayedTurnAttributes, accelerate, hasAccelerate )
  FIELD( DelayedTurn, DelayedTurnAttributes, beats, hasBeats )
  FIELD( DelayedTurn, DelayedTurnAttributes, secondBeat, hasSecondBeat )
  FIELD( DelayedTurn, DelayedTurnAttributes, lastBeat, hasLastBeat )
  FIELD( DelayedTurn, DelayedTurnAttributes, slash, hasSlash )
END
KLASS( DisplayStepOctaveGroup )
  ONE( DisplayStepOctaveGroup, DisplayStep, DisplayStep )
  ONE( DisplayStepOctaveGroup, DisplayOctave, DisplayOctave )
END
KLASS( DoubleTongue )
  ATTRS( DoubleTongue, EmptyPlacementAttributes )
  FIELD( DoubleTongue, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( DoubleTongue, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( DoubleTongue, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( DoubleTongue, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( DoubleTongue, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( DoubleTongue, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( DoubleTongue, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( DoubleTongue, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( DoubleTongue, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Elevation )
  VALUE( Elevation, Value )
END
KLASS( EncodingDescription )
  VALUE( EncodingDescription, Value )
END
KLASS( Feature )
  ATTRS( Feature, FeatureAttributes )
  FIELD( Feature, FeatureAttributes, type, hasType )
  VALUE( Feature, Value )
END
KLASS( FirstFret )
  ATTRS( FirstFret, FirstFretAttributes )
  FIELD( FirstFret, FirstFretAttributes, text, hasText )
  FIELD( FirstFret, FirstFretAttributes, location, hasLocation )
  VALUE( FirstFret, Value )
END
KLASS( FullNoteGroup )
  OPT( FullNoteGroup, Chord, Chord )
  ONE( FullNoteGroup, FullNoteTypeChoice, FullNoteTypeChoice )
END
KLASS( GroupAbbreviation )
  ATTRS( GroupAbbreviation, GroupAbbreviationAttributes )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, defaultX, hasDefaultX )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, defaultY, hasDefaultY )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, relativeX, hasRelativeX )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, relativeY, hasRelativeY )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, fontFamily, hasFontFamily )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, fontStyle, hasFontStyle )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, fontSize, hasFontSize )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, fontWeight, hasFontWeight )
  FIELD( GroupAbbreviation, GroupAbbreviationAttributes, justify, hasJustify )
  VALUE( GroupAbbreviation, Value )
END
KLASS( HammerOn )
  ATTRS( HammerOn, HammerOnAttributes )
  FIELD0( HammerOn, HammerOnAttributes, type )
  FIELD( HammerOn, HammerOnAttributes, number, hasNumber )
  FIELD( HammerOn, HammerOnAttributes, defaultX, hasDefaultX )
  FIELD( HammerOn, HammerOnAttributes, defaultY, hasDefaultY )
  FIELD( HammerOn, HammerOnAttributes, relativeX, hasRelativeX )
  FIELD( HammerOn, HammerOnAttributes, relativeY, hasRelativeY )
  FIELD( HammerOn, HammerOnAttributes, fontFamily, hasFontFamily )
  FIELD( HammerOn, HammerOnAttributes, fontStyle, hasFontStyle )
  FIELD( HammerOn, HammerOnAttributes, fontSize, hasFontSize )
  FIELD( HammerOn, HammerOnAttributes, fontWeight, hasFontWeight )
  FIELD( HammerOn, HammerOnAttributes, placement, hasPlacement )
  VALUE( HammerOn, Value )
END
KLASS( Heel )
  ATTRS( Heel, HeelAttributes )
  FIELD( Heel, HeelAttributes, defaultX, hasDefaultX )
  FIELD( Heel, HeelAttributes, defaultY, hasDefaultY )
  FIELD( Heel, HeelAttributes, relativeX, hasRelativeX )
  FIELD( Heel, HeelAttributes, relativeY, hasRelativeY )
  FIELD( Heel, HeelAttributes, fontFamily, hasFontFamily )
  FIELD( Heel, HeelAttributes, fontStyle, hasFontStyle )
  FIELD( Heel, HeelAttributes, fontSize, hasFontSize )
  FIELD( Heel, HeelAttributes, fontWeight, hasFontWeight )
  FIELD( Heel, HeelAttributes, color, hasColor )
  FIELD( Heel, HeelAttributes, placement, hasPlacement )
  FIELD( Heel, HeelAttributes, substitution, hasSubstitution )
END
KLASS( Instrument )
  ATTRS( Instrument, InstrumentAttributes )
  FIELD0( Instrument, InstrumentAttributes, id )
END
KLASS( InvertedTurn )
  ATTRS( InvertedTurn, InvertedTurnAttributes )
  FIELD( InvertedTurn, InvertedTurnAttributes, defaultX, hasDefaultX )
  FIELD( InvertedTurn, InvertedTurnAttributes, defaultY, hasDefaultY )
  FIELD( InvertedTurn, InvertedTurnAttributes, relativeX, hasRelativeX )
  FIELD( InvertedTurn, InvertedTurnAttributes, relativeY, hasRelativeY )
  FIELD( InvertedTurn, InvertedTurnAttributes, fontFamily, hasFontFamily )
  FIELD( InvertedTurn, InvertedTurnAttributes, fontStyle, hasFontStyle )
  FIELD( InvertedTurn, InvertedTurnAttributes, fontSize, hasFontSize )
  FIELD( InvertedTurn, InvertedTurnAttributes, fontWeight, hasFontWeight )
  FIELD( InvertedTurn, InvertedTurnAttributes, placement, hasPlacement )
  FIELD( InvertedTurn, InvertedTurnAttributes, startNote, hasStartNote )
  FIELD( InvertedTurn, InvertedTurnAttributes, trillStep, hasTrillStep )
  FIELD( InvertedTurn, InvertedTurnAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( InvertedTurn, InvertedTurnAttributes, accelerate, hasAccelerate )
  FIELD( InvertedTurn, InvertedTurnAttributes, beats, hasBeats )
  FIELD( InvertedTurn, InvertedTurnAttributes, secondBeat, hasSecondBeat )
  FIELD( InvertedTurn, InvertedTurnAttributes, lastBeat, hasLastBeat )
  FIELD( InvertedTurn, InvertedTurnAttributes, slash, hasSlash )
END
KLASS( Kind )
  ATTRS( Kind, KindAttributes )
  FIELD( Kind, KindAttributes, useSymbols, hasUseSymbols )
  FIELD( Kind, KindAttributes, text, hasText )
  FIELD( Kind, KindAttributes, stackDegrees, hasStackDegrees )
  FIELD( Kind, KindAttributes, parenthesesDegrees, hasParenthesesDegrees )
  FIELD( Kind, KindAttributes, bracketDegrees, hasBracketDegrees )
  FIELD( Kind, KindAttributes, defaultX, hasDefaultX )
  FIELD( Kind, KindAttributes, defaultY, hasDefaultY )
  FIELD( Kind, KindAttributes, relativeX, hasRelativeX )
  FIELD( Kind, KindAttributes, relativeY, hasRelativeY )
  FIELD( Kind, KindAttributes, fontFamily, hasFontFamily )
  FIELD( Kind, KindAttributes, fontStyle, hasFontStyle )
  FIELD( Kind, KindAttributes, fontSize, hasFontSize )
  FIELD( Kind, KindAttributes, fontWeight, hasFontWeight )
  FIELD( Kind, KindAttributes, halign, hasHalign )
  VALUE( Kind, Value )
END
KLASS( Link )
  ATTRS( Link, LinkAttributes )
  FIELD0( Link, LinkAttributes, href )
  FIELD( Link, LinkAttributes, type, hasType )
  FIELD( Link, LinkAttributes, role, hasRole )
  FIELD( Link, LinkAttributes, title, hasTitle )
  FIELD( Link, LinkAttributes, show, hasShow )
  FIELD( Link, LinkAttributes, actuate, hasActuate )
  FIELD( Link, LinkAttributes, name, hasName )
  FIELD( Link, LinkAttributes, element, hasElement )
  FIELD( Link, LinkAttributes, position, hasPosition )
  FIELD( Link, LinkAttributes, defaultX, hasDefaultX )
  FIELD( Link, LinkAttributes, defaultY, hasDefaultY )
  FIELD( Link, LinkAttributes, relativeX, hasRelativeX )
  FIELD( Link, LinkAttributes, relativeY, hasRelativeY )
END
KLASS( MeasureRepeat )
  ATTRS( MeasureRepeat, MeasureRepeatAttributes )
  FIELD0( MeasureRepeat, MeasureRepeatAttributes, type )
  FIELD( MeasureRepeat, MeasureRepeatAttributes, slashes, hasSlashes )
  VALUE( MeasureRepeat, Value )
END
KLASS( MetronomeNote )
  ONE( MetronomeNote, MetronomeType, MetronomeType )
  OPT( MetronomeNote, MetronomeTuplet, MetronomeTuplet )
  COLL( MetronomeNote, MetronomeDot, MetronomeDot, 0, -1 )
  COLL( MetronomeNote, MetronomeBeam, MetronomeBeam, 0, -1 )
END
KLASS( MidiDeviceInstrumentGroup )
  OPT( MidiDeviceInstrumentGroup, MidiDevice, MidiDevice )
  OPT( MidiDeviceInstrumentGroup, MidiInstrument, MidiInstrument )
END
KLASS( Mode )
  VALUE( Mode, Value )
END
KLASS( Mute )
  VALUE( Mute, Value )
END
KLASS( NormalTypeNormalDotGroup )
  ONE( NormalTypeNormalDotGroup, NormalType, NormalType )
  COLL( NormalTypeNormalDotGroup, NormalDot, NormalDot, 0, -1 )
END
KLASS( NoteheadText )
  COLL( NoteheadText, NoteheadTextChoice, NoteheadTextChoice, 1, -1 )
END
KLASS( Ornaments )
  COLL( Ornaments, OrnamentsChoice, OrnamentsChoice, 0, -1 )
  COLL( Ornaments, AccidentalMark, AccidentalMark, 0, -1 )
END
KLASS( OtherPlay )
  ATTRS( OtherPlay, OtherPlayAttributes )
  FIELD0( OtherPlay, OtherPlayAttributes, type )
  VALUE( OtherPlay, Value )
END
KLASS( PartAbbreviationDisplay )
  ATTRS( PartAbbreviationDisplay, PartAbbreviationDisplayAttributes )
  FIELD( PartAbbreviationDisplay, PartAbbreviationDisplayAttributes, printObject, hasPrintObject )
  COLL( PartAbbreviationDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 )
END
KLASS( PartwisePart )
  ATTRS( PartwisePart, PartAttributes )
  FIELD0( PartwisePart, PartAttributes, id )
  COLL( PartwisePart, PartwiseMeasure, PartwiseMeasure, 1, -1 )
END
KLASS( PercussionChoice )
  ONE( PercussionChoice, Glass, Glass )
  ONE( PercussionChoice, Metal, Metal )
  ONE( PercussionChoice, Wood, Wood )
  ONE( PercussionChoice, Pitched, Pitched )
  ONE( PercussionChoice, Membrane, Membrane )
  ONE( PercussionChoice, Effect, Effect )
  ONE( PercussionChoice, Timpani, Timpani )
  ONE( PercussionChoice, Beater, Beater )
  ONE( PercussionChoice, Stick, Stick )
  ONE( PercussionChoice, StickType, StickType )
  ONE( PercussionChoice, StickMaterial, StickMaterial )
  ONE( PercussionChoice, StickLocation, StickLocation )
  ONE( PercussionChoice, OtherPercussion, OtherPercussion )
  CHOICE( PercussionChoice, { "glass", 1 }, { "metal", 2 }, { "wood", 3 }, { "pitched", 4 }, { "membrane", 5 }, { "effect", 6 }, { "timpani", 7 }, { "beater", 8 }, { "stick", 9 }, { "stickType", 10 }, { "stickMaterial", 11 }, { "stickLocation", 12 }, { "otherPercussion", 13 } )
END
KLASS( PrincipalVoice )
  ATTRS( PrincipalVoice, PrincipalVoiceAttributes )
  FIELD0( PrincipalVoice, PrincipalVoiceAttributes, type )
  FIELD0( PrincipalVoice, PrincipalVoiceAttributes, symbol )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, defaultX, hasDefaultX )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, defaultY, hasDefaultY )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, relativeX, hasRelativeX )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, relativeY, hasRelativeY )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, fontFamily, hasFontFamily )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, fontStyle, hasFontStyle )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, fontSize, hasFontSize )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, fontWeight, hasFontWeight )
  FIELD( PrincipalVoice, PrincipalVoiceAttributes, halign, hasHalign )
  VALUE( PrincipalVoice, Value )
END
KLASS( Rest )
  ATTRS( Rest, RestAttributes )
  FIELD( Rest, RestAttributes, measure, hasMeasure )
  OPT( Rest, DisplayStepOctaveGroup, DisplayStepOctaveGroup )
END
KLASS( Schleifer )
  ATTRS( Schleifer, EmptyPlacementAttributes )
  FIELD( Schleifer, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Schleifer, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Schleifer, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Schleifer, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Schleifer, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Schleifer, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Schleifer, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Schleifer, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Schleifer, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Segno )
  ATTRS( Segno, EmptyPrintObjectStyleAlignAttributes )
END
KLASS( Slide )
  ATTRS( Slide, SlideAttributes )
  FIELD0( Slide, SlideAttributes, type )
  FIELD( Slide, SlideAttributes, number, hasNumber )
  FIELD( Slide, SlideAttributes, lineType, hasLineType )
  FIELD( Slide, SlideAttributes, dashLength, hasDashLength )
  FIELD( Slide, SlideAttributes, spaceLength, hasSpaceLength )
  FIELD( Slide, SlideAttributes, defaultX, hasDefaultX )
  FIELD( Slide, SlideAttributes, defaultY, hasDefaultY )
  FIELD( Slide, SlideAttributes, relativeX, hasRelativeX )
  FIELD( Slide, SlideAttributes, relativeY, hasRelativeY )
  FIELD( Slide, SlideAttributes, fontFamily, hasFontFamily )
  FIELD( Slide, SlideAttributes, fontStyle, hasFontStyle )
  FIELD( Slide, SlideAttributes, fontSize, hasFontSize )
  FIELD( Slide, SlideAttributes, fontWeight, hasFontWeight )
  FIELD( Slide, SlideAttributes, accelerate, hasAccelerate )
  FIELD( Slide, SlideAttributes, beats, hasBeats )
  FIELD( Slide, SlideAttributes, firstBeat, hasFirstBeat )
  FIELD( Slide, SlideAttributes, lastBeat, hasLastBeat )
  VALUE( Slide, Value )
END
KLASS( Source )
  VALUE( Source, Value )
END
KLASS( StaffLines )
  VALUE( StaffLines, Value )
END
KLASS( StickLocation )
  VALUE( StickLocation, Value )
END
KLASS( Suffix )
  ATTRS( Suffix, SuffixAttributes )
  FIELD( Suffix, SuffixAttributes, defaultX, hasDefaultX )
  FIELD( Suffix, SuffixAttributes, defaultY, hasDefaultY )
  FIELD( Suffix, SuffixAttributes, relativeX, hasRelativeX )
  FIELD( Suffix, SuffixAttributes, relativeY, hasRelativeY )
  FIELD( Suffix, SuffixAttributes, fontFamily, hasFontFamily )
  FIELD( Suffix, SuffixAttributes, fontStyle, hasFontStyle )
  FIELD( Suffix, SuffixAttributes, fontSize, hasFontSize )
  FIELD( Suffix, SuffixAttributes, fontWeight, hasFontWeight )
  VALUE( Suffix, Value )
END
KLASS( Tap )
  ATTRS( Tap, TapAttributes )
  FIELD( Tap, TapAttributes, defaultX, hasDefaultX )
  FIELD( Tap, TapAttributes, defaultY, hasDefaultY )
  FIELD( Tap, TapAttributes, relativeX, hasRelativeX )
  FIELD( Tap, TapAttributes, relativeY, hasRelativeY )
  FIELD( Tap, TapAttributes, fontFamily, hasFontFamily )
  FIELD( Tap, TapAttributes, fontStyle, hasFontStyle )
  FIELD( Tap, TapAttributes, fontSize, hasFontSize )
  FIELD( Tap, TapAttributes, fontWeight, hasFontWeight )
  FIELD( Tap, TapAttributes, placement, hasPlacement )
  VALUE( Tap, Value )
END
KLASS( Tied )
  ATTRS( Tied, TiedAttributes )
  FIELD0( Tied, TiedAttributes, type )
  FIELD( Tied, TiedAttributes, number, hasNumber )
  FIELD( Tied, TiedAttributes, lineType, hasLineType )
  FIELD( Tied, TiedAttributes, dashLength, hasDashLength )
  FIELD( Tied, TiedAttributes, spaceLength, hasSpaceLength )
  FIELD( Tied, TiedAttributes, defaultX, hasDefaultX )
  FIELD( Tied, TiedAttributes, defaultY, hasDefaultY )
  FIELD( Tied, TiedAttributes, relativeX, hasRelativeX )
  FIELD( Tied, TiedAttributes, relativeY, hasRelativeY )
  FIELD( Tied, TiedAttributes, placement, hasPlacement )
  FIELD( Tied, TiedAttributes, orientation, hasOrientation )
  FIELD( Tied, TiedAttributes, bezierOffset, hasBezierOffset )
  FIELD( Tied, TiedAttributes, bezierOffset2, hasBezierOffset2 )
  FIELD( Tied, TiedAttributes, bezierX, hasBezierX )
  FIELD( Tied, TiedAttributes, bezierY, hasBezierY )
  FIELD( Tied, TiedAttributes, bezierX2, hasBezierX2 )
  FIELD( Tied, TiedAttributes, bezierY2, hasBezierY2 )
  FIELD( Tied, TiedAttributes, color, hasColor )
END
KLASS( TimewisePart )
  ATTRS( TimewisePart, PartAttributes )
  FIELD0( TimewisePart, PartAttributes, id )
  ONE( TimewisePart, MusicDataGroup, MusicDataGroup )
END
KLASS( Tremolo )
  ATTRS( Tremolo, TremoloAttributes )
  FIELD( Tremolo, TremoloAttributes, type, hasType )
  FIELD( Tremolo, TremoloAttributes, defaultX, hasDefaultX )
  FIELD( Tremolo, TremoloAttributes, defaultY, hasDefaultY )
  FIELD( Tremolo, TremoloAttributes, relativeX, hasRelativeX )
  FIELD( Tremolo, TremoloAttributes, relativeY, hasRelativeY )
  FIELD( Tremolo, TremoloAttributes, fontFamily, hasFontFamily )
  FIELD( Tremolo, TremoloAttributes, fontStyle, hasFontStyle )
  FIELD( Tremolo, TremoloAttributes, fontSize, hasFontSize )
  FIELD( Tremolo, TremoloAttributes, fontWeight, hasFontWeight )
  FIELD( Tremolo, TremoloAttributes, placement, hasPlacement )
  VALUE( Tremolo, Value )
END
KLASS( TupletDot )
  ATTRS( TupletDot, TupletDotAttributes )
  FIELD( TupletDot, TupletDotAttributes, fontFamily, hasFontFamily )
  FIELD( TupletDot, TupletDotAttributes, fontStyle, hasFontStyle )
  FIELD( TupletDot, TupletDotAttributes, fontSize, hasFontSize )
  FIELD( TupletDot, TupletDotAttributes, fontWeight, hasFontWeight )
END
KLASS( UpBow )
  ATTRS( UpBow, EmptyPlacementAttributes )
  FIELD( UpBow, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( UpBow, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( UpBow, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( UpBow, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( UpBow, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( UpBow, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( UpBow, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( UpBow, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( UpBow, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( Wedge )
  ATTRS( Wedge, WedgeAttributes )
  FIELD0( Wedge, WedgeAttributes, type )
  FIELD( Wedge, WedgeAttributes, number, hasNumber )
  FIELD( Wedge, WedgeAttributes, lineType, hasLineType )
  FIELD( Wedge, WedgeAttributes, spread, hasSpread )
  FIELD( Wedge, WedgeAttributes, niente, hasNiente )
  FIELD( Wedge, WedgeAttributes, dashLength, hasDashLength )
  FIELD( Wedge, WedgeAttributes, spaceLength, hasSpaceLength )
  FIELD( Wedge, WedgeAttributes, defaultX, hasDefaultX )
  FIELD( Wedge, WedgeAttributes, defaultY, hasDefaultY )
  FIELD( Wedge, WedgeAttributes, relativeX, hasRelativeX )
  FIELD( Wedge, WedgeAttributes, relativeY, hasRelativeY )
END
}
