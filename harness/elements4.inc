// written by lib/genelements.py
#include "mx/core/elements/Accord.h"
#include "mx/core/elements/AccordAttributes.h"
#include "mx/core/elements/AccordionRegistration.h"
#include "mx/core/elements/Arpeggiate.h"
#include "mx/core/elements/ArpeggiateAttributes.h"
#include "mx/core/elements/Artificial.h"
#include "mx/core/elements/Backup.h"
#include "mx/core/elements/Beam.h"
#include "mx/core/elements/BeamAttributes.h"
#include "mx/core/elements/Beater.h"
#include "mx/core/elements/BeaterAttributes.h"
#include "mx/core/elements/Bookmark.h"
#include "mx/core/elements/BottomMargin.h"
#include "mx/core/elements/Bracket.h"
#include "mx/core/elements/BreathMark.h"
#include "mx/core/elements/BreathMarkAttributes.h"
#include "mx/core/elements/ClefOctaveChange.h"
#include "mx/core/elements/Coda.h"
#include "mx/core/elements/CreditWords.h"
#include "mx/core/elements/CreditWordsGroup.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/Damp.h"
#include "mx/core/elements/DampAll.h"
#include "mx/core/elements/Dashes.h"
#include "mx/core/elements/DegreeAlter.h"
#include "mx/core/elements/DegreeAlterAttributes.h"
#include "mx/core/elements/DirectionType.h"
#include "mx/core/elements/DisplayTextOrAccidentalText.h"
#include "mx/core/elements/Divisions.h"
#include "mx/core/elements/Duration.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/EditorialGroup.h"
#include "mx/core/elements/EmptyLineAttributes.h"
#include "mx/core/elements/EmptyPlacementAttributes.h"
#include "mx/core/elements/Encoder.h"
#include "mx/core/elements/EncoderAttributes.h"
#include "mx/core/elements/Ensemble.h"
#include "mx/core/elements/Extend.h"
#include "mx/core/elements/Eyeglasses.h"
#include "mx/core/elements/FigureNumber.h"
#include "mx/core/elements/FigureNumberAttributes.h"
#include "mx/core/elements/Footnote.h"
#include "mx/core/elements/FrameFrets.h"
#include "mx/core/elements/Glissando.h"
#include "mx/core/elements/GlissandoAttributes.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/GroupNameDisplay.h"
#include "mx/core/elements/GroupNameDisplayAttributes.h"
#include "mx/core/elements/HarmonicTypeChoice.h"
#include "mx/core/elements/HarpPedals.h"
#include "mx/core/elements/HoleType.h"
#include "mx/core/elements/Humming.h"
#include "mx/core/elements/Image.h"
#include "mx/core/elements/InstrumentAbbreviation.h"
#include "mx/core/elements/InstrumentName.h"
#include "mx/core/elements/InstrumentSound.h"
#include "mx/core/elements/Instruments.h"
#include "mx/core/elements/KeyAlter.h"
#include "mx/core/elements/Laughing.h"
#include "mx/core/elements/LeftMargin.h"
#include "mx/core/elements/Level.h"
#include "mx/core/elements/Link.h"
#include "mx/core/elements/LyricTextChoice.h"
#include "mx/core/elements/Metal.h"
#include "mx/core/elements/Metronome.h"
#include "mx/core/elements/MetronomeType.h"
#include "mx/core/elements/MidiUnpitched.h"
#include "mx/core/elements/MultipleRest.h"
#include "mx/core/elements/MultipleRestAttributes.h"
#include "mx/core/elements/Natural.h"
#include "mx/core/elements/NormalDot.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/NormalType.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/OctaveShift.h"
#include "mx/core/elements/OctaveShiftAttributes.h"
#include "mx/core/elements/OtherDirection.h"
#include "mx/core/elements/OtherDirectionAttributes.h"
#include "mx/core/elements/PageMargins.h"
#include "mx/core/elements/PageMarginsAttributes.h"
#include "mx/core/elements/PartName.h"
#include "mx/core/elements/PartNameAttributes.h"
#include "mx/core/elements/Pedal.h"
#include "mx/core/elements/PedalAlter.h"
#include "mx/core/elements/PedalStep.h"
#include "mx/core/elements/PedalTuning.h"
#include "mx/core/elements/Percussion.h"
#include "mx/core/elements/Plop.h"
#include "mx/core/elements/PrincipalVoice.h"
#include "mx/core/elements/Rehearsal.h"
#include "mx/core/elements/RehearsalAttributes.h"
#include "mx/core/elements/RightMargin.h"
#include "mx/core/elements/Root.h"
#include "mx/core/elements/RootAlter.h"
#include "mx/core/elements/RootStep.h"
#include "mx/core/elements/Scordatura.h"
#include "mx/core/elements/ScoreInstrument.h"
#include "mx/core/elements/ScoreInstrumentAttributes.h"
#include "mx/core/elements/Segno.h"
#include "mx/core/elements/Sign.h"
#include "mx/core/elements/Solo.h"
#include "mx/core/elements/SoloOrEnsembleChoice.h"
#include "mx/core/elements/Staff.h"
#include "mx/core/elements/Staves.h"
#include "mx/core/elements/Stress.h"
#include "mx/core/elements/StringMute.h"
#include "mx/core/elements/SyllabicTextGroup.h"
#include "mx/core/elements/SystemDistance.h"
#include "mx/core/elements/Tenuto.h"
#include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
#include "mx/core/elements/TopMargin.h"
#include "mx/core/elements/TopSystemDistance.h"
#include "mx/core/elements/TuningAlter.h"
#include "mx/core/elements/TuningOctave.h"
#include "mx/core/elements/TuningStep.h"
#include "mx/core/elements/Turn.h"
#include "mx/core/elements/TurnAttributes.h"
#include "mx/core/elements/VirtualInstrument.h"
#include "mx/core/elements/VirtualName.h"
#include "mx/core/elements/Wedge.h"
#include "mx/core/elements/Words.h"
#include "mx/core/elements/WordsAttributes.h"
using namespace mx::core;
void registerElements4( std::vector<el::Klass>& all )
{
KLASS( Accord )
  ATTRS( Accord, AccordAttributes )
  FIELD( Accord, AccordAttributes, string, hasString )
  ONE( Accord, TuningStep, TuningStep )
  OPT( Accord, TuningAlter, TuningAlter )
  ONE( Accord, TuningOctave, TuningOctave )
END
KLASS( Arpeggiate )
  ATTRS( Arpeggiate, ArpeggiateAttributes )
  FIELD( Arpeggiate, ArpeggiateAttributes, number, hasNumber )
  FIELD( Arpeggiate, ArpeggiateAttributes, direction, hasDirection )
  FIELD( Arpeggiate, ArpeggiateAttributes, defaultX, hasDefaultX )
  FIELD( Arpeggiate, ArpeggiateAttributes, defaultY, hasDefaultY )
  FIELD( Arpeggiate, ArpeggiateAttributes, relativeX, hasRelativeX )
  FIELD( Arpeggiate, ArpeggiateAttributes, relativeY, hasRelativeY )
  FIELD( Arpeggiate, ArpeggiateAttributes, placement, hasPlacement )
END
KLASS( Backup )
  ONE( Backup, Duration, Duration )
  ONE( Backup, EditorialGroup, EditorialGroup )
END
KLASS( Beam )
  ATTRS( Beam, BeamAttributes )
  FIELD( Beam, BeamAttributes, number, hasNumber )
  FIELD( Beam, BeamAttributes, repeater, hasRepeater )
  FIELD( Beam, BeamAttributes, fan, hasFan )
  VALUE( Beam, Value )
END
KLASS( Beater )
  ATTRS( Beater, BeaterAttributes )
  FIELD( Beater, BeaterAttributes, tip, hasTip )
  VALUE( Beater, Value )
END
KLASS( BreathMark )
  ATTRS( BreathMark, BreathMarkAttributes )
  FIELD( BreathMark, BreathMarkAttributes, defaultX, hasDefaultX )
  FIELD( BreathMark, BreathMarkAttributes, defaultY, hasDefaultY )
  FIELD( BreathMark, BreathMarkAttributes, relativeX, hasRelativeX )
  FIELD( BreathMark, BreathMarkAttributes, relativeY, hasRelativeY )
  FIELD( BreathMark, BreathMarkAttributes, fontFamily, hasFontFamily )
  FIELD( BreathMark, BreathMarkAttributes, fontStyle, hasFontStyle )
  FIELD( BreathMark, BreathMarkAttributes, fontSize, hasFontSize )
  FIELD( BreathMark, BreathMarkAttributes, fontWeight, hasFontWeight )
  FIELD( BreathMark, BreathMarkAttributes, placement, hasPlacement )
  VALUE( BreathMark, Value )
END
KLASS( ClefOctaveChange )
  VALUE( ClefOctaveChange, Value )
END
KLASS( CreditWordsGroup )
  ONE( CreditWordsGroup, CreditWords, CreditWords )
  COLL( CreditWordsGroup, Link, Link, 0, -1 )
  COLL( CreditWordsGroup, Bookmark, Bookmark, 0, -1 )
END
KLASS( DegreeAlter )
  ATTRS( DegreeAlter, DegreeAlterAttributes )
  FIELD( DegreeAlter, DegreeAlterAttributes, defaultX, hasDefaultX )
  FIELD( DegreeAlter, DegreeAlterAttributes, defaultY, hasDefaultY )
  FIELD( DegreeAlter, DegreeAlterAttributes, relativeX, hasRelativeX )
  FIELD( DegreeAlter, DegreeAlterAttributes, relativeY, hasRelativeY )
  FIELD( DegreeAlter, DegreeAlterAttributes, fontFamily, hasFontFamily )
  FIELD( DegreeAlter, DegreeAlterAttributes, fontStyle, hasFontStyle )
  FIELD( DegreeAlter, DegreeAlterAttributes, fontSize, hasFontSize )
  FIELD( DegreeAlter, DegreeAlterAttributes, fontWeight, hasFontWeight )
  FIELD( DegreeAlter, DegreeAlterAttributes, plusMinus, hasPlusMinus )
  VALUE( DegreeAlter, Value )
END
KLASS( DirectionType )
  ONE( DirectionType, Wedge, Wedge )
  ONE( DirectionType, Dashes, Dashes )
  ONE( DirectionType, Bracket, Bracket )
  ONE( DirectionType, Pedal, Pedal )
  ONE( DirectionType, Metronome, Metronome )
  ONE( DirectionType, OctaveShift, OctaveShift )
  ONE( DirectionType, HarpPedals, HarpPedals )
  ONE( DirectionType, Damp, Damp )
  ONE( DirectionType, DampAll, DampAll )
  ONE( DirectionType, Eyeglasses, Eyeglasses )
  ONE( DirectionType, StringMute, StringMute )
  ONE( DirectionType, Scordatura, Scordatura )
  ONE( DirectionType, Image, Image )
  ONE( DirectionType, PrincipalVoice, PrincipalVoice )
  ONE( DirectionType, AccordionRegistration, AccordionRegistration )
  ONE( DirectionType, OtherDirection, OtherDirection )
  COLL( DirectionType, Rehearsal, Rehearsal, 1, -1 )
  COLL( DirectionType, Segno, Segno, 1, -1 )
  COLL( DirectionType, Words, Words, 1, -1 )
  COLL( DirectionType, Coda, Coda, 1, -1 )
  COLL( DirectionType, Dynamics, Dynamics, 1, -1 )
  COLL( DirectionType, Percussion, Percussion, 1, -1 )
  CHOICE( DirectionType, { "rehearsal", 1 }, { "segno", 2 }, { "words", 3 }, { "coda", 4 }, { "wedge", 5 }, { "dynamics", 6 }, { "dashes", 7 }, { "bracket", 8 }, { "pedal", 9 }, { "metronome", 10 }, { "octaveShift", 11 }, { "harpPedals", 12 }, { "damp", 13 }, { "dampAll", 14 }, { "eyeglasses", 15 }, { "stringMute", 16 }, { "scordatura", 17 }, { "image", 18 }, { "principalVoice", 19 }, { "accordionRegistration", 20 }, { "percussion", 21 }, { "otherDirection", 22 } )
END
KLASS( Divisions )
  VALUE( Divisions, Value )
END
KLASS( EditorialGroup )
  OPT( EditorialGroup, Footnote, Footnote )
  OPT( EditorialGroup, Level, Level )
END
KLASS( Encoder )
  ATTRS( Encoder, EncoderAttributes )
  FIELD( Encoder, EncoderAttributes, type, hasType )
  VALUE( Encoder, Value )
END
KLASS( Ensemble )
  VALUE( Ensemble, Value )
END
KLASS( FigureNumber )
  ATTRS( FigureNumber, FigureNumberAttributes )
  FIELD( FigureNumber, FigureNumberAttributes, defaultX, hasDefaultX )
  FIELD( FigureNumber, FigureNumberAttributes, defaultY, hasDefaultY )
  FIELD( FigureNumber, FigureNumberAttributes, relativeX, hasRelativeX )
  FIELD( FigureNumber, FigureNumberAttributes, relativeY, hasRelativeY )
  FIELD( FigureNumber, FigureNumberAttributes, fontFamily, hasFontFamily )
  FIELD( FigureNumber, FigureNumberAttributes, fontStyle, hasFontStyle )
  FIELD( FigureNumber, FigureNumberAttributes, fontSize, hasFontSize )
  FIELD( FigureNumber, FigureNumberAttributes, fontWeight, hasFontWeight )
  VALUE( FigureNumber, Value )
END
KLASS( FrameFrets )
  VALUE( FrameFrets, Value )
END
KLASS( Glissando )
  ATTRS( Glissando, GlissandoAttributes )
  FIELD0( Glissando, GlissandoAttributes, type )
  FIELD( Glissando, GlissandoAttributes, number, hasNumber )
  FIELD( Glissando, GlissandoAttributes, lineType, hasLineType )
  FIELD( Glissando, GlissandoAttributes, dashLength, hasDashLength )
  FIELD( Glissando, GlissandoAttributes, spaceLength, hasSpaceLength )
  FIELD( Glissando, GlissandoAttributes, defaultX, hasDefaultX )
  FIELD( Glissando, GlissandoAttributes, defaultY, hasDefaultY )
  FIELD( Glissando, GlissandoAttributes, relativeX, hasRelativeX )
  FIELD( Glissando, GlissandoAttributes, relativeY, hasRelativeY )
  FIELD( Glissando, GlissandoAttributes, fontFamily, hasFontFamily )
  FIELD( Glissando, GlissandoAttributes, fontStyle, hasFontStyle )
  FIELD( Glissando, GlissandoAttributes, fontSize, hasFontSize )
  FIELD( Glissando, GlissandoAttributes, fontWeight, hasFontWeight )
  VALUE( Glissando, Value )
END
KLASS( GroupNameDisplay )
  ATTRS( GroupNameDisplay, GroupNameDisplayAttributes )
  FIELD( GroupNameDisplay, GroupNameDisplayAttributes, printObject, hasPrintObject )
  COLL( GroupNameDisplay, DisplayTextOrAccidentalText, DisplayTextOrAccidentalText, 0, -1 )
END
KLASS( HarmonicTypeChoice )
  ONE( HarmonicTypeChoice, Natural, Natural )
  ONE( HarmonicTypeChoice, Artificial, Artificial )
  CHOICE( HarmonicTypeChoice, { "natural", 1 }, { "artificial", 2 } )
END
KLASS( HoleType )
  VALUE( HoleType, Value )
END
KLASS( Instruments )
  VALUE( Instruments, Value )
END
KLASS( KeyAlter )
  VALUE( KeyAlter, Value )
END
KLASS( LeftMargin )
  VALUE( LeftMargin, Value )
END
KLASS( LyricTextChoice )
  ONE( LyricTextChoice, SyllabicTextGroup, SyllabicTextGroup )
  ONE( LyricTextChoice, Extend, Extend )
  ONE( LyricTextChoice, Laughing, Laughing )
  ONE( LyricTextChoice, Humming, Humming )
  CHOICE( LyricTextChoice, { "syllabicTextGroup", 1 }, { "extend", 2 }, { "laughing", 3 }, { "humming", 4 } )
END
KLASS( Metal )
  VALUE( Metal, Value )
END
KLASS( MetronomeType )
  VALUE( MetronomeType, Value )
END
KLASS( MidiUnpitched )
  VALUE( MidiUnpitched, Value )
END
KLASS( MultipleRest )
  ATTRS( MultipleRest, MultipleRestAttributes )
  FIELD( MultipleRest, MultipleRestAttributes, useSymbols, hasUseSymbols )
  VALUE( MultipleRest, Value )
END
KLASS( NormalDot )
END
KLASS( NoteChoice )
  ONE( NoteChoice, GraceNoteGroup, GraceNoteGroup )
  ONE( NoteChoice, CueNoteGroup, CueNoteGroup )
  ONE( NoteChoice, NormalNoteGroup, NormalNoteGroup )
  CHOICE( NoteChoice, { "grace", 1 }, { "cue", 2 }, { "normal", 3 } )
END
KLASS( OctaveShift )
  ATTRS( OctaveShift, OctaveShiftAttributes )
  FIELD0( OctaveShift, OctaveShiftAttributes, type )
  FIELD( OctaveShift, OctaveShiftAttributes, number, hasNumber )
  FIELD( OctaveShift, OctaveShiftAttributes, size, hasSize )
  FIELD( OctaveShift, OctaveShiftAttributes, dashLength, hasDashLength )
  FIELD( OctaveShift, OctaveShiftAttributes, spaceLength, hasSpaceLength )
  FIELD( OctaveShift, OctaveShiftAttributes, defaultX, hasDefaultX )
  FIELD( OctaveShift, OctaveShiftAttributes, defaultY, hasDefaultY )
  FIELD( OctaveShift, OctaveShiftAttributes, relativeX, hasRelativeX )
  FIELD( OctaveShift, OctaveShiftAttributes, relativeY, hasRelativeY )
  FIELD( OctaveShift, OctaveShiftAttributes, fontFamily, hasFontFamily )
  FIELD( OctaveShift, OctaveShiftAttributes, fontStyle, hasFontStyle )
  FIELD( OctaveShift, OctaveShiftAttributes, fontSize, hasFontSize )
  FIELD( OctaveShift, OctaveShiftAttributes, fontWeight, hasFontWeight )
END
KLASS( OtherDirection )
  ATTRS( OtherDirection, OtherDirectionAttributes )
  FIELD( OtherDirection, OtherDirectionAttributes, printObject, hasPrintObject )
  FIELD( OtherDirection, OtherDirectionAttributes, defaultX, hasDefaultX )
  FIELD( OtherDirection, OtherDirectionAttributes, defaultY, hasDefaultY )
  FIELD( OtherDirection, OtherDirectionAttributes, relativeX, hasRelativeX )
  FIELD( OtherDirection, OtherDirectionAttributes, relativeY, hasRelativeY )
  FIELD( OtherDirection, OtherDirectionAttributes, fontFamily, hasFontFamily )
  FIELD( OtherDirection, OtherDirectionAttributes, fontStyle, hasFontStyle )
  FIELD( OtherDirection, OtherDirectionAttributes, fontSize, hasFontSize )
  FIELD( OtherDirection, OtherDirectionAttributes, fontWeight, hasFontWeight )
  FIELD( OtherDirection, OtherDirectionAttributes, halign, hasHalign )
  VALUE( OtherDirection, Value )
END
KLASS( PageMargins )
  ATTRS( PageMargins, PageMarginsAttributes )
  FIELD( PageMargins, PageMarginsAttributes, type, hasType )
  ONE( PageMargins, LeftMargin, LeftMargin )
  ONE( PageMargins, RightMargin, RightMargin )
  ONE( PageMargins, TopMargin, TopMargin )
  ONE( PageMargins, BottomMargin, BottomMargin )
END
KLASS( PartName )
  ATTRS( PartName, PartNameAttributes )
  FIELD( PartName, PartNameAttributes, defaultX, hasDefaultX )
  FIELD( PartName, PartNameAttributes, defaultY, hasDefaultY )
  FIELD( PartName, PartNameAttributes, relativeX, hasRelativeX )
  FIELD( PartName, PartNameAttributes, relativeY, hasRelativeY )
  FIELD( PartName, PartNameAttributes, fontFamily, hasFontFamily )
  FIELD( PartName, PartNameAttributes, fontStyle, hasFontStyle )
  FIELD( PartName, PartNameAttributes, fontSize, hasFontSize )
  FIELD( PartName, PartNameAttributes, fontWeight, hasFontWeight )
  FIELD( PartName, PartNameAttributes, color, hasColor )
  FIELD( PartName, PartNameAttributes, printObject, hasPrintObject )
  FIELD( PartName, PartNameAttributes, justify, hasJustify )
  VALUE( PartName, Value )
END
KLASS( PedalTuning )
  ONE( PedalTuning, PedalStep, PedalStep )
  ONE( PedalTuning, PedalAlter, PedalAlter )
END
KLASS( Plop )
  ATTRS( Plop, EmptyLineAttributes )
  FIELD( Plop, EmptyLineAttributes, lineShape, hasLineShape )
  FIELD( Plop, EmptyLineAttributes, lineType, hasLineType )
  FIELD( Plop, EmptyLineAttributes, dashLength, hasDashLength )
  FIELD( Plop, EmptyLineAttributes, spaceLength, hasSpaceLength )
  FIELD( Plop, EmptyLineAttributes, defaultX, hasDefaultX )
  FIELD( Plop, EmptyLineAttributes, defaultY, hasDefaultY )
  FIELD( Plop, EmptyLineAttributes, relativeX, hasRelativeX )
  FIELD( Plop, EmptyLineAttributes, relativeY, hasRelativeY )
  FIELD( Plop, EmptyLineAttributes, fontFamily, hasFontFamily )
  FIELD( Plop, EmptyLineAttributes, fontStyle, hasFontStyle )
  FIELD( Plop, EmptyLineAttributes, fontSize, hasFontSize )
  FIELD( Plop, EmptyLineAttributes, fontWeight, hasFontWeight )
  FIELD( Plop, EmptyLineAttributes, placement, hasPlacement )
END
KLASS( Rehearsal )
  ATTRS( Rehearsal, RehearsalAttributes )
  FIELD( Rehearsal, RehearsalAttributes, justify, hasJustify )
  FIELD( Rehearsal, RehearsalAttributes, defaultX, hasDefaultX )
  FIELD( Rehearsal, RehearsalAttributes, defaultY, hasDefaultY )
  FIELD( Rehearsal, RehearsalAttributes, relativeX, hasRelativeX )
  FIELD( Rehearsal, RehearsalAttributes, relativeY, hasRelativeY )
  FIELD( Rehearsal, RehearsalAttributes, fontFamily, hasFontFamily )
  FIELD( Rehearsal, RehearsalAttributes, fontStyle, hasFontStyle )
  FIELD( Rehearsal, RehearsalAttributes, fontSize, hasFontSize )
  FIELD( Rehearsal, RehearsalAttributes, fontWeight, hasFontWeight )
  FIELD( Rehearsal, RehearsalAttributes, halign, hasHalign )
  FIELD( Rehearsal, RehearsalAttributes, underline, hasUnderline )
  FIELD( Rehearsal, RehearsalAttributes, overline, hasOverline )
  FIELD( Rehearsal, RehearsalAttributes, lineThrough, hasLineThrough )
  FIELD( Rehearsal, RehearsalAttributes, rotation, hasRotation )
  FIELD( Rehearsal, RehearsalAttributes, letterSpacing, hasLetterSpacing )
  FIELD( Rehearsal, RehearsalAttributes, lineHeight, hasLineHeight )
  FIELD( Rehearsal, RehearsalAttributes, lang, hasLang )
  FIELD( Rehearsal, RehearsalAttributes, space, hasSpace )
  FIELD( Rehearsal, RehearsalAttributes, enclosure, hasEnclosure )
  VALUE( Rehearsal, Value )
END
KLASS( Root )
  ONE( Root, RootStep, RootStep )
  OPT( Root, RootAlter, RootAlter )
END
KLASS( ScoreInstrument )
  ATTRS( ScoreInstrument, ScoreInstrumentAttributes )
  FIELD0( ScoreInstrument, ScoreInstrumentAttributes, id )
  ONE( ScoreInstrument, InstrumentName, InstrumentName )
  OPT( ScoreInstrument, InstrumentAbbreviation, InstrumentAbbreviation )
  OPT( ScoreInstrument, SoloOrEnsembleChoice, SoloOrEnsembleChoice )
  OPT( ScoreInstrument, InstrumentSound, InstrumentSound )
  OPT( ScoreInstrument, VirtualInstrument, VirtualInstrument )
END
KLASS( Sign )
  VALUE( Sign, Value )
END
KLASS( Solo )
END
KLASS( Staff )
  VALUE( Staff, Value )
END
KLASS( Staves )
  VALUE( Staves, Value )
END
KLASS( Stress )
  ATTRS( Stress, EmptyPlacementAttributes )
  FIELD( Stress, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Stress, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Stress, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Stress, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Stress, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Stress, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Stress, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Stress, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Stress, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( SystemDistance )
  VALUE( SystemDistance, Value )
END
KLASS( Tenuto )
  ATTRS( Tenuto, EmptyPlacementAttributes )
  FIELD( Tenuto, EmptyPlacementAttributes, defaultX, hasDefaultX )
  FIELD( Tenuto, EmptyPlacementAttributes, defaultY, hasDefaultY )
  FIELD( Tenuto, EmptyPlacementAttributes, relativeX, hasRelativeX )
  FIELD( Tenuto, EmptyPlacementAttributes, relativeY, hasRelativeY )
  FIELD( Tenuto, EmptyPlacementAttributes, fontFamily, hasFontFamily )
  FIELD( Tenuto, EmptyPlacementAttributes, fontStyle, hasFontStyle )
  FIELD( Tenuto, EmptyPlacementAttributes, fontSize, hasFontSize )
  FIELD( Tenuto, EmptyPlacementAttributes, fontWeight, hasFontWeight )
  FIELD( Tenuto, EmptyPlacementAttributes, placement, hasPlacement )
END
KLASS( TimeModificationNormalTypeNormalDot )
  ONE( TimeModificationNormalTypeNormalDot, NormalType, NormalType )
  COLL( TimeModificationNormalTypeNormalDot, NormalDot, NormalDot, 0, -1 )
END
KLASS( TopSystemDistance )
  VALUE( TopSystemDistance, Value )
END
KLASS( TuningOctave )
  VALUE( TuningOctave, Value )
END
KLASS( Turn )
  ATTRS( Turn, TurnAttributes )
  FIELD( Turn, TurnAttributes, defaultX, hasDefaultX )
  FIELD( Turn, TurnAttributes, defaultY, hasDefaultY )
  FIELD( Turn, TurnAttributes, relativeX, hasRelativeX )
  FIELD( Turn, TurnAttributes, relativeY, hasRelativeY )
  FIELD( Turn, TurnAttributes, fontFamily, hasFontFamily )
  FIELD( Turn, TurnAttributes, fontStyle, hasFontStyle )
  FIELD( Turn, TurnAttributes, fontSize, hasFontSize )
  FIELD( Turn, TurnAttributes, fontWeight, hasFontWeight )
  FIELD( Turn, TurnAttributes, placement, hasPlacement )
  FIELD( Turn, TurnAttributes, startNote, hasStartNote )
  FIELD( Turn, TurnAttributes, trillStep, hasTrillStep )
  FIELD( Turn, TurnAttributes, twoNoteTurn, hasTwoNoteTurn )
  FIELD( Turn, TurnAttributes, accelerate, hasAccelerate )
  FIELD( Turn, TurnAttributes, beats, hasBeats )
  FIELD( Turn, TurnAttributes, secondBeat, hasSecondBeat )
  FIELD( Turn, TurnAttributes, lastBeat, hasLastBeat )
  FIELD( Turn, TurnAttributes, slash, hasSlash )
END
KLASS( VirtualName )
  VALUE( VirtualName, Value )
END
KLASS( Words )
  ATTRS( Words, WordsAttributes )
  FIELD( Words, WordsAttributes, justify, hasJustify )
  FIELD( Words, WordsAttributes, defaultX, hasDefaultX )
  FIELD( Words, WordsAttributes, defaultY, hasDefaultY )
  FIELD( Words, WordsAttributes, relativeX, hasRelativeX )
  FIELD( Words, WordsAttributes, relativeY, hasRelativeY )
  FIELD( Words, WordsAttributes, fontFamily, hasFontFamily )
  FIELD( Words, WordsAttributes, fontStyle, hasFontStyle )
  FIELD( Words, WordsAttributes, fontSize, hasFontSize )
  FIELD( Words, WordsAttributes, fontWeight, hasFontWeight )
  FIELD( Words, WordsAttributes, halign, hasHalign )
  FIELD( Words, WordsAttributes, underline, hasUnderline )
  FIELD( Words, WordsAttributes, overline, hasOverline )
  FIELD( Words, WordsAttributes, lineThrough, hasLineThrough )
  FIELD( Words, WordsAttributes, rotation, hasRotation )
  FIELD( Words, WordsAttributes, letterSpacing, hasLetterSpacing )
  FIELD( Words, WordsAttributes, lineHeight, hasLineHeight )
  FIELD( Words, WordsAttributes, lang, hasLang )
  FIELD( Words, WordsAttributes, space, hasSpace )
  FIELD( Words, WordsAttributes, enclosure, hasEnclosure )
  VALUE( Words, Value )
END
}
