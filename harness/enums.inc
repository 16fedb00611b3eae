// The enumerators of the document model and their documented texts: the enumerations of the MusicXML schema,
// for those that the schema leaves open the list in the header, for sounds the published list. ENUM has tryParse, PLAIN has not.
ENUM( AboveBelow, V( AboveBelow, above, "above" ) V( AboveBelow, below, "below" ) )
ENUM( AccidentalValue, V( AccidentalValue, sharp, "sharp" ) V( AccidentalValue, natural, "natural" ) V( AccidentalValue, flat, "flat" ) V( AccidentalValue, doubleSharp, "double-sharp" ) V( AccidentalValue, sharpSharp, "sharp-sharp" ) V( AccidentalValue, flatFlat, "flat-flat" ) V( AccidentalValue, naturalSharp, "natural-sharp" ) V( AccidentalValue, naturalFlat, "natural-flat" ) V( AccidentalValue, quarterFlat, "quarter-flat" ) V( AccidentalValue, quarterSharp, "quarter-sharp" ) V( AccidentalValue, threeQuartersFlat, "three-quarters-flat" ) V( AccidentalValue, threeQuartersSharp, "three-quarters-sharp" ) V( AccidentalValue, sharpDown, "sharp-down" ) V( AccidentalValue, sharpUp, "sharp-up" ) V( AccidentalValue, naturalDown, "natural-down" ) V( AccidentalValue, naturalUp, "natural-up" ) V( AccidentalValue, flatDown, "flat-down" ) V( AccidentalValue, flatUp, "flat-up" ) V( AccidentalValue, tripleSharp, "triple-sharp" ) V( AccidentalValue, tripleFlat, "triple-flat" ) V( AccidentalValue, slashQuarterSharp, "slash-quarter-sharp" ) V( AccidentalValue, slashSharp, "slash-sharp" ) V( AccidentalValue, slashFlat, "slash-flat" ) V( AccidentalValue, doubleSlashFlat, "double-slash-flat" ) V( AccidentalValue, sharp1, "sharp-1" ) V( AccidentalValue, sharp2, "sharp-2" ) V( AccidentalValue, sharp3, "sharp-3" ) V( AccidentalValue, sharp5, "sharp-5" ) V( AccidentalValue, flat1, "flat-1" ) V( AccidentalValue, flat2, "flat-2" ) V( AccidentalValue, flat3, "flat-3" ) V( AccidentalValue, flat4, "flat-4" ) V( AccidentalValue, sori, "sori" ) V( AccidentalValue, koron, "koron" ) )
ENUM( ArrowDirectionEnum, V( ArrowDirectionEnum, left, "left" ) V( ArrowDirectionEnum, up, "up" ) V( ArrowDirectionEnum, right, "right" ) V( ArrowDirectionEnum, down, "down" ) V( ArrowDirectionEnum, northwest, "northwest" ) V( ArrowDirectionEnum, northeast, "northeast" ) V( ArrowDirectionEnum, southeast, "southeast" ) V( ArrowDirectionEnum, southwest, "southwest" ) V( ArrowDirectionEnum, leftRight, "left right" ) V( ArrowDirectionEnum, upDown, "up down" ) V( ArrowDirectionEnum, northwestSoutheast, "northwest southeast" ) V( ArrowDirectionEnum, northeastSouthwest, "northeast southwest" ) V( ArrowDirectionEnum, other, "other" ) )
ENUM( ArrowStyleEnum, V( ArrowStyleEnum, single, "single" ) V( ArrowStyleEnum, double_, "double" ) V( ArrowStyleEnum, filled, "filled" ) V( ArrowStyleEnum, hollow, "hollow" ) V( ArrowStyleEnum, paired, "paired" ) V( ArrowStyleEnum, combined, "combined" ) V( ArrowStyleEnum, other, "other" ) )
ENUM( BackwardForward, V( BackwardForward, backward, "backward" ) V( BackwardForward, forward, "forward" ) )
ENUM( BarStyleEnum, V( BarStyleEnum, regular, "regular" ) V( BarStyleEnum, dotted, "dotted" ) V( BarStyleEnum, dashed, "dashed" ) V( BarStyleEnum, heavy, "heavy" ) V( BarStyleEnum, lightLight, "light-light" ) V( BarStyleEnum, lightHeavy, "light-heavy" ) V( BarStyleEnum, heavyLight, "heavy-light" ) V( BarStyleEnum, heavyHeavy, "heavy-heavy" ) V( BarStyleEnum, tick, "tick" ) V( BarStyleEnum, short_, "short" ) V( BarStyleEnum, none, "none" ) )
ENUM( BeamValue, V( BeamValue, begin, "begin" ) V( BeamValue, continue_, "continue" ) V( BeamValue, end, "end" ) V( BeamValue, forwardHook, "forward hook" ) V( BeamValue, backwardHook, "backward hook" ) )
ENUM( BeaterValue, V( BeaterValue, bow, "bow" ) V( BeaterValue, chimeHammer, "chime hammer" ) V( BeaterValue, coin, "coin" ) V( BeaterValue, finger, "finger" ) V( BeaterValue, fingernail, "fingernail" ) V( BeaterValue, fist, "fist" ) V( BeaterValue, guiroScraper, "guiro scraper" ) V( BeaterValue, hammer, "hammer" ) V( BeaterValue, hand, "hand" ) V( BeaterValue, jazzStick, "jazz stick" ) V( BeaterValue, knittingNeedle, "knitting needle" ) V( BeaterValue, metalHammer, "metal hammer" ) V( BeaterValue, snareStick, "snare stick" ) V( BeaterValue, spoonMallet, "spoon mallet" ) V( BeaterValue, triangleBeater, "triangle beater" ) V( BeaterValue, triangleBeaterPlain, "triangle beater plain" ) V( BeaterValue, wireBrush, "wire brush" ) )
ENUM( BreathMarkValue, V( BreathMarkValue, emptystring, "" ) V( BreathMarkValue, comma, "comma" ) V( BreathMarkValue, tick, "tick" ) )
ENUM( CancelLocation, V( CancelLocation, left, "left" ) V( CancelLocation, right, "right" ) V( CancelLocation, beforeBarline, "before-barline" ) )
ENUM( CircularArrowEnum, V( CircularArrowEnum, clockwise, "clockwise" ) V( CircularArrowEnum, anticlockwise, "anticlockwise" ) )
ENUM( ClefSign, V( ClefSign, g, "G" ) V( ClefSign, f, "F" ) V( ClefSign, c, "C" ) V( ClefSign, percussion, "percussion" ) V( ClefSign, tab, "TAB" ) V( ClefSign, jianpu, "jianpu" ) V( ClefSign, none, "none" ) )
ENUM( CssFontSize, V( CssFontSize, xxSmall, "xx-small" ) V( CssFontSize, xSmall, "x-small" ) V( CssFontSize, small, "small" ) V( CssFontSize, medium, "medium" ) V( CssFontSize, large, "large" ) V( CssFontSize, xLarge, "x-large" ) V( CssFontSize, xxLarge, "xx-large" ) )
ENUM( DegreeSymbolValue, V( DegreeSymbolValue, major, "major" ) V( DegreeSymbolValue, minor, "minor" ) V( DegreeSymbolValue, augmented, "augmented" ) V( DegreeSymbolValue, diminished, "diminished" ) V( DegreeSymbolValue, halfDiminished, "half-diminished" ) )
ENUM( DegreeTypeValue, V( DegreeTypeValue, add, "add" ) V( DegreeTypeValue, alter, "alter" ) V( DegreeTypeValue, subtract, "subtract" ) )
ENUM( DistanceTypeEnum, V( DistanceTypeEnum, beam, "beam" ) V( DistanceTypeEnum, hyphen, "hyphen" ) V( DistanceTypeEnum, other, "other" ) )
ENUM( DynamicsEnum, V( DynamicsEnum, p, "p" ) V( DynamicsEnum, pp, "pp" ) V( DynamicsEnum, ppp, "ppp" ) V( DynamicsEnum, pppp, "pppp" ) V( DynamicsEnum, ppppp, "ppppp" ) V( DynamicsEnum, pppppp, "pppppp" ) V( DynamicsEnum, f, "f" ) V( DynamicsEnum, ff, "ff" ) V( DynamicsEnum, fff, "fff" ) V( DynamicsEnum, ffff, "ffff" ) V( DynamicsEnum, fffff, "fffff" ) V( DynamicsEnum, ffffff, "ffffff" ) V( DynamicsEnum, mp, "mp" ) V( DynamicsEnum, mf, "mf" ) V( DynamicsEnum, sf, "sf" ) V( DynamicsEnum, sfp, "sfp" ) V( DynamicsEnum, sfpp, "sfpp" ) V( DynamicsEnum, fp, "fp" ) V( DynamicsEnum, rf, "rf" ) V( DynamicsEnum, rfz, "rfz" ) V( DynamicsEnum, sfz, "sfz" ) V( DynamicsEnum, sffz, "sffz" ) V( DynamicsEnum, fz, "fz" ) V( DynamicsEnum, otherDynamics, "other-dynamics" ) )
ENUM( EffectEnum, V( EffectEnum, anvil, "anvil" ) V( EffectEnum, autoHorn, "auto horn" ) V( EffectEnum, birdWhistle, "bird whistle" ) V( EffectEnum, cannon, "cannon" ) V( EffectEnum, duckCall, "duck call" ) V( EffectEnum, gunShot, "gun shot" ) V( EffectEnum, klaxonHorn, "klaxon horn" ) V( EffectEnum, lionsRoar, "lions roar" ) V( EffectEnum, policeWhistle, "police whistle" ) V( EffectEnum, siren, "siren" ) V( EffectEnum, slideWhistle, "slide whistle" ) V( EffectEnum, thunderSheet, "thunder sheet" ) V( EffectEnum, windMachine, "wind machine" ) V( EffectEnum, windWhistle, "wind whistle" ) )
ENUM( EnclosureShape, V( EnclosureShape, rectangle, "rectangle" ) V( EnclosureShape, square, "square" ) V( EnclosureShape, oval, "oval" ) V( EnclosureShape, circle, "circle" ) V( EnclosureShape, bracket, "bracket" ) V( EnclosureShape, triangle, "triangle" ) V( EnclosureShape, diamond, "diamond" ) V( EnclosureShape, none, "none" ) )
ENUM( Fan, V( Fan, accel, "accel" ) V( Fan, rit, "rit" ) V( Fan, none, "none" ) )
ENUM( FermataShape, V( FermataShape, normal, "normal" ) V( FermataShape, angled, "angled" ) V( FermataShape, square, "square" ) V( FermataShape, emptystring, "" ) )
ENUM( FontStyle, V( FontStyle, normal, "normal" ) V( FontStyle, italic, "italic" ) )
ENUM( FontWeight, V( FontWeight, normal, "normal" ) V( FontWeight, bold, "bold" ) )
ENUM( GlassEnum, V( GlassEnum, windChimes, "wind chimes" ) )
ENUM( GroupBarlineValue, V( GroupBarlineValue, yes, "yes" ) V( GroupBarlineValue, no, "no" ) V( GroupBarlineValue, mensurstrich, "Mensurstrich" ) )
ENUM( GroupSymbolValue, V( GroupSymbolValue, none, "none" ) V( GroupSymbolValue, brace, "brace" ) V( GroupSymbolValue, line, "line" ) V( GroupSymbolValue, bracket, "bracket" ) V( GroupSymbolValue, square, "square" ) )
ENUM( HandbellValue, V( HandbellValue, damp, "damp" ) V( HandbellValue, echo, "echo" ) V( HandbellValue, gyro, "gyro" ) V( HandbellValue, handMartellato, "hand martellato" ) V( HandbellValue, malletLift, "mallet lift" ) V( HandbellValue, malletTable, "mallet table" ) V( HandbellValue, martellato, "martellato" ) V( HandbellValue, martellatoLift, "martellato lift" ) V( HandbellValue, mutedMartellato, "muted martellato" ) V( HandbellValue, pluckLift, "pluck lift" ) V( HandbellValue, swing, "swing" ) )
ENUM( HarmonyType, V( HarmonyType, explicit_, "explicit" ) V( HarmonyType, implied, "implied" ) V( HarmonyType, alternate, "alternate" ) )
ENUM( HoleClosedLocation, V( HoleClosedLocation, right, "right" ) V( HoleClosedLocation, bottom, "bottom" ) V( HoleClosedLocation, left, "left" ) V( HoleClosedLocation, top, "top" ) )
ENUM( HoleClosedValue, V( HoleClosedValue, yes, "yes" ) V( HoleClosedValue, no, "no" ) V( HoleClosedValue, half, "half" ) )
ENUM( KindValue, V( KindValue, major, "major" ) V( KindValue, minor, "minor" ) V( KindValue, augmented, "augmented" ) V( KindValue, diminished, "diminished" ) V( KindValue, dominant, "dominant" ) V( KindValue, majorSeventh, "major-seventh" ) V( KindValue, minorSeventh, "minor-seventh" ) V( KindValue, diminishedSeventh, "diminished-seventh" ) V( KindValue, augmentedSeventh, "augmented-seventh" ) V( KindValue, halfDiminished, "half-diminished" ) V( KindValue, majorMinor, "major-minor" ) V( KindValue, majorSixth, "major-sixth" ) V( KindValue, minorSixth, "minor-sixth" ) V( KindValue, dominantNinth, "dominant-ninth" ) V( KindValue, majorNinth, "major-ninth" ) V( KindValue, minorNinth, "minor-ninth" ) V( KindValue, dominant11th, "dominant-11th" ) V( KindValue, major11th, "major-11th" ) V( KindValue, minor11th, "minor-11th" ) V( KindValue, dominant13th, "dominant-13th" ) V( KindValue, major13th, "major-13th" ) V( KindValue, minor13th, "minor-13th" ) V( KindValue, suspendedSecond, "suspended-second" ) V( KindValue, suspendedFourth, "suspended-fourth" ) V( KindValue, neapolitan, "Neapolitan" ) V( KindValue, italian, "Italian" ) V( KindValue, french, "French" ) V( KindValue, german, "German" ) V( KindValue, pedal, "pedal" ) V( KindValue, power, "power" ) V( KindValue, tristan, "Tristan" ) V( KindValue, other, "other" ) V( KindValue, none, "none" ) )
ENUM( LeftCenterRight, V( LeftCenterRight, left, "left" ) V( LeftCenterRight, center, "center" ) V( LeftCenterRight, right, "right" ) )
ENUM( LeftRight, V( LeftRight, left, "left" ) V( LeftRight, right, "right" ) )
ENUM( LineEnd, V( LineEnd, up, "up" ) V( LineEnd, down, "down" ) V( LineEnd, both, "both" ) V( LineEnd, arrow, "arrow" ) V( LineEnd, none, "none" ) )
ENUM( LineShape, V( LineShape, straight, "straight" ) V( LineShape, curved, "curved" ) )
ENUM( LineType, V( LineType, solid, "solid" ) V( LineType, dashed, "dashed" ) V( LineType, dotted, "dotted" ) V( LineType, wavy, "wavy" ) )
ENUM( LineWidthTypeEnum, V( LineWidthTypeEnum, beam, "beam" ) V( LineWidthTypeEnum, bracket, "bracket" ) V( LineWidthTypeEnum, dashes, "dashes" ) V( LineWidthTypeEnum, enclosure, "enclosure" ) V( LineWidthTypeEnum, ending, "ending" ) V( LineWidthTypeEnum, extend, "extend" ) V( LineWidthTypeEnum, heavyBarline, "heavy barline" ) V( LineWidthTypeEnum, leger, "leger" ) V( LineWidthTypeEnum, lightBarline, "light barline" ) V( LineWidthTypeEnum, octaveShift, "octave shift" ) V( LineWidthTypeEnum, pedal, "pedal" ) V( LineWidthTypeEnum, slurMiddle, "slur middle" ) V( LineWidthTypeEnum, slurTip, "slur tip" ) V( LineWidthTypeEnum, staff, "staff" ) V( LineWidthTypeEnum, stem, "stem" ) V( LineWidthTypeEnum, tieMiddle, "tie middle" ) V( LineWidthTypeEnum, tieTip, "tie tip" ) V( LineWidthTypeEnum, tupletBracket, "tuplet bracket" ) V( LineWidthTypeEnum, wedge, "wedge" ) V( LineWidthTypeEnum, other, "other" ) )
ENUM( MarginType, V( MarginType, odd, "odd" ) V( MarginType, even, "even" ) V( MarginType, both, "both" ) )
ENUM( MeasureNumberingValue, V( MeasureNumberingValue, none, "none" ) V( MeasureNumberingValue, measure, "measure" ) V( MeasureNumberingValue, system, "system" ) )
ENUM( MembraneEnum, V( MembraneEnum, bassDrum, "bass drum" ) V( MembraneEnum, bassDrumOnSide, "bass drum on side" ) V( MembraneEnum, bongos, "bongos" ) V( MembraneEnum, congaDrum, "conga drum" ) V( MembraneEnum, gobletDrum, "goblet drum" ) V( MembraneEnum, militaryDrum, "military drum" ) V( MembraneEnum, snareDrum, "snare drum" ) V( MembraneEnum, snareDrumSnaresOff, "snare drum snares off" ) V( MembraneEnum, tambourine, "tambourine" ) V( MembraneEnum, tenorDrum, "tenor drum" ) V( MembraneEnum, timbales, "timbales" ) V( MembraneEnum, tomtom, "tomtom" ) )
ENUM( MetalEnum, V( MetalEnum, almglocken, "almglocken" ) V( MetalEnum, bell, "bell" ) V( MetalEnum, bellPlate, "bell plate" ) V( MetalEnum, brakeDrum, "brake drum" ) V( MetalEnum, chineseCymbal, "Chinese cymbal" ) V( MetalEnum, cowbell, "cowbell" ) V( MetalEnum, crashCymbals, "crash cymbals" ) V( MetalEnum, crotale, "crotale" ) V( MetalEnum, cymbalTongs, "cymbal tongs" ) V( MetalEnum, domedGong, "domed gong" ) V( MetalEnum, fingerCymbals, "finger cymbals" ) V( MetalEnum, flexatone, "flexatone" ) V( MetalEnum, gong, "gong" ) V( MetalEnum, hiHat, "hi-hat" ) V( MetalEnum, highHatCymbals, "high-hat cymbals" ) V( MetalEnum, handbell, "handbell" ) V( MetalEnum, sistrum, "sistrum" ) V( MetalEnum, sizzleCymbal, "sizzle cymbal" ) V( MetalEnum, sleighBells, "sleigh bells" ) V( MetalEnum, suspendedCymbal, "suspended cymbal" ) V( MetalEnum, tamTam, "tam tam" ) V( MetalEnum, triangle, "triangle" ) V( MetalEnum, vietnameseHat, "Vietnamese hat" ) )
ENUM( ModeEnum, V( ModeEnum, major, "major" ) V( ModeEnum, minor, "minor" ) V( ModeEnum, dorian, "dorian" ) V( ModeEnum, phrygian, "phrygian" ) V( ModeEnum, lydian, "lydian" ) V( ModeEnum, mixolydian, "mixolydian" ) V( ModeEnum, aeolian, "aeolian" ) V( ModeEnum, ionian, "ionian" ) V( ModeEnum, locrian, "locrian" ) V( ModeEnum, none, "none" ) V( ModeEnum, other, "other" ) )
ENUM( MuteEnum, V( MuteEnum, on, "on" ) V( MuteEnum, off, "off" ) V( MuteEnum, straight, "straight" ) V( MuteEnum, cup, "cup" ) V( MuteEnum, harmonNoStem, "harmon-no-stem" ) V( MuteEnum, harmonStem, "harmon-stem" ) V( MuteEnum, bucket, "bucket" ) V( MuteEnum, plunger, "plunger" ) V( MuteEnum, hat, "hat" ) V( MuteEnum, solotone, "solotone" ) V( MuteEnum, practice, "practice" ) V( MuteEnum, stopMute, "stop-mute" ) V( MuteEnum, stopHand, "stop-hand" ) V( MuteEnum, echo, "echo" ) V( MuteEnum, palm, "palm" ) )
ENUM( NoteSizeType, V( NoteSizeType, cue, "cue" ) V( NoteSizeType, grace, "grace" ) V( NoteSizeType, large, "large" ) )
ENUM( NoteTypeValue, V( NoteTypeValue, oneThousandTwentyFourth, "1024th" ) V( NoteTypeValue, fiveHundredTwelfth, "512th" ) V( NoteTypeValue, twoHundredFifthySixth, "256th" ) V( NoteTypeValue, oneHundredTwentyEighth, "128th" ) V( NoteTypeValue, sixtyFourth, "64th" ) V( NoteTypeValue, thirtySecond, "32nd" ) V( NoteTypeValue, sixteenth, "16th" ) V( NoteTypeValue, eighth, "eighth" ) V( NoteTypeValue, quarter, "quarter" ) V( NoteTypeValue, half, "half" ) V( NoteTypeValue, whole, "whole" ) V( NoteTypeValue, breve, "breve" ) V( NoteTypeValue, long_, "long" ) V( NoteTypeValue, maxima, "maxima" ) )
ENUM( NoteheadValue, V( NoteheadValue, slash, "slash" ) V( NoteheadValue, triangle, "triangle" ) V( NoteheadValue, diamond, "diamond" ) V( NoteheadValue, square, "square" ) V( NoteheadValue, cross, "cross" ) V( NoteheadValue, x, "x" ) V( NoteheadValue, circleX, "circle-x" ) V( NoteheadValue, invertedTriangle, "inverted triangle" ) V( NoteheadValue, arrowDown, "arrow down" ) V( NoteheadValue, arrowUp, "arrow up" ) V( NoteheadValue, slashed, "slashed" ) V( NoteheadValue, backSlashed, "back slashed" ) V( NoteheadValue, normal, "normal" ) V( NoteheadValue, cluster, "cluster" ) V( NoteheadValue, circleDot, "circle dot" ) V( NoteheadValue, leftTriangle, "left triangle" ) V( NoteheadValue, rectangle, "rectangle" ) V( NoteheadValue, none, "none" ) V( NoteheadValue, do_, "do" ) V( NoteheadValue, re, "re" ) V( NoteheadValue, mi, "mi" ) V( NoteheadValue, fa, "fa" ) V( NoteheadValue, faUp, "fa up" ) V( NoteheadValue, so, "so" ) V( NoteheadValue, la, "la" ) V( NoteheadValue, ti, "ti" ) )
ENUM( OnOff, V( OnOff, on, "on" ) V( OnOff, off, "off" ) )
ENUM( OverUnder, V( OverUnder, over, "over" ) V( OverUnder, under, "under" ) )
ENUM( PitchedEnum, V( PitchedEnum, chimes, "chimes" ) V( PitchedEnum, glockenspiel, "glockenspiel" ) V( PitchedEnum, mallet, "mallet" ) V( PitchedEnum, marimba, "marimba" ) V( PitchedEnum, tubularChimes, "tubular chimes" ) V( PitchedEnum, vibraphone, "vibraphone" ) V( PitchedEnum, xylophone, "xylophone" ) )
ENUM( PrincipalVoiceSymbol, V( PrincipalVoiceSymbol, hauptstimme, "Hauptstimme" ) V( PrincipalVoiceSymbol, nebenstimme, "Nebenstimme" ) V( PrincipalVoiceSymbol, plain, "plain" ) V( PrincipalVoiceSymbol, none, "none" ) )
ENUM( RightLeftMiddle, V( RightLeftMiddle, right, "right" ) V( RightLeftMiddle, left, "left" ) V( RightLeftMiddle, middle, "middle" ) )
ENUM( SemiPitchedEnum, V( SemiPitchedEnum, high, "high" ) V( SemiPitchedEnum, mediumHigh, "medium-high" ) V( SemiPitchedEnum, medium, "medium" ) V( SemiPitchedEnum, mediumLow, "medium-low" ) V( SemiPitchedEnum, low, "low" ) V( SemiPitchedEnum, veryLow, "very-low" ) )
ENUM( ShowFrets, V( ShowFrets, numbers, "numbers" ) V( ShowFrets, letters, "letters" ) )
ENUM( ShowTuplet, V( ShowTuplet, actual, "actual" ) V( ShowTuplet, both, "both" ) V( ShowTuplet, none, "none" ) )
ENUM( StaffTypeEnum, V( StaffTypeEnum, ossia, "ossia" ) V( StaffTypeEnum, cue, "cue" ) V( StaffTypeEnum, editorial, "editorial" ) V( StaffTypeEnum, regular, "regular" ) V( StaffTypeEnum, alternate, "alternate" ) )
ENUM( StartNote, V( StartNote, upper, "upper" ) V( StartNote, main, "main" ) V( StartNote, below, "below" ) )
ENUM( StartStop, V( StartStop, start, "start" ) V( StartStop, stop, "stop" ) )
ENUM( StartStopChangeContinue, V( StartStopChangeContinue, start, "start" ) V( StartStopChangeContinue, stop, "stop" ) V( StartStopChangeContinue, change, "change" ) V( StartStopChangeContinue, continue_, "continue" ) )
ENUM( StartStopContinue, V( StartStopContinue, start, "start" ) V( StartStopContinue, stop, "stop" ) V( StartStopContinue, continue_, "continue" ) )
ENUM( StartStopDiscontinue, V( StartStopDiscontinue, start, "start" ) V( StartStopDiscontinue, stop, "stop" ) V( StartStopDiscontinue, discontinue, "discontinue" ) )
ENUM( StartStopSingle, V( StartStopSingle, start, "start" ) V( StartStopSingle, stop, "stop" ) V( StartStopSingle, single, "single" ) )
ENUM( StemValue, V( StemValue, down, "down" ) V( StemValue, up, "up" ) V( StemValue, double_, "double" ) V( StemValue, none, "none" ) )
ENUM( StepEnum, V( StepEnum, a, "A" ) V( StepEnum, b, "B" ) V( StepEnum, c, "C" ) V( StepEnum, d, "D" ) V( StepEnum, e, "E" ) V( StepEnum, f, "F" ) V( StepEnum, g, "G" ) )
ENUM( StickLocationEnum, V( StickLocationEnum, center, "center" ) V( StickLocationEnum, rim, "rim" ) V( StickLocationEnum, cymbalBell, "cymbal bell" ) V( StickLocationEnum, cymbalEdge, "cymbal edge" ) )
ENUM( StickMaterialEnum, V( StickMaterialEnum, soft, "soft" ) V( StickMaterialEnum, medium, "medium" ) V( StickMaterialEnum, hard, "hard" ) V( StickMaterialEnum, shaded, "shaded" ) V( StickMaterialEnum, x, "x" ) )
ENUM( StickTypeEnum, V( StickTypeEnum, bassDrum, "bass drum" ) V( StickTypeEnum, doubleBassDrum, "double bass drum" ) V( StickTypeEnum, timpani, "timpani" ) V( StickTypeEnum, xylophone, "xylophone" ) V( StickTypeEnum, yarn, "yarn" ) )
ENUM( SyllabicEnum, V( SyllabicEnum, single, "single" ) V( SyllabicEnum, begin, "begin" ) V( SyllabicEnum, end, "end" ) V( SyllabicEnum, middle, "middle" ) )
ENUM( SymbolSize, V( SymbolSize, full, "full" ) V( SymbolSize, cue, "cue" ) V( SymbolSize, large, "large" ) )
ENUM( TextDirection, V( TextDirection, ltr, "ltr" ) V( TextDirection, rtl, "rtl" ) V( TextDirection, lro, "lro" ) V( TextDirection, rlo, "rlo" ) )
ENUM( TimeRelationEnum, V( TimeRelationEnum, parentheses, "parentheses" ) V( TimeRelationEnum, bracket, "bracket" ) V( TimeRelationEnum, equals, "equals" ) V( TimeRelationEnum, slash, "slash" ) V( TimeRelationEnum, space, "space" ) V( TimeRelationEnum, hyphen, "hyphen" ) )
ENUM( TimeSeparator, V( TimeSeparator, none, "none" ) V( TimeSeparator, horizontal, "horizontal" ) V( TimeSeparator, diagonal, "diagonal" ) V( TimeSeparator, vertical, "vertical" ) V( TimeSeparator, adjacent, "adjacent" ) )
ENUM( TimeSymbol, V( TimeSymbol, common, "common" ) V( TimeSymbol, cut, "cut" ) V( TimeSymbol, singleNumber, "single-number" ) V( TimeSymbol, note, "note" ) V( TimeSymbol, dottedNote, "dotted-note" ) V( TimeSymbol, normal, "normal" ) )
ENUM( TipDirection, V( TipDirection, up, "up" ) V( TipDirection, down, "down" ) V( TipDirection, left, "left" ) V( TipDirection, right, "right" ) V( TipDirection, northwest, "northwest" ) V( TipDirection, northeast, "northeast" ) V( TipDirection, southeast, "southeast" ) V( TipDirection, southwest, "southwest" ) )
ENUM( TopBottom, V( TopBottom, top, "top" ) V( TopBottom, bottom, "bottom" ) )
ENUM( TrillStep, V( TrillStep, whole, "whole" ) V( TrillStep, half, "half" ) V( TrillStep, unison, "unison" ) )
ENUM( TwoNoteTurn, V( TwoNoteTurn, whole, "whole" ) V( TwoNoteTurn, half, "half" ) V( TwoNoteTurn, none, "none" ) )
ENUM( UpDown, V( UpDown, up, "up" ) V( UpDown, down, "down" ) )
ENUM( UpDownStopContinue, V( UpDownStopContinue, up, "up" ) V( UpDownStopContinue, down, "down" ) V( UpDownStopContinue, stop, "stop" ) V( UpDownStopContinue, continue_, "continue" ) )
ENUM( UprightInverted, V( UprightInverted, upright, "upright" ) V( UprightInverted, inverted, "inverted" ) )
ENUM( Valign, V( Valign, top, "top" ) V( Valign, middle, "middle" ) V( Valign, bottom, "bottom" ) V( Valign, baseline, "baseline" ) )
ENUM( ValignImage, V( ValignImage, top, "top" ) V( ValignImage, middle, "middle" ) V( ValignImage, bottom, "bottom" ) )
ENUM( WedgeType, V( WedgeType, crescendo, "crescendo" ) V( WedgeType, diminuendo, "diminuendo" ) V( WedgeType, stop, "stop" ) V( WedgeType, continue_, "continue" ) )
ENUM( Winged, V( Winged, none, "none" ) V( Winged, straight, "straight" ) V( Winged, curved, "curved" ) V( Winged, doubleStraight, "double-straight" ) V( Winged, doubleCurved, "double-curved" ) )
ENUM( WoodEnum, V( WoodEnum, boardClapper, "board clapper" ) V( WoodEnum, cabasa, "cabasa" ) V( WoodEnum, castanets, "castanets" ) V( WoodEnum, claves, "claves" ) V( WoodEnum, guiro, "guiro" ) V( WoodEnum, logDrum, "log drum" ) V( WoodEnum, maraca, "maraca" ) V( WoodEnum, maracas, "maracas" ) V( WoodEnum, ratchet, "ratchet" ) V( WoodEnum, sandpaperBlocks, "sandpaper blocks" ) V( WoodEnum, slitDrum, "slit drum" ) V( WoodEnum, templeBlock, "temple block" ) V( WoodEnum, vibraslap, "vibraslap" ) V( WoodEnum, woodBlock, "wood block" ) )
ENUM( YesNo, V( YesNo, yes, "yes" ) V( YesNo, no, "no" ) )
PLAIN( XlinkType, V( XlinkType, simple, "simple" ) V( XlinkType, extended, "extended" ) V( XlinkType, title, "title" ) V( XlinkType, resource, "resource" ) V( XlinkType, locator, "locator" ) V( XlinkType, arc, "arc" ) )
PLAIN( XmlSpace, V( XmlSpace, default_, "default" ) V( XmlSpace, preserve, "preserve" ) )
PLAIN( XlinkActuate, V( XlinkActuate, onLoad, "onLoad" ) V( XlinkActuate, onRequest, "onRequest" ) V( XlinkActuate, other, "other" ) V( XlinkActuate, none, "none" ) )
PLAIN( XlinkShow, V( XlinkShow, new_, "new" ) V( XlinkShow, replace, "replace" ) V( XlinkShow, embed, "embed" ) V( XlinkShow, other, "other" ) V( XlinkShow, none, "none" ) )
SOUND( PlaybackSound, V( PlaybackSound, brassAlphorn, "brass.alphorn" ) V( PlaybackSound, brassAltoHorn, "brass.alto-horn" ) V( PlaybackSound, brassBaritoneHorn, "brass.baritone-horn" ) V( PlaybackSound, brassBugle, "brass.bugle" ) V( PlaybackSound, brassBugleAlto, "brass.bugle.alto" ) V( PlaybackSound, brassBugleBaritone, "brass.bugle.baritone" ) V( PlaybackSound, brassBugleContrabass, "brass.bugle.contrabass" ) V( PlaybackSound, brassBugleEuphoniumBugle, "brass.bugle.euphonium-bugle" ) V( PlaybackSound, brassBugleMellophoneBugle, "brass.bugle.mellophone-bugle" ) V( PlaybackSound, brassBugleSoprano, "brass.bugle.soprano" ) V( PlaybackSound, brassCimbasso, "brass.cimbasso" ) V( PlaybackSound, brassConchShell, "brass.conch-shell" ) V( PlaybackSound, brassCornet, "brass.cornet" ) V( PlaybackSound, brassCornetSoprano, "brass.cornet.soprano" ) V( PlaybackSound, brassCornett, "brass.cornett" ) V( PlaybackSound, brassCornettTenor, "brass.cornett.tenor" ) V( PlaybackSound, brassCornettino, "brass.cornettino" ) V( PlaybackSound, brassDidgeridoo, "brass.didgeridoo" ) V( PlaybackSound, brassEuphonium, "brass.euphonium" ) V( PlaybackSound, brassFiscorn, "brass.fiscorn" ) V( PlaybackSound, brassFlugelhorn, "brass.flugelhorn" ) V( PlaybackSound, brassFrenchHorn, "brass.french-horn" ) V( PlaybackSound, brassGroup, "brass.group" ) V( PlaybackSound, brassGroupSynth, "brass.group.synth" ) V( PlaybackSound, brassHelicon, "brass.helicon" ) V( PlaybackSound, brassHoragai, "brass.horagai" ) V( PlaybackSound, brassKuhlohorn, "brass.kuhlohorn" ) V( PlaybackSound, brassMellophone, "brass.mellophone" ) V( PlaybackSound, brassNaturalHorn, "brass.natural-horn" ) V( PlaybackSound, brassOphicleide, "brass.ophicleide" ) V( PlaybackSound, brassPosthorn, "brass.posthorn" ) V( PlaybackSound, brassRagDung, "brass.rag-dung" ) V( PlaybackSound, brassSackbutt, "brass.sackbutt" ) V( PlaybackSound, brassSackbuttAlto, "brass.sackbutt.alto" ) V( PlaybackSound, brassSackbuttBass, "brass.sackbutt.bass" ) V( PlaybackSound, brassSackbuttTenor, "brass.sackbutt.tenor" ) V( PlaybackSound, brassSaxhorn, "brass.saxhorn" ) V( PlaybackSound, brassSerpent, "brass.serpent" ) V( PlaybackSound, brassShofar, "brass.shofar" ) V( PlaybackSound, brassSousaphone, "brass.sousaphone" ) V( PlaybackSound, brassTrombone, "brass.trombone" ) V( PlaybackSound, brassTromboneAlto, "brass.trombone.alto" ) V( PlaybackSound, brassTromboneBass, "brass.trombone.bass" ) V( PlaybackSound, brassTromboneContrabass, "brass.trombone.contrabass" ) V( PlaybackSound, brassTromboneTenor, "brass.trombone.tenor" ) V( PlaybackSound, brassTrumpet, "brass.trumpet" ) V( PlaybackSound, brassTrumpetBaroque, "brass.trumpet.baroque" ) V( PlaybackSound, brassTrumpetBass, "brass.trumpet.bass" ) V( PlaybackSound, brassTrumpetBflat, "brass.trumpet.bflat" ) V( PlaybackSound, brassTrumpetC, "brass.trumpet.c" ) V( PlaybackSound, brassTrumpetD, "brass.trumpet.d" ) V( PlaybackSound, brassTrumpetPiccolo, "brass.trumpet.piccolo" ) V( PlaybackSound, brassTrumpetPocket, "brass.trumpet.pocket" ) V( PlaybackSound, brassTrumpetSlide, "brass.trumpet.slide" ) V( PlaybackSound, brassTrumpetTenor, "brass.trumpet.tenor" ) V( PlaybackSound, brassTuba, "brass.tuba" ) V( PlaybackSound, brassTubaBass, "brass.tuba.bass" ) V( PlaybackSound, brassTubaSubcontrabass, "brass.tuba.subcontrabass" ) V( PlaybackSound, brassViennaHorn, "brass.vienna-horn" ) V( PlaybackSound, brassVuvuzela, "brass.vuvuzela" ) V( PlaybackSound, brassWagnerTuba, "brass.wagner-tuba" ) V( PlaybackSound, drumApentemma, "drum.apentemma" ) V( PlaybackSound, drumAshiko, "drum.ashiko" ) V( PlaybackSound, drumAtabaque, "drum.atabaque" ) V( PlaybackSound, drumAtoke, "drum.atoke" ) V( PlaybackSound, drumAtsimevu, "drum.atsimevu" ) V( PlaybackSound, drumAxatse, "drum.axatse" ) V( PlaybackSound, drumBassDrum, "drum.bass-drum" ) V( PlaybackSound, drumBata, "drum.bata" ) V( PlaybackSound, drumBataItotele, "drum.bata.itotele" ) V( PlaybackSound, drumBataIya, "drum.bata.iya" ) V( PlaybackSound, drumBataOkonkolo, "drum.bata.okonkolo" ) V( PlaybackSound, drumBendir, "drum.bendir" ) V( PlaybackSound, drumBodhran, "drum.bodhran" ) V( PlaybackSound, drumBombo, "drum.bombo" ) V( PlaybackSound, drumBongo, "drum.bongo" ) V( PlaybackSound, drumBougarabou, "drum.bougarabou" ) V( PlaybackSound, drumBuffaloDrum, "drum.buffalo-drum" ) V( PlaybackSound, drumCajon, "drum.cajon" ) V( PlaybackSound, drumChenda, "drum.chenda" ) V( PlaybackSound, drumChuDaiko, "drum.chu-daiko" ) V( PlaybackSound, drumConga, "drum.conga" ) V( PlaybackSound, drumCuica, "drum.cuica" ) V( PlaybackSound, drumDabakan, "drum.dabakan" ) V( PlaybackSound, drumDaff, "drum.daff" ) V( PlaybackSound, drumDafli, "drum.dafli" ) V( PlaybackSound, drumDaibyosi, "drum.daibyosi" ) V( PlaybackSound, drumDamroo, "drum.damroo" ) V( PlaybackSound, drumDarabuka, "drum.darabuka" ) V( PlaybackSound, drumDef, "drum.def" ) V( PlaybackSound, drumDhol, "drum.dhol" ) V( PlaybackSound, drumDholak, "drum.dholak" ) V( PlaybackSound, drumDjembe, "drum.djembe" ) V( PlaybackSound, drumDoira, "drum.doira" ) V( PlaybackSound, drumDondo, "drum.dondo" ) V( PlaybackSound, drumDounDounBa, "drum.doun-doun-ba" ) V( PlaybackSound, drumDuff, "drum.duff" ) V( PlaybackSound, drumDumbek, "drum.dumbek" ) V( PlaybackSound, drumFontomfrom, "drum.fontomfrom" ) V( PlaybackSound, drumFrameDrum, "drum.frame-drum" ) V( PlaybackSound, drumFrameDrumArabian, "drum.frame-drum.arabian" ) V( PlaybackSound, drumGeduk, "drum.geduk" ) V( PlaybackSound, drumGhatam, "drum.ghatam" ) V( PlaybackSound, drumGome, "drum.gome" ) V( PlaybackSound, drumGroup, "drum.group" ) V( PlaybackSound, drumGroupChinese, "drum.group.chinese" ) V( PlaybackSound, drumGroupEwe, "drum.group.ewe" ) V( PlaybackSound, drumGroupIndian, "drum.group.indian" ) V( PlaybackSound, drumGroupSet, "drum.group.set" ) V( PlaybackSound, drumHandDrum, "drum.hand-drum" ) V( PlaybackSound, drumHiraDaiko, "drum.hira-daiko" ) V( PlaybackSound, drumIbo, "drum.ibo" ) V( PlaybackSound, drumIgihumurizo, "drum.igihumurizo" ) V( PlaybackSound, drumInyahura, "drum.inyahura" ) V( PlaybackSound, drumIshakwe, "drum.ishakwe" ) V( PlaybackSound, drumJangGu, "drum.jang-gu" ) V( PlaybackSound, drumKagan, "drum.kagan" ) V( PlaybackSound, drumKakko, "drum.kakko" ) V( PlaybackSound, drumKanjira, "drum.kanjira" ) V( PlaybackSound, drumKendhang, "drum.kendhang" ) V( PlaybackSound, drumKendhangAgeng, "drum.kendhang.ageng" ) V( PlaybackSound, drumKendhangCiblon, "drum.kendhang.ciblon" ) V( PlaybackSound, drumKenkeni, "drum.kenkeni" ) V( PlaybackSound, drumKhol, "drum.khol" ) V( PlaybackSound, drumKickDrum, "drum.kick-drum" ) V( PlaybackSound, drumKidi, "drum.kidi" ) V( PlaybackSound, drumKoDaiko, "drum.ko-daiko" ) V( PlaybackSound, drumKpanlogo, "drum.kpanlogo" ) V( PlaybackSound, drumKudum, "drum.kudum" ) V( PlaybackSound, drumLambeg, "drum.lambeg" ) V( PlaybackSound, drumLionDrum, "drum.lion-drum" ) V( PlaybackSound, drumLogDrum, "drum.log-drum" ) V( PlaybackSound, drumLogDrumAfrican, "drum.log-drum.african" ) V( PlaybackSound, drumLogDrumNative, "drum.log-drum.native" ) V( PlaybackSound, drumLogDrumNigerian, "drum.log-drum.nigerian" ) V( PlaybackSound, drumMadal, "drum.madal" ) V( PlaybackSound, drumMaddale, "drum.maddale" ) V( PlaybackSound, drumMridangam, "drum.mridangam" ) V( PlaybackSound, drumNaal, "drum.naal" ) V( PlaybackSound, drumNagadoDaiko, "drum.nagado-daiko" ) V( PlaybackSound, drumNagara, "drum.nagara" ) V( PlaybackSound, drumNaqara, "drum.naqara" ) V( PlaybackSound, drumODaiko, "drum.o-daiko" ) V( PlaybackSound, drumOkawa, "drum.okawa" ) V( PlaybackSound, drumOkedoDaiko, "drum.okedo-daiko" ) V( PlaybackSound, drumPahuHula, "drum.pahu-hula" ) V( PlaybackSound, drumPakhawaj, "drum.pakhawaj" ) V( PlaybackSound, drumPandeiro, "drum.pandeiro" ) V( PlaybackSound, drumPandero, "drum.pandero" ) V( PlaybackSound, drumPowwow, "drum.powwow" ) V( PlaybackSound, drumPueblo, "drum.pueblo" ) V( PlaybackSound, drumRepinique, "drum.repinique" ) V( PlaybackSound, drumRiq, "drum.riq" ) V( PlaybackSound, drumRototom, "drum.rototom" ) V( PlaybackSound, drumSabar, "drum.sabar" ) V( PlaybackSound, drumSakara, "drum.sakara" ) V( PlaybackSound, drumSampho, "drum.sampho" ) V( PlaybackSound, drumSangban, "drum.sangban" ) V( PlaybackSound, drumShimeDaiko, "drum.shime-daiko" ) V( PlaybackSound, drumSlitDrum, "drum.slit-drum" ) V( PlaybackSound, drumSlitDrumKrin, "drum.slit-drum.krin" ) V( PlaybackSound, drumSnareDrum, "drum.snare-drum" ) V( PlaybackSound, drumSnareDrumElectric, "drum.snare-drum.electric" ) V( PlaybackSound, drumSogo, "drum.sogo" ) V( PlaybackSound, drumSurdo, "drum.surdo" ) V( PlaybackSound, drumTabla, "drum.tabla" ) V( PlaybackSound, drumTablaBayan, "drum.tabla.bayan" ) V( PlaybackSound, drumTablaDayan, "drum.tabla.dayan" ) V( PlaybackSound, drumTaiko, "drum.taiko" ) V( PlaybackSound, drumTalking, "drum.talking" ) V( PlaybackSound, drumTama, "drum.tama" ) V( PlaybackSound, drumTamborita, "drum.tamborita" ) V( PlaybackSound, drumTambourine, "drum.tambourine" ) V( PlaybackSound, drumTamte, "drum.tamte" ) V( PlaybackSound, drumTangku, "drum.tangku" ) V( PlaybackSound, drumTanTan, "drum.tan-tan" ) V( PlaybackSound, drumTaphon, "drum.taphon" ) V( PlaybackSound, drumTar, "drum.tar" ) V( PlaybackSound, drumTasha, "drum.tasha" ) V( PlaybackSound, drumTenorDrum, "drum.tenor-drum" ) V( PlaybackSound, drumTeponaxtli, "drum.teponaxtli" ) V( PlaybackSound, drumThavil, "drum.thavil" ) V( PlaybackSound, drumTheBox, "drum.the-box" ) V( PlaybackSound, drumTimbale, "drum.timbale" ) V( PlaybackSound, drumTimpani, "drum.timpani" ) V( PlaybackSound, drumTinaja, "drum.tinaja" ) V( PlaybackSound, drumToere, "drum.toere" ) V( PlaybackSound, drumTombak, "drum.tombak" ) V( PlaybackSound, drumTomTom, "drum.tom-tom" ) V( PlaybackSound, drumTomTomSynth, "drum.tom-tom.synth" ) V( PlaybackSound, drumTsuzumi, "drum.tsuzumi" ) V( PlaybackSound, drumTumbak, "drum.tumbak" ) V( PlaybackSound, drumUchiwaDaiko, "drum.uchiwa-daiko" ) V( PlaybackSound, drumUdaku, "drum.udaku" ) V( PlaybackSound, drumUdu, "drum.udu" ) V( PlaybackSound, drumZarb, "drum.zarb" ) V( PlaybackSound, effectAeolianHarp, "effect.aeolian-harp" ) V( PlaybackSound, effectAirHorn, "effect.air-horn" ) V( PlaybackSound, effectApplause, "effect.applause" ) V( PlaybackSound, effectBassStringSlap, "effect.bass-string-slap" ) V( PlaybackSound, effectBird, "effect.bird" ) V( PlaybackSound, effectBirdNightingale, "effect.bird.nightingale" ) V( PlaybackSound, effectBirdTweet, "effect.bird.tweet" ) V( PlaybackSound, effectBreath, "effect.breath" ) V( PlaybackSound, effectBubble, "effect.bubble" ) V( PlaybackSound, effectBullroarer, "effect.bullroarer" ) V( PlaybackSound, effectBurst, "effect.burst" ) V( PlaybackSound, effectCar, "effect.car" ) V( PlaybackSound, effectCarCrash, "effect.car.crash" ) V( PlaybackSound, effectCarEngine, "effect.car.engine" ) V( PlaybackSound, effectCarPass, "effect.car.pass" ) V( PlaybackSound, effectCarStop, "effect.car.stop" ) V( PlaybackSound, effectCrickets, "effect.crickets" ) V( PlaybackSound, effectDog, "effect.dog" ) V( PlaybackSound, effectDoorCreak, "effect.door.creak" ) V( PlaybackSound, effectDoorSlam, "effect.door.slam" ) V( PlaybackSound, effectExplosion, "effect.explosion" ) V( PlaybackSound, effectFluteKeyClick, "effect.flute-key-click" ) V( PlaybackSound, effectFootsteps, "effect.footsteps" ) V( PlaybackSound, effectFrogs, "effect.frogs" ) V( PlaybackSound, effectGuitarCutting, "effect.guitar-cutting" ) V( PlaybackSound, effectGuitarFret, "effect.guitar-fret" ) V( PlaybackSound, effectGunshot, "effect.gunshot" ) V( PlaybackSound, effectHandClap, "effect.hand-clap" ) V( PlaybackSound, effectHeartbeat, "effect.heartbeat" ) V( PlaybackSound, effectHelicopter, "effect.helicopter" ) V( PlaybackSound, effectHighQ, "effect.high-q" ) V( PlaybackSound, effectHorseGallop, "effect.horse-gallop" ) V( PlaybackSound, effectJetPlane, "effect.jet-plane" ) V( PlaybackSound, effectLaserGun, "effect.laser-gun" ) V( PlaybackSound, effectLaugh, "effect.laugh" ) V( PlaybackSound, effectLionsRoar, "effect.lions-roar" ) V( PlaybackSound, effectMachineGun, "effect.machine-gun" ) V( PlaybackSound, effectMarchingMachine, "effect.marching-machine" ) V( PlaybackSound, effectMetronomeBell, "effect.metronome-bell" ) V( PlaybackSound, effectMetronomeClick, "effect.metronome-click" ) V( PlaybackSound, effectPat, "effect.pat" ) V( PlaybackSound, effectPunch, "effect.punch" ) V( PlaybackSound, effectRain, "effect.rain" ) V( PlaybackSound, effectScratch, "effect.scratch" ) V( PlaybackSound, effectScream, "effect.scream" ) V( PlaybackSound, effectSeashore, "effect.seashore" ) V( PlaybackSound, effectSiren, "effect.siren" ) V( PlaybackSound, effectSlap, "effect.slap" ) V( PlaybackSound, effectSnap, "effect.snap" ) V( PlaybackSound, effectStamp, "effect.stamp" ) V( PlaybackSound, effectStarship, "effect.starship" ) V( PlaybackSound, effectStream, "effect.stream" ) V( PlaybackSound, effectTelephoneRing, "effect.telephone-ring" ) V( PlaybackSound, effectThunder, "effect.thunder" ) V( PlaybackSound, effectTrain, "effect.train" ) V( PlaybackSound, effectTrashCan, "effect.trash-can" ) V( PlaybackSound, effectWhip, "effect.whip" ) V( PlaybackSound, effectWhistle, "effect.whistle" ) V( PlaybackSound, effectWhistleMouthSiren, "effect.whistle.mouth-siren" ) V( PlaybackSound, effectWhistlePolice, "effect.whistle.police" ) V( PlaybackSound, effectWhistleSlide, "effect.whistle.slide" ) V( PlaybackSound, effectWhistleTrain, "effect.whistle.train" ) V( PlaybackSound, effectWind, "effect.wind" ) V( PlaybackSound, keyboardAccordion, "keyboard.accordion" ) V( PlaybackSound, keyboardBandoneon, "keyboard.bandoneon" ) V( PlaybackSound, keyboardCelesta, "keyboard.celesta" ) V( PlaybackSound, keyboardClavichord, "keyboard.clavichord" ) V( PlaybackSound, keyboardClavichordSynth, "keyboard.clavichord.synth" ) V( PlaybackSound, keyboardConcertina, "keyboard.concertina" ) V( PlaybackSound, keyboardFortepiano, "keyboard.fortepiano" ) V( PlaybackSound, keyboardHarmonium, "keyboard.harmonium" ) V( PlaybackSound, keyboardHarpsichord, "keyboard.harpsichord" ) V( PlaybackSound, keyboardOndesMartenot, "keyboard.ondes-martenot" ) V( PlaybackSound, keyboardOrgan, "keyboard.organ" ) V( PlaybackSound, keyboardOrganDrawbar, "keyboard.organ.drawbar" ) V( PlaybackSound, keyboardOrganPercussive, "keyboard.organ.percussive" ) V( PlaybackSound, keyboardOrganPipe, "keyboard.organ.pipe" ) V( PlaybackSound, keyboardOrganReed, "keyboard.organ.reed" ) V( PlaybackSound, keyboardOrganRotary, "keyboard.organ.rotary" ) V( PlaybackSound, keyboardPiano, "keyboard.piano" ) V( PlaybackSound, keyboardPianoElectric, "keyboard.piano.electric" ) V( PlaybackSound, keyboardPianoGrand, "keyboard.piano.grand" ) V( PlaybackSound, keyboardPianoHonkyTonk, "keyboard.piano.honky-tonk" ) V( PlaybackSound, keyboardPianoPrepared, "keyboard.piano.prepared" ) V( PlaybackSound, keyboardPianoToy, "keyboard.piano.toy" ) V( PlaybackSound, keyboardPianoUpright, "keyboard.piano.upright" ) V( PlaybackSound, keyboardVirginal, "keyboard.virginal" ) V( PlaybackSound, metalAdodo, "metal.adodo" ) V( PlaybackSound, metalAnvil, "metal.anvil" ) V( PlaybackSound, metalBabendil, "metal.babendil" ) V( PlaybackSound, metalBellsAgogo, "metal.bells.agogo" ) V( PlaybackSound, metalBellsAlmglocken, "metal.bells.almglocken" ) V( PlaybackSound, metalBellsBellPlate, "metal.bells.bell-plate" ) V( PlaybackSound, metalBellsBellTree, "metal.bells.bell-tree" ) V( PlaybackSound, metalBellsCarillon, "metal.bells.carillon" ) V( PlaybackSound, metalBellsChimes, "metal.bells.chimes" ) V( PlaybackSound, metalBellsChimta, "metal.bells.chimta" ) V( PlaybackSound, metalBellsChippli, "metal.bells.chippli" ) V( PlaybackSound, metalBellsChurch, "metal.bells.church" ) V( PlaybackSound, metalBellsCowbell, "metal.bells.cowbell" ) V( PlaybackSound, metalBellsDawuro, "metal.bells.dawuro" ) V( PlaybackSound, metalBellsGankokwe, "metal.bells.gankokwe" ) V( PlaybackSound, metalBellsGhungroo, "metal.bells.ghungroo" ) V( PlaybackSound, metalBellsHatheli, "metal.bells.hatheli" ) V( PlaybackSound, metalBellsJingleBell, "metal.bells.jingle-bell" ) V( PlaybackSound, metalBellsKhartal, "metal.bells.khartal" ) V( PlaybackSound, metalBellsMarkTree, "metal.bells.mark-tree" ) V( PlaybackSound, metalBellsSistrum, "metal.bells.sistrum" ) V( PlaybackSound, metalBellsSleighBells, "metal.bells.sleigh-bells" ) V( PlaybackSound, metalBellsTemple, "metal.bells.temple" ) V( PlaybackSound, metalBellsTibetan, "metal.bells.tibetan" ) V( PlaybackSound, metalBellsTinklebell, "metal.bells.tinklebell" ) V( PlaybackSound, metalBellsTrychel, "metal.bells.trychel" ) V( PlaybackSound, metalBellsWindChimes, "metal.bells.wind-chimes" ) V( PlaybackSound, metalBellsZills, "metal.bells.zills" ) V( PlaybackSound, metalBerimbau, "metal.berimbau" ) V( PlaybackSound, metalBrakeDrums, "metal.brake-drums" ) V( PlaybackSound, metalCrotales, "metal.crotales" ) V( PlaybackSound, metalCymbalBo, "metal.cymbal.bo" ) V( PlaybackSound, metalCymbalCengCeng, "metal.cymbal.ceng-ceng" ) V( PlaybackSound, metalCymbalChabara, "metal.cymbal.chabara" ) V( PlaybackSound, metalCymbalChinese, "metal.cymbal.chinese" ) V( PlaybackSound, metalCymbalChing, "metal.cymbal.ching" ) V( PlaybackSound, metalCymbalClash, "metal.cymbal.clash" ) V( PlaybackSound, metalCymbalCrash, "metal.cymbal.crash" ) V( PlaybackSound, metalCymbalFinger, "metal.cymbal.finger" ) V( PlaybackSound, metalCymbalHand, "metal.cymbal.hand" ) V( PlaybackSound, metalCymbalKesi, "metal.cymbal.kesi" ) V( PlaybackSound, metalCymbalManjeera, "metal.cymbal.manjeera" ) V( PlaybackSound, metalCymbalReverse, "metal.cymbal.reverse" ) V( PlaybackSound, metalCymbalRide, "metal.cymbal.ride" ) V( PlaybackSound, metalCymbalSizzle, "metal.cymbal.sizzle" ) V( PlaybackSound, metalCymbalSplash, "metal.cymbal.splash" ) V( PlaybackSound, metalCymbalSuspended, "metal.cymbal.suspended" ) V( PlaybackSound, metalCymbalTebyoshi, "metal.cymbal.tebyoshi" ) V( PlaybackSound, metalCymbalTibetan, "metal.cymbal.tibetan" ) V( PlaybackSound, metalCymbalTingsha, "metal.cymbal.tingsha" ) V( PlaybackSound, metalFlexatone, "metal.flexatone" ) V( PlaybackSound, metalGong, "metal.gong" ) V( PlaybackSound, metalGongAgeng, "metal.gong.ageng" ) V( PlaybackSound, metalGongAgung, "metal.gong.agung" ) V( PlaybackSound, metalGongChanchiki, "metal.gong.chanchiki" ) V( PlaybackSound, metalGongChinese, "metal.gong.chinese" ) V( PlaybackSound, metalGongGandingan, "metal.gong.gandingan" ) V( PlaybackSound, metalGongKempul, "metal.gong.kempul" ) V( PlaybackSound, metalGongKempyang, "metal.gong.kempyang" ) V( PlaybackSound, metalGongKetuk, "metal.gong.ketuk" ) V( PlaybackSound, metalGongKkwenggwari, "metal.gong.kkwenggwari" ) V( PlaybackSound, metalGongLuo, "metal.gong.luo" ) V( PlaybackSound, metalGongSinging, "metal.gong.singing" ) V( PlaybackSound, metalGongThai, "metal.gong.thai" ) V( PlaybackSound, metalGuira, "metal.guira" ) V( PlaybackSound, metalHang, "metal.hang" ) V( PlaybackSound, metalHiHat, "metal.hi-hat" ) V( PlaybackSound, metalJawHarp, "metal.jaw-harp" ) V( PlaybackSound, metalKengong, "metal.kengong" ) V( PlaybackSound, metalMurchang, "metal.murchang" ) V( PlaybackSound, metalMusicalSaw, "metal.musical-saw" ) V( PlaybackSound, metalSingingBowl, "metal.singing-bowl" ) V( PlaybackSound, metalSpoons, "metal.spoons" ) V( PlaybackSound, metalSteelDrums, "metal.steel-drums" ) V( PlaybackSound, metalTamtam, "metal.tamtam" ) V( PlaybackSound, metalThundersheet, "metal.thundersheet" ) V( PlaybackSound, metalTriangle, "metal.triangle" ) V( PlaybackSound, metalWashboard, "metal.washboard" ) V( PlaybackSound, pitchedPercussionAngklung, "pitched-percussion.angklung" ) V( PlaybackSound, pitchedPercussionBalafon, "pitched-percussion.balafon" ) V( PlaybackSound, pitchedPercussionBellLyre, "pitched-percussion.bell-lyre" ) V( PlaybackSound, pitchedPercussionBells, "pitched-percussion.bells" ) V( PlaybackSound, pitchedPercussionBianqing, "pitched-percussion.bianqing" ) V( PlaybackSound, pitchedPercussionBianzhong, "pitched-percussion.bianzhong" ) V( PlaybackSound, pitchedPercussionBonang, "pitched-percussion.bonang" ) V( PlaybackSound, pitchedPercussionCimbalom, "pitched-percussion.cimbalom" ) V( PlaybackSound, pitchedPercussionCrystalGlasses, "pitched-percussion.crystal-glasses" ) V( PlaybackSound, pitchedPercussionDanTamThapLuc, "pitched-percussion.dan-tam-thap-luc" ) V( PlaybackSound, pitchedPercussionFangxiang, "pitched-percussion.fangxiang" ) V( PlaybackSound, pitchedPercussionGandinganAKayo, "pitched-percussion.gandingan-a-kayo" ) V( PlaybackSound, pitchedPercussionGangsa, "pitched-percussion.gangsa" ) V( PlaybackSound, pitchedPercussionGender, "pitched-percussion.gender" ) V( PlaybackSound, pitchedPercussionGiying, "pitched-percussion.giying" ) V( PlaybackSound, pitchedPercussionGlassHarmonica, "pitched-percussion.glass-harmonica" ) V( PlaybackSound, pitchedPercussionGlockenspiel, "pitched-percussion.glockenspiel" ) V( PlaybackSound, pitchedPercussionGlockenspielAlto, "pitched-percussion.glockenspiel.alto" ) V( PlaybackSound, pitchedPercussionGlockenspielSoprano, "pitched-percussion.glockenspiel.soprano" ) V( PlaybackSound, pitchedPercussionGyil, "pitched-percussion.gyil" ) V( PlaybackSound, pitchedPercussionHammerDulcimer, "pitched-percussion.hammer-dulcimer" ) V( PlaybackSound, pitchedPercussionHandbells, "pitched-percussion.handbells" ) V( PlaybackSound, pitchedPercussionKalimba, "pitched-percussion.kalimba" ) V( PlaybackSound, pitchedPercussionKantil, "pitched-percussion.kantil" ) V( PlaybackSound, pitchedPercussionKhim, "pitched-percussion.khim" ) V( PlaybackSound, pitchedPercussionKulintang, "pitched-percussion.kulintang" ) V( PlaybackSound, pitchedPercussionKulintangAKayo, "pitched-percussion.kulintang-a-kayo" ) V( PlaybackSound, pitchedPercussionKulintangATiniok, "pitched-percussion.kulintang-a-tiniok" ) V( PlaybackSound, pitchedPercussionLikembe, "pitched-percussion.likembe" ) V( PlaybackSound, pitchedPercussionLuntang, "pitched-percussion.luntang" ) V( PlaybackSound, pitchedPercussionMarimba, "pitched-percussion.marimba" ) V( PlaybackSound, pitchedPercussionMarimbaBass, "pitched-percussion.marimba.bass" ) V( PlaybackSound, pitchedPercussionMbira, "pitched-percussion.mbira" ) V( PlaybackSound, pitchedPercussionMbiraArray, "pitched-percussion.mbira.array" ) V( PlaybackSound, pitchedPercussionMetallophone, "pitched-percussion.metallophone" ) V( PlaybackSound, pitchedPercussionMetallophoneAlto, "pitched-percussion.metallophone.alto" ) V( PlaybackSound, pitchedPercussionMetallophoneBass, "pitched-percussion.metallophone.bass" ) V( PlaybackSound, pitchedPercussionMetallophoneSoprano, "pitched-percussion.metallophone.soprano" ) V( PlaybackSound, pitchedPercussionMusicBox, "pitched-percussion.music-box" ) V( PlaybackSound, pitchedPercussionPelogPanerus, "pitched-percussion.pelog-panerus" ) V( PlaybackSound, pitchedPercussionPemade, "pitched-percussion.pemade" ) V( PlaybackSound, pitchedPercussionPenyacah, "pitched-percussion.penyacah" ) V( PlaybackSound, pitchedPercussionRanatEk, "pitched-percussion.ranat.ek" ) V( PlaybackSound, pitchedPercussionRanatEkLek, "pitched-percussion.ranat.ek-lek" ) V( PlaybackSound, pitchedPercussionRanatThum, "pitched-percussion.ranat.thum" ) V( PlaybackSound, pitchedPercussionRanatThumLek, "pitched-percussion.ranat.thum-lek" ) V( PlaybackSound, pitchedPercussionReyong, "pitched-percussion.reyong" ) V( PlaybackSound, pitchedPercussionSanza, "pitched-percussion.sanza" ) V( PlaybackSound, pitchedPercussionSaronBarung, "pitched-percussion.saron-barung" ) V( PlaybackSound, pitchedPercussionSaronDemong, "pitched-percussion.saron-demong" ) V( PlaybackSound, pitchedPercussionSaronPanerus, "pitched-percussion.saron-panerus" ) V( PlaybackSound, pitchedPercussionSlendroPanerus, "pitched-percussion.slendro-panerus" ) V( PlaybackSound, pitchedPercussionSlentem, "pitched-percussion.slentem" ) V( PlaybackSound, pitchedPercussionTsymbaly, "pitched-percussion.tsymbaly" ) V( PlaybackSound, pitchedPercussionTubes, "pitched-percussion.tubes" ) V( PlaybackSound, pitchedPercussionTubularBells, "pitched-percussion.tubular-bells" ) V( PlaybackSound, pitchedPercussionVibraphone, "pitched-percussion.vibraphone" ) V( PlaybackSound, pitchedPercussionXylophone, "pitched-percussion.xylophone" ) V( PlaybackSound, pitchedPercussionXylophoneAlto, "pitched-percussion.xylophone.alto" ) V( PlaybackSound, pitchedPercussionXylophoneBass, "pitched-percussion.xylophone.bass" ) V( PlaybackSound, pitchedPercussionXylophoneSoprano, "pitched-percussion.xylophone.soprano" ) V( PlaybackSound, pitchedPercussionXylorimba, "pitched-percussion.xylorimba" ) V( PlaybackSound, pitchedPercussionYangqin, "pitched-percussion.yangqin" ) V( PlaybackSound, pluckArchlute, "pluck.archlute" ) V( PlaybackSound, pluckAutoharp, "pluck.autoharp" ) V( PlaybackSound, pluckBaglama, "pluck.baglama" ) V( PlaybackSound, pluckBajo, "pluck.bajo" ) V( PlaybackSound, pluckBalalaika, "pluck.balalaika" ) V( PlaybackSound, pluckBalalaikaAlto, "pluck.balalaika.alto" ) V( PlaybackSound, pluckBalalaikaBass, "pluck.balalaika.bass" ) V( PlaybackSound, pluckBalalaikaContrabass, "pluck.balalaika.contrabass" ) V( PlaybackSound, pluckBalalaikaPiccolo, "pluck.balalaika.piccolo" ) V( PlaybackSound, pluckBalalaikaPrima, "pluck.balalaika.prima" ) V( PlaybackSound, pluckBalalaikaSecunda, "pluck.balalaika.secunda" ) V( PlaybackSound, pluckBandola, "pluck.bandola" ) V( PlaybackSound, pluckBandura, "pluck.bandura" ) V( PlaybackSound, pluckBandurria, "pluck.bandurria" ) V( PlaybackSound, pluckBanjo, "pluck.banjo" ) V( PlaybackSound, pluckBanjoTenor, "pluck.banjo.tenor" ) V( PlaybackSound, pluckBanjolele, "pluck.banjolele" ) V( PlaybackSound, pluckBarbat, "pluck.barbat" ) V( PlaybackSound, pluckBass, "pluck.bass" ) V( PlaybackSound, pluckBassAcoustic, "pluck.bass.acoustic" ) V( PlaybackSound, pluckBassBolon, "pluck.bass.bolon" ) V( PlaybackSound, pluckBassElectric, "pluck.bass.electric" ) V( PlaybackSound, pluckBassFretless, "pluck.bass.fretless" ) V( PlaybackSound, pluckBassGuitarron, "pluck.bass.guitarron" ) V( PlaybackSound, pluckBassSynth, "pluck.bass.synth" ) V( PlaybackSound, pluckBassSynthLead, "pluck.bass.synth.lead" ) V( PlaybackSound, pluckBassWashtub, "pluck.bass.washtub" ) V( PlaybackSound, pluckBassWhamola, "pluck.bass.whamola" ) V( PlaybackSound, pluckBegena, "pluck.begena" ) V( PlaybackSound, pluckBiwa, "pluck.biwa" ) V( PlaybackSound, pluckBordonua, "pluck.bordonua" ) V( PlaybackSound, pluckBouzouki, "pluck.bouzouki" ) V( PlaybackSound, pluckBouzoukiIrish, "pluck.bouzouki.irish" ) V( PlaybackSound, pluckCelticHarp, "pluck.celtic-harp" ) V( PlaybackSound, pluckCharango, "pluck.charango" ) V( PlaybackSound, pluckChitarraBattente, "pluck.chitarra-battente" ) V( PlaybackSound, pluckCithara, "pluck.cithara" ) V( PlaybackSound, pluckCittern, "pluck.cittern" ) V( PlaybackSound, pluckCuatro, "pluck.cuatro" ) V( PlaybackSound, pluckDanBau, "pluck.dan-bau" ) V( PlaybackSound, pluckDanNguyet, "pluck.dan-nguyet" ) V( PlaybackSound, pluckDanTranh, "pluck.dan-tranh" ) V( PlaybackSound, pluckDanTyBa, "pluck.dan-ty-ba" ) V( PlaybackSound, pluckDiddleyBow, "pluck.diddley-bow" ) V( PlaybackSound, pluckDomra, "pluck.domra" ) V( PlaybackSound, pluckDomu, "pluck.domu" ) V( PlaybackSound, pluckDulcimer, "pluck.dulcimer" ) V( PlaybackSound, pluckDutar, "pluck.dutar" ) V( PlaybackSound, pluckDuxianqin, "pluck.duxianqin" ) V( PlaybackSound, pluckEktara, "pluck.ektara" ) V( PlaybackSound, pluckGeomungo, "pluck.geomungo" ) V( PlaybackSound, pluckGottuvadhyam, "pluck.gottuvadhyam" ) V( PlaybackSound, pluckGuitar, "pluck.guitar" ) V( PlaybackSound, pluckGuitarAcoustic, "pluck.guitar.acoustic" ) V( PlaybackSound, pluckGuitarElectric, "pluck.guitar.electric" ) V( PlaybackSound, pluckGuitarNylonString, "pluck.guitar.nylon-string" ) V( PlaybackSound, pluckGuitarPedalSteel, "pluck.guitar.pedal-steel" ) V( PlaybackSound, pluckGuitarPortuguese, "pluck.guitar.portuguese" ) V( PlaybackSound, pluckGuitarRequinto, "pluck.guitar.requinto" ) V( PlaybackSound, pluckGuitarResonator, "pluck.guitar.resonator" ) V( PlaybackSound, pluckGuitarSteelString, "pluck.guitar.steel-string" ) V( PlaybackSound, pluckGuitjo, "pluck.guitjo" ) V( PlaybackSound, pluckGuitjoDoubleNeck, "pluck.guitjo.double-neck" ) V( PlaybackSound, pluckGuqin, "pluck.guqin" ) V( PlaybackSound, pluckGuzheng, "pluck.guzheng" ) V( PlaybackSound, pluckGuzhengChoazhou, "pluck.guzheng.choazhou" ) V( PlaybackSound, pluckHarp, "pluck.harp" ) V( PlaybackSound, pluckHarpGuitar, "pluck.harp-guitar" ) V( PlaybackSound, pluckHuapanguera, "pluck.huapanguera" ) V( PlaybackSound, pluckJaranaHuasteca, "pluck.jarana-huasteca" ) V( PlaybackSound, pluckJaranaJarocha, "pluck.jarana-jarocha" ) V( PlaybackSound, pluckJaranaJarochaMosquito, "pluck.jarana-jarocha.mosquito" ) V( PlaybackSound, pluckJaranaJarochaPrimera, "pluck.jarana-jarocha.primera" ) V( PlaybackSound, pluckJaranaJarochaSegunda, "pluck.jarana-jarocha.segunda" ) V( PlaybackSound, pluckJaranaJarochaTercera, "pluck.jarana-jarocha.tercera" ) V( PlaybackSound, pluckKabosy, "pluck.kabosy" ) V( PlaybackSound, pluckKantele, "pluck.kantele" ) V( PlaybackSound, pluckKanun, "pluck.kanun" ) V( PlaybackSound, pluckKayagum, "pluck.kayagum" ) V( PlaybackSound, pluckKobza, "pluck.kobza" ) V( PlaybackSound, pluckKomuz, "pluck.komuz" ) V( PlaybackSound, pluckKora, "pluck.kora" ) V( PlaybackSound, pluckKoto, "pluck.koto" ) V( PlaybackSound, pluckKutiyapi, "pluck.kutiyapi" ) V( PlaybackSound, pluckLangeleik, "pluck.langeleik" ) V( PlaybackSound, pluckLaud, "pluck.laud" ) V( PlaybackSound, pluckLute, "pluck.lute" ) V( PlaybackSound, pluckLyre, "pluck.lyre" ) V( PlaybackSound, pluckMandobass, "pluck.mandobass" ) V( PlaybackSound, pluckMandocello, "pluck.mandocello" ) V( PlaybackSound, pluckMandola, "pluck.mandola" ) V( PlaybackSound, pluckMandolin, "pluck.mandolin" ) V( PlaybackSound, pluckMandolinOctave, "pluck.mandolin.octave" ) V( PlaybackSound, pluckMandora, "pluck.mandora" ) V( PlaybackSound, pluckMandore, "pluck.mandore" ) V( PlaybackSound, pluckMarovany, "pluck.marovany" ) V( PlaybackSound, pluckMusicalBow, "pluck.musical-bow" ) V( PlaybackSound, pluckNgoni, "pluck.ngoni" ) V( PlaybackSound, pluckOud, "pluck.oud" ) V( PlaybackSound, pluckPipa, "pluck.pipa" ) V( PlaybackSound, pluckPsaltery, "pluck.psaltery" ) V( PlaybackSound, pluckRuan, "pluck.ruan" ) V( PlaybackSound, pluckSallaneh, "pluck.sallaneh" ) V( PlaybackSound, pluckSanshin, "pluck.sanshin" ) V( PlaybackSound, pluckSantoor, "pluck.santoor" ) V( PlaybackSound, pluckSanxian, "pluck.sanxian" ) V( PlaybackSound, pluckSarod, "pluck.sarod" ) V( PlaybackSound, pluckSaung, "pluck.saung" ) V( PlaybackSound, pluckSaz, "pluck.saz" ) V( PlaybackSound, pluckSe, "pluck.se" ) V( PlaybackSound, pluckSetar, "pluck.setar" ) V( PlaybackSound, pluckShamisen, "pluck.shamisen" ) V( PlaybackSound, pluckSitar, "pluck.sitar" ) V( PlaybackSound, pluckSynth, "pluck.synth" ) V( PlaybackSound, pluckSynthCharang, "pluck.synth.charang" ) V( PlaybackSound, pluckSynthChiff, "pluck.synth.chiff" ) V( PlaybackSound, pluckSynthStick, "pluck.synth.stick" ) V( PlaybackSound, pluckTambura, "pluck.tambura" ) V( PlaybackSound, pluckTamburaBulgarian, "pluck.tambura.bulgarian" ) V( PlaybackSound, pluckTamburaFemale, "pluck.tambura.female" ) V( PlaybackSound, pluckTamburaMale, "pluck.tambura.male" ) V( PlaybackSound, pluckTar, "pluck.tar" ) V( PlaybackSound, pluckTheorbo, "pluck.theorbo" ) V( PlaybackSound, pluckTimple, "pluck.timple" ) V( PlaybackSound, pluckTiple, "pluck.tiple" ) V( PlaybackSound, pluckTres, "pluck.tres" ) V( PlaybackSound, pluckUkulele, "pluck.ukulele" ) V( PlaybackSound, pluckUkuleleTenor, "pluck.ukulele.tenor" ) V( PlaybackSound, pluckValiha, "pluck.valiha" ) V( PlaybackSound, pluckVeena, "pluck.veena" ) V( PlaybackSound, pluckVeenaMohan, "pluck.veena.mohan" ) V( PlaybackSound, pluckVeenaRudra, "pluck.veena.rudra" ) V( PlaybackSound, pluckVeenaVichitra, "pluck.veena.vichitra" ) V( PlaybackSound, pluckVihuela, "pluck.vihuela" ) V( PlaybackSound, pluckVihuelaMexican, "pluck.vihuela.mexican" ) V( PlaybackSound, pluckXalam, "pluck.xalam" ) V( PlaybackSound, pluckYueqin, "pluck.yueqin" ) V( PlaybackSound, pluckZither, "pluck.zither" ) V( PlaybackSound, pluckZitherOvertone, "pluck.zither.overtone" ) V( PlaybackSound, rattleAfoxe, "rattle.afoxe" ) V( PlaybackSound, rattleBirds, "rattle.birds" ) V( PlaybackSound, rattleCabasa, "rattle.cabasa" ) V( PlaybackSound, rattleCaxixi, "rattle.caxixi" ) V( PlaybackSound, rattleCog, "rattle.cog" ) V( PlaybackSound, rattleGanza, "rattle.ganza" ) V( PlaybackSound, rattleHosho, "rattle.hosho" ) V( PlaybackSound, rattleJawbone, "rattle.jawbone" ) V( PlaybackSound, rattleKayamba, "rattle.kayamba" ) V( PlaybackSound, rattleKpokoKpoko, "rattle.kpoko-kpoko" ) V( PlaybackSound, rattleLavaStones, "rattle.lava-stones" ) V( PlaybackSound, rattleMaraca, "rattle.maraca" ) V( PlaybackSound, rattleRainStick, "rattle.rain-stick" ) V( PlaybackSound, rattleRatchet, "rattle.ratchet" ) V( PlaybackSound, rattleRattle, "rattle.rattle" ) V( PlaybackSound, rattleShaker, "rattle.shaker" ) V( PlaybackSound, rattleShakerEgg, "rattle.shaker.egg" ) V( PlaybackSound, rattleShekere, "rattle.shekere" ) V( PlaybackSound, rattleSistre, "rattle.sistre" ) V( PlaybackSound, rattleTelevi, "rattle.televi" ) V( PlaybackSound, rattleVibraslap, "rattle.vibraslap" ) V( PlaybackSound, rattleWasembe, "rattle.wasembe" ) V( PlaybackSound, stringsAjaeng, "strings.ajaeng" ) V( PlaybackSound, stringsArpeggione, "strings.arpeggione" ) V( PlaybackSound, stringsBaryton, "strings.baryton" ) V( PlaybackSound, stringsCello, "strings.cello" ) V( PlaybackSound, stringsCelloPiccolo, "strings.cello.piccolo" ) V( PlaybackSound, stringsContrabass, "strings.contrabass" ) V( PlaybackSound, stringsCrwth, "strings.crwth" ) V( PlaybackSound, stringsDanGao, "strings.dan-gao" ) V( PlaybackSound, stringsDihu, "strings.dihu" ) V( PlaybackSound, stringsErhu, "strings.erhu" ) V( PlaybackSound, stringsErxian, "strings.erxian" ) V( PlaybackSound, stringsEsraj, "strings.esraj" ) V( PlaybackSound, stringsFiddle, "strings.fiddle" ) V( PlaybackSound, stringsFiddleHardanger, "strings.fiddle.hardanger" ) V( PlaybackSound, stringsGadulka, "strings.gadulka" ) V( PlaybackSound, stringsGaohu, "strings.gaohu" ) V( PlaybackSound, stringsGehu, "strings.gehu" ) V( PlaybackSound, stringsGroup, "strings.group" ) V( PlaybackSound, stringsGroupSynth, "strings.group.synth" ) V( PlaybackSound, stringsHaegeum, "strings.haegeum" ) V( PlaybackSound, stringsHurdyGurdy, "strings.hurdy-gurdy" ) V( PlaybackSound, stringsIgil, "strings.igil" ) V( PlaybackSound, stringsKamancha, "strings.kamancha" ) V( PlaybackSound, stringsKokyu, "strings.kokyu" ) V( PlaybackSound, stringsLaruan, "strings.laruan" ) V( PlaybackSound, stringsLeiqin, "strings.leiqin" ) V( PlaybackSound, stringsLirone, "strings.lirone" ) V( PlaybackSound, stringsLyraByzantine, "strings.lyra.byzantine" ) V( PlaybackSound, stringsLyraCretan, "strings.lyra.cretan" ) V( PlaybackSound, stringsMorinKhuur, "strings.morin-khuur" ) V( PlaybackSound, stringsNyckelharpa, "strings.nyckelharpa" ) V( PlaybackSound, stringsOctobass, "strings.octobass" ) V( PlaybackSound, stringsRebab, "strings.rebab" ) V( PlaybackSound, stringsRebec, "strings.rebec" ) V( PlaybackSound, stringsSarangi, "strings.sarangi" ) V( PlaybackSound, stringsStrohViolin, "strings.stroh-violin" ) V( PlaybackSound, stringsTrombaMarina, "strings.tromba-marina" ) V( PlaybackSound, stringsVielle, "strings.vielle" ) V( PlaybackSound, stringsViol, "strings.viol" ) V( PlaybackSound, stringsViolAlto, "strings.viol.alto" ) V( PlaybackSound, stringsViolBass, "strings.viol.bass" ) V( PlaybackSound, stringsViolTenor, "strings.viol.tenor" ) V( PlaybackSound, stringsViolTreble, "strings.viol.treble" ) V( PlaybackSound, stringsViolViolone, "strings.viol.violone" ) V( PlaybackSound, stringsViola, "strings.viola" ) V( PlaybackSound, stringsViolaDamore, "strings.viola-damore" ) V( PlaybackSound, stringsViolin, "strings.violin" ) V( PlaybackSound, stringsViolonoPiccolo, "strings.violono.piccolo" ) V( PlaybackSound, stringsViolotta, "strings.violotta" ) V( PlaybackSound, stringsYayliTanbur, "strings.yayli-tanbur" ) V( PlaybackSound, stringsYazheng, "strings.yazheng" ) V( PlaybackSound, stringsZhonghu, "strings.zhonghu" ) V( PlaybackSound, synthEffects, "synth.effects" ) V( PlaybackSound, synthEffectsAtmosphere, "synth.effects.atmosphere" ) V( PlaybackSound, synthEffectsBrightness, "synth.effects.brightness" ) V( PlaybackSound, synthEffectsCrystal, "synth.effects.crystal" ) V( PlaybackSound, synthEffectsEchoes, "synth.effects.echoes" ) V( PlaybackSound, synthEffectsGoblins, "synth.effects.goblins" ) V( PlaybackSound, synthEffectsRain, "synth.effects.rain" ) V( PlaybackSound, synthEffectsSciFi, "synth.effects.sci-fi" ) V( PlaybackSound, synthEffectsSoundtrack, "synth.effects.soundtrack" ) V( PlaybackSound, synthGroup, "synth.group" ) V( PlaybackSound, synthGroupFifths, "synth.group.fifths" ) V( PlaybackSound, synthGroupOrchestra, "synth.group.orchestra" ) V( PlaybackSound, synthPad, "synth.pad" ) V( PlaybackSound, synthPadBowed, "synth.pad.bowed" ) V( PlaybackSound, synthPadChoir, "synth.pad.choir" ) V( PlaybackSound, synthPadHalo, "synth.pad.halo" ) V( PlaybackSound, synthPadMetallic, "synth.pad.metallic" ) V( PlaybackSound, synthPadPolysynth, "synth.pad.polysynth" ) V( PlaybackSound, synthPadSweep, "synth.pad.sweep" ) V( PlaybackSound, synthPadWarm, "synth.pad.warm" ) V( PlaybackSound, synthTheremin, "synth.theremin" ) V( PlaybackSound, synthToneSawtooth, "synth.tone.sawtooth" ) V( PlaybackSound, synthToneSine, "synth.tone.sine" ) V( PlaybackSound, synthToneSquare, "synth.tone.square" ) V( PlaybackSound, voiceAa, "voice.aa" ) V( PlaybackSound, voiceAlto, "voice.alto" ) V( PlaybackSound, voiceAw, "voice.aw" ) V( PlaybackSound, voiceBaritone, "voice.baritone" ) V( PlaybackSound, voiceBass, "voice.bass" ) V( PlaybackSound, voiceChild, "voice.child" ) V( PlaybackSound, voiceCountertenor, "voice.countertenor" ) V( PlaybackSound, voiceDoo, "voice.doo" ) V( PlaybackSound, voiceEe, "voice.ee" ) V( PlaybackSound, voiceFemale, "voice.female" ) V( PlaybackSound, voiceKazoo, "voice.kazoo" ) V( PlaybackSound, voiceMale, "voice.male" ) V( PlaybackSound, voiceMezzoSoprano, "voice.mezzo-soprano" ) V( PlaybackSound, voiceMm, "voice.mm" ) V( PlaybackSound, voiceOo, "voice.oo" ) V( PlaybackSound, voicePercussion, "voice.percussion" ) V( PlaybackSound, voicePercussionBeatbox, "voice.percussion.beatbox" ) V( PlaybackSound, voiceSoprano, "voice.soprano" ) V( PlaybackSound, voiceSynth, "voice.synth" ) V( PlaybackSound, voiceTalkBox, "voice.talk-box" ) V( PlaybackSound, voiceTenor, "voice.tenor" ) V( PlaybackSound, voiceVocals, "voice.vocals" ) V( PlaybackSound, windFlutesBansuri, "wind.flutes.bansuri" ) V( PlaybackSound, windFlutesBlownBottle, "wind.flutes.blown-bottle" ) V( PlaybackSound, windFlutesCalliope, "wind.flutes.calliope" ) V( PlaybackSound, windFlutesDanso, "wind.flutes.danso" ) V( PlaybackSound, windFlutesDiZi, "wind.flutes.di-zi" ) V( PlaybackSound, windFlutesDvojnice, "wind.flutes.dvojnice" ) V( PlaybackSound, windFlutesFife, "wind.flutes.fife" ) V( PlaybackSound, windFlutesFlageolet, "wind.flutes.flageolet" ) V( PlaybackSound, windFlutesFlute, "wind.flutes.flute" ) V( PlaybackSound, windFlutesFluteAlto, "wind.flutes.flute.alto" ) V( PlaybackSound, windFlutesFluteBass, "wind.flutes.flute.bass" ) V( PlaybackSound, windFlutesFluteContraAlto, "wind.flutes.flute.contra-alto" ) V( PlaybackSound, windFlutesFluteContrabass, "wind.flutes.flute.contrabass" ) V( PlaybackSound, windFlutesFluteDoubleContrabass, "wind.flutes.flute.double-contrabass" ) V( PlaybackSound, windFlutesFluteIrish, "wind.flutes.flute.irish" ) V( PlaybackSound, windFlutesFlutePiccolo, "wind.flutes.flute.piccolo" ) V( PlaybackSound, windFlutesFluteSubcontrabass, "wind.flutes.flute.subcontrabass" ) V( PlaybackSound, windFlutesFujara, "wind.flutes.fujara" ) V( PlaybackSound, windFlutesGemshorn, "wind.flutes.gemshorn" ) V( PlaybackSound, windFlutesHocchiku, "wind.flutes.hocchiku" ) V( PlaybackSound, windFlutesHun, "wind.flutes.hun" ) V( PlaybackSound, windFlutesKaval, "wind.flutes.kaval" ) V( PlaybackSound, windFlutesKawala, "wind.flutes.kawala" ) V( PlaybackSound, windFlutesKhlui, "wind.flutes.khlui" ) V( PlaybackSound, windFlutesKnotweed, "wind.flutes.knotweed" ) V( PlaybackSound, windFlutesKoncovkaAlto, "wind.flutes.koncovka.alto" ) V( PlaybackSound, windFlutesKoudi, "wind.flutes.koudi" ) V( PlaybackSound, windFlutesNey, "wind.flutes.ney" ) V( PlaybackSound, windFlutesNohkan, "wind.flutes.nohkan" ) V( PlaybackSound, windFlutesNose, "wind.flutes.nose" ) V( PlaybackSound, windFlutesOcarina, "wind.flutes.ocarina" ) V( PlaybackSound, windFlutesOvertoneTenor, "wind.flutes.overtone.tenor" ) V( PlaybackSound, windFlutesPalendag, "wind.flutes.palendag" ) V( PlaybackSound, windFlutesPanpipes, "wind.flutes.panpipes" ) V( PlaybackSound, windFlutesQuena, "wind.flutes.quena" ) V( PlaybackSound, windFlutesRecorder, "wind.flutes.recorder" ) V( PlaybackSound, windFlutesRecorderAlto, "wind.flutes.recorder.alto" ) V( PlaybackSound, windFlutesRecorderBass, "wind.flutes.recorder.bass" ) V( PlaybackSound, windFlutesRecorderContrabass, "wind.flutes.recorder.contrabass" ) V( PlaybackSound, windFlutesRecorderDescant, "wind.flutes.recorder.descant" ) V( PlaybackSound, windFlutesRecorderGarklein, "wind.flutes.recorder.garklein" ) V( PlaybackSound, windFlutesRecorderGreatBass, "wind.flutes.recorder.great-bass" ) V( PlaybackSound, windFlutesRecorderSopranino, "wind.flutes.recorder.sopranino" ) V( PlaybackSound, windFlutesRecorderSoprano, "wind.flutes.recorder.soprano" ) V( PlaybackSound, windFlutesRecorderTenor, "wind.flutes.recorder.tenor" ) V( PlaybackSound, windFlutesRyuteki, "wind.flutes.ryuteki" ) V( PlaybackSound, windFlutesShakuhachi, "wind.flutes.shakuhachi" ) V( PlaybackSound, windFlutesShepherdsPipe, "wind.flutes.shepherds-pipe" ) V( PlaybackSound, windFlutesShinobue, "wind.flutes.shinobue" ) V( PlaybackSound, windFlutesShvi, "wind.flutes.shvi" ) V( PlaybackSound, windFlutesSuling, "wind.flutes.suling" ) V( PlaybackSound, windFlutesTarka, "wind.flutes.tarka" ) V( PlaybackSound, windFlutesTumpong, "wind.flutes.tumpong" ) V( PlaybackSound, windFlutesVenu, "wind.flutes.venu" ) V( PlaybackSound, windFlutesWhistle, "wind.flutes.whistle" ) V( PlaybackSound, windFlutesWhistleAlto, "wind.flutes.whistle.alto" ) V( PlaybackSound, windFlutesWhistleLowIrish, "wind.flutes.whistle.low-irish" ) V( PlaybackSound, windFlutesWhistleShiva, "wind.flutes.whistle.shiva" ) V( PlaybackSound, windFlutesWhistleSlide, "wind.flutes.whistle.slide" ) V( PlaybackSound, windFlutesWhistleTin, "wind.flutes.whistle.tin" ) V( PlaybackSound, windFlutesWhistleTinBflat, "wind.flutes.whistle.tin.bflat" ) V( PlaybackSound, windFlutesWhistleTinD, "wind.flutes.whistle.tin.d" ) V( PlaybackSound, windFlutesXiao, "wind.flutes.xiao" ) V( PlaybackSound, windFlutesXun, "wind.flutes.xun" ) V( PlaybackSound, windGroup, "wind.group" ) V( PlaybackSound, windJug, "wind.jug" ) V( PlaybackSound, windPipesBagpipes, "wind.pipes.bagpipes" ) V( PlaybackSound, windPipesGaida, "wind.pipes.gaida" ) V( PlaybackSound, windPipesHighland, "wind.pipes.highland" ) V( PlaybackSound, windPipesUilleann, "wind.pipes.uilleann" ) V( PlaybackSound, windPungi, "wind.pungi" ) V( PlaybackSound, windReedAlbogue, "wind.reed.albogue" ) V( PlaybackSound, windReedAlboka, "wind.reed.alboka" ) V( PlaybackSound, windReedAlgaita, "wind.reed.algaita" ) V( PlaybackSound, windReedArghul, "wind.reed.arghul" ) V( PlaybackSound, windReedBassetHorn, "wind.reed.basset-horn" ) V( PlaybackSound, windReedBassoon, "wind.reed.bassoon" ) V( PlaybackSound, windReedBawu, "wind.reed.bawu" ) V( PlaybackSound, windReedBifora, "wind.reed.bifora" ) V( PlaybackSound, windReedBombarde, "wind.reed.bombarde" ) V( PlaybackSound, windReedChalumeau, "wind.reed.chalumeau" ) V( PlaybackSound, windReedClarinet, "wind.reed.clarinet" ) V( PlaybackSound, windReedClarinetA, "wind.reed.clarinet.a" ) V( PlaybackSound, windReedClarinetAlto, "wind.reed.clarinet.alto" ) V( PlaybackSound, windReedClarinetBass, "wind.reed.clarinet.bass" ) V( PlaybackSound, windReedClarinetBasset, "wind.reed.clarinet.basset" ) V( PlaybackSound, windReedClarinetBflat, "wind.reed.clarinet.bflat" ) V( PlaybackSound, windReedClarinetContraAlto, "wind.reed.clarinet.contra-alto" ) V( PlaybackSound, windReedClarinetContrabass, "wind.reed.clarinet.contrabass" ) V( PlaybackSound, windReedClarinetEflat, "wind.reed.clarinet.eflat" ) V( PlaybackSound, windReedClarinetPiccoloAflat, "wind.reed.clarinet.piccolo.aflat" ) V( PlaybackSound, windReedClarinetteDamour, "wind.reed.clarinette-damour" ) V( PlaybackSound, windReedContrabass, "wind.reed.contrabass" ) V( PlaybackSound, windReedContrabassoon, "wind.reed.contrabassoon" ) V( PlaybackSound, windReedCornamuse, "wind.reed.cornamuse" ) V( PlaybackSound, windReedCromorne, "wind.reed.cromorne" ) V( PlaybackSound, windReedCrumhorn, "wind.reed.crumhorn" ) V( PlaybackSound, windReedCrumhornAlto, "wind.reed.crumhorn.alto" ) V( PlaybackSound, windReedCrumhornBass, "wind.reed.crumhorn.bass" ) V( PlaybackSound, windReedCrumhornGreatBass, "wind.reed.crumhorn.great-bass" ) V( PlaybackSound, windReedCrumhornSoprano, "wind.reed.crumhorn.soprano" ) V( PlaybackSound, windReedCrumhornTenor, "wind.reed.crumhorn.tenor" ) V( PlaybackSound, windReedDiple, "wind.reed.diple" ) V( PlaybackSound, windReedDiplica, "wind.reed.diplica" ) V( PlaybackSound, windReedDuduk, "wind.reed.duduk" ) V( PlaybackSound, windReedDulcian, "wind.reed.dulcian" ) V( PlaybackSound, windReedDulzaina, "wind.reed.dulzaina" ) V( PlaybackSound, windReedEnglishHorn, "wind.reed.english-horn" ) V( PlaybackSound, windReedGuanzi, "wind.reed.guanzi" ) V( PlaybackSound, windReedHarmonica, "wind.reed.harmonica" ) V( PlaybackSound, windReedHarmonicaBass, "wind.reed.harmonica.bass" ) V( PlaybackSound, windReedHeckelClarina, "wind.reed.heckel-clarina" ) V( PlaybackSound, windReedHeckelphone, "wind.reed.heckelphone" ) V( PlaybackSound, windReedHeckelphonePiccolo, "wind.reed.heckelphone.piccolo" ) V( PlaybackSound, windReedHeckelphoneClarinet, "wind.reed.heckelphone-clarinet" ) V( PlaybackSound, windReedHichiriki, "wind.reed.hichiriki" ) V( PlaybackSound, windReedHirtenschalmei, "wind.reed.hirtenschalmei" ) V( PlaybackSound, windReedHne, "wind.reed.hne" ) V( PlaybackSound, windReedHornpipe, "wind.reed.hornpipe" ) V( PlaybackSound, windReedHouguan, "wind.reed.houguan" ) V( PlaybackSound, windReedHulusi, "wind.reed.hulusi" ) V( PlaybackSound, windReedJogiBaja, "wind.reed.jogi-baja" ) V( PlaybackSound, windReedKenBau, "wind.reed.ken-bau" ) V( PlaybackSound, windReedKhaenMouthOrgan, "wind.reed.khaen-mouth-organ" ) V( PlaybackSound, windReedLauneddas, "wind.reed.launeddas" ) V( PlaybackSound, windReedMaqrunah, "wind.reed.maqrunah" ) V( PlaybackSound, windReedMelodica, "wind.reed.melodica" ) V( PlaybackSound, windReedMijwiz, "wind.reed.mijwiz" ) V( PlaybackSound, windReedMizmar, "wind.reed.mizmar" ) V( PlaybackSound, windReedNadaswaram, "wind.reed.nadaswaram" ) V( PlaybackSound, windReedOboe, "wind.reed.oboe" ) V( PlaybackSound, windReedOboeBass, "wind.reed.oboe.bass" ) V( PlaybackSound, windReedOboePiccolo, "wind.reed.oboe.piccolo" ) V( PlaybackSound, windReedOboeDaCaccia, "wind.reed.oboe-da-caccia" ) V( PlaybackSound, windReedOboeDamore, "wind.reed.oboe-damore" ) V( PlaybackSound, windReedOctavin, "wind.reed.octavin" ) V( PlaybackSound, windReedPi, "wind.reed.pi" ) V( PlaybackSound, windReedPibgorn, "wind.reed.pibgorn" ) V( PlaybackSound, windReedPiri, "wind.reed.piri" ) V( PlaybackSound, windReedRackett, "wind.reed.rackett" ) V( PlaybackSound, windReedRauschpfeife, "wind.reed.rauschpfeife" ) V( PlaybackSound, windReedRhaita, "wind.reed.rhaita" ) V( PlaybackSound, windReedRothphone, "wind.reed.rothphone" ) V( PlaybackSound, windReedSarrusaphone, "wind.reed.sarrusaphone" ) V( PlaybackSound, windReedSaxonette, "wind.reed.saxonette" ) V( PlaybackSound, windReedSaxophone, "wind.reed.saxophone" ) V( PlaybackSound, windReedSaxophoneAlto, "wind.reed.saxophone.alto" ) V( PlaybackSound, windReedSaxophoneAulochrome, "wind.reed.saxophone.aulochrome" ) V( PlaybackSound, windReedSaxophoneBaritone, "wind.reed.saxophone.baritone" ) V( PlaybackSound, windReedSaxophoneBass, "wind.reed.saxophone.bass" ) V( PlaybackSound, windReedSaxophoneContrabass, "wind.reed.saxophone.contrabass" ) V( PlaybackSound, windReedSaxophoneMelody, "wind.reed.saxophone.melody" ) V( PlaybackSound, windReedSaxophoneMezzoSoprano, "wind.reed.saxophone.mezzo-soprano" ) V( PlaybackSound, windReedSaxophoneSopranino, "wind.reed.saxophone.sopranino" ) V( PlaybackSound, windReedSaxophoneSopranissimo, "wind.reed.saxophone.sopranissimo" ) V( PlaybackSound, windReedSaxophoneSoprano, "wind.reed.saxophone.soprano" ) V( PlaybackSound, windReedSaxophoneSubcontrabass, "wind.reed.saxophone.subcontrabass" ) V( PlaybackSound, windReedSaxophoneTenor, "wind.reed.saxophone.tenor" ) V( PlaybackSound, windReedShawm, "wind.reed.shawm" ) V( PlaybackSound, windReedShenai, "wind.reed.shenai" ) V( PlaybackSound, windReedSheng, "wind.reed.sheng" ) V( PlaybackSound, windReedSipsi, "wind.reed.sipsi" ) V( PlaybackSound, windReedSopila, "wind.reed.sopila" ) V( PlaybackSound, windReedSorna, "wind.reed.sorna" ) V( PlaybackSound, windReedSralai, "wind.reed.sralai" ) V( PlaybackSound, windReedSuona, "wind.reed.suona" ) V( PlaybackSound, windReedSurnai, "wind.reed.surnai" ) V( PlaybackSound, windReedTaepyeongso, "wind.reed.taepyeongso" ) V( PlaybackSound, windReedTarogato, "wind.reed.tarogato" ) V( PlaybackSound, windReedTarogatoAncient, "wind.reed.tarogato.ancient" ) V( PlaybackSound, windReedTrompetaChina, "wind.reed.trompeta-china" ) V( PlaybackSound, windReedTubax, "wind.reed.tubax" ) V( PlaybackSound, windReedXaphoon, "wind.reed.xaphoon" ) V( PlaybackSound, windReedZhaleika, "wind.reed.zhaleika" ) V( PlaybackSound, windReedZurla, "wind.reed.zurla" ) V( PlaybackSound, windReedZurna, "wind.reed.zurna" ) V( PlaybackSound, woodAgogoBlock, "wood.agogo-block" ) V( PlaybackSound, woodAgungATamlang, "wood.agung-a-tamlang" ) V( PlaybackSound, woodAhoko, "wood.ahoko" ) V( PlaybackSound, woodBones, "wood.bones" ) V( PlaybackSound, woodCastanets, "wood.castanets" ) V( PlaybackSound, woodClaves, "wood.claves" ) V( PlaybackSound, woodDrumSticks, "wood.drum-sticks" ) V( PlaybackSound, woodGourd, "wood.gourd" ) V( PlaybackSound, woodGraniteBlock, "wood.granite-block" ) V( PlaybackSound, woodGuban, "wood.guban" ) V( PlaybackSound, woodGuiro, "wood.guiro" ) V( PlaybackSound, woodHyoushigi, "wood.hyoushigi" ) V( PlaybackSound, woodIpu, "wood.ipu" ) V( PlaybackSound, woodJamBlock, "wood.jam-block" ) V( PlaybackSound, woodKaekeeke, "wood.kaekeeke" ) V( PlaybackSound, woodKagul, "wood.kagul" ) V( PlaybackSound, woodKalaau, "wood.kalaau" ) V( PlaybackSound, woodKashiklar, "wood.kashiklar" ) V( PlaybackSound, woodKubing, "wood.kubing" ) V( PlaybackSound, woodPanClappers, "wood.pan-clappers" ) V( PlaybackSound, woodSandBlock, "wood.sand-block" ) V( PlaybackSound, woodSlapstick, "wood.slapstick" ) V( PlaybackSound, woodStirDrum, "wood.stir-drum" ) V( PlaybackSound, woodTempleBlock, "wood.temple-block" ) V( PlaybackSound, woodTicTocBlock, "wood.tic-toc-block" ) V( PlaybackSound, woodTonetang, "wood.tonetang" ) V( PlaybackSound, woodWoodBlock, "wood.wood-block" ) )
