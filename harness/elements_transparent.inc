"ArrowGroup",
"ArticulationsChoice",
"BeatUnitGroup",
"BeatUnitPer",
"BeatUnitPerOrNoteRelationNoteChoice",
"BendChoice",
"CreditChoice",
"CreditWordsGroup",
"CueNoteGroup",
"DisplayStepOctaveGroup",
"DisplayTextOrAccidentalText",
"EditorialGroup",
"EditorialVoiceDirectionGroup",
"EditorialVoiceGroup",
"ElisionSyllabicGroup",
"ElisionSyllabicTextGroup",
"EncodingChoice",
"FullNoteGroup",
"FullNoteTypeChoice",
"GraceNoteGroup",
"HarmonicInfoChoice",
"HarmonicTypeChoice",
"HarmonyChordGroup",
"KeyChoice",
"LayoutGroup",
"LyricTextChoice",
"MeasureStyleChoice",
"MetronomeRelationGroup",
"MidiDeviceInstrumentGroup",
"MusicDataChoice",
"MusicDataGroup",
"NonTraditionalKey",
"NormalNoteGroup",
"NormalTypeNormalDotGroup",
"NotationsChoice",
"NoteChoice",
"NoteRelationNote",
"NoteheadTextChoice",
"OrnamentsChoice",
"PartGroupOrScorePart",
"PerMinuteOrBeatUnitChoice",
"PercussionChoice",
"ScoreHeaderGroup",
"SoloOrEnsembleChoice",
"SyllabicTextGroup",
"TechnicalChoice",
"TimeChoice",
"TimeModificationNormalTypeNormalDot",
"TimeSignatureGroup",
"TraditionalKey"
