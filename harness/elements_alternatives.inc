{ "TimeChoice.TimeSignatureGroup", "timeSignature" }, { "CreditChoice.CreditWordsGroup", "creditWords" }, { "NoteChoice.GraceNoteGroup", "grace" }, { "NoteChoice.CueNoteGroup", "cue" }, { "NoteChoice.NormalNoteGroup", "normal" },
{ "HarmonyChordGroup.Kind", "*" }, { "HarmonyChordGroup.Inversion", "*" }, { "HarmonyChordGroup.Bass", "*" }, { "HarmonyChordGroup.Degree", "*" }, { "TechnicalChoice.String", "string_" },
