// generated by lib/genreflect.py from the public headers; committed
#pragma once
#include "mx/api/ScoreData.h"
#include "mx/api/MiscData.h"
namespace rf {
using namespace mx::api;
template<class E> struct EnumInfo;
template<> struct EnumInfo<Bool> { static const std::vector<std::pair<Bool,const char*>>& all() { static const std::vector<std::pair<Bool,const char*>> v{ {Bool::unspecified,"unspecified"}, {Bool::yes,"yes"}, {Bool::no,"no"} }; return v; } };
template<> struct EnumInfo<Placement> { static const std::vector<std::pair<Placement,const char*>>& all() { static const std::vector<std::pair<Placement,const char*>> v{ {Placement::unspecified,"unspecified"}, {Placement::above,"above"}, {Placement::below,"below"} }; return v; } };
template<> struct EnumInfo<MeasureNumbering> { static const std::vector<std::pair<MeasureNumbering,const char*>>& all() { static const std::vector<std::pair<MeasureNumbering,const char*>> v{ {MeasureNumbering::unspecified,"unspecified"}, {MeasureNumbering::none,"none"}, {MeasureNumbering::measure,"measure"}, {MeasureNumbering::system,"system"} }; return v; } };
template<> struct EnumInfo<AppearanceType> { static const std::vector<std::pair<AppearanceType,const char*>>& all() { static const std::vector<std::pair<AppearanceType,const char*>> v{ {AppearanceType::LineWidth,"LineWidth"}, {AppearanceType::NoteSize,"NoteSize"}, {AppearanceType::Distance,"Distance"}, {AppearanceType::OtherAppearance,"OtherAppearance"} }; return v; } };
template<> struct EnumInfo<BarlineType> { static const std::vector<std::pair<BarlineType,const char*>>& all() { static const std::vector<std::pair<BarlineType,const char*>> v{ {BarlineType::unspecified,"unspecified"}, {BarlineType::unsupported,"unsupported"}, {BarlineType::none,"none"}, {BarlineType::normal,"normal"}, {BarlineType::lightLight,"lightLight"}, {BarlineType::lightHeavy,"lightHeavy"}, {BarlineType::heavyLight,"heavyLight"}, {BarlineType::dotted,"dotted"}, {BarlineType::dashed,"dashed"}, {BarlineType::heavy,"heavy"}, {BarlineType::heavyHeavy,"heavyHeavy"} }; return v; } };
template<> struct EnumInfo<EndingType> { static const std::vector<std::pair<EndingType,const char*>>& all() { static const std::vector<std::pair<EndingType,const char*>> v{ {EndingType::none,"none"}, {EndingType::start,"start"}, {EndingType::stop,"stop"}, {EndingType::discontinue,"discontinue"} }; return v; } };
template<> struct EnumInfo<ChordKind> { static const std::vector<std::pair<ChordKind,const char*>>& all() { static const std::vector<std::pair<ChordKind,const char*>> v{ {ChordKind::unspecified,"unspecified"}, {ChordKind::major,"major"}, {ChordKind::minor,"minor"}, {ChordKind::augmented,"augmented"}, {ChordKind::diminished,"diminished"}, {ChordKind::dominant,"dominant"}, {ChordKind::majorSeventh,"majorSeventh"}, {ChordKind::minorSeventh,"minorSeventh"}, {ChordKind::diminishedSeventh,"diminishedSeventh"}, {ChordKind::augmentedSeventh,"augmentedSeventh"}, {ChordKind::halfDiminished,"halfDiminished"}, {ChordKind::majorMinor,"majorMinor"}, {ChordKind::majorSixth,"majorSixth"}, {ChordKind::minorSixth,"minorSixth"}, {ChordKind::dominantNinth,"dominantNinth"}, {ChordKind::majorNinth,"majorNinth"}, {ChordKind::minorNinth,"minorNinth"}, {ChordKind::dominant11Th,"dominant11Th"}, {ChordKind::major11Th,"major11Th"}, {ChordKind::minor11Th,"minor11Th"}, {ChordKind::dominant13Th,"dominant13Th"}, {ChordKind::major13Th,"major13Th"}, {ChordKind::minor13Th,"minor13Th"}, {ChordKind::suspendedSecond,"suspendedSecond"}, {ChordKind::suspendedFourth,"suspendedFourth"}, {ChordKind::neapolitan,"neapolitan"}, {ChordKind::italian,"italian"}, {ChordKind::french,"french"}, {ChordKind::german,"german"}, {ChordKind::pedal,"pedal"}, {ChordKind::power,"power"}, {ChordKind::tristan,"tristan"}, {ChordKind::other,"other"}, {ChordKind::none,"none"} }; return v; } };
template<> struct EnumInfo<ExtensionType> { static const std::vector<std::pair<ExtensionType,const char*>>& all() { static const std::vector<std::pair<ExtensionType,const char*>> v{ {ExtensionType::add,"add"}, {ExtensionType::remove,"remove"}, {ExtensionType::alter,"alter"} }; return v; } };
template<> struct EnumInfo<ExtensionNumber> { static const std::vector<std::pair<ExtensionNumber,const char*>>& all() { static const std::vector<std::pair<ExtensionNumber,const char*>> v{ {ExtensionNumber::first,"first"}, {ExtensionNumber::second,"second"}, {ExtensionNumber::third,"third"}, {ExtensionNumber::fourth,"fourth"}, {ExtensionNumber::fifth,"fifth"}, {ExtensionNumber::sixth,"sixth"}, {ExtensionNumber::seventh,"seventh"}, {ExtensionNumber::ninth,"ninth"}, {ExtensionNumber::eleventh,"eleventh"}, {ExtensionNumber::thirteenth,"thirteenth"} }; return v; } };
template<> struct EnumInfo<ExtensionAlter> { static const std::vector<std::pair<ExtensionAlter,const char*>>& all() { static const std::vector<std::pair<ExtensionAlter,const char*>> v{ {ExtensionAlter::none,"none"}, {ExtensionAlter::flat,"flat"}, {ExtensionAlter::sharp,"sharp"}, {ExtensionAlter::doubleFlat,"doubleFlat"}, {ExtensionAlter::doubleSharp,"doubleSharp"} }; return v; } };
template<> struct EnumInfo<ClefSymbol> { static const std::vector<std::pair<ClefSymbol,const char*>>& all() { static const std::vector<std::pair<ClefSymbol,const char*>> v{ {ClefSymbol::none,"none"}, {ClefSymbol::g,"g"}, {ClefSymbol::f,"f"}, {ClefSymbol::c,"c"}, {ClefSymbol::percussion,"percussion"}, {ClefSymbol::tab,"tab"}, {ClefSymbol::jianpu,"jianpu"} }; return v; } };
template<> struct EnumInfo<ClefLocation> { static const std::vector<std::pair<ClefLocation,const char*>>& all() { static const std::vector<std::pair<ClefLocation,const char*>> v{ {ClefLocation::unspecified,"unspecified"}, {ClefLocation::beforeBarline,"beforeBarline"}, {ClefLocation::afterBarline,"afterBarline"}, {ClefLocation::midMeasure,"midMeasure"} }; return v; } };
template<> struct EnumInfo<CurveType> { static const std::vector<std::pair<CurveType,const char*>>& all() { static const std::vector<std::pair<CurveType,const char*>> v{ {CurveType::unspecified,"unspecified"}, {CurveType::slur,"slur"}, {CurveType::tie,"tie"} }; return v; } };
template<> struct EnumInfo<CurveOrientation> { static const std::vector<std::pair<CurveOrientation,const char*>>& all() { static const std::vector<std::pair<CurveOrientation,const char*>> v{ {CurveOrientation::unspecified,"unspecified"}, {CurveOrientation::overhand,"overhand"}, {CurveOrientation::underhand,"underhand"} }; return v; } };
template<> struct EnumInfo<DurationName> { static const std::vector<std::pair<DurationName,const char*>>& all() { static const std::vector<std::pair<DurationName,const char*>> v{ {DurationName::unspecified,"unspecified"}, {DurationName::maxima,"maxima"}, {DurationName::longa,"longa"}, {DurationName::breve,"breve"}, {DurationName::whole,"whole"}, {DurationName::half,"half"}, {DurationName::quarter,"quarter"}, {DurationName::eighth,"eighth"}, {DurationName::dur16th,"dur16th"}, {DurationName::dur32nd,"dur32nd"}, {DurationName::dur64th,"dur64th"}, {DurationName::dur128th,"dur128th"}, {DurationName::dur256th,"dur256th"}, {DurationName::dur512th,"dur512th"}, {DurationName::dur1024th,"dur1024th"} }; return v; } };
template<> struct EnumInfo<FontSizeType> { static const std::vector<std::pair<FontSizeType,const char*>>& all() { static const std::vector<std::pair<FontSizeType,const char*>> v{ {FontSizeType::unspecified,"unspecified"}, {FontSizeType::css,"css"}, {FontSizeType::point,"point"} }; return v; } };
template<> struct EnumInfo<CssSize> { static const std::vector<std::pair<CssSize,const char*>>& all() { static const std::vector<std::pair<CssSize,const char*>> v{ {CssSize::unspecified,"unspecified"}, {CssSize::xxSmall,"xxSmall"}, {CssSize::xSmall,"xSmall"}, {CssSize::small,"small"}, {CssSize::medium,"medium"}, {CssSize::large,"large"}, {CssSize::xLarge,"xLarge"}, {CssSize::xxLarge,"xxLarge"} }; return v; } };
template<> struct EnumInfo<FontStyle> { static const std::vector<std::pair<FontStyle,const char*>>& all() { static const std::vector<std::pair<FontStyle,const char*>> v{ {FontStyle::unspecified,"unspecified"}, {FontStyle::normal,"normal"}, {FontStyle::italic,"italic"} }; return v; } };
template<> struct EnumInfo<FontWeight> { static const std::vector<std::pair<FontWeight,const char*>>& all() { static const std::vector<std::pair<FontWeight,const char*>> v{ {FontWeight::unspecified,"unspecified"}, {FontWeight::normal,"normal"}, {FontWeight::bold,"bold"} }; return v; } };
template<> struct EnumInfo<KeyMode> { static const std::vector<std::pair<KeyMode,const char*>>& all() { static const std::vector<std::pair<KeyMode,const char*>> v{ {KeyMode::unspecified,"unspecified"}, {KeyMode::unsupported,"unsupported"}, {KeyMode::major,"major"}, {KeyMode::minor,"minor"} }; return v; } };
template<> struct EnumInfo<LineType> { static const std::vector<std::pair<LineType,const char*>>& all() { static const std::vector<std::pair<LineType,const char*>> v{ {LineType::unspecified,"unspecified"}, {LineType::solid,"solid"}, {LineType::dashed,"dashed"}, {LineType::dotted,"dotted"}, {LineType::wavy,"wavy"} }; return v; } };
template<> struct EnumInfo<LineHook> { static const std::vector<std::pair<LineHook,const char*>>& all() { static const std::vector<std::pair<LineHook,const char*>> v{ {LineHook::unspecified,"unspecified"}, {LineHook::down,"down"}, {LineHook::up,"up"}, {LineHook::both,"both"}, {LineHook::arrow,"arrow"}, {LineHook::none,"none"} }; return v; } };
template<> struct EnumInfo<MarkType> { static const std::vector<std::pair<MarkType,const char*>>& all() { static const std::vector<std::pair<MarkType,const char*>> v{ {MarkType::unspecified,"unspecified"}, {MarkType::accent,"accent"}, {MarkType::strongAccent,"strongAccent"}, {MarkType::staccato,"staccato"}, {MarkType::tenuto,"tenuto"}, {MarkType::detachedLegato,"detachedLegato"}, {MarkType::staccatissimo,"staccatissimo"}, {MarkType::spiccato,"spiccato"}, {MarkType::scoop,"scoop"}, {MarkType::plop,"plop"}, {MarkType::doit,"doit"}, {MarkType::falloff,"falloff"}, {MarkType::breathMark,"breathMark"}, {MarkType::caesura,"caesura"}, {MarkType::stress,"stress"}, {MarkType::unstress,"unstress"}, {MarkType::otherArticulation,"otherArticulation"}, {MarkType::p,"p"}, {MarkType::pp,"pp"}, {MarkType::ppp,"ppp"}, {MarkType::pppp,"pppp"}, {MarkType::ppppp,"ppppp"}, {MarkType::pppppp,"pppppp"}, {MarkType::f,"f"}, {MarkType::ff,"ff"}, {MarkType::fff,"fff"}, {MarkType::ffff,"ffff"}, {MarkType::fffff,"fffff"}, {MarkType::ffffff,"ffffff"}, {MarkType::mp,"mp"}, {MarkType::mf,"mf"}, {MarkType::sf,"sf"}, {MarkType::sfp,"sfp"}, {MarkType::sfpp,"sfpp"}, {MarkType::fp,"fp"}, {MarkType::rf,"rf"}, {MarkType::rfz,"rfz"}, {MarkType::sfz,"sfz"}, {MarkType::sffz,"sffz"}, {MarkType::fz,"fz"}, {MarkType::otherDynamics,"otherDynamics"}, {MarkType::unknownDynamics,"unknownDynamics"}, {MarkType::trillMark,"trillMark"}, {MarkType::turn,"turn"}, {MarkType::delayedTurn,"delayedTurn"}, {MarkType::invertedTurn,"invertedTurn"}, {MarkType::delayedInvertedTurn,"delayedInvertedTurn"}, {MarkType::verticalTurn,"verticalTurn"}, {MarkType::shake,"shake"}, {MarkType::wavyLine,"wavyLine"}, {MarkType::mordent,"mordent"}, {MarkType::invertedMordent,"invertedMordent"}, {MarkType::schleifer,"schleifer"}, {MarkType::tremoloSingleOne,"tremoloSingleOne"}, {MarkType::tremoloSingleTwo,"tremoloSingleTwo"}, {MarkType::tremoloSingleThree,"tremoloSingleThree"}, {MarkType::tremoloSingleFour,"tremoloSingleFour"}, {MarkType::tremoloSingleFive,"tremoloSingleFive"}, {MarkType::otherOrnament,"otherOrnament"}, {MarkType::unknownOrnament,"unknownOrnament"}, {MarkType::accidentalMarkSharp,"accidentalMarkSharp"}, {MarkType::accidentalMarkNatural,"accidentalMarkNatural"}, {MarkType::accidentalMarkFlat,"accidentalMarkFlat"}, {MarkType::accidentalMarkDoubleSharp,"accidentalMarkDoubleSharp"}, {MarkType::accidentalMarkSharpSharp,"accidentalMarkSharpSharp"}, {MarkType::accidentalMarkFlatFlat,"accidentalMarkFlatFlat"}, {MarkType::accidentalMarkNaturalSharp,"accidentalMarkNaturalSharp"}, {MarkType::accidentalMarkNaturalFlat,"accidentalMarkNaturalFlat"}, {MarkType::accidentalMarkQuarterFlat,"accidentalMarkQuarterFlat"}, {MarkType::accidentalMarkQuarterSharp,"accidentalMarkQuarterSharp"}, {MarkType::accidentalMarkThreeQuartersFlat,"accidentalMarkThreeQuartersFlat"}, {MarkType::accidentalMarkThreeQuartersSharp,"accidentalMarkThreeQuartersSharp"}, {MarkType::accidentalMarkSharpDown,"accidentalMarkSharpDown"}, {MarkType::accidentalMarkSharpUp,"accidentalMarkSharpUp"}, {MarkType::accidentalMarkNaturalDown,"accidentalMarkNaturalDown"}, {MarkType::accidentalMarkNaturalUp,"accidentalMarkNaturalUp"}, {MarkType::accidentalMarkFlatDown,"accidentalMarkFlatDown"}, {MarkType::accidentalMarkFlatUp,"accidentalMarkFlatUp"}, {MarkType::accidentalMarkTripleSharp,"accidentalMarkTripleSharp"}, {MarkType::accidentalMarkTripleFlat,"accidentalMarkTripleFlat"}, {MarkType::accidentalMarkSlashQuarterSharp,"accidentalMarkSlashQuarterSharp"}, {MarkType::accidentalMarkSlashSharp,"accidentalMarkSlashSharp"}, {MarkType::accidentalMarkSlashFlat,"accidentalMarkSlashFlat"}, {MarkType::accidentalMarkDoubleSlashFlat,"accidentalMarkDoubleSlashFlat"}, {MarkType::accidentalMarkSharp1,"accidentalMarkSharp1"}, {MarkType::accidentalMarkSharp2,"accidentalMarkSharp2"}, {MarkType::accidentalMarkSharp3,"accidentalMarkSharp3"}, {MarkType::accidentalMarkSharp5,"accidentalMarkSharp5"}, {MarkType::accidentalMarkFlat1,"accidentalMarkFlat1"}, {MarkType::accidentalMarkFlat2,"accidentalMarkFlat2"}, {MarkType::accidentalMarkFlat3,"accidentalMarkFlat3"}, {MarkType::accidentalMarkFlat4,"accidentalMarkFlat4"}, {MarkType::accidentalMarkSori,"accidentalMarkSori"}, {MarkType::accidentalMarkKoron,"accidentalMarkKoron"}, {MarkType::accidentalUnknown,"accidentalUnknown"}, {MarkType::upBow,"upBow"}, {MarkType::downBow,"downBow"}, {MarkType::harmonic,"harmonic"}, {MarkType::openString,"openString"}, {MarkType::thumbPosition,"thumbPosition"}, {MarkType::doubleTongue,"doubleTongue"}, {MarkType::tripleTongue,"tripleTongue"}, {MarkType::stopped,"stopped"}, {MarkType::snapPizzicato,"snapPizzicato"}, {MarkType::heel,"heel"}, {MarkType::toe,"toe"}, {MarkType::fingernails,"fingernails"}, {MarkType::otherTechnical,"otherTechnical"}, {MarkType::unknownTechnical,"unknownTechnical"}, {MarkType::fermata,"fermata"}, {MarkType::fermataNormal,"fermataNormal"}, {MarkType::fermataAngled,"fermataAngled"}, {MarkType::fermataSquare,"fermataSquare"}, {MarkType::fermataUpright,"fermataUpright"}, {MarkType::fermataNormalUpright,"fermataNormalUpright"}, {MarkType::fermataAngledUpright,"fermataAngledUpright"}, {MarkType::fermataSquareUpright,"fermataSquareUpright"}, {MarkType::fermataInverted,"fermataInverted"}, {MarkType::fermataNormalInverted,"fermataNormalInverted"}, {MarkType::fermataAngledInverted,"fermataAngledInverted"}, {MarkType::fermataSquareInverted,"fermataSquareInverted"}, {MarkType::unknownFermata,"unknownFermata"}, {MarkType::pedal,"pedal"}, {MarkType::damp,"damp"}, {MarkType::arpeggiate,"arpeggiate"}, {MarkType::arpeggiateDown,"arpeggiateDown"}, {MarkType::arpeggiateUp,"arpeggiateUp"}, {MarkType::nonArpeggiate,"nonArpeggiate"}, {MarkType::customErrorUnknown,"customErrorUnknown"}, {MarkType::customAccentTenuto,"customAccentTenuto"} }; return v; } };
template<> struct EnumInfo<NoteType> { static const std::vector<std::pair<NoteType,const char*>>& all() { static const std::vector<std::pair<NoteType,const char*>> v{ {NoteType::normal,"normal"}, {NoteType::grace,"grace"}, {NoteType::cue,"cue"} }; return v; } };
template<> struct EnumInfo<Notehead> { static const std::vector<std::pair<Notehead,const char*>>& all() { static const std::vector<std::pair<Notehead,const char*>> v{ {Notehead::slash,"slash"}, {Notehead::triangle,"triangle"}, {Notehead::diamond,"diamond"}, {Notehead::square,"square"}, {Notehead::cross,"cross"}, {Notehead::x,"x"}, {Notehead::circleX,"circleX"}, {Notehead::invertedTriangle,"invertedTriangle"}, {Notehead::arrowDown,"arrowDown"}, {Notehead::arrowUp,"arrowUp"}, {Notehead::slashed,"slashed"}, {Notehead::backSlashed,"backSlashed"}, {Notehead::normal,"normal"}, {Notehead::cluster,"cluster"}, {Notehead::circleDot,"circleDot"}, {Notehead::leftTriangle,"leftTriangle"}, {Notehead::rectangle,"rectangle"}, {Notehead::none,"none"}, {Notehead::do_,"do_"}, {Notehead::re,"re"}, {Notehead::mi,"mi"}, {Notehead::fa,"fa"}, {Notehead::faUp,"faUp"}, {Notehead::so,"so"}, {Notehead::la,"la"}, {Notehead::ti,"ti"} }; return v; } };
template<> struct EnumInfo<Beam> { static const std::vector<std::pair<Beam,const char*>>& all() { static const std::vector<std::pair<Beam,const char*>> v{ {Beam::unspecified,"unspecified"}, {Beam::begin,"begin"}, {Beam::end,"end"}, {Beam::extend,"extend"}, {Beam::forwardBroken,"forwardBroken"}, {Beam::backwardBroken,"backwardBroken"} }; return v; } };
template<> struct EnumInfo<Stem> { static const std::vector<std::pair<Stem,const char*>>& all() { static const std::vector<std::pair<Stem,const char*>> v{ {Stem::unspecified,"unspecified"}, {Stem::up,"up"}, {Stem::down,"down"}, {Stem::none,"none"}, {Stem::both,"both"} }; return v; } };
template<> struct EnumInfo<OttavaType> { static const std::vector<std::pair<OttavaType,const char*>>& all() { static const std::vector<std::pair<OttavaType,const char*>> v{ {OttavaType::unspecified,"unspecified"}, {OttavaType::o8va,"o8va"}, {OttavaType::o8vb,"o8vb"}, {OttavaType::o15ma,"o15ma"}, {OttavaType::o15mb,"o15mb"} }; return v; } };
template<> struct EnumInfo<SoloOrEnsemble> { static const std::vector<std::pair<SoloOrEnsemble,const char*>>& all() { static const std::vector<std::pair<SoloOrEnsemble,const char*>> v{ {SoloOrEnsemble::unspecified,"unspecified"}, {SoloOrEnsemble::solo,"solo"}, {SoloOrEnsemble::ensemble,"ensemble"} }; return v; } };
template<> struct EnumInfo<BracketType> { static const std::vector<std::pair<BracketType,const char*>>& all() { static const std::vector<std::pair<BracketType,const char*>> v{ {BracketType::unspecified,"unspecified"}, {BracketType::none,"none"}, {BracketType::brace,"brace"}, {BracketType::line,"line"}, {BracketType::bracket,"bracket"}, {BracketType::square,"square"} }; return v; } };
template<> struct EnumInfo<Step> { static const std::vector<std::pair<Step,const char*>>& all() { static const std::vector<std::pair<Step,const char*>> v{ {Step::c,"c"}, {Step::d,"d"}, {Step::e,"e"}, {Step::f,"f"}, {Step::g,"g"}, {Step::a,"a"}, {Step::b,"b"}, {Step::unspecified,"unspecified"} }; return v; } };
template<> struct EnumInfo<Accidental> { static const std::vector<std::pair<Accidental,const char*>>& all() { static const std::vector<std::pair<Accidental,const char*>> v{ {Accidental::none,"none"}, {Accidental::sharp,"sharp"}, {Accidental::natural,"natural"}, {Accidental::flat,"flat"}, {Accidental::doubleSharp,"doubleSharp"}, {Accidental::sharpSharp,"sharpSharp"}, {Accidental::flatFlat,"flatFlat"}, {Accidental::naturalSharp,"naturalSharp"}, {Accidental::naturalFlat,"naturalFlat"}, {Accidental::quarterFlat,"quarterFlat"}, {Accidental::quarterSharp,"quarterSharp"}, {Accidental::threeQuartersFlat,"threeQuartersFlat"}, {Accidental::threeQuartersSharp,"threeQuartersSharp"}, {Accidental::sharpDown,"sharpDown"}, {Accidental::sharpUp,"sharpUp"}, {Accidental::naturalDown,"naturalDown"}, {Accidental::naturalUp,"naturalUp"}, {Accidental::flatDown,"flatDown"}, {Accidental::flatUp,"flatUp"}, {Accidental::tripleSharp,"tripleSharp"}, {Accidental::tripleFlat,"tripleFlat"}, {Accidental::slashQuarterSharp,"slashQuarterSharp"}, {Accidental::slashSharp,"slashSharp"}, {Accidental::slashFlat,"slashFlat"}, {Accidental::doubleSlashFlat,"doubleSlashFlat"}, {Accidental::sharp1,"sharp1"}, {Accidental::sharp2,"sharp2"}, {Accidental::sharp3,"sharp3"}, {Accidental::sharp5,"sharp5"}, {Accidental::flat1,"flat1"}, {Accidental::flat2,"flat2"}, {Accidental::flat3,"flat3"}, {Accidental::flat4,"flat4"}, {Accidental::sori,"sori"}, {Accidental::koron,"koron"} }; return v; } };
template<> struct EnumInfo<VerticalAlignment> { static const std::vector<std::pair<VerticalAlignment,const char*>>& all() { static const std::vector<std::pair<VerticalAlignment,const char*>> v{ {VerticalAlignment::unspecified,"unspecified"}, {VerticalAlignment::top,"top"}, {VerticalAlignment::middle,"middle"}, {VerticalAlignment::bottom,"bottom"}, {VerticalAlignment::baseline,"baseline"} }; return v; } };
template<> struct EnumInfo<HorizontalAlignment> { static const std::vector<std::pair<HorizontalAlignment,const char*>>& all() { static const std::vector<std::pair<HorizontalAlignment,const char*>> v{ {HorizontalAlignment::unspecified,"unspecified"}, {HorizontalAlignment::left,"left"}, {HorizontalAlignment::center,"center"}, {HorizontalAlignment::right,"right"} }; return v; } };
template<> struct EnumInfo<MusicXmlVersion> { static const std::vector<std::pair<MusicXmlVersion,const char*>>& all() { static const std::vector<std::pair<MusicXmlVersion,const char*>> v{ {MusicXmlVersion::unspecified,"unspecified"}, {MusicXmlVersion::ThreePointZero,"ThreePointZero"} }; return v; } };
template<> struct EnumInfo<SoundID> { static const std::vector<std::pair<SoundID,const char*>>& all() { static const std::vector<std::pair<SoundID,const char*>> v{ {SoundID::unspecified,"unspecified"}, {SoundID::errorBadString,"errorBadString"}, {SoundID::brassAlphorn,"brassAlphorn"}, {SoundID::brassAltoHorn,"brassAltoHorn"}, {SoundID::brassBaritoneHorn,"brassBaritoneHorn"}, {SoundID::brassBugle,"brassBugle"}, {SoundID::brassBugleAlto,"brassBugleAlto"}, {SoundID::brassBugleBaritone,"brassBugleBaritone"}, {SoundID::brassBugleContrabass,"brassBugleContrabass"}, {SoundID::brassBugleEuphoniumBugle,"brassBugleEuphoniumBugle"}, {SoundID::brassBugleMellophoneBugle,"brassBugleMellophoneBugle"}, {SoundID::brassBugleSoprano,"brassBugleSoprano"}, {SoundID::brassCimbasso,"brassCimbasso"}, {SoundID::brassConchShell,"brassConchShell"}, {SoundID::brassCornet,"brassCornet"}, {SoundID::brassCornetSoprano,"brassCornetSoprano"}, {SoundID::brassCornett,"brassCornett"}, {SoundID::brassCornettTenor,"brassCornettTenor"}, {SoundID::brassCornettino,"brassCornettino"}, {SoundID::brassDidgeridoo,"brassDidgeridoo"}, {SoundID::brassEuphonium,"brassEuphonium"}, {SoundID::brassFiscorn,"brassFiscorn"}, {SoundID::brassFlugelhorn,"brassFlugelhorn"}, {SoundID::brassFrenchHorn,"brassFrenchHorn"}, {SoundID::brassGroup,"brassGroup"}, {SoundID::brassGroupSynth,"brassGroupSynth"}, {SoundID::brassHelicon,"brassHelicon"}, {SoundID::brassHoragai,"brassHoragai"}, {SoundID::brassKuhlohorn,"brassKuhlohorn"}, {SoundID::brassMellophone,"brassMellophone"}, {SoundID::brassNaturalHorn,"brassNaturalHorn"}, {SoundID::brassOphicleide,"brassOphicleide"}, {SoundID::brassPosthorn,"brassPosthorn"}, {SoundID::brassRagDung,"brassRagDung"}, {SoundID::brassSackbutt,"brassSackbutt"}, {SoundID::brassSackbuttAlto,"brassSackbuttAlto"}, {SoundID::brassSackbuttBass,"brassSackbuttBass"}, {SoundID::brassSackbuttTenor,"brassSackbuttTenor"}, {SoundID::brassSaxhorn,"brassSaxhorn"}, {SoundID::brassSerpent,"brassSerpent"}, {SoundID::brassShofar,"brassShofar"}, {SoundID::brassSousaphone,"brassSousaphone"}, {SoundID::brassTrombone,"brassTrombone"}, {SoundID::brassTromboneAlto,"brassTromboneAlto"}, {SoundID::brassTromboneBass,"brassTromboneBass"}, {SoundID::brassTromboneContrabass,"brassTromboneContrabass"}, {SoundID::brassTromboneTenor,"brassTromboneTenor"}, {SoundID::brassTrumpet,"brassTrumpet"}, {SoundID::brassTrumpetBaroque,"brassTrumpetBaroque"}, {SoundID::brassTrumpetBass,"brassTrumpetBass"}, {SoundID::brassTrumpetBflat,"brassTrumpetBflat"}, {SoundID::brassTrumpetC,"brassTrumpetC"}, {SoundID::brassTrumpetD,"brassTrumpetD"}, {SoundID::brassTrumpetPiccolo,"brassTrumpetPiccolo"}, {SoundID::brassTrumpetPocket,"brassTrumpetPocket"}, {SoundID::brassTrumpetSlide,"brassTrumpetSlide"}, {SoundID::brassTrumpetTenor,"brassTrumpetTenor"}, {SoundID::brassTuba,"brassTuba"}, {SoundID::brassTubaBass,"brassTubaBass"}, {SoundID::brassTubaSubcontrabass,"brassTubaSubcontrabass"}, {SoundID::brassViennaHorn,"brassViennaHorn"}, {SoundID::brassVuvuzela,"brassVuvuzela"}, {SoundID::brassWagnerTuba,"brassWagnerTuba"}, {SoundID::drumApentemma,"drumApentemma"}, {SoundID::drumAshiko,"drumAshiko"}, {SoundID::drumAtabaque,"drumAtabaque"}, {SoundID::drumAtoke,"drumAtoke"}, {SoundID::drumAtsimevu,"drumAtsimevu"}, {SoundID::drumAxatse,"drumAxatse"}, {SoundID::drumBassDrum,"drumBassDrum"}, {SoundID::drumBata,"drumBata"}, {SoundID::drumBataItotele,"drumBataItotele"}, {SoundID::drumBataIya,"drumBataIya"}, {SoundID::drumBataOkonkolo,"drumBataOkonkolo"}, {SoundID::drumBendir,"drumBendir"}, {SoundID::drumBodhran,"drumBodhran"}, {SoundID::drumBombo,"drumBombo"}, {SoundID::drumBongo,"drumBongo"}, {SoundID::drumBougarabou,"drumBougarabou"}, {SoundID::drumBuffaloDrum,"drumBuffaloDrum"}, {SoundID::drumCajon,"drumCajon"}, {SoundID::drumChenda,"drumChenda"}, {SoundID::drumChuDaiko,"drumChuDaiko"}, {SoundID::drumConga,"drumConga"}, {SoundID::drumCuica,"drumCuica"}, {SoundID::drumDabakan,"drumDabakan"}, {SoundID::drumDaff,"drumDaff"}, {SoundID::drumDafli,"drumDafli"}, {SoundID::drumDaibyosi,"drumDaibyosi"}, {SoundID::drumDamroo,"drumDamroo"}, {SoundID::drumDarabuka,"drumDarabuka"}, {SoundID::drumDef,"drumDef"}, {SoundID::drumDhol,"drumDhol"}, {SoundID::drumDholak,"drumDholak"}, {SoundID::drumDjembe,"drumDjembe"}, {SoundID::drumDoira,"drumDoira"}, {SoundID::drumDondo,"drumDondo"}, {SoundID::drumDounDounBa,"drumDounDounBa"}, {SoundID::drumDuff,"drumDuff"}, {SoundID::drumDumbek,"drumDumbek"}, {SoundID::drumFontomfrom,"drumFontomfrom"}, {SoundID::drumFrameDrum,"drumFrameDrum"}, {SoundID::drumFrameDrumArabian,"drumFrameDrumArabian"}, {SoundID::drumGeduk,"drumGeduk"}, {SoundID::drumGhatam,"drumGhatam"}, {SoundID::drumGome,"drumGome"}, {SoundID::drumGroup,"drumGroup"}, {SoundID::drumGroupChinese,"drumGroupChinese"}, {SoundID::drumGroupEwe,"drumGroupEwe"}, {SoundID::drumGroupIndian,"drumGroupIndian"}, {SoundID::drumGroupSet,"drumGroupSet"}, {SoundID::drumHandDrum,"drumHandDrum"}, {SoundID::drumHiraDaiko,"drumHiraDaiko"}, {SoundID::drumIbo,"drumIbo"}, {SoundID::drumIgihumurizo,"drumIgihumurizo"}, {SoundID::drumInyahura,"drumInyahura"}, {SoundID::drumIshakwe,"drumIshakwe"}, {SoundID::drumJangGu,"drumJangGu"}, {SoundID::drumKagan,"drumKagan"}, {SoundID::drumKakko,"drumKakko"}, {SoundID::drumKanjira,"drumKanjira"}, {SoundID::drumKendhang,"drumKendhang"}, {SoundID::drumKendhangAgeng,"drumKendhangAgeng"}, {SoundID::drumKendhangCiblon,"drumKendhangCiblon"}, {SoundID::drumKenkeni,"drumKenkeni"}, {SoundID::drumKhol,"drumKhol"}, {SoundID::drumKickDrum,"drumKickDrum"}, {SoundID::drumKidi,"drumKidi"}, {SoundID::drumKoDaiko,"drumKoDaiko"}, {SoundID::drumKpanlogo,"drumKpanlogo"}, {SoundID::drumKudum,"drumKudum"}, {SoundID::drumLambeg,"drumLambeg"}, {SoundID::drumLionDrum,"drumLionDrum"}, {SoundID::drumLogDrum,"drumLogDrum"}, {SoundID::drumLogDrumAfrican,"drumLogDrumAfrican"}, {SoundID::drumLogDrumNative,"drumLogDrumNative"}, {SoundID::drumLogDrumNigerian,"drumLogDrumNigerian"}, {SoundID::drumMadal,"drumMadal"}, {SoundID::drumMaddale,"drumMaddale"}, {SoundID::drumMridangam,"drumMridangam"}, {SoundID::drumNaal,"drumNaal"}, {SoundID::drumNagadoDaiko,"drumNagadoDaiko"}, {SoundID::drumNagara,"drumNagara"}, {SoundID::drumNaqara,"drumNaqara"}, {SoundID::drumODaiko,"drumODaiko"}, {SoundID::drumOkawa,"drumOkawa"}, {SoundID::drumOkedoDaiko,"drumOkedoDaiko"}, {SoundID::drumPahuHula,"drumPahuHula"}, {SoundID::drumPakhawaj,"drumPakhawaj"}, {SoundID::drumPandeiro,"drumPandeiro"}, {SoundID::drumPandero,"drumPandero"}, {SoundID::drumPowwow,"drumPowwow"}, {SoundID::drumPueblo,"drumPueblo"}, {SoundID::drumRepinique,"drumRepinique"}, {SoundID::drumRiq,"drumRiq"}, {SoundID::drumRototom,"drumRototom"}, {SoundID::drumSabar,"drumSabar"}, {SoundID::drumSakara,"drumSakara"}, {SoundID::drumSampho,"drumSampho"}, {SoundID::drumSangban,"drumSangban"}, {SoundID::drumShimeDaiko,"drumShimeDaiko"}, {SoundID::drumSlitDrum,"drumSlitDrum"}, {SoundID::drumSlitDrumKrin,"drumSlitDrumKrin"}, {SoundID::drumSnareDrum,"drumSnareDrum"}, {SoundID::drumSnareDrumElectric,"drumSnareDrumElectric"}, {SoundID::drumSogo,"drumSogo"}, {SoundID::drumSurdo,"drumSurdo"}, {SoundID::drumTabla,"drumTabla"}, {SoundID::drumTablaBayan,"drumTablaBayan"}, {SoundID::drumTablaDayan,"drumTablaDayan"}, {SoundID::drumTaiko,"drumTaiko"}, {SoundID::drumTalking,"drumTalking"}, {SoundID::drumTama,"drumTama"}, {SoundID::drumTamborita,"drumTamborita"}, {SoundID::drumTambourine,"drumTambourine"}, {SoundID::drumTamte,"drumTamte"}, {SoundID::drumTangku,"drumTangku"}, {SoundID::drumTanTan,"drumTanTan"}, {SoundID::drumTaphon,"drumTaphon"}, {SoundID::drumTar,"drumTar"}, {SoundID::drumTasha,"drumTasha"}, {SoundID::drumTenorDrum,"drumTenorDrum"}, {SoundID::drumTeponaxtli,"drumTeponaxtli"}, {SoundID::drumThavil,"drumThavil"}, {SoundID::drumTheBox,"drumTheBox"}, {SoundID::drumTimbale,"drumTimbale"}, {SoundID::drumTimpani,"drumTimpani"}, {SoundID::drumTinaja,"drumTinaja"}, {SoundID::drumToere,"drumToere"}, {SoundID::drumTombak,"drumTombak"}, {SoundID::drumTomTom,"drumTomTom"}, {SoundID::drumTomTomSynth,"drumTomTomSynth"}, {SoundID::drumTsuzumi,"drumTsuzumi"}, {SoundID::drumTumbak,"drumTumbak"}, {SoundID::drumUchiwaDaiko,"drumUchiwaDaiko"}, {SoundID::drumUdaku,"drumUdaku"}, {SoundID::drumUdu,"drumUdu"}, {SoundID::drumZarb,"drumZarb"}, {SoundID::effectAeolianHarp,"effectAeolianHarp"}, {SoundID::effectAirHorn,"effectAirHorn"}, {SoundID::effectApplause,"effectApplause"}, {SoundID::effectBassStringSlap,"effectBassStringSlap"}, {SoundID::effectBird,"effectBird"}, {SoundID::effectBirdNightingale,"effectBirdNightingale"}, {SoundID::effectBirdTweet,"effectBirdTweet"}, {SoundID::effectBreath,"effectBreath"}, {SoundID::effectBubble,"effectBubble"}, {SoundID::effectBullroarer,"effectBullroarer"}, {SoundID::effectBurst,"effectBurst"}, {SoundID::effectCar,"effectCar"}, {SoundID::effectCarCrash,"effectCarCrash"}, {SoundID::effectCarEngine,"effectCarEngine"}, {SoundID::effectCarPass,"effectCarPass"}, {SoundID::effectCarStop,"effectCarStop"}, {SoundID::effectCrickets,"effectCrickets"}, {SoundID::effectDog,"effectDog"}, {SoundID::effectDoorCreak,"effectDoorCreak"}, {SoundID::effectDoorSlam,"effectDoorSlam"}, {SoundID::effectExplosion,"effectExplosion"}, {SoundID::effectFluteKeyClick,"effectFluteKeyClick"}, {SoundID::effectFootsteps,"effectFootsteps"}, {SoundID::effectFrogs,"effectFrogs"}, {SoundID::effectGuitarCutting,"effectGuitarCutting"}, {SoundID::effectGuitarFret,"effectGuitarFret"}, {SoundID::effectGunshot,"effectGunshot"}, {SoundID::effectHandClap,"effectHandClap"}, {SoundID::effectHeartbeat,"effectHeartbeat"}, {SoundID::effectHelicopter,"effectHelicopter"}, {SoundID::effectHighQ,"effectHighQ"}, {SoundID::effectHorseGallop,"effectHorseGallop"}, {SoundID::effectJetPlane,"effectJetPlane"}, {SoundID::effectLaserGun,"effectLaserGun"}, {SoundID::effectLaugh,"effectLaugh"}, {SoundID::effectLionsRoar,"effectLionsRoar"}, {SoundID::effectMachineGun,"effectMachineGun"}, {SoundID::effectMarchingMachine,"effectMarchingMachine"}, {SoundID::effectMetronomeBell,"effectMetronomeBell"}, {SoundID::effectMetronomeClick,"effectMetronomeClick"}, {SoundID::effectPat,"effectPat"}, {SoundID::effectPunch,"effectPunch"}, {SoundID::effectRain,"effectRain"}, {SoundID::effectScratch,"effectScratch"}, {SoundID::effectScream,"effectScream"}, {SoundID::effectSeashore,"effectSeashore"}, {SoundID::effectSiren,"effectSiren"}, {SoundID::effectSlap,"effectSlap"}, {SoundID::effectSnap,"effectSnap"}, {SoundID::effectStamp,"effectStamp"}, {SoundID::effectStarship,"effectStarship"}, {SoundID::effectStream,"effectStream"}, {SoundID::effectTelephoneRing,"effectTelephoneRing"}, {SoundID::effectThunder,"effectThunder"}, {SoundID::effectTrain,"effectTrain"}, {SoundID::effectTrashCan,"effectTrashCan"}, {SoundID::effectWhip,"effectWhip"}, {SoundID::effectWhistle,"effectWhistle"}, {SoundID::effectWhistleMouthSiren,"effectWhistleMouthSiren"}, {SoundID::effectWhistlePolice,"effectWhistlePolice"}, {SoundID::effectWhistleSlide,"effectWhistleSlide"}, {SoundID::effectWhistleTrain,"effectWhistleTrain"}, {SoundID::effectWind,"effectWind"}, {SoundID::keyboardAccordion,"keyboardAccordion"}, {SoundID::keyboardBandoneon,"keyboardBandoneon"}, {SoundID::keyboardCelesta,"keyboardCelesta"}, {SoundID::keyboardClavichord,"keyboardClavichord"}, {SoundID::keyboardClavichordSynth,"keyboardClavichordSynth"}, {SoundID::keyboardConcertina,"keyboardConcertina"}, {SoundID::keyboardFortepiano,"keyboardFortepiano"}, {SoundID::keyboardHarmonium,"keyboardHarmonium"}, {SoundID::keyboardHarpsichord,"keyboardHarpsichord"}, {SoundID::keyboardOndesMartenot,"keyboardOndesMartenot"}, {SoundID::keyboardOrgan,"keyboardOrgan"}, {SoundID::keyboardOrganDrawbar,"keyboardOrganDrawbar"}, {SoundID::keyboardOrganPercussive,"keyboardOrganPercussive"}, {SoundID::keyboardOrganPipe,"keyboardOrganPipe"}, {SoundID::keyboardOrganReed,"keyboardOrganReed"}, {SoundID::keyboardOrganRotary,"keyboardOrganRotary"}, {SoundID::keyboardPiano,"keyboardPiano"}, {SoundID::keyboardPianoElectric,"keyboardPianoElectric"}, {SoundID::keyboardPianoGrand,"keyboardPianoGrand"}, {SoundID::keyboardPianoHonkyTonk,"keyboardPianoHonkyTonk"}, {SoundID::keyboardPianoPrepared,"keyboardPianoPrepared"}, {SoundID::keyboardPianoToy,"keyboardPianoToy"}, {SoundID::keyboardPianoUpright,"keyboardPianoUpright"}, {SoundID::keyboardVirginal,"keyboardVirginal"}, {SoundID::metalAdodo,"metalAdodo"}, {SoundID::metalAnvil,"metalAnvil"}, {SoundID::metalBabendil,"metalBabendil"}, {SoundID::metalBellsAgogo,"metalBellsAgogo"}, {SoundID::metalBellsAlmglocken,"metalBellsAlmglocken"}, {SoundID::metalBellsBellPlate,"metalBellsBellPlate"}, {SoundID::metalBellsBellTree,"metalBellsBellTree"}, {SoundID::metalBellsCarillon,"metalBellsCarillon"}, {SoundID::metalBellsChimes,"metalBellsChimes"}, {SoundID::metalBellsChimta,"metalBellsChimta"}, {SoundID::metalBellsChippli,"metalBellsChippli"}, {SoundID::metalBellsChurch,"metalBellsChurch"}, {SoundID::metalBellsCowbell,"metalBellsCowbell"}, {SoundID::metalBellsDawuro,"metalBellsDawuro"}, {SoundID::metalBellsGankokwe,"metalBellsGankokwe"}, {SoundID::metalBellsGhungroo,"metalBellsGhungroo"}, {SoundID::metalBellsHatheli,"metalBellsHatheli"}, {SoundID::metalBellsJingleBell,"metalBellsJingleBell"}, {SoundID::metalBellsKhartal,"metalBellsKhartal"}, {SoundID::metalBellsMarkTree,"metalBellsMarkTree"}, {SoundID::metalBellsSistrum,"metalBellsSistrum"}, {SoundID::metalBellsSleighBells,"metalBellsSleighBells"}, {SoundID::metalBellsTemple,"metalBellsTemple"}, {SoundID::metalBellsTibetan,"metalBellsTibetan"}, {SoundID::metalBellsTinklebell,"metalBellsTinklebell"}, {SoundID::metalBellsTrychel,"metalBellsTrychel"}, {SoundID::metalBellsWindChimes,"metalBellsWindChimes"}, {SoundID::metalBellsZills,"metalBellsZills"}, {SoundID::metalBerimbau,"metalBerimbau"}, {SoundID::metalBrakeDrums,"metalBrakeDrums"}, {SoundID::metalCrotales,"metalCrotales"}, {SoundID::metalCymbalBo,"metalCymbalBo"}, {SoundID::metalCymbalCengCeng,"metalCymbalCengCeng"}, {SoundID::metalCymbalChabara,"metalCymbalChabara"}, {SoundID::metalCymbalChinese,"metalCymbalChinese"}, {SoundID::metalCymbalChing,"metalCymbalChing"}, {SoundID::metalCymbalClash,"metalCymbalClash"}, {SoundID::metalCymbalCrash,"metalCymbalCrash"}, {SoundID::metalCymbalFinger,"metalCymbalFinger"}, {SoundID::metalCymbalHand,"metalCymbalHand"}, {SoundID::metalCymbalKesi,"metalCymbalKesi"}, {SoundID::metalCymbalManjeera,"metalCymbalManjeera"}, {SoundID::metalCymbalReverse,"metalCymbalReverse"}, {SoundID::metalCymbalRide,"metalCymbalRide"}, {SoundID::metalCymbalSizzle,"metalCymbalSizzle"}, {SoundID::metalCymbalSplash,"metalCymbalSplash"}, {SoundID::metalCymbalSuspended,"metalCymbalSuspended"}, {SoundID::metalCymbalTebyoshi,"metalCymbalTebyoshi"}, {SoundID::metalCymbalTibetan,"metalCymbalTibetan"}, {SoundID::metalCymbalTingsha,"metalCymbalTingsha"}, {SoundID::metalFlexatone,"metalFlexatone"}, {SoundID::metalGong,"metalGong"}, {SoundID::metalGongAgeng,"metalGongAgeng"}, {SoundID::metalGongAgung,"metalGongAgung"}, {SoundID::metalGongChanchiki,"metalGongChanchiki"}, {SoundID::metalGongChinese,"metalGongChinese"}, {SoundID::metalGongGandingan,"metalGongGandingan"}, {SoundID::metalGongKempul,"metalGongKempul"}, {SoundID::metalGongKempyang,"metalGongKempyang"}, {SoundID::metalGongKetuk,"metalGongKetuk"}, {SoundID::metalGongKkwenggwari,"metalGongKkwenggwari"}, {SoundID::metalGongLuo,"metalGongLuo"}, {SoundID::metalGongSinging,"metalGongSinging"}, {SoundID::metalGongThai,"metalGongThai"}, {SoundID::metalGuira,"metalGuira"}, {SoundID::metalHang,"metalHang"}, {SoundID::metalHiHat,"metalHiHat"}, {SoundID::metalJawHarp,"metalJawHarp"}, {SoundID::metalKengong,"metalKengong"}, {SoundID::metalMurchang,"metalMurchang"}, {SoundID::metalMusicalSaw,"metalMusicalSaw"}, {SoundID::metalSingingBowl,"metalSingingBowl"}, {SoundID::metalSpoons,"metalSpoons"}, {SoundID::metalSteelDrums,"metalSteelDrums"}, {SoundID::metalTamtam,"metalTamtam"}, {SoundID::metalThundersheet,"metalThundersheet"}, {SoundID::metalTriangle,"metalTriangle"}, {SoundID::metalWashboard,"metalWashboard"}, {SoundID::pitchedPercussionAngklung,"pitchedPercussionAngklung"}, {SoundID::pitchedPercussionBalafon,"pitchedPercussionBalafon"}, {SoundID::pitchedPercussionBellLyre,"pitchedPercussionBellLyre"}, {SoundID::pitchedPercussionBells,"pitchedPercussionBells"}, {SoundID::pitchedPercussionBianqing,"pitchedPercussionBianqing"}, {SoundID::pitchedPercussionBianzhong,"pitchedPercussionBianzhong"}, {SoundID::pitchedPercussionBonang,"pitchedPercussionBonang"}, {SoundID::pitchedPercussionCimbalom,"pitchedPercussionCimbalom"}, {SoundID::pitchedPercussionCrystalGlasses,"pitchedPercussionCrystalGlasses"}, {SoundID::pitchedPercussionDanTamThapLuc,"pitchedPercussionDanTamThapLuc"}, {SoundID::pitchedPercussionFangxiang,"pitchedPercussionFangxiang"}, {SoundID::pitchedPercussionGandinganAKayo,"pitchedPercussionGandinganAKayo"}, {SoundID::pitchedPercussionGangsa,"pitchedPercussionGangsa"}, {SoundID::pitchedPercussionGender,"pitchedPercussionGender"}, {SoundID::pitchedPercussionGiying,"pitchedPercussionGiying"}, {SoundID::pitchedPercussionGlassHarmonica,"pitchedPercussionGlassHarmonica"}, {SoundID::pitchedPercussionGlockenspiel,"pitchedPercussionGlockenspiel"}, {SoundID::pitchedPercussionGlockenspielAlto,"pitchedPercussionGlockenspielAlto"}, {SoundID::pitchedPercussionGlockenspielSoprano,"pitchedPercussionGlockenspielSoprano"}, {SoundID::pitchedPercussionGyil,"pitchedPercussionGyil"}, {SoundID::pitchedPercussionHammerDulcimer,"pitchedPercussionHammerDulcimer"}, {SoundID::pitchedPercussionHandbells,"pitchedPercussionHandbells"}, {SoundID::pitchedPercussionKalimba,"pitchedPercussionKalimba"}, {SoundID::pitchedPercussionKantil,"pitchedPercussionKantil"}, {SoundID::pitchedPercussionKhim,"pitchedPercussionKhim"}, {SoundID::pitchedPercussionKulintang,"pitchedPercussionKulintang"}, {SoundID::pitchedPercussionKulintangAKayo,"pitchedPercussionKulintangAKayo"}, {SoundID::pitchedPercussionKulintangATiniok,"pitchedPercussionKulintangATiniok"}, {SoundID::pitchedPercussionLikembe,"pitchedPercussionLikembe"}, {SoundID::pitchedPercussionLuntang,"pitchedPercussionLuntang"}, {SoundID::pitchedPercussionMarimba,"pitchedPercussionMarimba"}, {SoundID::pitchedPercussionMarimbaBass,"pitchedPercussionMarimbaBass"}, {SoundID::pitchedPercussionMbira,"pitchedPercussionMbira"}, {SoundID::pitchedPercussionMbiraArray,"pitchedPercussionMbiraArray"}, {SoundID::pitchedPercussionMetallophone,"pitchedPercussionMetallophone"}, {SoundID::pitchedPercussionMetallophoneAlto,"pitchedPercussionMetallophoneAlto"}, {SoundID::pitchedPercussionMetallophoneBass,"pitchedPercussionMetallophoneBass"}, {SoundID::pitchedPercussionMetallophoneSoprano,"pitchedPercussionMetallophoneSoprano"}, {SoundID::pitchedPercussionMusicBox,"pitchedPercussionMusicBox"}, {SoundID::pitchedPercussionPelogPanerus,"pitchedPercussionPelogPanerus"}, {SoundID::pitchedPercussionPemade,"pitchedPercussionPemade"}, {SoundID::pitchedPercussionPenyacah,"pitchedPercussionPenyacah"}, {SoundID::pitchedPercussionRanatEk,"pitchedPercussionRanatEk"}, {SoundID::pitchedPercussionRanatEkLek,"pitchedPercussionRanatEkLek"}, {SoundID::pitchedPercussionRanatThum,"pitchedPercussionRanatThum"}, {SoundID::pitchedPercussionRanatThumLek,"pitchedPercussionRanatThumLek"}, {SoundID::pitchedPercussionReyong,"pitchedPercussionReyong"}, {SoundID::pitchedPercussionSanza,"pitchedPercussionSanza"}, {SoundID::pitchedPercussionSaronBarung,"pitchedPercussionSaronBarung"}, {SoundID::pitchedPercussionSaronDemong,"pitchedPercussionSaronDemong"}, {SoundID::pitchedPercussionSaronPanerus,"pitchedPercussionSaronPanerus"}, {SoundID::pitchedPercussionSlendroPanerus,"pitchedPercussionSlendroPanerus"}, {SoundID::pitchedPercussionSlentem,"pitchedPercussionSlentem"}, {SoundID::pitchedPercussionTsymbaly,"pitchedPercussionTsymbaly"}, {SoundID::pitchedPercussionTubes,"pitchedPercussionTubes"}, {SoundID::pitchedPercussionTubularBells,"pitchedPercussionTubularBells"}, {SoundID::pitchedPercussionVibraphone,"pitchedPercussionVibraphone"}, {SoundID::pitchedPercussionXylophone,"pitchedPercussionXylophone"}, {SoundID::pitchedPercussionXylophoneAlto,"pitchedPercussionXylophoneAlto"}, {SoundID::pitchedPercussionXylophoneBass,"pitchedPercussionXylophoneBass"}, {SoundID::pitchedPercussionXylophoneSoprano,"pitchedPercussionXylophoneSoprano"}, {SoundID::pitchedPercussionXylorimba,"pitchedPercussionXylorimba"}, {SoundID::pitchedPercussionYangqin,"pitchedPercussionYangqin"}, {SoundID::pluckArchlute,"pluckArchlute"}, {SoundID::pluckAutoharp,"pluckAutoharp"}, {SoundID::pluckBaglama,"pluckBaglama"}, {SoundID::pluckBajo,"pluckBajo"}, {SoundID::pluckBalalaika,"pluckBalalaika"}, {SoundID::pluckBalalaikaAlto,"pluckBalalaikaAlto"}, {SoundID::pluckBalalaikaBass,"pluckBalalaikaBass"}, {SoundID::pluckBalalaikaContrabass,"pluckBalalaikaContrabass"}, {SoundID::pluckBalalaikaPiccolo,"pluckBalalaikaPiccolo"}, {SoundID::pluckBalalaikaPrima,"pluckBalalaikaPrima"}, {SoundID::pluckBalalaikaSecunda,"pluckBalalaikaSecunda"}, {SoundID::pluckBandola,"pluckBandola"}, {SoundID::pluckBandura,"pluckBandura"}, {SoundID::pluckBandurria,"pluckBandurria"}, {SoundID::pluckBanjo,"pluckBanjo"}, {SoundID::pluckBanjoTenor,"pluckBanjoTenor"}, {SoundID::pluckBanjolele,"pluckBanjolele"}, {SoundID::pluckBarbat,"pluckBarbat"}, {SoundID::pluckBass,"pluckBass"}, {SoundID::pluckBassAcoustic,"pluckBassAcoustic"}, {SoundID::pluckBassBolon,"pluckBassBolon"}, {SoundID::pluckBassElectric,"pluckBassElectric"}, {SoundID::pluckBassFretless,"pluckBassFretless"}, {SoundID::pluckBassGuitarron,"pluckBassGuitarron"}, {SoundID::pluckBassSynth,"pluckBassSynth"}, {SoundID::pluckBassSynthLead,"pluckBassSynthLead"}, {SoundID::pluckBassWashtub,"pluckBassWashtub"}, {SoundID::pluckBassWhamola,"pluckBassWhamola"}, {SoundID::pluckBegena,"pluckBegena"}, {SoundID::pluckBiwa,"pluckBiwa"}, {SoundID::pluckBordonua,"pluckBordonua"}, {SoundID::pluckBouzouki,"pluckBouzouki"}, {SoundID::pluckBouzoukiIrish,"pluckBouzoukiIrish"}, {SoundID::pluckCelticHarp,"pluckCelticHarp"}, {SoundID::pluckCharango,"pluckCharango"}, {SoundID::pluckChitarraBattente,"pluckChitarraBattente"}, {SoundID::pluckCithara,"pluckCithara"}, {SoundID::pluckCittern,"pluckCittern"}, {SoundID::pluckCuatro,"pluckCuatro"}, {SoundID::pluckDanBau,"pluckDanBau"}, {SoundID::pluckDanNguyet,"pluckDanNguyet"}, {SoundID::pluckDanTranh,"pluckDanTranh"}, {SoundID::pluckDanTyBa,"pluckDanTyBa"}, {SoundID::pluckDiddleyBow,"pluckDiddleyBow"}, {SoundID::pluckDomra,"pluckDomra"}, {SoundID::pluckDomu,"pluckDomu"}, {SoundID::pluckDulcimer,"pluckDulcimer"}, {SoundID::pluckDutar,"pluckDutar"}, {SoundID::pluckDuxianqin,"pluckDuxianqin"}, {SoundID::pluckEktara,"pluckEktara"}, {SoundID::pluckGeomungo,"pluckGeomungo"}, {SoundID::pluckGottuvadhyam,"pluckGottuvadhyam"}, {SoundID::pluckGuitar,"pluckGuitar"}, {SoundID::pluckGuitarAcoustic,"pluckGuitarAcoustic"}, {SoundID::pluckGuitarElectric,"pluckGuitarElectric"}, {SoundID::pluckGuitarNylonString,"pluckGuitarNylonString"}, {SoundID::pluckGuitarPedalSteel,"pluckGuitarPedalSteel"}, {SoundID::pluckGuitarPortuguese,"pluckGuitarPortuguese"}, {SoundID::pluckGuitarRequinto,"pluckGuitarRequinto"}, {SoundID::pluckGuitarResonator,"pluckGuitarResonator"}, {SoundID::pluckGuitarSteelString,"pluckGuitarSteelString"}, {SoundID::pluckGuitjo,"pluckGuitjo"}, {SoundID::pluckGuitjoDoubleNeck,"pluckGuitjoDoubleNeck"}, {SoundID::pluckGuqin,"pluckGuqin"}, {SoundID::pluckGuzheng,"pluckGuzheng"}, {SoundID::pluckGuzhengChoazhou,"pluckGuzhengChoazhou"}, {SoundID::pluckHarp,"pluckHarp"}, {SoundID::pluckHarpGuitar,"pluckHarpGuitar"}, {SoundID::pluckHuapanguera,"pluckHuapanguera"}, {SoundID::pluckJaranaHuasteca,"pluckJaranaHuasteca"}, {SoundID::pluckJaranaJarocha,"pluckJaranaJarocha"}, {SoundID::pluckJaranaJarochaMosquito,"pluckJaranaJarochaMosquito"}, {SoundID::pluckJaranaJarochaPrimera,"pluckJaranaJarochaPrimera"}, {SoundID::pluckJaranaJarochaSegunda,"pluckJaranaJarochaSegunda"}, {SoundID::pluckJaranaJarochaTercera,"pluckJaranaJarochaTercera"}, {SoundID::pluckKabosy,"pluckKabosy"}, {SoundID::pluckKantele,"pluckKantele"}, {SoundID::pluckKanun,"pluckKanun"}, {SoundID::pluckKayagum,"pluckKayagum"}, {SoundID::pluckKobza,"pluckKobza"}, {SoundID::pluckKomuz,"pluckKomuz"}, {SoundID::pluckKora,"pluckKora"}, {SoundID::pluckKoto,"pluckKoto"}, {SoundID::pluckKutiyapi,"pluckKutiyapi"}, {SoundID::pluckLangeleik,"pluckLangeleik"}, {SoundID::pluckLaud,"pluckLaud"}, {SoundID::pluckLute,"pluckLute"}, {SoundID::pluckLyre,"pluckLyre"}, {SoundID::pluckMandobass,"pluckMandobass"}, {SoundID::pluckMandocello,"pluckMandocello"}, {SoundID::pluckMandola,"pluckMandola"}, {SoundID::pluckMandolin,"pluckMandolin"}, {SoundID::pluckMandolinOctave,"pluckMandolinOctave"}, {SoundID::pluckMandora,"pluckMandora"}, {SoundID::pluckMandore,"pluckMandore"}, {SoundID::pluckMarovany,"pluckMarovany"}, {SoundID::pluckMusicalBow,"pluckMusicalBow"}, {SoundID::pluckNgoni,"pluckNgoni"}, {SoundID::pluckOud,"pluckOud"}, {SoundID::pluckPipa,"pluckPipa"}, {SoundID::pluckPsaltery,"pluckPsaltery"}, {SoundID::pluckRuan,"pluckRuan"}, {SoundID::pluckSallaneh,"pluckSallaneh"}, {SoundID::pluckSanshin,"pluckSanshin"}, {SoundID::pluckSantoor,"pluckSantoor"}, {SoundID::pluckSanxian,"pluckSanxian"}, {SoundID::pluckSarod,"pluckSarod"}, {SoundID::pluckSaung,"pluckSaung"}, {SoundID::pluckSaz,"pluckSaz"}, {SoundID::pluckSe,"pluckSe"}, {SoundID::pluckSetar,"pluckSetar"}, {SoundID::pluckShamisen,"pluckShamisen"}, {SoundID::pluckSitar,"pluckSitar"}, {SoundID::pluckSynth,"pluckSynth"}, {SoundID::pluckSynthCharang,"pluckSynthCharang"}, {SoundID::pluckSynthChiff,"pluckSynthChiff"}, {SoundID::pluckSynthStick,"pluckSynthStick"}, {SoundID::pluckTambura,"pluckTambura"}, {SoundID::pluckTamburaBulgarian,"pluckTamburaBulgarian"}, {SoundID::pluckTamburaFemale,"pluckTamburaFemale"}, {SoundID::pluckTamburaMale,"pluckTamburaMale"}, {SoundID::pluckTar,"pluckTar"}, {SoundID::pluckTheorbo,"pluckTheorbo"}, {SoundID::pluckTimple,"pluckTimple"}, {SoundID::pluckTiple,"pluckTiple"}, {SoundID::pluckTres,"pluckTres"}, {SoundID::pluckUkulele,"pluckUkulele"}, {SoundID::pluckUkuleleTenor,"pluckUkuleleTenor"}, {SoundID::pluckValiha,"pluckValiha"}, {SoundID::pluckVeena,"pluckVeena"}, {SoundID::pluckVeenaMohan,"pluckVeenaMohan"}, {SoundID::pluckVeenaRudra,"pluckVeenaRudra"}, {SoundID::pluckVeenaVichitra,"pluckVeenaVichitra"}, {SoundID::pluckVihuela,"pluckVihuela"}, {SoundID::pluckVihuelaMexican,"pluckVihuelaMexican"}, {SoundID::pluckXalam,"pluckXalam"}, {SoundID::pluckYueqin,"pluckYueqin"}, {SoundID::pluckZither,"pluckZither"}, {SoundID::pluckZitherOvertone,"pluckZitherOvertone"}, {SoundID::rattleAfoxe,"rattleAfoxe"}, {SoundID::rattleBirds,"rattleBirds"}, {SoundID::rattleCabasa,"rattleCabasa"}, {SoundID::rattleCaxixi,"rattleCaxixi"}, {SoundID::rattleCog,"rattleCog"}, {SoundID::rattleGanza,"rattleGanza"}, {SoundID::rattleHosho,"rattleHosho"}, {SoundID::rattleJawbone,"rattleJawbone"}, {SoundID::rattleKayamba,"rattleKayamba"}, {SoundID::rattleKpokoKpoko,"rattleKpokoKpoko"}, {SoundID::rattleLavaStones,"rattleLavaStones"}, {SoundID::rattleMaraca,"rattleMaraca"}, {SoundID::rattleRainStick,"rattleRainStick"}, {SoundID::rattleRatchet,"rattleRatchet"}, {SoundID::rattleRattle,"rattleRattle"}, {SoundID::rattleShaker,"rattleShaker"}, {SoundID::rattleShakerEgg,"rattleShakerEgg"}, {SoundID::rattleShekere,"rattleShekere"}, {SoundID::rattleSistre,"rattleSistre"}, {SoundID::rattleTelevi,"rattleTelevi"}, {SoundID::rattleVibraslap,"rattleVibraslap"}, {SoundID::rattleWasembe,"rattleWasembe"}, {SoundID::stringsAjaeng,"stringsAjaeng"}, {SoundID::stringsArpeggione,"stringsArpeggione"}, {SoundID::stringsBaryton,"stringsBaryton"}, {SoundID::stringsCello,"stringsCello"}, {SoundID::stringsCelloPiccolo,"stringsCelloPiccolo"}, {SoundID::stringsContrabass,"stringsContrabass"}, {SoundID::stringsCrwth,"stringsCrwth"}, {SoundID::stringsDanGao,"stringsDanGao"}, {SoundID::stringsDihu,"stringsDihu"}, {SoundID::stringsErhu,"stringsErhu"}, {SoundID::stringsErxian,"stringsErxian"}, {SoundID::stringsEsraj,"stringsEsraj"}, {SoundID::stringsFiddle,"stringsFiddle"}, {SoundID::stringsFiddleHardanger,"stringsFiddleHardanger"}, {SoundID::stringsGadulka,"stringsGadulka"}, {SoundID::stringsGaohu,"stringsGaohu"}, {SoundID::stringsGehu,"stringsGehu"}, {SoundID::stringsGroup,"stringsGroup"}, {SoundID::stringsGroupSynth,"stringsGroupSynth"}, {SoundID::stringsHaegeum,"stringsHaegeum"}, {SoundID::stringsHurdyGurdy,"stringsHurdyGurdy"}, {SoundID::stringsIgil,"stringsIgil"}, {SoundID::stringsKamancha,"stringsKamancha"}, {SoundID::stringsKokyu,"stringsKokyu"}, {SoundID::stringsLaruan,"stringsLaruan"}, {SoundID::stringsLeiqin,"stringsLeiqin"}, {SoundID::stringsLirone,"stringsLirone"}, {SoundID::stringsLyraByzantine,"stringsLyraByzantine"}, {SoundID::stringsLyraCretan,"stringsLyraCretan"}, {SoundID::stringsMorinKhuur,"stringsMorinKhuur"}, {SoundID::stringsNyckelharpa,"stringsNyckelharpa"}, {SoundID::stringsOctobass,"stringsOctobass"}, {SoundID::stringsRebab,"stringsRebab"}, {SoundID::stringsRebec,"stringsRebec"}, {SoundID::stringsSarangi,"stringsSarangi"}, {SoundID::stringsStrohViolin,"stringsStrohViolin"}, {SoundID::stringsTrombaMarina,"stringsTrombaMarina"}, {SoundID::stringsVielle,"stringsVielle"}, {SoundID::stringsViol,"stringsViol"}, {SoundID::stringsViolAlto,"stringsViolAlto"}, {SoundID::stringsViolBass,"stringsViolBass"}, {SoundID::stringsViolTenor,"stringsViolTenor"}, {SoundID::stringsViolTreble,"stringsViolTreble"}, {SoundID::stringsViolViolone,"stringsViolViolone"}, {SoundID::stringsViola,"stringsViola"}, {SoundID::stringsViolaDamore,"stringsViolaDamore"}, {SoundID::stringsViolin,"stringsViolin"}, {SoundID::stringsViolonoPiccolo,"stringsViolonoPiccolo"}, {SoundID::stringsViolotta,"stringsViolotta"}, {SoundID::stringsYayliTanbur,"stringsYayliTanbur"}, {SoundID::stringsYazheng,"stringsYazheng"}, {SoundID::stringsZhonghu,"stringsZhonghu"}, {SoundID::synthEffects,"synthEffects"}, {SoundID::synthEffectsAtmosphere,"synthEffectsAtmosphere"}, {SoundID::synthEffectsBrightness,"synthEffectsBrightness"}, {SoundID::synthEffectsCrystal,"synthEffectsCrystal"}, {SoundID::synthEffectsEchoes,"synthEffectsEchoes"}, {SoundID::synthEffectsGoblins,"synthEffectsGoblins"}, {SoundID::synthEffectsRain,"synthEffectsRain"}, {SoundID::synthEffectsSciFi,"synthEffectsSciFi"}, {SoundID::synthEffectsSoundtrack,"synthEffectsSoundtrack"}, {SoundID::synthGroup,"synthGroup"}, {SoundID::synthGroupFifths,"synthGroupFifths"}, {SoundID::synthGroupOrchestra,"synthGroupOrchestra"}, {SoundID::synthPad,"synthPad"}, {SoundID::synthPadBowed,"synthPadBowed"}, {SoundID::synthPadChoir,"synthPadChoir"}, {SoundID::synthPadHalo,"synthPadHalo"}, {SoundID::synthPadMetallic,"synthPadMetallic"}, {SoundID::synthPadPolysynth,"synthPadPolysynth"}, {SoundID::synthPadSweep,"synthPadSweep"}, {SoundID::synthPadWarm,"synthPadWarm"}, {SoundID::synthTheremin,"synthTheremin"}, {SoundID::synthToneSawtooth,"synthToneSawtooth"}, {SoundID::synthToneSine,"synthToneSine"}, {SoundID::synthToneSquare,"synthToneSquare"}, {SoundID::voiceAa,"voiceAa"}, {SoundID::voiceAlto,"voiceAlto"}, {SoundID::voiceAw,"voiceAw"}, {SoundID::voiceBaritone,"voiceBaritone"}, {SoundID::voiceBass,"voiceBass"}, {SoundID::voiceChild,"voiceChild"}, {SoundID::voiceCountertenor,"voiceCountertenor"}, {SoundID::voiceDoo,"voiceDoo"}, {SoundID::voiceEe,"voiceEe"}, {SoundID::voiceFemale,"voiceFemale"}, {SoundID::voiceKazoo,"voiceKazoo"}, {SoundID::voiceMale,"voiceMale"}, {SoundID::voiceMezzoSoprano,"voiceMezzoSoprano"}, {SoundID::voiceMm,"voiceMm"}, {SoundID::voiceOo,"voiceOo"}, {SoundID::voicePercussion,"voicePercussion"}, {SoundID::voicePercussionBeatbox,"voicePercussionBeatbox"}, {SoundID::voiceSoprano,"voiceSoprano"}, {SoundID::voiceSynth,"voiceSynth"}, {SoundID::voiceTalkBox,"voiceTalkBox"}, {SoundID::voiceTenor,"voiceTenor"}, {SoundID::voiceVocals,"voiceVocals"}, {SoundID::windFlutesBansuri,"windFlutesBansuri"}, {SoundID::windFlutesBlownBottle,"windFlutesBlownBottle"}, {SoundID::windFlutesCalliope,"windFlutesCalliope"}, {SoundID::windFlutesDanso,"windFlutesDanso"}, {SoundID::windFlutesDiZi,"windFlutesDiZi"}, {SoundID::windFlutesDvojnice,"windFlutesDvojnice"}, {SoundID::windFlutesFife,"windFlutesFife"}, {SoundID::windFlutesFlageolet,"windFlutesFlageolet"}, {SoundID::windFlutesFlute,"windFlutesFlute"}, {SoundID::windFlutesFluteAlto,"windFlutesFluteAlto"}, {SoundID::windFlutesFluteBass,"windFlutesFluteBass"}, {SoundID::windFlutesFluteContraAlto,"windFlutesFluteContraAlto"}, {SoundID::windFlutesFluteContrabass,"windFlutesFluteContrabass"}, {SoundID::windFlutesFluteDoubleContrabass,"windFlutesFluteDoubleContrabass"}, {SoundID::windFlutesFluteIrish,"windFlutesFluteIrish"}, {SoundID::windFlutesFlutePiccolo,"windFlutesFlutePiccolo"}, {SoundID::windFlutesFluteSubcontrabass,"windFlutesFluteSubcontrabass"}, {SoundID::windFlutesFujara,"windFlutesFujara"}, {SoundID::windFlutesGemshorn,"windFlutesGemshorn"}, {SoundID::windFlutesHocchiku,"windFlutesHocchiku"}, {SoundID::windFlutesHun,"windFlutesHun"}, {SoundID::windFlutesKaval,"windFlutesKaval"}, {SoundID::windFlutesKawala,"windFlutesKawala"}, {SoundID::windFlutesKhlui,"windFlutesKhlui"}, {SoundID::windFlutesKnotweed,"windFlutesKnotweed"}, {SoundID::windFlutesKoncovkaAlto,"windFlutesKoncovkaAlto"}, {SoundID::windFlutesKoudi,"windFlutesKoudi"}, {SoundID::windFlutesNey,"windFlutesNey"}, {SoundID::windFlutesNohkan,"windFlutesNohkan"}, {SoundID::windFlutesNose,"windFlutesNose"}, {SoundID::windFlutesOcarina,"windFlutesOcarina"}, {SoundID::windFlutesOvertoneTenor,"windFlutesOvertoneTenor"}, {SoundID::windFlutesPalendag,"windFlutesPalendag"}, {SoundID::windFlutesPanpipes,"windFlutesPanpipes"}, {SoundID::windFlutesQuena,"windFlutesQuena"}, {SoundID::windFlutesRecorder,"windFlutesRecorder"}, {SoundID::windFlutesRecorderAlto,"windFlutesRecorderAlto"}, {SoundID::windFlutesRecorderBass,"windFlutesRecorderBass"}, {SoundID::windFlutesRecorderContrabass,"windFlutesRecorderContrabass"}, {SoundID::windFlutesRecorderDescant,"windFlutesRecorderDescant"}, {SoundID::windFlutesRecorderGarklein,"windFlutesRecorderGarklein"}, {SoundID::windFlutesRecorderGreatBass,"windFlutesRecorderGreatBass"}, {SoundID::windFlutesRecorderSopranino,"windFlutesRecorderSopranino"}, {SoundID::windFlutesRecorderSoprano,"windFlutesRecorderSoprano"}, {SoundID::windFlutesRecorderTenor,"windFlutesRecorderTenor"}, {SoundID::windFlutesRyuteki,"windFlutesRyuteki"}, {SoundID::windFlutesShakuhachi,"windFlutesShakuhachi"}, {SoundID::windFlutesShepherdsPipe,"windFlutesShepherdsPipe"}, {SoundID::windFlutesShinobue,"windFlutesShinobue"}, {SoundID::windFlutesShvi,"windFlutesShvi"}, {SoundID::windFlutesSuling,"windFlutesSuling"}, {SoundID::windFlutesTarka,"windFlutesTarka"}, {SoundID::windFlutesTumpong,"windFlutesTumpong"}, {SoundID::windFlutesVenu,"windFlutesVenu"}, {SoundID::windFlutesWhistle,"windFlutesWhistle"}, {SoundID::windFlutesWhistleAlto,"windFlutesWhistleAlto"}, {SoundID::windFlutesWhistleLowIrish,"windFlutesWhistleLowIrish"}, {SoundID::windFlutesWhistleShiva,"windFlutesWhistleShiva"}, {SoundID::windFlutesWhistleSlide,"windFlutesWhistleSlide"}, {SoundID::windFlutesWhistleTin,"windFlutesWhistleTin"}, {SoundID::windFlutesWhistleTinBflat,"windFlutesWhistleTinBflat"}, {SoundID::windFlutesWhistleTinD,"windFlutesWhistleTinD"}, {SoundID::windFlutesXiao,"windFlutesXiao"}, {SoundID::windFlutesXun,"windFlutesXun"}, {SoundID::windGroup,"windGroup"}, {SoundID::windJug,"windJug"}, {SoundID::windPipesBagpipes,"windPipesBagpipes"}, {SoundID::windPipesGaida,"windPipesGaida"}, {SoundID::windPipesHighland,"windPipesHighland"}, {SoundID::windPipesUilleann,"windPipesUilleann"}, {SoundID::windPungi,"windPungi"}, {SoundID::windReedAlbogue,"windReedAlbogue"}, {SoundID::windReedAlboka,"windReedAlboka"}, {SoundID::windReedAlgaita,"windReedAlgaita"}, {SoundID::windReedArghul,"windReedArghul"}, {SoundID::windReedBassetHorn,"windReedBassetHorn"}, {SoundID::windReedBassoon,"windReedBassoon"}, {SoundID::windReedBawu,"windReedBawu"}, {SoundID::windReedBifora,"windReedBifora"}, {SoundID::windReedBombarde,"windReedBombarde"}, {SoundID::windReedChalumeau,"windReedChalumeau"}, {SoundID::windReedClarinet,"windReedClarinet"}, {SoundID::windReedClarinetA,"windReedClarinetA"}, {SoundID::windReedClarinetAlto,"windReedClarinetAlto"}, {SoundID::windReedClarinetBass,"windReedClarinetBass"}, {SoundID::windReedClarinetBasset,"windReedClarinetBasset"}, {SoundID::windReedClarinetBflat,"windReedClarinetBflat"}, {SoundID::windReedClarinetContraAlto,"windReedClarinetContraAlto"}, {SoundID::windReedClarinetContrabass,"windReedClarinetContrabass"}, {SoundID::windReedClarinetEflat,"windReedClarinetEflat"}, {SoundID::windReedClarinetPiccoloAflat,"windReedClarinetPiccoloAflat"}, {SoundID::windReedClarinetteDamour,"windReedClarinetteDamour"}, {SoundID::windReedContrabass,"windReedContrabass"}, {SoundID::windReedContrabassoon,"windReedContrabassoon"}, {SoundID::windReedCornamuse,"windReedCornamuse"}, {SoundID::windReedCromorne,"windReedCromorne"}, {SoundID::windReedCrumhorn,"windReedCrumhorn"}, {SoundID::windReedCrumhornAlto,"windReedCrumhornAlto"}, {SoundID::windReedCrumhornBass,"windReedCrumhornBass"}, {SoundID::windReedCrumhornGreatBass,"windReedCrumhornGreatBass"}, {SoundID::windReedCrumhornSoprano,"windReedCrumhornSoprano"}, {SoundID::windReedCrumhornTenor,"windReedCrumhornTenor"}, {SoundID::windReedDiple,"windReedDiple"}, {SoundID::windReedDiplica,"windReedDiplica"}, {SoundID::windReedDuduk,"windReedDuduk"}, {SoundID::windReedDulcian,"windReedDulcian"}, {SoundID::windReedDulzaina,"windReedDulzaina"}, {SoundID::windReedEnglishHorn,"windReedEnglishHorn"}, {SoundID::windReedGuanzi,"windReedGuanzi"}, {SoundID::windReedHarmonica,"windReedHarmonica"}, {SoundID::windReedHarmonicaBass,"windReedHarmonicaBass"}, {SoundID::windReedHeckelClarina,"windReedHeckelClarina"}, {SoundID::windReedHeckelphone,"windReedHeckelphone"}, {SoundID::windReedHeckelphonePiccolo,"windReedHeckelphonePiccolo"}, {SoundID::windReedHeckelphoneClarinet,"windReedHeckelphoneClarinet"}, {SoundID::windReedHichiriki,"windReedHichiriki"}, {SoundID::windReedHirtenschalmei,"windReedHirtenschalmei"}, {SoundID::windReedHne,"windReedHne"}, {SoundID::windReedHornpipe,"windReedHornpipe"}, {SoundID::windReedHouguan,"windReedHouguan"}, {SoundID::windReedHulusi,"windReedHulusi"}, {SoundID::windReedJogiBaja,"windReedJogiBaja"}, {SoundID::windReedKenBau,"windReedKenBau"}, {SoundID::windReedKhaenMouthOrgan,"windReedKhaenMouthOrgan"}, {SoundID::windReedLauneddas,"windReedLauneddas"}, {SoundID::windReedMaqrunah,"windReedMaqrunah"}, {SoundID::windReedMelodica,"windReedMelodica"}, {SoundID::windReedMijwiz,"windReedMijwiz"}, {SoundID::windReedMizmar,"windReedMizmar"}, {SoundID::windReedNadaswaram,"windReedNadaswaram"}, {SoundID::windReedOboe,"windReedOboe"}, {SoundID::windReedOboeBass,"windReedOboeBass"}, {SoundID::windReedOboePiccolo,"windReedOboePiccolo"}, {SoundID::windReedOboeDaCaccia,"windReedOboeDaCaccia"}, {SoundID::windReedOboeDamore,"windReedOboeDamore"}, {SoundID::windReedOctavin,"windReedOctavin"}, {SoundID::windReedPi,"windReedPi"}, {SoundID::windReedPibgorn,"windReedPibgorn"}, {SoundID::windReedPiri,"windReedPiri"}, {SoundID::windReedRackett,"windReedRackett"}, {SoundID::windReedRauschpfeife,"windReedRauschpfeife"}, {SoundID::windReedRhaita,"windReedRhaita"}, {SoundID::windReedRothphone,"windReedRothphone"}, {SoundID::windReedSarrusaphone,"windReedSarrusaphone"}, {SoundID::windReedSaxonette,"windReedSaxonette"}, {SoundID::windReedSaxophone,"windReedSaxophone"}, {SoundID::windReedSaxophoneAlto,"windReedSaxophoneAlto"}, {SoundID::windReedSaxophoneAulochrome,"windReedSaxophoneAulochrome"}, {SoundID::windReedSaxophoneBaritone,"windReedSaxophoneBaritone"}, {SoundID::windReedSaxophoneBass,"windReedSaxophoneBass"}, {SoundID::windReedSaxophoneContrabass,"windReedSaxophoneContrabass"}, {SoundID::windReedSaxophoneMelody,"windReedSaxophoneMelody"}, {SoundID::windReedSaxophoneMezzoSoprano,"windReedSaxophoneMezzoSoprano"}, {SoundID::windReedSaxophoneSopranino,"windReedSaxophoneSopranino"}, {SoundID::windReedSaxophoneSopranissimo,"windReedSaxophoneSopranissimo"}, {SoundID::windReedSaxophoneSoprano,"windReedSaxophoneSoprano"}, {SoundID::windReedSaxophoneSubcontrabass,"windReedSaxophoneSubcontrabass"}, {SoundID::windReedSaxophoneTenor,"windReedSaxophoneTenor"}, {SoundID::windReedShawm,"windReedShawm"}, {SoundID::windReedShenai,"windReedShenai"}, {SoundID::windReedSheng,"windReedSheng"}, {SoundID::windReedSipsi,"windReedSipsi"}, {SoundID::windReedSopila,"windReedSopila"}, {SoundID::windReedSorna,"windReedSorna"}, {SoundID::windReedSralai,"windReedSralai"}, {SoundID::windReedSuona,"windReedSuona"}, {SoundID::windReedSurnai,"windReedSurnai"}, {SoundID::windReedTaepyeongso,"windReedTaepyeongso"}, {SoundID::windReedTarogato,"windReedTarogato"}, {SoundID::windReedTarogatoAncient,"windReedTarogatoAncient"}, {SoundID::windReedTrompetaChina,"windReedTrompetaChina"}, {SoundID::windReedTubax,"windReedTubax"}, {SoundID::windReedXaphoon,"windReedXaphoon"}, {SoundID::windReedZhaleika,"windReedZhaleika"}, {SoundID::windReedZurla,"windReedZurla"}, {SoundID::windReedZurna,"windReedZurna"}, {SoundID::woodAgogoBlock,"woodAgogoBlock"}, {SoundID::woodAgungATamlang,"woodAgungATamlang"}, {SoundID::woodAhoko,"woodAhoko"}, {SoundID::woodBones,"woodBones"}, {SoundID::woodCastanets,"woodCastanets"}, {SoundID::woodClaves,"woodClaves"}, {SoundID::woodDrumSticks,"woodDrumSticks"}, {SoundID::woodGourd,"woodGourd"}, {SoundID::woodGraniteBlock,"woodGraniteBlock"}, {SoundID::woodGuban,"woodGuban"}, {SoundID::woodGuiro,"woodGuiro"}, {SoundID::woodHyoushigi,"woodHyoushigi"}, {SoundID::woodIpu,"woodIpu"}, {SoundID::woodJamBlock,"woodJamBlock"}, {SoundID::woodKaekeeke,"woodKaekeeke"}, {SoundID::woodKagul,"woodKagul"}, {SoundID::woodKalaau,"woodKalaau"}, {SoundID::woodKashiklar,"woodKashiklar"}, {SoundID::woodKubing,"woodKubing"}, {SoundID::woodPanClappers,"woodPanClappers"}, {SoundID::woodSandBlock,"woodSandBlock"}, {SoundID::woodSlapstick,"woodSlapstick"}, {SoundID::woodStirDrum,"woodStirDrum"}, {SoundID::woodTempleBlock,"woodTempleBlock"}, {SoundID::woodTicTocBlock,"woodTicTocBlock"}, {SoundID::woodTonetang,"woodTonetang"}, {SoundID::woodWoodBlock,"woodWoodBlock"} }; return v; } };
template<> struct EnumInfo<TempoType> { static const std::vector<std::pair<TempoType,const char*>>& all() { static const std::vector<std::pair<TempoType,const char*>> v{ {TempoType::unspecified,"unspecified"}, {TempoType::beatsPerMinute,"beatsPerMinute"}, {TempoType::metricModulation,"metricModulation"}, {TempoType::tempoText,"tempoText"} }; return v; } };
template<> struct EnumInfo<TimeSignatureSymbol> { static const std::vector<std::pair<TimeSignatureSymbol,const char*>>& all() { static const std::vector<std::pair<TimeSignatureSymbol,const char*>> v{ {TimeSignatureSymbol::unspecified,"unspecified"}, {TimeSignatureSymbol::common,"common"}, {TimeSignatureSymbol::cut,"cut"} }; return v; } };
template<> struct EnumInfo<WedgeType> { static const std::vector<std::pair<WedgeType,const char*>>& all() { static const std::vector<std::pair<WedgeType,const char*>> v{ {WedgeType::unspecified,"unspecified"}, {WedgeType::crescendo,"crescendo"}, {WedgeType::diminuendo,"diminuendo"} }; return v; } };
template<class T> struct IsStruct { static constexpr bool value = false; };
template<> struct IsStruct<AppearanceData> { static constexpr bool value = true; static const char* name() { return "AppearanceData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,AppearanceData>> fields( X& x, F&& f ) { f( "appearanceType", x.appearanceType ); f( "appearanceSubType", x.appearanceSubType ); f( "value", x.value ); }
template<> struct IsStruct<BarlineData> { static constexpr bool value = true; static const char* name() { return "BarlineData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,BarlineData>> fields( X& x, F&& f ) { f( "tickTimePosition", x.tickTimePosition ); f( "barlineType", x.barlineType ); f( "endingType", x.endingType ); f( "endingNumber", x.endingNumber ); f( "repeat", x.repeat ); f( "location", x.location ); }
template<> struct IsStruct<Extension> { static constexpr bool value = true; static const char* name() { return "Extension"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,Extension>> fields( X& x, F&& f ) { f( "extensionType", x.extensionType ); f( "extensionAlter", x.extensionAlter ); f( "extensionNumber", x.extensionNumber ); f( "printObject", x.printObject ); }
template<> struct IsStruct<MiscData> { static constexpr bool value = true; static const char* name() { return "MiscData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MiscData>> fields( X& x, F&& f ) { f( "name", x.name ); f( "data", x.data ); }
template<> struct IsStruct<PositionData> { static constexpr bool value = true; static const char* name() { return "PositionData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PositionData>> fields( X& x, F&& f ) { f( "defaultX", x.defaultX ); f( "isDefaultXSpecified", x.isDefaultXSpecified ); f( "defaultY", x.defaultY ); f( "isDefaultYSpecified", x.isDefaultYSpecified ); f( "relativeX", x.relativeX ); f( "isRelativeXSpecified", x.isRelativeXSpecified ); f( "relativeY", x.relativeY ); f( "isRelativeYSpecified", x.isRelativeYSpecified ); f( "placement", x.placement ); f( "verticalAlignment", x.verticalAlignment ); f( "horizontalAlignmnet", x.horizontalAlignmnet ); }
template<> struct IsStruct<ChordData> { static constexpr bool value = true; static const char* name() { return "ChordData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,ChordData>> fields( X& x, F&& f ) { f( "root", x.root ); f( "rootAlter", x.rootAlter ); f( "chordKind", x.chordKind ); f( "text", x.text ); f( "useSymbols", x.useSymbols ); f( "bass", x.bass ); f( "bassAlter", x.bassAlter ); f( "extensions", x.extensions ); f( "miscData", x.miscData ); f( "positionData", x.positionData ); }
template<> struct IsStruct<ClefData> { static constexpr bool value = true; static const char* name() { return "ClefData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,ClefData>> fields( X& x, F&& f ) { f( "symbol", x.symbol ); f( "line", x.line ); f( "octaveChange", x.octaveChange ); f( "tickTimePosition", x.tickTimePosition ); f( "location", x.location ); }
template<> struct IsStruct<ColorData> { static constexpr bool value = true; static const char* name() { return "ColorData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,ColorData>> fields( X& x, F&& f ) { f( "red", x.red ); f( "green", x.green ); f( "blue", x.blue ); f( "isAlphaSpecified", x.isAlphaSpecified ); f( "alpha", x.alpha ); }
template<> struct IsStruct<CodaData> { static constexpr bool value = true; static const char* name() { return "CodaData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,CodaData>> fields( X& x, F&& f ) { f( "positionData", x.positionData ); f( "isColorSpecified", x.isColorSpecified ); f( "colorData", x.colorData ); }
template<> struct IsStruct<CurvePoints> { static constexpr bool value = true; static const char* name() { return "CurvePoints"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,CurvePoints>> fields( X& x, F&& f ) { f( "positionData", x.positionData ); f( "isBezierXSpecified", x.isBezierXSpecified ); f( "bezierX", x.bezierX ); f( "isBezierYSpecified", x.isBezierYSpecified ); f( "bezierY", x.bezierY ); f( "isBezierOffsetSpecified", x.isBezierOffsetSpecified ); f( "bezierOffset", x.bezierOffset ); }
template<> struct IsStruct<LineData> { static constexpr bool value = true; static const char* name() { return "LineData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,LineData>> fields( X& x, F&& f ) { f( "lineType", x.lineType ); f( "lineHook", x.lineHook ); f( "isStopLengthSpecified", x.isStopLengthSpecified ); f( "endLength", x.endLength ); f( "isDashLengthSpecified", x.isDashLengthSpecified ); f( "dashLength", x.dashLength ); f( "isSpaceLengthSpecified", x.isSpaceLengthSpecified ); f( "spaceLength", x.spaceLength ); }
template<> struct IsStruct<CurveStart> { static constexpr bool value = true; static const char* name() { return "CurveStart"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,CurveStart>> fields( X& x, F&& f ) { f( "curveType", x.curveType ); f( "numberLevel", x.numberLevel ); f( "curvePoints", x.curvePoints ); f( "curveOrientation", x.curveOrientation ); f( "placement", x.placement ); f( "lineData", x.lineData ); f( "isColorSpecified", x.isColorSpecified ); f( "colorData", x.colorData ); }
template<> struct IsStruct<CurveContinue> { static constexpr bool value = true; static const char* name() { return "CurveContinue"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,CurveContinue>> fields( X& x, F&& f ) { f( "curveType", x.curveType ); f( "numberLevel", x.numberLevel ); f( "curvePoints", x.curvePoints ); f( "isBezierX2Specified", x.isBezierX2Specified ); f( "bezierX2", x.bezierX2 ); f( "isBezierY2Specified", x.isBezierY2Specified ); f( "bezierY2", x.bezierY2 ); f( "isBezierOffset2Specified", x.isBezierOffset2Specified ); f( "bezierOffset2", x.bezierOffset2 ); }
template<> struct IsStruct<CurveStop> { static constexpr bool value = true; static const char* name() { return "CurveStop"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,CurveStop>> fields( X& x, F&& f ) { f( "curveType", x.curveType ); f( "numberLevel", x.numberLevel ); f( "curvePoints", x.curvePoints ); }
template<> struct IsStruct<SizeData> { static constexpr bool value = true; static const char* name() { return "SizeData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SizeData>> fields( X& x, F&& f ) { f( "height", x.height ); f( "width", x.width ); }
template<> struct IsStruct<MarginsData> { static constexpr bool value = true; static const char* name() { return "MarginsData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MarginsData>> fields( X& x, F&& f ) { f( "left", x.left ); f( "right", x.right ); f( "top", x.top ); f( "bottom", x.bottom ); }
template<> struct IsStruct<PageMarginsData> { static constexpr bool value = true; static const char* name() { return "PageMarginsData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PageMarginsData>> fields( X& x, F&& f ) { f( "odd", x.odd ); f( "even", x.even ); }
template<> struct IsStruct<PageLayoutData> { static constexpr bool value = true; static const char* name() { return "PageLayoutData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PageLayoutData>> fields( X& x, F&& f ) { f( "size", x.size ); f( "margins", x.margins ); }
template<> struct IsStruct<LeftRight> { static constexpr bool value = true; static const char* name() { return "LeftRight"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,LeftRight>> fields( X& x, F&& f ) { f( "left", x.left ); f( "right", x.right ); }
template<> struct IsStruct<SystemLayoutData> { static constexpr bool value = true; static const char* name() { return "SystemLayoutData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SystemLayoutData>> fields( X& x, F&& f ) { f( "margins", x.margins ); f( "systemDistance", x.systemDistance ); f( "topSystemDistance", x.topSystemDistance ); f( "staffDistance", x.staffDistance ); }
template<> struct IsStruct<DefaultsData> { static constexpr bool value = true; static const char* name() { return "DefaultsData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,DefaultsData>> fields( X& x, F&& f ) { f( "scalingMillimeters", x.scalingMillimeters ); f( "scalingTenths", x.scalingTenths ); f( "pageLayout", x.pageLayout ); f( "systemLayout", x.systemLayout ); f( "appearance", x.appearance ); f( "measureNumbering", x.measureNumbering ); }
template<> struct IsStruct<FontData> { static constexpr bool value = true; static const char* name() { return "FontData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,FontData>> fields( X& x, F&& f ) { f( "sizeType", x.sizeType ); f( "sizePoint", x.sizePoint ); f( "sizeCss", x.sizeCss ); f( "style", x.style ); f( "weight", x.weight ); f( "fontFamily", x.fontFamily ); f( "underline", x.underline ); f( "overline", x.overline ); f( "lineThrough", x.lineThrough ); }
template<> struct IsStruct<PrintData> { static constexpr bool value = true; static const char* name() { return "PrintData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PrintData>> fields( X& x, F&& f ) { f( "printObject", x.printObject ); f( "fontData", x.fontData ); f( "isColorSpecified", x.isColorSpecified ); f( "color", x.color ); }
template<> struct IsStruct<BeatsPerMinute> { static constexpr bool value = true; static const char* name() { return "BeatsPerMinute"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,BeatsPerMinute>> fields( X& x, F&& f ) { f( "durationName", x.durationName ); f( "dots", x.dots ); f( "beatsPerMinute", x.beatsPerMinute ); }
template<> struct IsStruct<MetricModulation> { static constexpr bool value = true; static const char* name() { return "MetricModulation"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MetricModulation>> fields( X& x, F&& f ) { f( "leftDurationName", x.leftDurationName ); f( "leftDots", x.leftDots ); f( "rightDurationName", x.rightDurationName ); f( "rightDots", x.rightDots ); f( "playbackBeatsPerMinute", x.playbackBeatsPerMinute ); }
template<> struct IsStruct<TempoText> { static constexpr bool value = true; static const char* name() { return "TempoText"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,TempoText>> fields( X& x, F&& f ) { f( "tempoText", x.tempoText ); f( "playbackBeatsPerMinute", x.playbackBeatsPerMinute ); }
template<> struct IsStruct<TempoData> { static constexpr bool value = true; static const char* name() { return "TempoData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,TempoData>> fields( X& x, F&& f ) { f( "tickTime", x.tickTime ); f( "isParenthetical", x.isParenthetical ); f( "printData", x.printData ); f( "positionData", x.positionData ); f( "tempoType", x.tempoType ); f( "beatsPerMinute", x.beatsPerMinute ); f( "metricModulation", x.metricModulation ); f( "tempoText", x.tempoText ); }
template<> struct IsStruct<MarkData> { static constexpr bool value = true; static const char* name() { return "MarkData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MarkData>> fields( X& x, F&& f ) { f( "markType", x.markType ); f( "name", x.name ); f( "tickTimePosition", x.tickTimePosition ); f( "printData", x.printData ); f( "positionData", x.positionData ); }
template<> struct IsStruct<WedgeStart> { static constexpr bool value = true; static const char* name() { return "WedgeStart"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,WedgeStart>> fields( X& x, F&& f ) { f( "numberLevel", x.numberLevel ); f( "wedgeType", x.wedgeType ); f( "isSpreadSpecified", x.isSpreadSpecified ); f( "spread", x.spread ); f( "lineData", x.lineData ); f( "positionData", x.positionData ); f( "colorData", x.colorData ); }
template<> struct IsStruct<WedgeStop> { static constexpr bool value = true; static const char* name() { return "WedgeStop"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,WedgeStop>> fields( X& x, F&& f ) { f( "numberLevel", x.numberLevel ); f( "positionData", x.positionData ); f( "isSpreadSpecified", x.isSpreadSpecified ); f( "spread", x.spread ); }
template<> struct IsStruct<SpannerStart> { static constexpr bool value = true; static const char* name() { return "SpannerStart"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SpannerStart>> fields( X& x, F&& f ) { f( "numberLevel", x.numberLevel ); f( "tickTimePosition", x.tickTimePosition ); f( "positionData", x.positionData ); f( "printData", x.printData ); f( "lineData", x.lineData ); }
template<> struct IsStruct<OttavaStart> { static constexpr bool value = true; static const char* name() { return "OttavaStart"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,OttavaStart>> fields( X& x, F&& f ) { f( "spannerStart", x.spannerStart ); f( "ottavaType", x.ottavaType ); }
template<> struct IsStruct<SpannerStop> { static constexpr bool value = true; static const char* name() { return "SpannerStop"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SpannerStop>> fields( X& x, F&& f ) { f( "numberLevel", x.numberLevel ); f( "tickTimePosition", x.tickTimePosition ); f( "positionData", x.positionData ); }
template<> struct IsStruct<WordsData> { static constexpr bool value = true; static const char* name() { return "WordsData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,WordsData>> fields( X& x, F&& f ) { f( "text", x.text ); f( "positionData", x.positionData ); f( "fontData", x.fontData ); f( "isColorSpecified", x.isColorSpecified ); f( "colorData", x.colorData ); }
template<> struct IsStruct<SegnoData> { static constexpr bool value = true; static const char* name() { return "SegnoData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SegnoData>> fields( X& x, F&& f ) { f( "positionData", x.positionData ); f( "isColorSpecified", x.isColorSpecified ); f( "colorData", x.colorData ); }
template<> struct IsStruct<RehearsalData> { static constexpr bool value = true; static const char* name() { return "RehearsalData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,RehearsalData>> fields( X& x, F&& f ) { f( "text", x.text ); f( "positionData", x.positionData ); f( "isColorSpecified", x.isColorSpecified ); f( "colorData", x.colorData ); f( "fontData", x.fontData ); }
template<> struct IsStruct<DirectionData> { static constexpr bool value = true; static const char* name() { return "DirectionData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,DirectionData>> fields( X& x, F&& f ) { f( "tickTimePosition", x.tickTimePosition ); f( "placement", x.placement ); f( "voice", x.voice ); f( "isStaffValueSpecified", x.isStaffValueSpecified ); f( "tempos", x.tempos ); f( "marks", x.marks ); f( "wedgeStarts", x.wedgeStarts ); f( "wedgeStops", x.wedgeStops ); f( "ottavaStarts", x.ottavaStarts ); f( "ottavaStops", x.ottavaStops ); f( "bracketStarts", x.bracketStarts ); f( "bracketStops", x.bracketStops ); f( "words", x.words ); f( "chords", x.chords ); f( "segnos", x.segnos ); f( "codas", x.codas ); f( "rehearsals", x.rehearsals ); }
template<> struct IsStruct<DurationData> { static constexpr bool value = true; static const char* name() { return "DurationData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,DurationData>> fields( X& x, F&& f ) { f( "durationName", x.durationName ); f( "durationDots", x.durationDots ); f( "durationTimeTicks", x.durationTimeTicks ); f( "isTied", x.isTied ); f( "timeModificationActualNotes", x.timeModificationActualNotes ); f( "timeModificationNormalNotes", x.timeModificationNormalNotes ); f( "timeModificationNormalType", x.timeModificationNormalType ); f( "timeModificationNormalTypeDots", x.timeModificationNormalTypeDots ); }
template<> struct IsStruct<SupportedItem> { static constexpr bool value = true; static const char* name() { return "SupportedItem"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SupportedItem>> fields( X& x, F&& f ) { f( "elementName", x.elementName ); f( "attributeName", x.attributeName ); f( "specificValue", x.specificValue ); f( "isSupported", x.isSupported ); }
template<> struct IsStruct<MiscellaneousField> { static constexpr bool value = true; static const char* name() { return "MiscellaneousField"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MiscellaneousField>> fields( X& x, F&& f ) { f( "key", x.key ); f( "value", x.value ); }
template<> struct IsStruct<EncodingDate> { static constexpr bool value = true; static const char* name() { return "EncodingDate"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,EncodingDate>> fields( X& x, F&& f ) { f( "year", x.year ); f( "month", x.month ); f( "day", x.day ); }
template<> struct IsStruct<EncodingData> { static constexpr bool value = true; static const char* name() { return "EncodingData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,EncodingData>> fields( X& x, F&& f ) { f( "encodingDate", x.encodingDate ); f( "encoder", x.encoder ); f( "encodingDescription", x.encodingDescription ); f( "software", x.software ); f( "supportedItems", x.supportedItems ); f( "miscelaneousFields", x.miscelaneousFields ); }
template<> struct IsStruct<KeyComponent> { static constexpr bool value = true; static const char* name() { return "KeyComponent"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,KeyComponent>> fields( X& x, F&& f ) { f( "step", x.step ); f( "alter", x.alter ); f( "cents", x.cents ); f( "accidental", x.accidental ); }
template<> struct IsStruct<KeyData> { static constexpr bool value = true; static const char* name() { return "KeyData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,KeyData>> fields( X& x, F&& f ) { f( "fifths", x.fifths ); f( "cancel", x.cancel ); f( "mode", x.mode ); f( "tickTimePosition", x.tickTimePosition ); f( "staffIndex", x.staffIndex ); f( "nonTraditional", x.nonTraditional ); }
template<> struct IsStruct<SystemData> { static constexpr bool value = true; static const char* name() { return "SystemData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,SystemData>> fields( X& x, F&& f ) { f( "newSystem", x.newSystem ); f( "layout", x.layout ); }
template<> struct IsStruct<PageData> { static constexpr bool value = true; static const char* name() { return "PageData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PageData>> fields( X& x, F&& f ) { f( "newPage", x.newPage ); f( "pageLayoutData", x.pageLayoutData ); f( "pageNumber", x.pageNumber ); }
template<> struct IsStruct<LayoutData> { static constexpr bool value = true; static const char* name() { return "LayoutData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,LayoutData>> fields( X& x, F&& f ) { f( "system", x.system ); f( "page", x.page ); }
template<> struct IsStruct<PitchData> { static constexpr bool value = true; static const char* name() { return "PitchData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PitchData>> fields( X& x, F&& f ) { f( "step", x.step ); f( "alter", x.alter ); f( "cents", x.cents ); f( "accidental", x.accidental ); f( "isAccidentalParenthetical", x.isAccidentalParenthetical ); f( "isAccidentalCautionary", x.isAccidentalCautionary ); f( "isAccidentalEditorial", x.isAccidentalEditorial ); f( "isAccidentalBracketed", x.isAccidentalBracketed ); f( "octave", x.octave ); }
template<> struct IsStruct<TupletStart> { static constexpr bool value = true; static const char* name() { return "TupletStart"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,TupletStart>> fields( X& x, F&& f ) { f( "numberLevel", x.numberLevel ); f( "positionData", x.positionData ); f( "actualNumber", x.actualNumber ); f( "actualDurationName", x.actualDurationName ); f( "actualDots", x.actualDots ); f( "normalNumber", x.normalNumber ); f( "normalDurationName", x.normalDurationName ); f( "normalDots", x.normalDots ); f( "showActualNumber", x.showActualNumber ); f( "showNormalNumber", x.showNormalNumber ); f( "bracket", x.bracket ); }
template<> struct IsStruct<TupletStop> { static constexpr bool value = true; static const char* name() { return "TupletStop"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,TupletStop>> fields( X& x, F&& f ) { f( "numberLevel", x.numberLevel ); f( "positionData", x.positionData ); }
template<> struct IsStruct<NoteAttachmentData> { static constexpr bool value = true; static const char* name() { return "NoteAttachmentData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,NoteAttachmentData>> fields( X& x, F&& f ) { f( "marks", x.marks ); f( "curveStarts", x.curveStarts ); f( "curveContinuations", x.curveContinuations ); f( "curveStops", x.curveStops ); f( "tupletStarts", x.tupletStarts ); f( "tupletStops", x.tupletStops ); }
template<> struct IsStruct<NoteData> { static constexpr bool value = true; static const char* name() { return "NoteData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,NoteData>> fields( X& x, F&& f ) { f( "isRest", x.isRest ); f( "isMeasureRest", x.isMeasureRest ); f( "isUnpitched", x.isUnpitched ); f( "isDisplayStepOctaveSpecified", x.isDisplayStepOctaveSpecified ); f( "isChord", x.isChord ); f( "isTieStart", x.isTieStart ); f( "isTieStop", x.isTieStop ); f( "noteType", x.noteType ); f( "notehead", x.notehead ); f( "pitchData", x.pitchData ); f( "userRequestedVoiceNumber", x.userRequestedVoiceNumber ); f( "stem", x.stem ); f( "tickTimePosition", x.tickTimePosition ); f( "durationData", x.durationData ); f( "beams", x.beams ); f( "positionData", x.positionData ); f( "printData", x.printData ); f( "noteAttachmentData", x.noteAttachmentData ); f( "miscData", x.miscData ); }
template<> struct IsStruct<VoiceData> { static constexpr bool value = true; static const char* name() { return "VoiceData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,VoiceData>> fields( X& x, F&& f ) { f( "notes", x.notes ); }
template<> struct IsStruct<StaffData> { static constexpr bool value = true; static const char* name() { return "StaffData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,StaffData>> fields( X& x, F&& f ) { f( "clefs", x.clefs ); f( "keys", x.keys ); f( "directions", x.directions ); f( "voices", x.voices ); }
template<> struct IsStruct<TimeSignatureData> { static constexpr bool value = true; static const char* name() { return "TimeSignatureData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,TimeSignatureData>> fields( X& x, F&& f ) { f( "symbol", x.symbol ); f( "beats", x.beats ); f( "beatType", x.beatType ); f( "isImplicit", x.isImplicit ); f( "display", x.display ); }
template<> struct IsStruct<MeasureData> { static constexpr bool value = true; static const char* name() { return "MeasureData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MeasureData>> fields( X& x, F&& f ) { f( "staves", x.staves ); f( "timeSignature", x.timeSignature ); f( "number", x.number ); f( "measureNumbering", x.measureNumbering ); f( "multiMeasureRest", x.multiMeasureRest ); f( "implicit", x.implicit ); f( "nonControlling", x.nonControlling ); f( "width", x.width ); f( "keys", x.keys ); f( "barlines", x.barlines ); }
template<> struct IsStruct<PageTextData> { static constexpr bool value = true; static const char* name() { return "PageTextData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PageTextData>> fields( X& x, F&& f ) { f( "text", x.text ); f( "pageNumber", x.pageNumber ); f( "positionData", x.positionData ); f( "fontData", x.fontData ); f( "description", x.description ); }
template<> struct IsStruct<MidiData> { static constexpr bool value = true; static const char* name() { return "MidiData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,MidiData>> fields( X& x, F&& f ) { f( "virtualLibrary", x.virtualLibrary ); f( "virtualName", x.virtualName ); f( "device", x.device ); f( "name", x.name ); f( "bank", x.bank ); f( "channel", x.channel ); f( "program", x.program ); f( "unpitched", x.unpitched ); f( "volume", x.volume ); f( "isVolumeSpecified", x.isVolumeSpecified ); f( "pan", x.pan ); f( "isPanSpecified", x.isPanSpecified ); f( "elevation", x.elevation ); f( "isElevationSpecified", x.isElevationSpecified ); }
template<> struct IsStruct<InstrumentData> { static constexpr bool value = true; static const char* name() { return "InstrumentData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,InstrumentData>> fields( X& x, F&& f ) { f( "uniqueId", x.uniqueId ); f( "name", x.name ); f( "abbreviation", x.abbreviation ); f( "soundID", x.soundID ); f( "soloOrEnsemble", x.soloOrEnsemble ); f( "midiData", x.midiData ); }
template<> struct IsStruct<TransposeData> { static constexpr bool value = true; static const char* name() { return "TransposeData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,TransposeData>> fields( X& x, F&& f ) { f( "chromatic", x.chromatic ); f( "diatonic", x.diatonic ); }
template<> struct IsStruct<PartData> { static constexpr bool value = true; static const char* name() { return "PartData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PartData>> fields( X& x, F&& f ) { f( "uniqueId", x.uniqueId ); f( "name", x.name ); f( "abbreviation", x.abbreviation ); f( "displayName", x.displayName ); f( "displayNamePrintData", x.displayNamePrintData ); f( "displayNamePositionData", x.displayNamePositionData ); f( "displayAbbreviation", x.displayAbbreviation ); f( "displayAbbreviationPrintData", x.displayAbbreviationPrintData ); f( "displayAbbreviationPositionData", x.displayAbbreviationPositionData ); f( "instrumentData", x.instrumentData ); f( "transposition", x.transposition ); f( "measures", x.measures ); }
template<> struct IsStruct<PartGroupData> { static constexpr bool value = true; static const char* name() { return "PartGroupData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,PartGroupData>> fields( X& x, F&& f ) { f( "firstPartIndex", x.firstPartIndex ); f( "lastPartIndex", x.lastPartIndex ); f( "name", x.name ); f( "displayName", x.displayName ); f( "abbreviation", x.abbreviation ); f( "displayAbbreviation", x.displayAbbreviation ); f( "bracketType", x.bracketType ); f( "number", x.number ); }
template<> struct IsStruct<ScoreData> { static constexpr bool value = true; static const char* name() { return "ScoreData"; } };
template<class X, class F> inline std::enable_if_t<std::is_same_v<std::remove_const_t<X>,ScoreData>> fields( X& x, F&& f ) { f( "musicXmlVersion", x.musicXmlVersion ); f( "musicXmlType", x.musicXmlType ); f( "workTitle", x.workTitle ); f( "workNumber", x.workNumber ); f( "movementTitle", x.movementTitle ); f( "movementNumber", x.movementNumber ); f( "composer", x.composer ); f( "lyricist", x.lyricist ); f( "arranger", x.arranger ); f( "publisher", x.publisher ); f( "copyright", x.copyright ); f( "encoding", x.encoding ); f( "pageTextItems", x.pageTextItems ); f( "defaults", x.defaults ); f( "parts", x.parts ); f( "partGroups", x.partGroups ); f( "ticksPerQuarter", x.ticksPerQuarter ); f( "layout", x.layout ); }
}
