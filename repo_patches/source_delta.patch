From f9889fecc3fc88bea432bc989b0af5fb3be88133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 01/91] fix: compare the fields that score data equality left
 out

---
 Sourcecode/include/mx/api/DefaultsData.h  | 2 ++
 Sourcecode/include/mx/api/DirectionData.h | 1 +
 Sourcecode/include/mx/api/NoteData.h      | 1 +
 Sourcecode/include/mx/api/PartGroupData.h | 3 +++
 Sourcecode/include/mx/api/WordsData.h     | 1 +
 5 files changed, 8 insertions(+)

diff --git a/Sourcecode/include/mx/api/DefaultsData.h b/Sourcecode/include/mx/api/DefaultsData.h
index 81f254f..8f58b15 100644
--- a/Sourcecode/include/mx/api/DefaultsData.h
+++ b/Sourcecode/include/mx/api/DefaultsData.h
@@ -123,6 +123,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( DefaultsData )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingMillimeters )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingTenths )
         MXAPI_EQUALS_MEMBER( pageLayout )
         MXAPI_EQUALS_MEMBER( systemLayout )
         MXAPI_EQUALS_MEMBER( appearance )
diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index 2a66026..a612bbc 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -122,6 +122,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( chords )
         MXAPI_EQUALS_MEMBER( segnos )
         MXAPI_EQUALS_MEMBER( codas )
+        MXAPI_EQUALS_MEMBER( rehearsals )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( DirectionData );
 	}
diff --git a/Sourcecode/include/mx/api/NoteData.h b/Sourcecode/include/mx/api/NoteData.h
index 1c1539b..28f6874 100644
--- a/Sourcecode/include/mx/api/NoteData.h
+++ b/Sourcecode/include/mx/api/NoteData.h
@@ -138,6 +138,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( isTieStart )
         MXAPI_EQUALS_MEMBER( isTieStop )
         MXAPI_EQUALS_MEMBER( noteType )
+        MXAPI_EQUALS_MEMBER( notehead )
         MXAPI_EQUALS_MEMBER( pitchData )
         MXAPI_EQUALS_MEMBER( userRequestedVoiceNumber )
         MXAPI_EQUALS_MEMBER( stem )
diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index 42c7e66..294ff38 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -59,6 +59,7 @@ namespace mx
             : firstPartIndex{ -1 }
             , lastPartIndex{ -1 }
             , name{}
+            , bracketType{ BracketType::unspecified }
             , number{ -1 }
             {
             
@@ -72,6 +73,8 @@ namespace mx
         MXAPI_EQUALS_MEMBER( displayName )
         MXAPI_EQUALS_MEMBER( abbreviation )
         MXAPI_EQUALS_MEMBER( displayAbbreviation )
+        MXAPI_EQUALS_MEMBER( bracketType )
+        MXAPI_EQUALS_MEMBER( number )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( PartGroupData );
     }
diff --git a/Sourcecode/include/mx/api/WordsData.h b/Sourcecode/include/mx/api/WordsData.h
index 33362d4..65b46b4 100644
--- a/Sourcecode/include/mx/api/WordsData.h
+++ b/Sourcecode/include/mx/api/WordsData.h
@@ -34,6 +34,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( WordsData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_MEMBER( positionData )
         MXAPI_EQUALS_MEMBER( fontData )
         MXAPI_EQUALS_MEMBER( isColorSpecified )
-- 
2.43.0


From dabefea73093d5c11f4c9f8554696f5bdb2dc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 02/91] fix: initialise the tempo and page text fields

---
 Sourcecode/include/mx/api/PageTextData.h | 2 +-
 Sourcecode/include/mx/api/TempoData.h    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/include/mx/api/PageTextData.h b/Sourcecode/include/mx/api/PageTextData.h
index 80e0241..cc73587 100644
--- a/Sourcecode/include/mx/api/PageTextData.h
+++ b/Sourcecode/include/mx/api/PageTextData.h
@@ -22,7 +22,7 @@ namespace mx
         {
         public:
             std::string text;
-            int pageNumber;
+            int pageNumber = 0;
             PositionData positionData;
             FontData fontData;
             std::string description; // e.g. 'composer', 'page number', 'title', etc., this is metadata which does not appear on the printed page
diff --git a/Sourcecode/include/mx/api/TempoData.h b/Sourcecode/include/mx/api/TempoData.h
index 5349baa..d888832 100644
--- a/Sourcecode/include/mx/api/TempoData.h
+++ b/Sourcecode/include/mx/api/TempoData.h
@@ -62,11 +62,11 @@ namespace mx
         class TempoData
         {
         public:
-            int tickTime;
-            Bool isParenthetical;
+            int tickTime = 0;
+            Bool isParenthetical = Bool::unspecified;
             PrintData printData;
             PositionData positionData;
-            TempoType tempoType;
+            TempoType tempoType = TempoType::unspecified;
             
             // only used when tempoType is 'beatsPerMinute'
             BeatsPerMinute beatsPerMinute;
-- 
2.43.0


From 1ffd2f2ed9577690c179b230491d6bd501529e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 03/91] fix: keep the order of simultaneous events when sorting
 a score

---
 Sourcecode/private/mx/api/ScoreData.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/api/ScoreData.cpp b/Sourcecode/private/mx/api/ScoreData.cpp
index 912f0d0..a25b853 100644
--- a/Sourcecode/private/mx/api/ScoreData.cpp
+++ b/Sourcecode/private/mx/api/ScoreData.cpp
@@ -71,28 +71,28 @@ namespace mx
                     for ( auto& staff : measure.staves )
                     {
 
-                        const auto clefCompare = [&]( ClefData& inLeft, ClefData& inRight )
+                        const auto clefCompare = [&]( const ClefData& inLeft, const ClefData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
+                        std::stable_sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
 
-                        const auto directionCompare = [&]( DirectionData& inLeft, DirectionData& inRight )
+                        const auto directionCompare = [&]( const DirectionData& inLeft, const DirectionData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
+                        std::stable_sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
 
                         for ( auto& voice : staff.voices )
                         {
-                            const auto noteCompare = [&]( NoteData& inLeft, NoteData& inRight )
+                            const auto noteCompare = [&]( const NoteData& inLeft, const NoteData& inRight )
                             {
                                 return inLeft.tickTimePosition < inRight.tickTimePosition;
                             };
 
-                            std::sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
+                            std::stable_sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
                         }
                     }
                 }
-- 
2.43.0


From d59b150c69a79b15514a5e942e9612912ecb5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 04/91] fix: do not read past the last measure of a short part
 when converting to timewise

---
 Sourcecode/private/mx/core/ScoreConversions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index 9ffa559..a5364e8 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -77,7 +77,8 @@ namespace mx
                     {
                         return searchingForThis->getAttributes()->id.getValue() == sp->getAttributes()->id.getValue();
                     });
-                    if ( partIter != inScore->getPartwisePartSet().cend() )
+                    if ( partIter != inScore->getPartwisePartSet().cend() &&
+                         currentMeasureIndex < (*partIter)->getPartwiseMeasureSet().size() )
                     {
                         auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
                         /* Find the Correct Measure Within The Part */
-- 
2.43.0


From 0723d04ab2facc8d11f8d0c9e21505fce2516957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 05/91] fix: escape quotation marks, which end an attribute
 value

---
 Sourcecode/private/mx/core/XsString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index bf29c5a..d566811 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -71,6 +71,10 @@ namespace mx
                         os << "&amp;";
                         break;
                         
+                    case '"':
+                        os << "&quot;";
+                        break;
+                        
                     default:
                         os << c;
                         break;
-- 
2.43.0


From 0c1b9e5f661c8df3f372451e66dca7b03d826a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 06/91] fix: read and write the arranger and the publisher as
 themselves

---
 Sourcecode/private/mx/impl/ScoreReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index a6c3668..5ffa138 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -232,13 +232,13 @@ namespace mx
                     
                     if( a->type.getValue() == "arranger" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.arranger = i->getValue().getValue();
                         isArrangerFound = true;
                     }
                     
                     if( a->type.getValue() == "publisher" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.publisher = i->getValue().getValue();
                         isPublisherFound = true;
                     }
                 }
diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 661c0e8..502f341 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -109,6 +109,26 @@ namespace mx
                 header->getIdentification()->addCreator( lyricist );
             }
             
+            if( !myScoreData.arranger.empty() )
+            {
+                auto arranger = core::makeCreator();
+                arranger->getAttributes()->hasType = true;
+                arranger->getAttributes()->type = core::XsToken( "arranger" );
+                arranger->setValue( core::XsString( myScoreData.arranger ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( arranger );
+            }
+            
+            if( !myScoreData.publisher.empty() )
+            {
+                auto publisher = core::makeCreator();
+                publisher->getAttributes()->hasType = true;
+                publisher->getAttributes()->type = core::XsToken( "publisher" );
+                publisher->setValue( core::XsString( myScoreData.publisher ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( publisher );
+            }
+            
             if( !myScoreData.copyright.empty() )
             {
                 auto copyright = core::makeRights();
-- 
2.43.0


From 95674ede5fb26c63d2b2e0991c27b70e91f0ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 07/91] fix: rethrow the load error instead of a sliced copy

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index a206ce0..fe9f765 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -87,7 +87,7 @@ namespace mx
                     MX_THROW( ss.str() );
                 }
 
-                throw e;
+                throw;
             }
 
             auto mxdoc = mx::core::makeDocument();
-- 
2.43.0


From 5f51a6a880f1fff715a6608f1e1cdd079fb462a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 08/91] fix: convert the fingernails mark

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 68345e7..86790c2 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -326,7 +326,7 @@ namespace mx
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::tap, api::MarkType::unspecified },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::heel, api::MarkType::heel },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::toe, api::MarkType::toe },
-            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::unspecified },
+            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::fingernails },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::hole, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::arrow, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::handbell, api::MarkType::unspecified },
-- 
2.43.0


From 1065e28baa2290d48fe52edd1d810f5f835f51fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 09/91] fix: convert the sharp-sharp accidental and the fa-up
 notehead

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 86790c2..4dcf3ca 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -67,6 +67,7 @@ namespace mx
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::re, api::Notehead::re },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::mi, api::Notehead::mi },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::fa, api::Notehead::fa },
+            std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::faUp, api::Notehead::faUp },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::la, api::Notehead::la },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::so  , api::Notehead::so },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::ti, api::Notehead::ti },
@@ -88,6 +89,7 @@ namespace mx
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::natural, api::Accidental::natural },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flat, api::Accidental::flat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::doubleSharp, api::Accidental::doubleSharp },
+            std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::sharpSharp, api::Accidental::sharpSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flatFlat, api::Accidental::flatFlat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalSharp, api::Accidental::naturalSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalFlat, api::Accidental::naturalFlat },
-- 
2.43.0


From 1100b4f45d89849f689ffa86db6159b130f59098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 10/91] fix: parse the bezier attributes of tied under their
 own names

---
 Sourcecode/private/mx/core/elements/TiedAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
index abd228b..6f94347 100644
--- a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
@@ -123,11 +123,11 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, placement, hasPlacement, "placement", &parseAboveBelow ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, orientation, hasOrientation, "orientation", &parseOverUnder ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierOffset, hasBezierOffset, "bezier-offset" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierX, hasBezierX, "bezier-x" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierY, hasBezierY, "bezier-y" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x-2" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
             }
         
-- 
2.43.0


From 31e56df225a4a13f11261265465a36316665029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 11/91] fix: write the display step and octave of rests and
 unpitched notes

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f3502e6..18389e0 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -343,7 +343,8 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::rest );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
-                    auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
+                    myOutFullNoteTypeChoice->getRest()->setHasDisplayStepOctaveGroup( true );
+                    auto pitch = myOutFullNoteTypeChoice->getRest()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
                 }
@@ -360,6 +361,7 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::unpitched );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
+                    myOutFullNoteTypeChoice->getUnpitched()->setHasDisplayStepOctaveGroup( true );
                     auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
-- 
2.43.0


From a66b7da3fccc3e93c3bc37c128c12635cbf6b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 12/91] fix: write the accidental flags that are read

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 18389e0..75af401 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -99,6 +99,31 @@ namespace mx
             {
                 myOutNote->setHasAccidental( true );
                 myOutNote->getAccidental()->setValue( myConverter.convert( myNoteData.pitchData.accidental ) );
+                auto& accidentalAttr = *myOutNote->getAccidental()->getAttributes();
+
+                if( myNoteData.pitchData.isAccidentalParenthetical )
+                {
+                    accidentalAttr.hasParentheses = true;
+                    accidentalAttr.parentheses = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalCautionary )
+                {
+                    accidentalAttr.hasCautionary = true;
+                    accidentalAttr.cautionary = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalEditorial )
+                {
+                    accidentalAttr.hasEditorial = true;
+                    accidentalAttr.editorial = core::YesNo::yes;
+                }
+
+                if( myNoteData.pitchData.isAccidentalBracketed )
+                {
+                    accidentalAttr.hasBracket = true;
+                    accidentalAttr.bracket = core::YesNo::yes;
+                }
             }
             
             auto beamIndex = 0;
-- 
2.43.0


From d776f008fcc0c3efd0af4896efb338ceab75f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 13/91] fix: do not turn the tie flags into tied notations,
 which are curves

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 48 +++--------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 75af401..f65325a 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -243,7 +243,7 @@ namespace mx
         }
         
         template<typename CHOICE_OBJ_TYPE>
-        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj, core::NotePtr outNote )
+        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj )
         {
             auto tie = core::makeTie();
             
@@ -257,44 +257,6 @@ namespace mx
             }
             
             choiceObj->addTie( tie );
-            
-            core::NotationsPtr notations = nullptr;
-            core::NotationsChoicePtr notationsChoice = nullptr;
-            
-            if( !outNote->getNotationsSet().empty() )
-            {
-                notations = outNote->getNotationsSet().front();
-                notationsChoice = core::makeNotationsChoice();
-                notations->addNotationsChoice( notationsChoice );
-                outNote->addNotations( notations );
-            }
-            else
-            {
-                notations = core::makeNotations();
-                
-                if( notations->getNotationsChoiceSet().empty() )
-                {
-                    notationsChoice = core::makeNotationsChoice();
-                    notations->addNotationsChoice( notationsChoice );
-                }
-                else
-                {
-                    notationsChoice = notations->getNotationsChoiceSet().front();
-                }
-                
-                outNote->addNotations( notations );
-            }
-            
-            notationsChoice->setChoice( core::NotationsChoice::Choice::tied );
-            
-            if( isStart )
-            {
-                notationsChoice->getTied()->getAttributes()->type = core::StartStopContinue::start;
-            }
-            else
-            {
-                notationsChoice->getTied()->getAttributes()->type = core::StartStopContinue::stop;
-            }
         }
         
         void NoteWriter::setNoteChoiceAndFullNoteGroup( bool isStartOfChord ) const
@@ -321,12 +283,12 @@ namespace mx
 
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj );
                     }
                     
                     break;
@@ -341,12 +303,12 @@ namespace mx
                     
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj );
                     }
                     
                     break;
-- 
2.43.0


From 2398977e5ca7ea7060bedfd7c0570b78f6e92055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 14/91] fix: keep voices apart that are not separated by a
 backup

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 30 ++++++++++++++++++++
 Sourcecode/private/mx/impl/MeasureReader.h   |  1 +
 2 files changed, 31 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index b9cc2a4..e92ed6a 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -794,6 +794,8 @@ namespace mx
         {
             for( auto& staff : myOutMeasureData.staves )
             {
+                separateVoicesByUserRequestedNumber( staff );
+
                 if( isUserRequestedVoiceNumberConsistentAccrossAllVoices( staff ) )
                 {
                     takeUserRequestedVoiceNumbers( staff );
@@ -806,6 +808,34 @@ namespace mx
         }
         
         
+        // a voice which begins where, or after, the previous voice ended needs no backup element, in
+        // which case only the voice numbers of the notes tell the two voices apart.
+        void MeasureReader::separateVoicesByUserRequestedNumber( api::StaffData& staff ) const
+        {
+            std::map<int, api::VoiceData> newVoiceData;
+            for( const auto& voicePair : staff.voices )
+            {
+                std::set<int> numbersOfThisVoice;
+                for( const auto& note : voicePair.second.notes )
+                {
+                    const int number = note.userRequestedVoiceNumber;
+                    const bool isTaken = newVoiceData.find( number - 1 ) != newVoiceData.cend();
+                    const bool isTakenByThisVoice = numbersOfThisVoice.find( number ) != numbersOfThisVoice.cend();
+
+                    if( number < 1 || ( isTaken && !isTakenByThisVoice ) )
+                    {
+                        // the numbers do not identify the voices, leave them as they are
+                        return;
+                    }
+
+                    numbersOfThisVoice.insert( number );
+                    newVoiceData[number - 1].notes.push_back( note );
+                }
+            }
+            staff.voices = std::move( newVoiceData );
+        }
+
+
         void MeasureReader::takeUserRequestedVoiceNumbers( api::StaffData& staff ) const
         {
             std::map<int, api::VoiceData> newVoiceData;
diff --git a/Sourcecode/private/mx/impl/MeasureReader.h b/Sourcecode/private/mx/impl/MeasureReader.h
index c4f84cc..e076f49 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.h
+++ b/Sourcecode/private/mx/impl/MeasureReader.h
@@ -111,6 +111,7 @@ namespace mx
             void collapseVoicesAutomatically( api::StaffData& staff ) const;
             bool isUserRequestedVoiceNumberConsistent( const api::VoiceData& voiceData ) const;
             bool isUserRequestedVoiceNumberConsistentAccrossAllVoices( const api::StaffData& staff ) const;
+            void separateVoicesByUserRequestedNumber( api::StaffData& staff ) const;
             int getUserRequestedVoiceNumber( const api::VoiceData& voiceData ) const;
             void advanceTickTimePosition( int amount, std::string reason ) const;
         };
-- 
2.43.0


From 7dc42bae1e45ba4ab98df3da196800c0faa07a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 15/91] fix: read the position of fermatas and arpeggios

---
 Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp    | 2 +-
 Sourcecode/private/mx/impl/FermataFunctions.cpp       | 3 +--
 Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
index e84fe4f..a99dd7a 100644
--- a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
@@ -36,7 +36,7 @@ namespace mx
                 }
             }
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             return markData;
diff --git a/Sourcecode/private/mx/impl/FermataFunctions.cpp b/Sourcecode/private/mx/impl/FermataFunctions.cpp
index 3728bca..9a3c510 100644
--- a/Sourcecode/private/mx/impl/FermataFunctions.cpp
+++ b/Sourcecode/private/mx/impl/FermataFunctions.cpp
@@ -88,9 +88,8 @@ namespace mx
             // Unfortunately, without doing a lot of guess word, we can't
             // know whether the correct glyph is "above" or "below"
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
-            impl::parseMarkDataAttributes( attr, markData );
             
             return markData;
         }
diff --git a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
index 0fa01a9..f1f9109 100644
--- a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
@@ -21,7 +21,7 @@ namespace mx
         {
             const auto& attr = myNonArpeggiate.getAttributes();
             api::MarkData markData{ api::MarkType::nonArpeggiate };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             return markData;
         }
-- 
2.43.0


From 410a32b2e746def02f67ce061ace3f2c79a8c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 16/91] fix: write arpeggiate and non-arpeggiate marks

---
 .../private/mx/impl/NotationsWriter.cpp       | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 2ad0656..b49161c 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -5,6 +5,7 @@
 #include "mx/impl/NotationsWriter.h"
 #include "mx/core/elements/Accent.h"
 #include "mx/core/elements/Arrow.h"
+#include "mx/core/elements/Arpeggiate.h"
 #include "mx/core/elements/Articulations.h"
 #include "mx/core/elements/ArticulationsChoice.h"
 #include "mx/core/elements/Bend.h"
@@ -30,6 +31,7 @@
 #include "mx/core/elements/InvertedMordent.h"
 #include "mx/core/elements/InvertedTurn.h"
 #include "mx/core/elements/Mordent.h"
+#include "mx/core/elements/NonArpeggiate.h"
 #include "mx/core/elements/Notations.h"
 #include "mx/core/elements/NotationsChoice.h"
 #include "mx/core/elements/OpenString.h"
@@ -274,6 +276,27 @@ namespace mx
                     DynamicsWriter dynamicsWriter{ mark, myCursor };
                     dynamicNotationsChoice->setDynamics( dynamicsWriter.getDynamics() );
                 }
+                else if( isMarkArpeggiate( mark.markType ) )
+                {
+                    auto arpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( arpeggiateNotationsChoice );
+                    arpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::arpeggiate );
+                    auto& attr = *arpeggiateNotationsChoice->getArpeggiate()->getAttributes();
+                    impl::setAttributesFromMarkData( mark, attr );
+
+                    if( mark.markType != api::MarkType::arpeggiate )
+                    {
+                        attr.hasDirection = true;
+                        attr.direction = ( mark.markType == api::MarkType::arpeggiateUp ) ? core::UpDown::up : core::UpDown::down;
+                    }
+                }
+                else if( isMarkNonArpeggiate( mark.markType ) )
+                {
+                    auto nonArpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( nonArpeggiateNotationsChoice );
+                    nonArpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::nonArpeggiate );
+                    impl::setAttributesFromMarkData( mark, *nonArpeggiateNotationsChoice->getNonArpeggiate()->getAttributes() );
+                }
                 else if( isMarkFermata( mark.markType ) )
                 {
                     auto fermataNotationsChoice = core::makeNotationsChoice();
-- 
2.43.0


From 6d5c35fe5f641af01dcc15ac1ee2792a871b3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 17/91] fix: write the print data of notes and marks and the
 position of tuplets

---
 .../private/mx/impl/NotationsWriter.cpp       | 88 ++++++++++---------
 Sourcecode/private/mx/impl/NoteWriter.cpp     |  2 +
 Sourcecode/private/mx/impl/PrintFunctions.h   |  9 +-
 3 files changed, 54 insertions(+), 45 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index b49161c..ce0a4dc 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -177,6 +177,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::stop;
+                setAttributesFromPositionData( tupletStop.positionData, *tuplet->getAttributes() );
                 
                 if( tupletStop.numberLevel > 0 )
                 {
@@ -192,6 +193,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::start;
+                setAttributesFromPositionData( tupletStart.positionData, *tuplet->getAttributes() );
                 tuplet->setHasTupletActual( true );
                 tuplet->setHasTupletNormal( true );
 
@@ -436,91 +438,91 @@ namespace mx
             {
                 auto element = articulationsChoice->getAccent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::strongAccent )
             {
                 auto element = articulationsChoice->getStrongAccent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::staccato )
             {
                 auto element = articulationsChoice->getStaccato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::tenuto )
             {
                 auto element = articulationsChoice->getTenuto();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::detachedLegato )
             {
                 auto element = articulationsChoice->getDetachedLegato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::staccatissimo )
             {
                 auto element = articulationsChoice->getStaccatissimo();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::spiccato )
             {
                 auto element = articulationsChoice->getSpiccato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::scoop )
             {
                 auto element = articulationsChoice->getScoop();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::plop )
             {
                 auto element = articulationsChoice->getPlop();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::doit )
             {
                 auto element = articulationsChoice->getDoit();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::falloff )
             {
                 auto element = articulationsChoice->getFalloff();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::breathMark )
             {
                 auto element = articulationsChoice->getBreathMark();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::caesura )
             {
                 auto element = articulationsChoice->getCaesura();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::stress )
             {
                 auto element = articulationsChoice->getStress();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::unstress )
             {
                 auto element = articulationsChoice->getUnstress();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( api::isMarkCustom( mark.markType ) )
             {
@@ -528,14 +530,14 @@ namespace mx
                 auto element = articulationsChoice->getOtherArticulation();
                 element->setValue( core::XsString{ customName } );
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::otherArticulation )
             {
                 auto element = articulationsChoice->getOtherArticulation();
                 element->setValue( core::XsString{ mark.name } );
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
         }
 
@@ -556,67 +558,67 @@ namespace mx
             {
                 auto element = ornamentsChoice->getTrillMark();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::turn )
             {
                 auto element = ornamentsChoice->getTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::delayedTurn )
             {
                 auto element = ornamentsChoice->getDelayedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::invertedTurn )
             {
                 auto element = ornamentsChoice->getInvertedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::delayedInvertedTurn )
             {
                 auto element = ornamentsChoice->getDelayedInvertedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::verticalTurn )
             {
                 auto element = ornamentsChoice->getVerticalTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::shake )
             {
                 auto element = ornamentsChoice->getShake();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::wavyLine )
             {
                 auto element = ornamentsChoice->getWavyLine();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::mordent )
             {
                 auto element = ornamentsChoice->getMordent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::invertedMordent )
             {
                 auto element = ornamentsChoice->getInvertedMordent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::schleifer )
             {
                 auto element = ornamentsChoice->getSchleifer();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( isMarkTremolo( mark.markType ) )
             {
@@ -625,7 +627,7 @@ namespace mx
                 auto attributes = element->getAttributes();
                 attributes->hasType = true;
                 attributes->type = mx::core::StartStopSingle::single;
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
                 element->setValue( mx::core::TremoloMarks{ api::numTremoloSlashes( mark.markType ) } );
             }
             else if( api::isMarkCustom( mark.markType ) )
@@ -638,7 +640,7 @@ namespace mx
             {
                 auto element = ornamentsChoice->getOtherOrnament();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
 
                 if( !mark.name.empty() )
                 {
@@ -663,80 +665,80 @@ namespace mx
             {
                 auto element = technicalChoice->getUpBow();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::downBow )
             {
                 auto element = technicalChoice->getDownBow();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::harmonic )
             {
                 auto element = technicalChoice->getHarmonic();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::openString )
             {
                 auto element = technicalChoice->getOpenString();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::thumbPosition )
             {
                 auto element = technicalChoice->getThumbPosition();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::doubleTongue )
             {
                 auto element = technicalChoice->getDoubleTongue();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::tripleTongue )
             {
                 auto element = technicalChoice->getTripleTongue();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::stopped )
             {
                 auto element = technicalChoice->getStopped();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::snapPizzicato )
             {
                 auto element = technicalChoice->getSnapPizzicato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::heel )
             {
                 auto element = technicalChoice->getHeel();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::toe )
             {
                 auto element = technicalChoice->getToe();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::fingernails )
             {
                 auto element = technicalChoice->getFingernails();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( ( mark.markType == api::MarkType::unknownTechnical ) ||
                     ( mark.markType == api::MarkType::otherTechnical ) )
             {
                 auto element = technicalChoice->getOtherTechnical();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
 
                 if( !mark.name.empty() )
                 {
diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f65325a..807e8d6 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -34,6 +34,7 @@
 #include "mx/core/elements/Octave.h"
 #include "mx/core/elements/Pitch.h"
 #include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/core/elements/Rest.h"
 #include "mx/core/elements/Staff.h"
 #include "mx/core/elements/Stem.h"
@@ -88,6 +89,7 @@ namespace mx
             NotationsWriter notationsWriter{ myNoteData, myCursor, myScoreWriter };
             auto& noteAttr = *myOutNote->getAttributes();
             impl::setAttributesFromPositionData(myNoteData.positionData, noteAttr);
+            impl::setAttributesFromPrintData( myNoteData.printData, noteAttr );
 
             auto notations = notationsWriter.getNotations();
             if( notations->getNotationsChoiceSet().size() > 0 )
diff --git a/Sourcecode/private/mx/impl/PrintFunctions.h b/Sourcecode/private/mx/impl/PrintFunctions.h
index 9410869..fa781c7 100644
--- a/Sourcecode/private/mx/impl/PrintFunctions.h
+++ b/Sourcecode/private/mx/impl/PrintFunctions.h
@@ -100,9 +100,13 @@ namespace mx
         template <typename ATTRIBUTES_TYPE>
         void setPrintObject( const api::Bool& inPrintObject, ATTRIBUTES_TYPE& outAttributes )
         {
-            if( !lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
+            const bool isSpecified = inPrintObject != api::Bool::unspecified;
+            lookForAndSetHasPrintObject( isSpecified, &outAttributes );
+
+            if( isSpecified )
             {
-                lookForAndSetPrintObject( inPrintObject, &outAttributes );
+                Converter converter;
+                lookForAndSetPrintObject( converter.convert( inPrintObject ), &outAttributes );
             }
         }
         
@@ -129,6 +133,7 @@ namespace mx
                 lookForAndSetColor( core::Color{}, &outAttributes );
             }
             
+            setPrintObject( inPrintData.printObject, outAttributes );
             setAttributesFromFontData( inPrintData.fontData, outAttributes );
         }
     }
-- 
2.43.0


From f3624e8d0115c5be3c52a4fa02ed48e9c01042cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 18/91] fix: read the print data of dynamics

---
 Sourcecode/private/mx/impl/DynamicsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DynamicsReader.cpp b/Sourcecode/private/mx/impl/DynamicsReader.cpp
index 6cfb3c1..585ae93 100644
--- a/Sourcecode/private/mx/impl/DynamicsReader.cpp
+++ b/Sourcecode/private/mx/impl/DynamicsReader.cpp
@@ -31,7 +31,7 @@ namespace mx
             markData.markType = markType;
             markData.tickTimePosition = myCursor.tickTimePosition;
             markData.name = myDynamic.getValue().getValueString();
-            markData.positionData = impl::getPositionData( *myDynamic.getAttributes() );
+            impl::parseMarkDataAttributes( *myDynamic.getAttributes(), markData );
             outMarks.emplace_back( std::move( markData ) );
         }
     }
-- 
2.43.0


From 1aba83eb2ea00884ee5e278fc7e2ce65649ae3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 19/91] fix: derive the note type from the duration in the
 divisions it is written in

---
 Sourcecode/private/mx/impl/NoteFunctions.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteFunctions.cpp b/Sourcecode/private/mx/impl/NoteFunctions.cpp
index c775e19..0f25fc9 100644
--- a/Sourcecode/private/mx/impl/NoteFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NoteFunctions.cpp
@@ -192,7 +192,7 @@ namespace mx
         api::DurationName NoteFunctions::deriveNoteTypeFromDurationValue( const NoteReader& reader ) const
         {
             const long double durationValue = reader.getDurationValue();
-            const long double ticksPerQuarter = static_cast<long double>( myCursor.getGlobalTicksPerQuarter() );
+            const long double ticksPerQuarter = static_cast<long double>( myCursor.ticksPerQuarter );
             
             if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_QUARTER * ticksPerQuarter ) )
             {
@@ -234,6 +234,11 @@ namespace mx
                 return api::DurationName::dur128th;
             }
             
+            if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_256TH * ticksPerQuarter ) )
+            {
+                return api::DurationName::dur256th;
+            }
+            
             if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_512TH * ticksPerQuarter ) )
             {
                 return api::DurationName::dur512th;
-- 
2.43.0


From c65dbd39370efbe716a6c0e3f3c24b8a673be368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 20/91] fix: a dot lengthens a note by half

---
 Sourcecode/include/mx/api/DurationData.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/include/mx/api/DurationData.h b/Sourcecode/include/mx/api/DurationData.h
index d63a0b3..b6964c9 100644
--- a/Sourcecode/include/mx/api/DurationData.h
+++ b/Sourcecode/include/mx/api/DurationData.h
@@ -51,12 +51,12 @@ namespace mx
         inline long double applyDots( long double inUnDottedValue, int inNumDots )
         {
             long double outValue = inUnDottedValue;
-            long double valueToAdd = inUnDottedValue / 0.5;
+            long double valueToAdd = inUnDottedValue * 0.5;
 
             for( int i = 0; i < inNumDots; ++i )
             {
                 outValue += valueToAdd;
-                valueToAdd /= 0.5;
+                valueToAdd *= 0.5;
             }
 
             return outValue;
-- 
2.43.0


From 64c13861a880f1cd0cf6de101ff2f2c49fed857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 21/91] fix: write the abbreviation of a part group

---
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 502f341..eb52501 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -4,6 +4,7 @@
 
 #include "mx/core/elements/Creator.h"
 #include "mx/core/elements/Encoding.h"
+#include "mx/core/elements/GroupAbbreviation.h"
 #include "mx/core/elements/GroupBarline.h"
 #include "mx/core/elements/GroupName.h"
 #include "mx/core/elements/GroupSymbol.h"
@@ -315,6 +316,12 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.abbreviation.size() > 0 )
+            {
+                mxGrp->setHasGroupAbbreviation( true );
+                mxGrp->getGroupAbbreviation()->setValue( core::XsString{ apiGrp.abbreviation } );
+            }
+
             Converter converter;
             if( apiGrp.bracketType != api::BracketType::unspecified )
             {
-- 
2.43.0


From 3147164f13bc018ddecbb77ab30644b8c3b62820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 22/91] fix: read the display abbreviation of a part from its
 own element

---
 Sourcecode/private/mx/impl/PartReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 2906af7..44ec6b9 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -28,6 +28,7 @@
 #include "mx/core/elements/Note.h"
 #include "mx/core/elements/Pan.h"
 #include "mx/core/elements/PartAbbreviation.h"
+#include "mx/core/elements/PartAbbreviationDisplay.h"
 #include "mx/core/elements/PartGroupOrScorePart.h"
 #include "mx/core/elements/PartList.h"
 #include "mx/core/elements/PartName.h"
@@ -208,7 +209,7 @@ namespace mx
             
             if( myScorePart.getHasPartAbbreviationDisplay() )
             {
-                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
             }
             
             if( myScorePart.getScoreInstrumentSet().size() > 0 )
@@ -238,7 +239,7 @@ namespace mx
                     {
                         ss << "b"; // TODO - support accidental text correctly
                     }
-                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::flat )
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::sharp )
                     {
                         ss << "#";
                     }
-- 
2.43.0


From 1946b0200a0d3bba5634bd82f530ab845ee431ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 23/91] fix: write the sound, the midi name and the unpitched
 midi note of an instrument

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index a34d9a2..39412fb 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -144,6 +144,7 @@ namespace mx
             
             if( myPartData.instrumentData.soundID != api::SoundID::unspecified && myPartData.instrumentData.soundID != api::SoundID::errorBadString )
             {
+                addScoreInstrument = true;
                 scoreIntstrument->setHasInstrumentSound( true );
                 Converter c;
                 scoreIntstrument->getInstrumentSound()->setValue( c.convert( myPartData.instrumentData.soundID ) );
@@ -166,6 +167,20 @@ namespace mx
                 midiGroup->setHasMidiDevice( true );
                 midiDevice.setValue( core::XsString{ myPartData.instrumentData.midiData.device } );
             }
+            if( myPartData.instrumentData.midiData.name.size() > 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiName( true );
+                midiInstrument.getMidiName()->setValue( core::XsString{ myPartData.instrumentData.midiData.name } );
+            }
+            if( myPartData.instrumentData.midiData.unpitched >= 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiUnpitched( true );
+                midiInstrument.getMidiUnpitched()->setValue( core::Midi128{ myPartData.instrumentData.midiData.unpitched } );
+            }
             if( myPartData.instrumentData.midiData.bank >= 0 )
             {
                 addMidiElement = true;
-- 
2.43.0


From 0ea8bd9133a096e5b7b8f1fb0cb3fdf02f75d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 24/91] fix: do not invent system margins for a top system
 distance

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 0a0a20a..c979fb1 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -195,7 +195,6 @@ namespace mx
                 const auto& top = inDefaults.systemLayout.topSystemDistance.value();
                 outScoreHeaderGroup.setHasDefaults( true );
                 layoutGroup.setHasSystemLayout( true );
-                systemLayout.setHasSystemMargins( true );
                 systemLayout.setHasTopSystemDistance( true );
                 systemLayout.getTopSystemDistance()->setValue( core::TenthsValue{ top } );
             }
-- 
2.43.0


From c4089d0ffcd6120888586ecf0d09392d586cd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 25/91] fix: read other-appearance as what it is, with its
 value

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index c979fb1..a93b745 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -239,7 +239,7 @@ namespace mx
                 {
                     const auto oa = core::makeOtherAppearance();
                     oa->getAttributes()->type = appearanceData.appearanceSubType;
-                    oa->setValue( core::XsString{ std::to_string( appearanceData.value ) } );
+                    oa->setValue( core::XsString{ core::Decimal{ appearanceData.value }.toString() } );
                     outScoreHeaderGroup.setHasDefaults( true );
                     outScoreHeaderGroup.getDefaults()->setHasAppearance( true );
                     outScoreHeaderGroup.getDefaults()->getAppearance()->addOtherAppearance( oa );
@@ -418,11 +418,11 @@ namespace mx
             for( const auto& other : appearance.getOtherAppearanceSet() )
             {
                 api::AppearanceData data{};
-                data.appearanceType = api::AppearanceType::Distance;
-                data.appearanceSubType = core::toString( other->getAttributes()->type );
-
-                // TODO - fix
-                data.value = 0.0;//other->getValue().getValue();
+                data.appearanceType = api::AppearanceType::OtherAppearance;
+                data.appearanceSubType = other->getAttributes()->type.getValue();
+                core::Decimal value;
+                value.parse( other->getValue().getValue() );
+                data.value = value.getValue();
                 outDefaults.appearance.emplace_back( std::move( data ) );
             }
         }
-- 
2.43.0


From 6bde725137b42e4f272e8444f738c3ec6cffdcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 26/91] fix: write and read the staff distance of a system

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 12 ++++++++++++
 Sourcecode/private/mx/impl/ScoreReader.cpp   | 10 ++++++++++
 2 files changed, 22 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index a196952..24bfad1 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -95,6 +95,8 @@
 #include "mx/core/elements/Segno.h"
 #include "mx/core/elements/Sign.h"
 #include "mx/core/elements/Staff.h"
+#include "mx/core/elements/StaffDistance.h"
+#include "mx/core/elements/StaffLayout.h"
 #include "mx/core/elements/StaffDetails.h"
 #include "mx/core/elements/Staves.h"
 #include "mx/core/elements/Stem.h"
@@ -316,6 +318,16 @@ namespace mx
                     });
                 }
 
+                if( inSystemLayout.staffDistance )
+                {
+                    auto staffLayout = core::makeStaffLayout();
+                    staffLayout->setHasStaffDistance( true );
+                    staffLayout->getStaffDistance()->setValue( core::TenthsValue{
+                        static_cast<core::DecimalType>( inSystemLayout.staffDistance.value() )
+                    });
+                    outLayoutGroup.addStaffLayout( staffLayout );
+                }
+
                 if( inSystemLayout.systemDistance )
                 {
                     outLayoutGroup.setHasSystemLayout( true );
diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 5ffa138..5b97989 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -42,6 +42,8 @@
 #include "mx/core/elements/ScorePart.h"
 #include "mx/core/elements/ScorePartwise.h"
 #include "mx/core/elements/Source.h"
+#include "mx/core/elements/StaffDistance.h"
+#include "mx/core/elements/StaffLayout.h"
 #include "mx/core/elements/SystemDistance.h"
 #include "mx/core/elements/SystemDividers.h"
 #include "mx/core/elements/SystemLayout.h"
@@ -488,6 +490,14 @@ namespace mx
                             systemData.layout.topSystemDistance = systemLayout.getTopSystemDistance()->getValue().getValue();
                         }
                     }
+                    for( const auto& staffLayout : layoutGroup.getStaffLayoutSet() )
+                    {
+                        if( staffLayout->getHasStaffDistance() )
+                        {
+                            systemData.layout.staffDistance = staffLayout->getStaffDistance()->getValue().getValue();
+                            break;
+                        }
+                    }
                     if( systemData.isUsed() )
                     {
                         auto& layout = myOutScoreData.layout[measureIndex];
-- 
2.43.0


From 2aba6b3d00f820c89c77f06f813dbad78f28b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 27/91] fix: write the diatonic part of a transposition also
 when it is zero

---
 Sourcecode/private/mx/impl/Converter.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 4dcf3ca..28497e4 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -1867,19 +1867,14 @@ namespace mx
                         });
             }
 
-            if( inTransposeData.diatonic != 0 )
+            const int harmonic = inTransposeData.diatonic - octave * 7;
+
+            // a transposition by semitones only needs the zero, readers guess a missing diatonic value
+            if( harmonic != 0 || inTransposeData.chromatic % 12 != 0 )
             {
-                auto harmonic = inTransposeData.diatonic;
-                if( octave != 0 )
-                {
-                    harmonic += octave * -7;
-                }
-                if( harmonic != 0 )
-                {
-                    transposePtr->setHasDiatonic( true );
-                    auto dia = transposePtr->getDiatonic();
-                    dia->setValue( mx::core::Integer{ harmonic } );
-                }
+                transposePtr->setHasDiatonic( true );
+                auto dia = transposePtr->getDiatonic();
+                dia->setValue( mx::core::Integer{ harmonic } );
             }
 
             return transposePtr;
-- 
2.43.0


From 88b844609b43766fff60670a8aa33491d4d0279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 28/91] fix: write bracket stops and the properties of bracket
 starts

---
 Sourcecode/private/mx/impl/DirectionReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 15 +++++++++++++++
 Sourcecode/private/mx/impl/LineFunctions.h     | 14 +++++++-------
 Sourcecode/private/mx/impl/SpannerFunctions.h  |  8 ++++++++
 4 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 41ba238..9777689 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -475,7 +475,7 @@ namespace mx
             {
                 api::SpannerStop stop;
                 stop.tickTimePosition = myCursor.tickTimePosition;
-                stop.numberLevel = impl::checkNumber( &attr );
+                stop.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
                 return;
@@ -484,7 +484,7 @@ namespace mx
             {
                 api::SpannerStart start;
                 start.tickTimePosition = myCursor.tickTimePosition;
-                start.numberLevel = impl::checkNumber( &attr );
+                start.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 start.positionData = this->parsePositionData( attr );
                 start.lineData = impl::getLineData( attr );
                 start.printData = impl::getPrintData( attr );
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 57d1d11..c9af32f 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -254,6 +254,17 @@ namespace mx
                 }
             }
             
+            for( const auto& item : myDirectionData.bracketStops )
+            {
+                auto outDirType = core::makeDirectionType();
+                this->addDirectionType( outDirType, directionPtr );
+                outDirType->setChoice( core::DirectionType::Choice::bracket );
+                auto& attr = *outDirType->getBracket()->getAttributes();
+                attr.type = core::StartStopContinue::stop;
+                setAttributesFromSpannerStop( item, attr );
+                setAttributesFromPositionData( item.positionData, attr );
+            }
+
             for( const auto& item : myDirectionData.bracketStarts )
             {
                 auto outDirType = core::makeDirectionType();
@@ -261,7 +272,11 @@ namespace mx
                 outDirType->setChoice( core::DirectionType::Choice::bracket );
                 auto outElement = outDirType->getBracket();
                 auto& attr = *outElement->getAttributes();
+                attr.type = core::StartStopContinue::start;
                 setAttributesFromSpannerStart( item, attr );
+                setAttributesFromPositionData( item.positionData, attr );
+                setAttributesFromPrintData( item.printData, attr );
+                setAttributesFromLineData( item.lineData, attr );
             }
 
             for( const auto& tempo : myDirectionData.tempos )
diff --git a/Sourcecode/private/mx/impl/LineFunctions.h b/Sourcecode/private/mx/impl/LineFunctions.h
index 4efb8d5..e7d9cfb 100644
--- a/Sourcecode/private/mx/impl/LineFunctions.h
+++ b/Sourcecode/private/mx/impl/LineFunctions.h
@@ -17,8 +17,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_FUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
 
-        MX_ATTR_FUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_FUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_FUNC_OPTIONAL( hasLineEnd, HasLineStop, bool, false );
+        MX_ATTR_FUNC_OPTIONAL( lineEnd, LineStop, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_FUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( dashLength, DashLength, long double, 0.0L );
@@ -26,7 +26,7 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( spaceLength, SpaceLength, long double, 0.0L );
         
-        MX_ATTR_FUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
+        MX_ATTR_FUNC_OPTIONAL( hasEndLength, HasStopLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, StopLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
@@ -69,8 +69,8 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        // the line-end attribute is required where it exists, so there is no has-field to set
+        MX_ATTR_SETFUNC_OPTIONAL( lineEnd, LineStop, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_SETFUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( spaceLength, SpaceLength, long double, 0.0L );
@@ -78,7 +78,7 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( dashLength, DashLength, long double, 0.0L );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
+        MX_ATTR_SETFUNC_OPTIONAL( hasEndLength, HasStopLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, StopLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
@@ -95,7 +95,7 @@ namespace mx
                 lookForAndSetSpaceLength( inLineData.spaceLength, &outAttributes );
             }
             
-            if( lookForAndSetHasLineStop( inLineData.lineHook != api::LineHook::unspecified, &outAttributes ) )
+            if( inLineData.lineHook != api::LineHook::unspecified )
             {
                 lookForAndSetLineStop( converter.convert( inLineData.lineHook ), &outAttributes );
             }
diff --git a/Sourcecode/private/mx/impl/SpannerFunctions.h b/Sourcecode/private/mx/impl/SpannerFunctions.h
index 55e5fce..615f7b4 100644
--- a/Sourcecode/private/mx/impl/SpannerFunctions.h
+++ b/Sourcecode/private/mx/impl/SpannerFunctions.h
@@ -64,5 +64,13 @@ namespace mx
             }
             
         }
+
+        template <typename ATTRIBUTES_TYPE>
+        void setAttributesFromSpannerStop( const api::SpannerStop& stop, ATTRIBUTES_TYPE& outAttributes )
+        {
+            const bool isNumberSpecified = stop.numberLevel > 0;
+            lookForAndSetHasNumber( isNumberSpecified, &outAttributes );
+            lookForAndSetNumber( isNumberSpecified ? stop.numberLevel : 1, &outAttributes );
+        }
     }
 }
-- 
2.43.0


From 8139c7bf511166f7e933e72da6086fdfc04275ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 29/91] fix: write the rehearsal marks, segnos and codas of
 directions and read their color

---
 .../private/mx/impl/DirectionReader.cpp       |  5 ++
 .../private/mx/impl/DirectionWriter.cpp       | 56 ++++++++++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 9777689..8e9167f 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -326,7 +326,9 @@ namespace mx
                 const auto& attr = *rehearsalPtr->getAttributes();
                 outRehearsal.text = rehearsalPtr->getValue().getValue();
                 outRehearsal.positionData = getPositionData( attr );
+                outRehearsal.isColorSpecified = checkHasColor<std::decay_t<decltype( attr )>>( &attr );
                 outRehearsal.colorData = getColor( attr );
+                outRehearsal.fontData = getFontData( attr );
                 myOutDirectionData.rehearsals.emplace_back( std::move( outRehearsal ) );
             }
 
@@ -343,6 +345,7 @@ namespace mx
                 api::SegnoData outSegno;
                 const auto& attr = *segnoPtr->getAttributes();
                 outSegno.positionData = getPositionData( attr );
+                outSegno.isColorSpecified = checkHasColor<std::decay_t<decltype( attr )>>( &attr );
                 outSegno.colorData = getColor( attr );
                 myOutDirectionData.segnos.emplace_back( std::move( outSegno ) );
             }
@@ -359,6 +362,7 @@ namespace mx
                 const auto& attr = *wordPtr->getAttributes();
                 outWords.text = wordPtr->getValue().getValue();
                 outWords.positionData = getPositionData( attr );
+                outWords.isColorSpecified = checkHasColor<std::decay_t<decltype( attr )>>( &attr );
                 outWords.colorData = getColor( attr );
                 outWords.fontData = getFontData( attr );
                 myOutDirectionData.words.emplace_back( std::move( outWords ) );
@@ -375,6 +379,7 @@ namespace mx
                 api::CodaData outCoda;
                 const auto& attr = *codaPtr->getAttributes();
                 outCoda.positionData = getPositionData( attr );
+                outCoda.isColorSpecified = checkHasColor<std::decay_t<decltype( attr )>>( &attr );
                 outCoda.colorData = getColor( attr );
                 myOutDirectionData.codas.emplace_back( std::move( outCoda ) );
             }
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index c9af32f..f9ca8c4 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -312,6 +312,59 @@ namespace mx
                 //setAttributesFromSpannerStart( item, attr );
             }
 
+            for( const auto& item : myDirectionData.rehearsals )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::rehearsal );
+                auto outRehearsal = core::makeRehearsal();
+                outDirType->addRehearsal( outRehearsal );
+                outDirType->removeRehearsal( outDirType->getRehearsalSet().cbegin() );
+                auto& attr = *outRehearsal->getAttributes();
+                outRehearsal->setValue( core::XsString{ item.text } );
+                setAttributesFromPositionData( item.positionData, attr );
+                setAttributesFromFontData( item.fontData, attr );
+                if( item.isColorSpecified )
+                {
+                    lookForAndSetHasColor( true, &attr );
+                    setAttributesFromColorData( item.colorData, attr );
+                }
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            for( const auto& item : myDirectionData.segnos )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::segno );
+                auto outSegno = core::makeSegno();
+                outDirType->addSegno( outSegno );
+                outDirType->removeSegno( outDirType->getSegnoSet().cbegin() );
+                auto& attr = *outSegno->getAttributes();
+                setAttributesFromPositionData( item.positionData, attr );
+                if( item.isColorSpecified )
+                {
+                    lookForAndSetHasColor( true, &attr );
+                    setAttributesFromColorData( item.colorData, attr );
+                }
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            for( const auto& item : myDirectionData.codas )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::coda );
+                auto outCoda = core::makeCoda();
+                outDirType->addCoda( outCoda );
+                outDirType->removeCoda( outDirType->getCodaSet().cbegin() );
+                auto& attr = *outCoda->getAttributes();
+                setAttributesFromPositionData( item.positionData, attr );
+                if( item.isColorSpecified )
+                {
+                    lookForAndSetHasColor( true, &attr );
+                    setAttributesFromColorData( item.colorData, attr );
+                }
+                addDirectionType( outDirType, directionPtr );
+            }
+
             if( myDirectionData.words.size() > 0 )
             {
                 bool isFirstWordsAdded = false;
@@ -336,8 +389,7 @@ namespace mx
 
                     if( wordsData.isColorSpecified )
                     {
-                        // TODO - oops color is missing from words
-//                        attr.hasColor = true;
+                        lookForAndSetHasColor( true, &attr );
                         setAttributesFromColorData( wordsData.colorData, attr );
                     }
                 }
-- 
2.43.0


From 10826fc94680756d244e3616b57fa752d54862d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 30/91] fix: write the number levels of wedges and ottavas and
 the properties of ottavas

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index f9ca8c4..198e4ae 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -166,6 +166,12 @@ namespace mx
                 auto wedgePtr = wedgeStartDirectionTypePtr->getWedge();
                 auto& attr = *wedgePtr->getAttributes();
                 attr.type = core::WedgeType::stop;
+
+                if( wedgeStop.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStop.numberLevel };
+                }
                 
                 if( wedgeStop.isSpreadSpecified )
                 {
@@ -184,6 +190,12 @@ namespace mx
                 auto wedgePtr = wedgeStartDirectionTypePtr->getWedge();
                 auto& attr = *wedgePtr->getAttributes();
 
+                if( wedgeStart.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStart.numberLevel };
+                }
+
                 if( wedgeStart.wedgeType != api::WedgeType::unspecified )
                 {
                     attr.type = myConverter.convert( wedgeStart.wedgeType );
@@ -210,7 +222,8 @@ namespace mx
                 auto oStart = oStopDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
                 attr.type = core::UpDownStopContinue::stop;
-                MX_UNUSED( ottavaStop );
+                setAttributesFromSpannerStop( ottavaStop, attr );
+                setAttributesFromPositionData( ottavaStop.positionData, attr );
             }
             
             for( const auto& ottavaStart : myDirectionData.ottavaStarts )
@@ -221,6 +234,9 @@ namespace mx
                 auto oStart = oStartDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
                 impl::setAttributesFromLineData( ottavaStart.spannerStart.lineData, attr );
+                setAttributesFromSpannerStart( ottavaStart.spannerStart, attr );
+                setAttributesFromPositionData( ottavaStart.spannerStart.positionData, attr );
+                setAttributesFromPrintData( ottavaStart.spannerStart.printData, attr );
                 
                 attr.hasSize = true;
                 
-- 
2.43.0


From 525187807512bf2e69807efaa1ef8a0a8af2b2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 31/91] fix: write the location of a clef

---
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 12e4c3c..c7d44fe 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -266,6 +266,13 @@ namespace mx
                 mxClef->getAttributes()->number = core::StaffNumber{ staffIndex + 1 };
             }
             
+            if( inClefData.location == api::ClefLocation::beforeBarline || inClefData.location == api::ClefLocation::afterBarline )
+            {
+                mxClef->getAttributes()->hasAfterBarline = true;
+                mxClef->getAttributes()->afterBarline =
+                    inClefData.location == api::ClefLocation::afterBarline ? core::YesNo::yes : core::YesNo::no;
+            }
+
             Converter converter;
             mxClef->getSign()->setValue( converter.convert( inClefData.symbol ) );
             
-- 
2.43.0


From ba8eb68ce60cb061c022f44094cc68e0f128cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 32/91] fix: write whether a chord extension is printed

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 198e4ae..df12d4a 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -577,6 +577,12 @@ namespace mx
                         case api::ExtensionAlter::none: degree->getDegreeAlter()->setValue( core::Semitones{ 0.0 } ); break;
                     }
 
+                    if( extension.printObject != api::Bool::unspecified )
+                    {
+                        degree->getAttributes()->hasPrintObject = true;
+                        degree->getAttributes()->printObject = myConverter.convert( extension.printObject );
+                    }
+
                     grp->addDegree( degree );
                 }
 
-- 
2.43.0


From af3abe0996826ecb4db02573c2b366afa8fa264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 33/91] fix: write the placement and the staff of chord symbols

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index df12d4a..08e9331 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -466,7 +466,13 @@ namespace mx
                 harmony->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( inOffset ) } );
             }
 
-            if( myDirectionData.isStaffValueSpecified )
+            if( myDirectionData.placement != api::Placement::unspecified )
+            {
+                harmony->getAttributes()->hasPlacement = true;
+                harmony->getAttributes()->placement = myConverter.convert( myDirectionData.placement );
+            }
+
+            if( myDirectionData.isStaffValueSpecified || myCursor.staffIndex != 0 )
             {
                 harmony->setHasStaff( true );
                 harmony->getStaff()->setValue( core::PositiveInteger{ myCursor.staffIndex + 1 } );
-- 
2.43.0


From bc9faf5a98577cd86b45d0ed03a71a050a7a1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 34/91] fix: write and read whether a measure is
 non-controlling

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 5 +++++
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index e92ed6a..9b41fe0 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -134,6 +134,11 @@ namespace mx
                 myOutMeasureData.implicit = attr.implicit == core::YesNo::yes ? api::Bool::yes : api::Bool::no;
             }
             
+            if( attr.hasNonControlling )
+            {
+                myOutMeasureData.nonControlling = attr.nonControlling == core::YesNo::yes ? api::Bool::yes : api::Bool::no;
+            }
+
             addStavesToOutMeasure();
             parseTimeSignature();
             
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 24bfad1..eb14f50 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -201,6 +201,12 @@ namespace mx
                 measureAttr.implicit = converter.convert( myMeasureData.implicit );
             }
             
+            if( myMeasureData.nonControlling != api::Bool::unspecified )
+            {
+                measureAttr.hasNonControlling = true;
+                measureAttr.nonControlling = converter.convert( myMeasureData.nonControlling );
+            }
+
             if( myScoreWriter.isSystemInfo( myHistory.getCursor().measureIndex ) )
             {
                 writeSystemInfo();
-- 
2.43.0


From c79576ea05b3fab4274106b3691fc0070f043339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 35/91] fix: convert the offset of directions and chord symbols
 to the tick scale of the score

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 8e9167f..f9dfc32 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -123,16 +123,14 @@ namespace mx
             {
                 if( myDirection->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myDirection->getOffset()->getValue().getValue() - 0.5 ) );
-                    myOutDirectionData.tickTimePosition += offset;
+                    myOutDirectionData.tickTimePosition += myCursor.convertDurationToGlobalTickScale( myDirection->getOffset()->getValue().getValue() );
                 }
             }
             else if( myHarmony )
             {
                 if( myHarmony->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myHarmony->getOffset()->getValue().getValue() - 0.5 ) );
-                    myOutDirectionData.tickTimePosition += offset;
+                    myOutDirectionData.tickTimePosition += myCursor.convertDurationToGlobalTickScale( myHarmony->getOffset()->getValue().getValue() );
                 }
             }
         }
-- 
2.43.0


From 10241b158451f0b50d5f182d80f2bc545728d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 36/91] fix: write the number of measures of a multi-measure
 rest

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp    |  5 +++++
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 12 ++++++++++++
 Sourcecode/private/mx/impl/PropertiesWriter.h   |  1 +
 3 files changed, 18 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index eb14f50..7211feb 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -233,6 +233,11 @@ namespace mx
                 myPropertiesWriter->writeTime( myMeasureData.timeSignature );
             }
             
+            if( myMeasureData.multiMeasureRest > 0 )
+            {
+                myPropertiesWriter->writeMultiMeasureRest( myMeasureData.multiMeasureRest );
+            }
+
             int localStaffCounter = 0;
             
             for( const auto& staff : myMeasureData.staves )
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index c7d44fe..2cc1113 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -15,6 +15,8 @@
 #include "mx/core/elements/Key.h"
 #include "mx/core/elements/Level.h"
 #include "mx/core/elements/MeasureStyle.h"
+#include "mx/core/elements/MeasureStyleChoice.h"
+#include "mx/core/elements/MultipleRest.h"
 #include "mx/core/elements/PartSymbol.h"
 #include "mx/core/elements/StaffDetails.h"
 #include "mx/core/elements/Staves.h"
@@ -217,6 +219,16 @@ namespace mx
         }
         
         
+        void PropertiesWriter::writeMultiMeasureRest( int numMeasures )
+        {
+            auto measureStyle = core::makeMeasureStyle();
+            measureStyle->getMeasureStyleChoice()->setChoice( core::MeasureStyleChoice::Choice::multipleRest );
+            const auto multipleRest = measureStyle->getMeasureStyleChoice()->getMultipleRest();
+            multipleRest->setValue( core::PositiveIntegerOrEmpty{ core::PositiveInteger{ numMeasures } } );
+            myProperties->addMeasureStyle( measureStyle );
+        }
+
+
         void PropertiesWriter::writeTime( const api::TimeSignatureData& value )
         {
             auto time = core::makeTime();
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.h b/Sourcecode/private/mx/impl/PropertiesWriter.h
index 5ca3093..bb3b56c 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.h
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.h
@@ -56,6 +56,7 @@ namespace mx
             void writeKey( int staffIndex, const api::KeyData& inKeyData );
             static void writeTraditionalKey( const api::KeyData& inKeyData, mx::core::KeyPtr& ioKey );
             static void writeNonTraditionalKey( const api::KeyData& inKeyData, mx::core::KeyPtr& ioKey );
+            void writeMultiMeasureRest( int numMeasures );
             void writeTime( const api::TimeSignatureData& value );
             void writeNumStaves( int value );
             void writeClef( int staffIndex, const api::ClefData& inClefData );
-- 
2.43.0


From 45cb46f05b58324326ba983896456d60dde944ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 37/91] fix: write and read metric modulations, tempo texts and
 the print properties of tempos

---
 .../private/mx/impl/DirectionReader.cpp       |  7 ++-
 .../private/mx/impl/DirectionWriter.cpp       | 44 ++++++++++++++-----
 .../private/mx/impl/MetronomeReader.cpp       | 24 +++++++++-
 3 files changed, 61 insertions(+), 14 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index f9dfc32..3b9093b 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -534,7 +534,12 @@ namespace mx
         {
             const auto& metronome = *directionType.getMetronome();
             MetronomeReader reader{ metronome };
-            myOutDirectionData.tempos.emplace_back( reader.getTempoData() );
+            auto tempo = reader.getTempoData();
+
+            if( tempo.tempoType != api::TempoType::unspecified )
+            {
+                myOutDirectionData.tempos.emplace_back( std::move( tempo ) );
+            }
         }
         
         
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 08e9331..07301c4 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -297,11 +297,11 @@ namespace mx
 
             for( const auto& tempo : myDirectionData.tempos )
             {
-                if( tempo.tempoType != api::TempoType::beatsPerMinute )
+                if( tempo.tempoType == api::TempoType::unspecified )
                 {
-                    MX_THROW( "Only api::TempoType::beatsPerMinute is supported, others are not implemented" );
+                    continue;
                 }
-                
+
                 auto outDirType = core::makeDirectionType();
                 this->addDirectionType( outDirType, directionPtr );
                 outDirType->setChoice( core::DirectionType::Choice::metronome );
@@ -312,20 +312,42 @@ namespace mx
                 auto beatUnitGroup = bpm->getBeatUnitGroup();
                 auto beatUnit = beatUnitGroup->getBeatUnit();
                 Converter converter;
-                beatUnit->setValue(converter.convert(tempo.beatsPerMinute.durationName));
+                const bool isModulation = tempo.tempoType == api::TempoType::metricModulation;
+                const auto& modulation = tempo.metricModulation;
+                beatUnit->setValue( converter.convert( isModulation ? modulation.leftDurationName : tempo.beatsPerMinute.durationName ) );
                 
-                for( int d = 0; d < tempo.beatsPerMinute.dots; ++d )
+                for( int d = 0; d < ( isModulation ? modulation.leftDots : tempo.beatsPerMinute.dots ); ++d )
                 {
                     beatUnitGroup->addBeatUnitDot(core::makeBeatUnitDot());
                 }
                 
                 auto pmobuc = bpm->getPerMinuteOrBeatUnitChoice();
-                pmobuc->setChoice( core::PerMinuteOrBeatUnitChoice::Choice::perMinute );
-                auto pm = pmobuc->getPerMinute();
-                auto str = std::to_string( tempo.beatsPerMinute.beatsPerMinute );
-                pm->setValue( core::XsString{ str } );
-                //auto& attr = *outElement->getAttributes();
-                //setAttributesFromSpannerStart( item, attr );
+
+                if( isModulation )
+                {
+                    pmobuc->setChoice( core::PerMinuteOrBeatUnitChoice::Choice::beatUnitGroup );
+                    auto rightGroup = pmobuc->getBeatUnitGroup();
+                    rightGroup->getBeatUnit()->setValue( converter.convert( modulation.rightDurationName ) );
+
+                    for( int d = 0; d < modulation.rightDots; ++d )
+                    {
+                        rightGroup->addBeatUnitDot( core::makeBeatUnitDot() );
+                    }
+                }
+                else
+                {
+                    pmobuc->setChoice( core::PerMinuteOrBeatUnitChoice::Choice::perMinute );
+                    auto pm = pmobuc->getPerMinute();
+                    const bool isText = tempo.tempoType == api::TempoType::tempoText;
+                    auto str = isText ? tempo.tempoText.tempoText : std::to_string( tempo.beatsPerMinute.beatsPerMinute );
+                    pm->setValue( core::XsString{ str } );
+                }
+
+                auto& attr = *outElement->getAttributes();
+                attr.hasParentheses = tempo.isParenthetical != api::Bool::unspecified;
+                attr.parentheses = tempo.isParenthetical == api::Bool::yes ? core::YesNo::yes : core::YesNo::no;
+                setAttributesFromPositionData( tempo.positionData, attr );
+                setAttributesFromPrintData( tempo.printData, attr );
             }
 
             for( const auto& item : myDirectionData.rehearsals )
diff --git a/Sourcecode/private/mx/impl/MetronomeReader.cpp b/Sourcecode/private/mx/impl/MetronomeReader.cpp
index 64e7627..0da1914 100644
--- a/Sourcecode/private/mx/impl/MetronomeReader.cpp
+++ b/Sourcecode/private/mx/impl/MetronomeReader.cpp
@@ -16,6 +16,8 @@
 #include "mx/core/elements/PerMinute.h"
 #include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
 #include "mx/impl/Converter.h"
+#include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/utility/StringToInt.h"
 
 
@@ -57,6 +59,16 @@ namespace mx
                     break;
             }
             
+            const auto& attr = *myMetronome.getAttributes();
+            myOutTempoData.positionData = getPositionData( attr );
+            myOutTempoData.printData = getPrintData( attr );
+
+            if( attr.hasParentheses )
+            {
+                Converter converter;
+                myOutTempoData.isParenthetical = converter.convert( attr.parentheses );
+            }
+
             api::TempoData temp{ std::move( myOutTempoData ) };
             myOutTempoData = api::TempoData{};
             return temp;
@@ -88,7 +100,7 @@ namespace mx
         
         void MetronomeReader::parseNoteRelationNote() const
         {
-            MX_THROW( "wtf is this" );
+            // not supported, the tempo type stays unspecified
         }
         
         
@@ -117,7 +129,15 @@ namespace mx
         
         void MetronomeReader::parseMetronomeModulation() const
         {
-            
+            myOutTempoData.tempoType = api::TempoType::metricModulation;
+            const auto& beatUnitPer = *myBeatUnitPerOrNoteRelationNoteChoice.getBeatUnitPer();
+            const auto& left = *beatUnitPer.getBeatUnitGroup();
+            const auto& right = *beatUnitPer.getPerMinuteOrBeatUnitChoice()->getBeatUnitGroup();
+            Converter converter;
+            myOutTempoData.metricModulation.leftDurationName = converter.convert( left.getBeatUnit()->getValue() );
+            myOutTempoData.metricModulation.leftDots = static_cast<int>( left.getBeatUnitDotSet().size() );
+            myOutTempoData.metricModulation.rightDurationName = converter.convert( right.getBeatUnit()->getValue() );
+            myOutTempoData.metricModulation.rightDots = static_cast<int>( right.getBeatUnitDotSet().size() );
         }
     }
 }
-- 
2.43.0


From a76ab8d6bae52b28ca7998497472f08de31ad821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 38/91] fix: write mid-measure clefs and keys at their own time
 and staff

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 110 ++++++++++---------
 Sourcecode/private/mx/impl/MeasureWriter.h   |   4 +
 2 files changed, 65 insertions(+), 49 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 7211feb..1903864 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -444,6 +444,7 @@ namespace mx
 
                     myHistory.setChord( noteIter->isChord );
                     const auto& apiNote = *noteIter;
+                    writeClefsAndKeys( clefIter, clefEnd, staffKeyIter, staffKeyEnd, std::max( 0, apiNote.tickTimePosition ) );
                     writeForwardOrBackupIfNeeded( apiNote );
                     
                     if ( noteIter->isChord )
@@ -474,26 +475,6 @@ namespace mx
                         previousChordTickPosition = currentChordTickPosition;
                     }
 
-                    if( myMeasureKeysIter != myMeasureKeysEnd )
-                    {
-                        if( myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
-                        {
-                            myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                            ++myMeasureKeysIter;
-                        }
-                    }
-                    
-                    while( clefIter != clefEnd && clefIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
-                    {
-                        myPropertiesWriter->writeClef( myHistory.getCursor().staffIndex, *clefIter );
-                        ++clefIter;
-                    }
-                    
-                    for( ; staffKeyIter != staffKeyEnd && staffKeyIter->tickTimePosition <= myHistory.getCursor().tickTimePosition; ++staffKeyIter )
-                    {
-                        myPropertiesWriter->writeKey( myHistory.getCursor().staffIndex, *staffKeyIter );
-                    }
-
                     myPropertiesWriter->flushBuffer();
 
                     int minDirectionTime = myHistory.getCursor().tickTimePosition;
@@ -531,34 +512,8 @@ namespace mx
             const auto iterEnd = std::cend(fakeEmptyNoteVector);
             writeDirections( directionIter, directionEnd, iterEnd, iterBegin, iterEnd );
             
-            bool areClefsRemaining = clefIter != clefEnd;
-            bool areMeasureKeysRemaining = myMeasureKeysIter != myMeasureKeysEnd;
-            bool areStaffKeysRemaining = staffKeyIter != staffKeyEnd;
-            
-            if( areClefsRemaining || areMeasureKeysRemaining || areStaffKeysRemaining )
-            {
-                for( ; clefIter != inStaff.clefs.cend(); ++clefIter )
-                {
-                    MX_ASSERT( clefIter != inStaff.clefs.cend() );
-                    api::ClefData clef = *clefIter;
-                    myPropertiesWriter->writeClef( myHistory.getCursor().staffIndex, clef );
-                }
-                
-                if( myMeasureKeysIter != myMeasureKeysEnd )
-                {
-                    if( myMeasureKeysIter->tickTimePosition )
-                    {
-                        myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                        ++myMeasureKeysIter;
-                    }
-                }
-                
-                for( ; staffKeyIter != staffKeyEnd; ++staffKeyIter )
-                {
-                    myPropertiesWriter->writeKey( myHistory.getCursor().staffIndex, *staffKeyIter );
-                }
-                myPropertiesWriter->flushBuffer();
-            }
+            writeClefsAndKeys( clefIter, clefEnd, staffKeyIter, staffKeyEnd, api::TICK_TIME_INFINITY );
+            myPropertiesWriter->flushBuffer();
 
         } // func writeVoices
         
@@ -572,7 +527,13 @@ namespace mx
                 return;
             }
 
-            const int timeDifference = currentNote.tickTimePosition - myHistory.getCursor().tickTimePosition;
+            moveCursorTo( currentNote.tickTimePosition );
+        }
+
+
+        void MeasureWriter::moveCursorTo( int tickTimePosition )
+        {
+            const int timeDifference = tickTimePosition - myHistory.getCursor().tickTimePosition;
             if( timeDifference < 0 )
             {
                 backup( -1 * timeDifference );
@@ -584,6 +545,57 @@ namespace mx
         }
         
         
+        // writes the clefs and keys that are due no later than maxTime, each of them at its own time
+        void MeasureWriter::writeClefsAndKeys( ClefIter& clefIter, const ClefIter& clefEnd, KeyIter& staffKeyIter, const KeyIter& staffKeyEnd, int maxTime )
+        {
+            const auto moveTo = [&]( int time )
+            {
+                const auto& timeSignature = myMeasureData.timeSignature;
+                const int beatType = std::max( 1, timeSignature.beatType );
+                const long measureTime = 4L * timeSignature.beats * cursor().getGlobalTicksPerQuarter() / beatType;
+                const bool isInMeasure = time >= 0 && time <= measureTime;
+                // without any notes everything stays together at the beginning of the measure
+                const bool isEmpty = maxTime == api::TICK_TIME_INFINITY && cursor().tickTimePosition == 0;
+
+                if( isInMeasure && !isEmpty && time != cursor().tickTimePosition )
+                {
+                    myPropertiesWriter->flushBuffer();
+                    moveCursorTo( time );
+                }
+            };
+
+            while( true )
+            {
+                const int measureKeyTime = myMeasureKeysIter != myMeasureKeysEnd ? myMeasureKeysIter->tickTimePosition : api::TICK_TIME_INFINITY;
+                const int clefTime = clefIter != clefEnd ? clefIter->tickTimePosition : api::TICK_TIME_INFINITY;
+                const int staffKeyTime = staffKeyIter != staffKeyEnd ? staffKeyIter->tickTimePosition : api::TICK_TIME_INFINITY;
+
+                if( myMeasureKeysIter != myMeasureKeysEnd && measureKeyTime <= std::min( { maxTime, clefTime, staffKeyTime } ) )
+                {
+                    moveTo( measureKeyTime );
+                    myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
+                    ++myMeasureKeysIter;
+                }
+                else if( clefIter != clefEnd && clefTime <= std::min( maxTime, staffKeyTime ) )
+                {
+                    moveTo( clefTime );
+                    myPropertiesWriter->writeClef( cursor().staffIndex, *clefIter );
+                    ++clefIter;
+                }
+                else if( staffKeyIter != staffKeyEnd && staffKeyTime <= maxTime )
+                {
+                    moveTo( staffKeyTime );
+                    myPropertiesWriter->writeKey( cursor().staffIndex, *staffKeyIter );
+                    ++staffKeyIter;
+                }
+                else
+                {
+                    return;
+                }
+            }
+        }
+
+
         void MeasureWriter::backup( const int inTicks )
         {
             // ensure we don't go below zero
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.h b/Sourcecode/private/mx/impl/MeasureWriter.h
index a7d68dd..0148b32 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.h
+++ b/Sourcecode/private/mx/impl/MeasureWriter.h
@@ -214,6 +214,10 @@ namespace mx
             void writeStaves();
             void writeVoices( const api::StaffData& inStaff );
             void writeForwardOrBackupIfNeeded( const api::NoteData& currentNote );
+            void moveCursorTo( int tickTimePosition );
+            using ClefIter = std::vector<api::ClefData>::const_iterator;
+            using KeyIter = std::vector<api::KeyData>::const_iterator;
+            void writeClefsAndKeys( ClefIter& clefIter, const ClefIter& clefEnd, KeyIter& staffKeyIter, const KeyIter& staffKeyEnd, int maxTime );
             void backup( const int ticks );
             void forward( const int ticks );
             bool isAdvanceNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd );
-- 
2.43.0


From aa63b71c8728628b5a9edb2ff1767916ca11bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 39/91] fix: write a barline in the middle of a measure at its
 own time

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 1903864..2cce10a 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -767,6 +767,12 @@ namespace mx
         {
             for( ; myBarlinesIter != myBarlinesEnd && myBarlinesIter->tickTimePosition <= tickTimePosition; ++myBarlinesIter )
             {
+                if( myBarlinesIter->location == api::HorizontalAlignment::center && myBarlinesIter->tickTimePosition >= 0
+                    && myBarlinesIter->tickTimePosition != api::TICK_TIME_INFINITY )
+                {
+                    moveCursorTo( myBarlinesIter->tickTimePosition );
+                }
+
                 auto mdc = core::makeMusicDataChoice();
                 mdc->setChoice( core::MusicDataChoice::Choice::barline );
                 auto barlineElement = mdc->getBarline();
-- 
2.43.0


From 8292a1a51f69b8298c8aa02d5c6ecc22433d9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 40/91] fix: read the staff and the time of non-traditional
 keys

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 25 ++++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 9b41fe0..7b2a9ce 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -468,9 +468,20 @@ namespace mx
                 const auto keyChoiceObj = *key.getKeyChoice();
                 const auto keyType = keyChoiceObj.getChoice();
 
+                api::KeyData keyData;
+                keyData.tickTimePosition = myCurrentCursor.tickTimePosition;
+
+                if( attr.hasNumber )
+                {
+                    keyData.staffIndex = attr.number.getValue() - 1;
+                    if( keyData.staffIndex > myCurrentCursor.getNumStaves() - 1 )
+                    {
+                        keyData.staffIndex = -1;
+                    }
+                }
+
                 if( keyType == core::KeyChoice::Choice::nonTraditionalKey )
                 {
-                    api::KeyData keyData;
                     const auto& nonTraditionalKeyParts = key.getKeyChoice()->getNonTraditionalKeySet();
                     for( const auto& nonTraditionalKeyPart : nonTraditionalKeyParts )
                     {
@@ -497,19 +508,9 @@ namespace mx
                     continue;
                 }
                 
-                api::KeyData keyData;
                 // TODO - do position attributes
                 const auto& traditionalKey = *keyChoiceObj.getTraditionalKey();
                 
-                if( attr.hasNumber )
-                {
-                    keyData.staffIndex = attr.number.getValue() - 1;
-                    if( keyData.staffIndex > myCurrentCursor.getNumStaves() - 1 )
-                    {
-                        keyData.staffIndex = -1;
-                    }
-                }
-                
                 keyData.fifths = traditionalKey.getFifths()->getValue().getValue();
                 if( traditionalKey.getHasCancel() )
                 {
@@ -533,8 +534,6 @@ namespace mx
                         keyData.mode = api::KeyMode::unsupported;
                     }
                 }
-                keyData.tickTimePosition = myCurrentCursor.tickTimePosition;
-                
                 myOutMeasureData.keys.emplace_back( std::move( keyData ) );
             }
             importClefs( inMxProperties.getClefSet() );
-- 
2.43.0


From 49303c4632080ba933386527b8c9b40fa18ee30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 41/91] fix: give brackets and ottavas the time of their
 direction

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 3b9093b..1acc7ac 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -477,7 +477,7 @@ namespace mx
             if( attr.type == core::StartStopContinue::stop )
             {
                 api::SpannerStop stop;
-                stop.tickTimePosition = myCursor.tickTimePosition;
+                stop.tickTimePosition = myOutDirectionData.tickTimePosition;
                 stop.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
@@ -486,7 +486,7 @@ namespace mx
             else if( attr.type == core::StartStopContinue::start )
             {
                 api::SpannerStart start;
-                start.tickTimePosition = myCursor.tickTimePosition;
+                start.tickTimePosition = myOutDirectionData.tickTimePosition;
                 start.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 start.positionData = this->parsePositionData( attr );
                 start.lineData = impl::getLineData( attr );
@@ -558,7 +558,7 @@ namespace mx
             if( isStop )
             {
                 auto stop = impl::getSpannerStop( attr );
-                stop.tickTimePosition = myCursor.tickTimePosition;
+                stop.tickTimePosition = myOutDirectionData.tickTimePosition;
                 myOutDirectionData.ottavaStops.emplace_back( std::move( stop ) );
                 return;
             }
@@ -593,7 +593,7 @@ namespace mx
             api::OttavaStart start;
             start.spannerStart = impl::getSpannerStart( attr );
             start.ottavaType = ottavaType;
-            start.spannerStart.tickTimePosition = myCursor.tickTimePosition;
+            start.spannerStart.tickTimePosition = myOutDirectionData.tickTimePosition;
             myOutDirectionData.ottavaStarts.emplace_back( std::move( start ) );
         }
         
-- 
2.43.0


From 455c04906974d74da09e61a6334455e40c9a01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 42/91] fix: write accidental marks and read their print data

---
 Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp |  2 +-
 Sourcecode/private/mx/impl/NotationsWriter.cpp         | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp b/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
index ef3d82f..8f74472 100644
--- a/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
+++ b/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
@@ -28,7 +28,7 @@ namespace mx
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             markData.name = core::toString( accidentalValue );
-            markData.positionData = impl::getPositionData( *myAccidentalMark.getAttributes() );
+            impl::parseMarkDataAttributes( *myAccidentalMark.getAttributes(), markData );
             
             return markData;
         }
diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index ce0a4dc..2630ae9 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/NotationsWriter.h"
+#include "mx/core/elements/AccidentalMark.h"
 #include "mx/core/elements/Accent.h"
 #include "mx/core/elements/Arrow.h"
 #include "mx/core/elements/Arpeggiate.h"
@@ -299,6 +300,15 @@ namespace mx
                     nonArpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::nonArpeggiate );
                     impl::setAttributesFromMarkData( mark, *nonArpeggiateNotationsChoice->getNonArpeggiate()->getAttributes() );
                 }
+                else if( mark.markType >= api::MarkType::accidentalMarkSharp && mark.markType <= api::MarkType::accidentalMarkKoron )
+                {
+                    auto accidentalMarkNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( accidentalMarkNotationsChoice );
+                    accidentalMarkNotationsChoice->setChoice( core::NotationsChoice::Choice::accidentalMark );
+                    auto& accidentalMark = *accidentalMarkNotationsChoice->getAccidentalMark();
+                    accidentalMark.setValue( myConverter.convertAccidentalMark( mark.markType ) );
+                    impl::setAttributesFromMarkData( mark, *accidentalMark.getAttributes() );
+                }
                 else if( isMarkFermata( mark.markType ) )
                 {
                     auto fermataNotationsChoice = core::makeNotationsChoice();
-- 
2.43.0


From 3113b0e016161c2518c0902b7da32e9bfc37d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 43/91] fix: read the attributes of links and opuses by the
 names they are written with

---
 .../private/mx/core/elements/LinkAttributes.cpp      | 12 ++++++------
 .../private/mx/core/elements/OpusAttributes.cpp      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
index 21f8475..311b2a0 100644
--- a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
@@ -91,7 +91,7 @@ namespace mx
             
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -99,10 +99,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, name, hasName, "name" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, element, hasElement, "element" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, position, hasPosition, "position" ) ) { continue; }
@@ -115,7 +115,7 @@ namespace mx
             if( !isHrefFound )
             {
                 isSuccess = false;
-                message << className << ": 'number' is a required attribute but was not found" << std::endl;
+                message << className << ": 'xlink:href' is a required attribute but was not found" << std::endl;
             }
         
             return isSuccess;
diff --git a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
index dd5aa18..2c7eede 100644
--- a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
@@ -63,7 +63,7 @@ namespace mx
         
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -71,16 +71,16 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
             }
         
             if( !isHrefFound )
             {
                 isSuccess = false;
-                message << className << ": 'number' is a required attribute but was not found" << std::endl;
+                message << className << ": 'xlink:href' is a required attribute but was not found" << std::endl;
             }
         
             return isSuccess;
-- 
2.43.0


From cd87cd63040a13c48ea61e02129528bc2a86f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 44/91] fix: read the content of a percussion element from its
 child

---
 Sourcecode/private/mx/core/elements/Percussion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Percussion.cpp b/Sourcecode/private/mx/core/elements/Percussion.cpp
index 689ecaf..aa9695d 100644
--- a/Sourcecode/private/mx/core/elements/Percussion.cpp
+++ b/Sourcecode/private/mx/core/elements/Percussion.cpp
@@ -86,7 +86,10 @@ namespace mx
         {
             bool isSuccess = true;
             isSuccess &= myAttributes->fromXElement( message, xelement );
-            isSuccess &= myChoice->fromXElement( message, xelement );
+            for( auto it = xelement.begin(); it != xelement.end(); ++it )
+            {
+                isSuccess &= myChoice->fromXElement( message, *it );
+            }
             MX_RETURN_IS_SUCCESS;
         }
 
-- 
2.43.0


From 04a6fe5d6a8d7a1c8c6f9bb0d54e5efc25c4f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 45/91] fix: read the content and the id of a play element

---
 Sourcecode/private/mx/core/elements/Play.cpp | 52 ++++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Play.cpp b/Sourcecode/private/mx/core/elements/Play.cpp
index bd489ab..87d79b9 100644
--- a/Sourcecode/private/mx/core/elements/Play.cpp
+++ b/Sourcecode/private/mx/core/elements/Play.cpp
@@ -172,29 +172,39 @@ namespace mx
 
         bool Play::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            if( xelement.getName() == "ipa" )
-            {
-                myChoice = Choice::ipa;
-                return getIpa()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "mute" )
-            {
-                myChoice = Choice::mute;
-                return getMute()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "semi-pitched" )
-            {
-                myChoice = Choice::semiPitched;
-                return getSemiPitched()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "other-play" )
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
+
+            for( auto it = xelement.begin(); it != xelement.end(); ++it )
             {
-                myChoice = Choice::otherPlay;
-                return getOtherPlay()->fromXElement( message, xelement );
+                if( it->getName() == "ipa" )
+                {
+                    myChoice = Choice::ipa;
+                    isSuccess &= getIpa()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "mute" )
+                {
+                    myChoice = Choice::mute;
+                    isSuccess &= getMute()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "semi-pitched" )
+                {
+                    myChoice = Choice::semiPitched;
+                    isSuccess &= getSemiPitched()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "other-play" )
+                {
+                    myChoice = Choice::otherPlay;
+                    isSuccess &= getOtherPlay()->fromXElement( message, *it );
+                }
+                else
+                {
+                    message << "Play: '" << it->getName() << "' is not valid" << std::endl;
+                    isSuccess = false;
+                }
             }
-            
-            message << "Encoding: '" << xelement.getName() << "' is not valid" << std::endl;
-            return false;
+
+            return isSuccess;
         }
 
     }
-- 
2.43.0


From 95c2754651f37e62da25f065274ca18088ad6643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 46/91] fix: read other-notation by its name

---
 Sourcecode/private/mx/core/elements/Notations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Notations.cpp b/Sourcecode/private/mx/core/elements/Notations.cpp
index c04477a..c1d2ec2 100644
--- a/Sourcecode/private/mx/core/elements/Notations.cpp
+++ b/Sourcecode/private/mx/core/elements/Notations.cpp
@@ -265,7 +265,7 @@ namespace mx
                     isSuccess &= choice->getAccidentalMark()->fromXElement( message, *it );
                     myNotationsChoiceSet.push_back( choice );
                 }
-                else if ( elementName == "other-notations" )
+                else if ( elementName == "other-notation" )
                 {
                     auto choice = makeNotationsChoice();
                     choice->setChoice( NotationsChoice::Choice::otherNotation );
-- 
2.43.0


From f121f1d30210ccdeb469ead95f37fdad4f43019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 47/91] fix: read circular arrows

---
 Sourcecode/private/mx/core/elements/Arrow.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Arrow.cpp b/Sourcecode/private/mx/core/elements/Arrow.cpp
index e0a9d99..b4ed584 100644
--- a/Sourcecode/private/mx/core/elements/Arrow.cpp
+++ b/Sourcecode/private/mx/core/elements/Arrow.cpp
@@ -141,11 +141,11 @@ namespace mx
                 {
                     myChoice = Choice::circularArrow;
                     isSuccess &= myCircularArrow->fromXElement( message, *it );
-                    // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                    MX_RETURN_IS_SUCCESS;
                 }
                 myChoice = Choice::arrowGroup;
-                isSuccess = myArrowGroup->fromXElement( message, xelement );
-                // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                isSuccess &= myArrowGroup->fromXElement( message, xelement );
+                MX_RETURN_IS_SUCCESS;
             }
 
             MX_RETURN_IS_SUCCESS;
-- 
2.43.0


From 213ccb41e00dc0cf26a65badd147e10c77b69ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 48/91] fix: keep the kind of a lyric when editorial elements
 follow it

---
 Sourcecode/private/mx/core/elements/Lyric.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Lyric.cpp b/Sourcecode/private/mx/core/elements/Lyric.cpp
index 4094400..b970abd 100644
--- a/Sourcecode/private/mx/core/elements/Lyric.cpp
+++ b/Sourcecode/private/mx/core/elements/Lyric.cpp
@@ -209,11 +209,12 @@ namespace mx
                     static_cast<int>( LyricTextChoice::Choice::humming ) ) )
                 { isLyricTextChoiceFound = true; continue; }
                 
-                else
+                else if( it->getName() == "syllabic" || it->getName() == "text" )
                 {
                     myLyricTextChoice->setChoice( LyricTextChoice::Choice::syllabicTextGroup );
                     SyllabicTextGroupPtr ptr = myLyricTextChoice->getSyllabicTextGroup();
                     importGroup( message, it, endIter, isSuccess, ptr );
+                    continue;
                 }
                 if ( importElement( message, *it, isSuccess, *myEndLine, myHasEndLine ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myEndParagraph, myHasEndParagraph ) ) { continue; }
-- 
2.43.0


From d4d1bf1505a4f18885aefa0c38b21261dcc56d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 49/91] fix: do not refuse numbers that are written with
 trailing zeros

---
 Sourcecode/private/mx/core/FromXElement.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index bf3c2c4..4361a8b 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -710,8 +710,7 @@ namespace mx
                 return false;
             }
             hasAttribute = true;
-            assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            if( !assignmentTarget.parse( iter->getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
@@ -739,7 +738,7 @@ namespace mx
             }
             hasAttribute = true;
             assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            if( iter->getValue() != toString( assignmentTarget ) && !Decimal{}.parse( iter->getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
@@ -797,8 +796,7 @@ namespace mx
                 return false;
             }
             hasAttribute = true;
-            assignmentTarget.parse( iter->getValue() );
-            if( iter->getValue() != toString( assignmentTarget ) )
+            if( !assignmentTarget.parse( iter->getValue() ) )
             {
                 isSuccess = false;
                 message << className << ": attribute '" << attributeName << "' parsing failed - the value '";
-- 
2.43.0


From 8c83aaffdd18eadb499569387f09df6251092680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 50/91] fix: initialise the spacing of a list made from a set

---
 Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index a7c62c9..550d048 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -35,6 +35,7 @@ namespace mx
         
         CommaSeparatedListOfPositiveIntegers::CommaSeparatedListOfPositiveIntegers( const std::set<int>& values )
         :myValues()
+        ,myIsSpacingDesired( false )
         {
             setValues( values );
         }
-- 
2.43.0


From 80d85f54807bdc4a9c76be6c93594a1a275b11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 51/91] fix: write the dash length of an empty line once

---
 Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
index 9ebc909..e62f40c 100644
--- a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
@@ -63,7 +63,6 @@ namespace mx
         {
             if ( hasValues() )
             {
-                streamAttribute( os, dashLength, "dash-length", hasDashLength );
                 streamAttribute( os, lineShape, "line-shape", hasLineShape );
                 streamAttribute( os, lineType, "line-type", hasLineType );
                 streamAttribute( os, dashLength, "dash-length", hasDashLength );
-- 
2.43.0


From 07e0a86a3d98b0a9096f32201e8884f337861753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 52/91] fix: read the texts of a notehead text from its
 children

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index cb92a20..c9ef69f 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -102,7 +102,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::accidentalText );
-                    isSuccess &= item->getAccidentalText()->fromXElement( message, xelement );
+                    isSuccess &= item->getAccidentalText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
@@ -119,7 +119,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::displayText );
-                    isSuccess &= item->getDisplayText()->fromXElement( message, xelement );
+                    isSuccess &= item->getDisplayText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
-- 
2.43.0


From 855ff4d94fb524de2bf6a3d2e0ce78203e8d5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 53/91] fix: do not write a midi instrument that a sound does
 not have

---
 Sourcecode/private/mx/core/elements/Sound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Sound.cpp b/Sourcecode/private/mx/core/elements/Sound.cpp
index eedab00..feb7e81 100644
--- a/Sourcecode/private/mx/core/elements/Sound.cpp
+++ b/Sourcecode/private/mx/core/elements/Sound.cpp
@@ -56,7 +56,7 @@ namespace mx
                 os << std::endl;
                 myMidiDevice->toStream( os, indentLevel+1 );
             }
-            if ( myMidiInstrument )
+            if ( myHasMidiInstrument )
             {
                 os << std::endl;
                 myMidiInstrument->toStream( os, indentLevel+1 );
-- 
2.43.0


From c4d998d41cc70c49d070f6efcb48f6fd55071e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 54/91] fix: read the attributes of hole-closed

---
 Sourcecode/private/mx/core/elements/HoleClosed.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/HoleClosed.cpp b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
index 2f6e7fb..ed2a054 100644
--- a/Sourcecode/private/mx/core/elements/HoleClosed.cpp
+++ b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
@@ -89,10 +89,9 @@ namespace mx
         
         bool HoleClosed::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            MX_UNUSED( message );
-            MX_UNUSED( xelement );
+            const bool isSuccess = myAttributes->fromXElement( message, xelement );
             myValue = parseHoleClosedValue( xelement.getValue() );
-            return true;
+            MX_RETURN_IS_SUCCESS;
         }
     }
 }
-- 
2.43.0


From 5fcafd6559c8e354d2984d23548e2f7803958fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 55/91] fix: keep the offset of a sound

---
 Sourcecode/private/mx/core/elements/Sound.cpp | 38 ++++++++++++++++++-
 Sourcecode/private/mx/core/elements/Sound.h   |  9 +++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Sound.cpp b/Sourcecode/private/mx/core/elements/Sound.cpp
index feb7e81..294f928 100644
--- a/Sourcecode/private/mx/core/elements/Sound.cpp
+++ b/Sourcecode/private/mx/core/elements/Sound.cpp
@@ -6,6 +6,7 @@
 #include "mx/core/FromXElement.h"
 #include "mx/core/elements/MidiDevice.h"
 #include "mx/core/elements/MidiInstrument.h"
+#include "mx/core/elements/Offset.h"
 #include "mx/core/elements/Play.h"
 #include <iostream>
 
@@ -21,6 +22,8 @@ namespace mx
         ,myHasMidiInstrument( false )
         ,myPlay( makePlay() )
         ,myHasPlay( false )
+        ,myOffset( makeOffset() )
+        ,myHasOffset( false )
         {}
 
 
@@ -45,7 +48,7 @@ namespace mx
 
         bool Sound::hasContents() const
         {
-            return myHasMidiDevice || myHasMidiInstrument || myHasPlay;
+            return myHasMidiDevice || myHasMidiInstrument || myHasPlay || myHasOffset;
         }
 
 
@@ -66,6 +69,11 @@ namespace mx
                 os << std::endl;
                 myPlay->toStream( os, indentLevel+1 );
             }
+            if ( myHasOffset )
+            {
+                os << std::endl;
+                myOffset->toStream( os, indentLevel+1 );
+            }
             if ( hasContents() )
             {
                 os << std::endl;
@@ -175,6 +183,33 @@ namespace mx
         }
 
 
+        OffsetPtr Sound::getOffset() const
+        {
+            return myOffset;
+        }
+
+
+        void Sound::setOffset( const OffsetPtr& value )
+        {
+            if( value )
+            {
+                myOffset = value;
+            }
+        }
+
+
+        bool Sound::getHasOffset() const
+        {
+            return myHasOffset;
+        }
+
+
+        void Sound::setHasOffset( const bool value )
+        {
+            myHasOffset = value;
+        }
+
+
         bool Sound::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
             bool isSuccess = true;
@@ -186,6 +221,7 @@ namespace mx
                 if ( importElement( message, *it, isSuccess, *myMidiDevice, myHasMidiDevice ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myMidiInstrument, myHasMidiInstrument ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myPlay, myHasPlay ) ) { continue; }
+                if ( importElement( message, *it, isSuccess, *myOffset, myHasOffset ) ) { continue; }
             }
 
             MX_RETURN_IS_SUCCESS;
diff --git a/Sourcecode/private/mx/core/elements/Sound.h b/Sourcecode/private/mx/core/elements/Sound.h
index b901fdd..45ffdcb 100644
--- a/Sourcecode/private/mx/core/elements/Sound.h
+++ b/Sourcecode/private/mx/core/elements/Sound.h
@@ -20,6 +20,7 @@ namespace mx
         MX_FORWARD_DECLARE_ATTRIBUTES( SoundAttributes )
         MX_FORWARD_DECLARE_ELEMENT( MidiDevice )
         MX_FORWARD_DECLARE_ELEMENT( MidiInstrument )
+        MX_FORWARD_DECLARE_ELEMENT( Offset )
         MX_FORWARD_DECLARE_ELEMENT( Play )
         MX_FORWARD_DECLARE_ELEMENT( Sound )
 
@@ -56,6 +57,12 @@ namespace mx
             bool getHasPlay() const;
             void setHasPlay( const bool value );
 
+            /* _________ Offset minOccurs = 0, maxOccurs = 1 _________ */
+            OffsetPtr getOffset() const;
+            void setOffset( const OffsetPtr& value );
+            bool getHasOffset() const;
+            void setHasOffset( const bool value );
+
             private:
             virtual bool fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement );
 
@@ -67,6 +74,8 @@ namespace mx
             bool myHasMidiInstrument;
             PlayPtr myPlay;
             bool myHasPlay;
+            OffsetPtr myOffset;
+            bool myHasOffset;
         };
     }
 }
-- 
2.43.0


From 915d45e9c22a6f7c2eea231842bbac1965c3f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 56/91] fix: escape the free text of distances, dynamics, line
 widths and modes

---
 Sourcecode/private/mx/core/Enums.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index cbc51ea..89ff18f 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -4,6 +4,7 @@
 
 // self
 #include "mx/core/Enums.h"
+#include "mx/core/XsString.h"
 
 // std
 #include <sstream>
@@ -846,7 +847,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DistanceType& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ), true );
         }
 
         std::ostream& operator<<( std::ostream& os, const DistanceType& value )
@@ -1008,7 +1009,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DynamicsValue& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ), true );
         }
 
         std::ostream& operator<<( std::ostream& os, const DynamicsValue& value )
@@ -1994,7 +1995,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const LineWidthType& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ), true );
         }
 
         std::ostream& operator<<( std::ostream& os, const LineWidthType& value )
@@ -2340,7 +2341,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const ModeValue& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ), true );
         }
 
         std::ostream& operator<<( std::ostream& os, const ModeValue& value )
-- 
2.43.0


From 2bd1f4c3805fbca603d3f5a6f2a6c1fc36190746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 57/91] fix: read the links and bookmarks between the words of
 a credit

---
 Sourcecode/private/mx/core/elements/Credit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Credit.cpp b/Sourcecode/private/mx/core/elements/Credit.cpp
index aa3d200..7ccbb9a 100644
--- a/Sourcecode/private/mx/core/elements/Credit.cpp
+++ b/Sourcecode/private/mx/core/elements/Credit.cpp
@@ -307,7 +307,7 @@ namespace mx
                         while( i != endIter && i->getName() == "link" )
                         {
                             auto link = makeLink();
-                            isSuccess &= link->fromXElement( message, xelement );
+                            isSuccess &= link->fromXElement( message, *i );
                             creditWordsGroup->addLink( link );
                             ++i;
                         }
@@ -316,7 +316,7 @@ namespace mx
                         while( i != endIter && i->getName() == "bookmark" )
                         {
                             auto bookmark = makeBookmark();
-                            isSuccess &= bookmark->fromXElement( message, xelement );
+                            isSuccess &= bookmark->fromXElement( message, *i );
                             creditWordsGroup->addBookmark( bookmark );
                             ++i;
                         }
-- 
2.43.0


From 6e51faddea4df3a1b2aac413af4ff6c7168a7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 58/91] fix: keep the syllabic that follows an elision

---
 Sourcecode/private/mx/core/FromXElement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index 4361a8b..54183c1 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -330,6 +330,7 @@ namespace mx
                 {
                     
                     isSuccess &= elisionSyllabicTextGroup->getElisionSyllabicGroup()->getSyllabic()->fromXElement( message, *iter );
+                    elisionSyllabicTextGroup->getElisionSyllabicGroup()->setHasSyllabic( true );
                     elisionSyllabicTextGroup->setHasElisionSyllabicGroup( true );
                     ++iter;
                     isIterIncremented = true;
-- 
2.43.0


From 39124e33bed5b68733ae4a9a79876d62816d1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 59/91] fix: read the normal type of a metronome tuplet

---
 .../private/mx/core/elements/MetronomeTuplet.cpp  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
index 0d20fcb..dad2e6b 100644
--- a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
+++ b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
@@ -5,6 +5,8 @@
 #include "mx/core/elements/MetronomeTuplet.h"
 #include "mx/core/FromXElement.h"
 #include "mx/core/elements/ActualNotes.h"
+#include "mx/core/elements/NormalDot.h"
+#include "mx/core/elements/NormalType.h"
 #include "mx/core/elements/NormalNotes.h"
 #include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
 #include <iostream>
@@ -148,7 +150,18 @@ namespace mx
             {
                 if ( importElement( message, *it, isSuccess, *myActualNotes, isActualNotesFound ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myNormalNotes, isNormalNotesFound ) ) { continue; }
-                if ( importElement( message, *it, isSuccess, *myTimeModificationNormalTypeNormalDot, myHasTimeModificationNormalTypeNormalDot ) ) { continue; }
+                if ( it->getName() == "normal-type" )
+                {
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    isSuccess &= myTimeModificationNormalTypeNormalDot->getNormalType()->fromXElement( message, *it );
+                }
+                else if ( it->getName() == "normal-dot" )
+                {
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    auto item = makeNormalDot();
+                    isSuccess &= item->fromXElement( message, *it );
+                    myTimeModificationNormalTypeNormalDot->addNormalDot( item );
+                }
             }
 
             if( !isActualNotesFound )
-- 
2.43.0


From 7ea91c8e172dedc63b22f58cdc31ada505e6713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 60/91] fix: keep every accidental mark of the ornaments

---
 Sourcecode/private/mx/core/elements/Ornaments.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Ornaments.cpp b/Sourcecode/private/mx/core/elements/Ornaments.cpp
index 2c938ce..590c9cb 100644
--- a/Sourcecode/private/mx/core/elements/Ornaments.cpp
+++ b/Sourcecode/private/mx/core/elements/Ornaments.cpp
@@ -178,7 +178,12 @@ namespace mx
                     continue;
                 }
                 
-                if( importElementSet( message, it, endIter, isSuccess, "accidental-mark", myAccidentalMarkSet ) ) { continue; }
+                if( it->getName() == "accidental-mark" )
+                {
+                    auto item = makeAccidentalMark();
+                    isSuccess &= item->fromXElement( message, *it );
+                    addAccidentalMark( item );
+                }
             }
 
             MX_RETURN_IS_SUCCESS;
-- 
2.43.0


From 4d8c36dc5ca49cd185ae8b0483df4de51617439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 61/91] fix: do not write positive numbers below the written
 precision as zero

---
 Sourcecode/private/mx/core/Decimals.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index eb11eb8..881be5a 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -354,7 +354,7 @@ namespace mx
 
         DecimalType minExclusive( DecimalType min, DecimalType val )
         {
-            if( val <= min )
+            if( val < min + NON_ZERO_AMOUNT )
             {
                 return min + NON_ZERO_AMOUNT;
             }
@@ -374,7 +374,7 @@ namespace mx
 
         DecimalType maxExclusive( DecimalType max, DecimalType val )
         {
-            if( val >= max )
+            if( val > max - NON_ZERO_AMOUNT )
             {
                 return max - NON_ZERO_AMOUNT;
             }
-- 
2.43.0


From 6117922cd554c75acdfe48febae5fbcd09e9e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 62/91] fix: do not cast decimals that are too big for an
 integer

---
 Sourcecode/private/mx/core/Decimals.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 881be5a..81b8baf 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -56,6 +56,11 @@ namespace mx
 
         void PreciseDecimal::setValue( DecimalType inValue )
         {
+            if ( inValue != inValue )
+            {
+                inValue = 0;
+            }
+
             if ( inValue < 0 )
             {
                 myIsNegative = true;
@@ -66,8 +71,8 @@ namespace mx
                 myIsNegative = false;
             }
 
-            const auto integer = static_cast<decltype( myInteger )>( inValue );
-            const bool isTooBig = integer > myMaxExpressibleInteger;
+            // compare before the cast, which is undefined for values that myInteger cannot hold
+            const bool isTooBig = inValue >= static_cast<DecimalType>( myMaxExpressibleInteger ) + 1;
 
             if( isTooBig )
             {
@@ -76,6 +81,8 @@ namespace mx
                 return;
             }
 
+            const auto integer = static_cast<decltype( myInteger )>( inValue );
+
             const DecimalType decimalPartAsFloat = inValue - static_cast<DecimalType>( integer );
             const auto powerMultiplierAsFloat = std::pow( static_cast<DecimalType>( 10 ), static_cast<DecimalType>( getMaxDecimalDigits() ) );
             const auto powerMultiplier = static_cast<uint64_t>( std::ceil( powerMultiplierAsFloat - POINT_FIVE ) );
-- 
2.43.0


From dd793f064d971552419886350e92296b9ff65435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 63/91] fix: saturate tick times and other numbers that do not
 fit an int

---
 Sourcecode/private/mx/impl/Converter.cpp      | 19 ++++++-----
 Sourcecode/private/mx/impl/Cursor.cpp         |  5 +--
 .../private/mx/impl/DirectionReader.cpp       | 13 +++++---
 .../private/mx/impl/DirectionWriter.cpp       |  3 +-
 Sourcecode/private/mx/impl/LcmGcd.cpp         | 12 +++++--
 Sourcecode/private/mx/impl/MeasureReader.cpp  | 16 ++++++---
 Sourcecode/private/mx/impl/MeasureWriter.cpp  | 11 ++++---
 Sourcecode/private/mx/impl/NoteWriter.cpp     |  2 +-
 Sourcecode/private/mx/impl/ScoreReader.cpp    |  3 +-
 Sourcecode/private/mx/utility/SaturatingInt.h | 33 +++++++++++++++++++
 10 files changed, 86 insertions(+), 31 deletions(-)
 create mode 100644 Sourcecode/private/mx/utility/SaturatingInt.h

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 28497e4..b532d34 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -7,6 +7,7 @@
 #include "mx/core/elements/OctaveChange.h"
 #include "mx/impl/Converter.h"
 #include "mx/utility/Throw.h"
+#include "mx/utility/SaturatingInt.h"
 
 #include <algorithm>
 
@@ -1827,7 +1828,7 @@ namespace mx
         std::pair<int, double> Converter::convertToSemitonesAndCents( mx::core::DecimalType xmlAlter )
         {
             double myCents = 0.0;
-            const auto intAlter = static_cast<int>( xmlAlter );
+            const auto intAlter = utility::saturatingInt( xmlAlter );
             const auto micro = xmlAlter - static_cast<mx::core::DecimalType> ( intAlter );
             const auto microDistance = std::abs( micro );
             if( microDistance >= 0.000000000001 )
@@ -1850,7 +1851,7 @@ namespace mx
             {
                 octave = inTransposeData.chromatic / 12;
                 const auto negative = inTransposeData.chromatic < 0;
-                const auto absMod = std::abs( inTransposeData.chromatic ) % 12;
+                const auto absMod = std::abs( inTransposeData.chromatic % 12 );
                 const auto chromatic = negative ? -1 * absMod : absMod;
                 if( octave != 0 )
                 {
@@ -1867,7 +1868,7 @@ namespace mx
                         });
             }
 
-            const int harmonic = inTransposeData.diatonic - octave * 7;
+            const int harmonic = utility::saturatingInt( inTransposeData.diatonic - octave * 7.0L );
 
             // a transposition by semitones only needs the zero, readers guess a missing diatonic value
             if( harmonic != 0 || inTransposeData.chromatic % 12 != 0 )
@@ -1919,16 +1920,16 @@ namespace mx
             // we do our best if the transpose element is used incorrectly, or the diatonic element (which is 
             // optional in musicxml) is not present. TransposeData does away with the octave-change concept and
             // requires use of the diatonic value, so we translate as necessary.
-            const int specifiedChromatic = static_cast<int>( inTranspose.getChromatic()->getValue().getValue() );
+            const int specifiedChromatic = utility::saturatingInt( inTranspose.getChromatic()->getValue().getValue() );
             std::optional<int> specifiedOctave;
             if( inTranspose.getHasOctaveChange() )
             {
-                specifiedOctave = static_cast<int>( inTranspose.getOctaveChange()->getValue().getValue() );
+                specifiedOctave = utility::saturatingInt( inTranspose.getOctaveChange()->getValue().getValue() );
             }
             std::optional<int> specifiedDiatonic;
             if( inTranspose.getHasDiatonic() )
             {
-                specifiedDiatonic = static_cast<int>( inTranspose.getDiatonic()->getValue().getValue() );
+                specifiedDiatonic = utility::saturatingInt( inTranspose.getDiatonic()->getValue().getValue() );
             }
             int diatonic = 0;
             if( specifiedDiatonic.has_value() )
@@ -1945,14 +1946,14 @@ namespace mx
             {
                 // the transpose element is badly misused, make shit up
                 const int octaves = specifiedChromatic / 12;
-                int semitones = std::abs( specifiedChromatic ) % 12;
+                int semitones = std::abs( specifiedChromatic % 12 );
                 semitones *= specifiedChromatic < 0 ? -1 : 1;
                 diatonic = figureOutDiatonic( semitones );
                 diatonic += octaves * 7;
             }
             const auto octaves = specifiedOctave.has_value() ? specifiedOctave.value() : 0;
-            diatonic += octaves * 7;
-            const auto chromatic = specifiedChromatic + ( octaves * 12 );
+            diatonic = utility::saturatingInt( diatonic + ( octaves * 7.0L ) );
+            const auto chromatic = utility::saturatingInt( specifiedChromatic + ( octaves * 12.0L ) );
             return mx::api::TransposeData{ chromatic, diatonic };
         }
     }
diff --git a/Sourcecode/private/mx/impl/Cursor.cpp b/Sourcecode/private/mx/impl/Cursor.cpp
index a0e832a..609b8ad 100644
--- a/Sourcecode/private/mx/impl/Cursor.cpp
+++ b/Sourcecode/private/mx/impl/Cursor.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/Cursor.h"
+#include "mx/utility/SaturatingInt.h"
 #include "mx/core/elements/Duration.h"
 
 namespace mx
@@ -57,13 +58,13 @@ namespace mx
         {
             if( this->ticksPerQuarter == this->getGlobalTicksPerQuarter() )
             {
-                return static_cast<int>( std::ceil( durationValue - 0.5L ) );
+                return utility::saturatingInt( std::ceil( durationValue - 0.5L ) );
             }
             
             const long double currentTicksPerQuarter = static_cast<long double>( this->ticksPerQuarter );
             const long double globalTicksPerQuarter = static_cast<long double>( this->getGlobalTicksPerQuarter() );
             const long double convertedVal = durationValue * ( globalTicksPerQuarter / currentTicksPerQuarter );
-            return static_cast<int>( std::ceil( convertedVal - 0.5L ) );
+            return utility::saturatingInt( std::ceil( convertedVal - 0.5L ) );
         }
 
 
diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 1acc7ac..ac1a4af 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/DirectionReader.h"
+#include "mx/utility/SaturatingInt.h"
 #include "mx/api/WedgeData.h"
 #include "mx/core/elements/AccordionRegistration.h"
 #include "mx/core/elements/Bass.h"
@@ -123,14 +124,16 @@ namespace mx
             {
                 if( myDirection->getHasOffset() )
                 {
-                    myOutDirectionData.tickTimePosition += myCursor.convertDurationToGlobalTickScale( myDirection->getOffset()->getValue().getValue() );
+                    const int offset = myCursor.convertDurationToGlobalTickScale( myDirection->getOffset()->getValue().getValue() );
+                    myOutDirectionData.tickTimePosition = utility::saturatingInt( static_cast<long double>( myOutDirectionData.tickTimePosition ) + offset );
                 }
             }
             else if( myHarmony )
             {
                 if( myHarmony->getHasOffset() )
                 {
-                    myOutDirectionData.tickTimePosition += myCursor.convertDurationToGlobalTickScale( myHarmony->getOffset()->getValue().getValue() );
+                    const int offset = myCursor.convertDurationToGlobalTickScale( myHarmony->getOffset()->getValue().getValue() );
+                    myOutDirectionData.tickTimePosition = utility::saturatingInt( static_cast<long double>( myOutDirectionData.tickTimePosition ) + offset );
                 }
             }
         }
@@ -671,7 +674,7 @@ namespace mx
 
             if( inGrp.getRoot()->getHasRootAlter() )
             {
-                chord.rootAlter = mx::utility::roundTo<core::DecimalType, int>( inGrp.getRoot()->getRootAlter()->getValue().getValue() );
+                chord.rootAlter = mx::utility::saturatingInt( mx::utility::roundTo<core::DecimalType, core::DecimalType>( inGrp.getRoot()->getRootAlter()->getValue().getValue() ) );
             }
 
             const auto& kind = *inGrp.getKind();
@@ -702,7 +705,7 @@ namespace mx
 
                 if( bass.getHasBassAlter() )
                 {
-                    chord.bassAlter = mx::utility::roundTo<core::DecimalType, int>( bass.getBassAlter()->getValue().getValue() );
+                    chord.bassAlter = mx::utility::saturatingInt( mx::utility::roundTo<core::DecimalType, core::DecimalType>( bass.getBassAlter()->getValue().getValue() ) );
                 }
             }
 
@@ -714,7 +717,7 @@ namespace mx
                 bool doAddExtension = true;
 
                 const auto type = degree->getDegreeType()->getValue();
-                const auto alter = mx::utility::roundTo<core::DecimalType, int>( degree->getDegreeAlter()->getValue().getValue() );
+                const auto alter = mx::utility::saturatingInt( mx::utility::roundTo<core::DecimalType, core::DecimalType>( degree->getDegreeAlter()->getValue().getValue() ) );
                 const auto value = degree->getDegreeValue()->getValue().getValue();
 
                 switch ( type )
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 07301c4..f558b04 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/DirectionWriter.h"
+#include "mx/utility/SaturatingInt.h"
 #include "mx/api/BarlineData.h"
 #include "mx/core/elements/AccordionRegistration.h"
 #include "mx/core/elements/Bass.h"
@@ -102,7 +103,7 @@ namespace mx
 
             if( myDirectionData.tickTimePosition != myCursor.tickTimePosition )
             {
-                offset = myDirectionData.tickTimePosition - myCursor.tickTimePosition;
+                offset = utility::saturatingInt( static_cast<long double>( myDirectionData.tickTimePosition ) - myCursor.tickTimePosition );
                 directionPtr->setHasOffset( true );
                 directionPtr->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( offset ) } );
                 directionPtr->getOffset()->getAttributes()->hasSound = true;
diff --git a/Sourcecode/private/mx/impl/LcmGcd.cpp b/Sourcecode/private/mx/impl/LcmGcd.cpp
index f8b3613..ec4b465 100644
--- a/Sourcecode/private/mx/impl/LcmGcd.cpp
+++ b/Sourcecode/private/mx/impl/LcmGcd.cpp
@@ -5,8 +5,11 @@
 #include "mx/impl/LcmGcd.h"
 #include "mx/utility/Throw.h"
 
+#include <algorithm>
 #include <exception>
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include <set>
 
 namespace mx
@@ -71,12 +74,17 @@ namespace mx
             // http://stackoverflow.com/a/4229930/2779792
             auto temp = greatestCommonDivisor(a, b);
             
-            auto answer = temp ? (a / temp * b) : 0;
+            auto answer = temp ? ( static_cast<int64_t>( a / temp ) * b ) : 0;
             if ( answer < 0 )
             {
                 answer *= -1;
             }
-            return answer;
+            if ( answer > std::numeric_limits<int>::max() )
+            {
+                // there is no such int, the bigger one of the two is the best that can be done
+                return std::max( std::abs( a ), std::abs( b ) );
+            }
+            return static_cast<int>( answer );
         }
         
         
diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 7b2a9ce..55ed563 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -72,6 +72,7 @@
 #include "mx/impl/NoteFunctions.h"
 #include "mx/impl/NoteReader.h"
 #include "mx/impl/TimeReader.h"
+#include "mx/utility/SaturatingInt.h"
 #include "mx/utility/Throw.h"
 
 #include <set>
@@ -373,11 +374,11 @@ namespace mx
 
             myCurrentCursor.isBackupInProgress = true;
             const int backupAmount = myCurrentCursor.convertDurationToGlobalTickScale( *inMxBackup.getDuration() );
-            advanceTickTimePosition( -1 * backupAmount, "backup" );
+            advanceTickTimePosition( utility::saturatingInt( -1.0L * backupAmount ), "backup" );
 
             if (myCurrentCursor.tickTimePosition < 0)
             {
-                auto problemAmount = myCurrentCursor.tickTimePosition * -1;
+                auto problemAmount = utility::saturatingInt( myCurrentCursor.tickTimePosition * -1.0L );
                 advanceTickTimePosition( problemAmount, "correct backup negative error" );
             }
         }
@@ -442,7 +443,12 @@ namespace mx
             if( inMxProperties.getHasDivisions() )
             {
                 const auto newDivisionsValueDecimal = inMxProperties.getDivisions()->getValue().getValue();
-                myCurrentCursor.ticksPerQuarter = static_cast<int>(std::ceil(newDivisionsValueDecimal - 0.5));
+                const int newTicksPerQuarter = utility::saturatingInt( std::ceil( newDivisionsValueDecimal - 0.5 ) );
+
+                if( newTicksPerQuarter > 0 )
+                {
+                    myCurrentCursor.ticksPerQuarter = newTicksPerQuarter;
+                }
             }
             
             // TODO - continue work on measure numbering and style etc
@@ -823,7 +829,7 @@ namespace mx
                 for( const auto& note : voicePair.second.notes )
                 {
                     const int number = note.userRequestedVoiceNumber;
-                    const bool isTaken = newVoiceData.find( number - 1 ) != newVoiceData.cend();
+                    const bool isTaken = number >= 1 && newVoiceData.find( number - 1 ) != newVoiceData.cend();
                     const bool isTakenByThisVoice = numbersOfThisVoice.find( number ) != numbersOfThisVoice.cend();
 
                     if( number < 1 || ( isTaken && !isTakenByThisVoice ) )
@@ -931,7 +937,7 @@ namespace mx
             record.amount = amount;
             record.timeBefore = myCurrentCursor.tickTimePosition;
             record.cursorBefore = myCurrentCursor;
-            myCurrentCursor.tickTimePosition += amount;
+            myCurrentCursor.tickTimePosition = utility::saturatingInt( static_cast<long double>( myCurrentCursor.tickTimePosition ) + amount );
             record.cursorAfter = myCurrentCursor;
             record.timeAfter = myCurrentCursor.tickTimePosition;
 
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 2cce10a..7d28406 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/MeasureWriter.h"
+#include "mx/utility/SaturatingInt.h"
 #include "mx/core/elements/Accidental.h"
 #include "mx/core/elements/AccordionRegistration.h"
 #include "mx/core/elements/Backup.h"
@@ -478,7 +479,7 @@ namespace mx
                     myPropertiesWriter->flushBuffer();
 
                     int minDirectionTime = myHistory.getCursor().tickTimePosition;
-                    int maxDirectionTime = minDirectionTime + noteIter->durationData.durationTimeTicks;
+                    int maxDirectionTime = utility::saturatingInt( static_cast<long double>( minDirectionTime ) + noteIter->durationData.durationTimeTicks );
                     auto nextNote = noteIter + 1;
 
                     if( nextNote != noteEnd )
@@ -552,7 +553,7 @@ namespace mx
             {
                 const auto& timeSignature = myMeasureData.timeSignature;
                 const int beatType = std::max( 1, timeSignature.beatType );
-                const long measureTime = 4L * timeSignature.beats * cursor().getGlobalTicksPerQuarter() / beatType;
+                const long double measureTime = 4.0L * timeSignature.beats * cursor().getGlobalTicksPerQuarter() / beatType;
                 const bool isInMeasure = time >= 0 && time <= measureTime;
                 // without any notes everything stays together at the beginning of the measure
                 const bool isEmpty = maxTime == api::TICK_TIME_INFINITY && cursor().tickTimePosition == 0;
@@ -669,7 +670,7 @@ namespace mx
             {
                 const auto curTime = std::max( myHistory.getCursor().tickTimePosition, 0 );
                 const auto duration = std::max( currentNote.durationData.durationTimeTicks, 0 );
-                const auto newTime = curTime + duration;
+                const auto newTime = utility::saturatingInt( static_cast<long double>( curTime ) + duration );
                 myHistory.setTime( newTime, "advance cursor" );
                 myPreviousCursor = myHistory.getCursor();
             }
@@ -731,7 +732,7 @@ namespace mx
                     return;
                 }
 
-                const int currentNoteEndTime = myHistory.getCursor().tickTimePosition + std::max(0, inNoteIter->durationData.durationTimeTicks);
+                const int currentNoteEndTime = utility::saturatingInt( static_cast<long double>( myHistory.getCursor().tickTimePosition ) + std::max(0, inNoteIter->durationData.durationTimeTicks) );
 
                 for ( ; directionIter != directionEnd && directionIter->tickTimePosition < currentNoteEndTime;
                      ++directionIter )
@@ -839,7 +840,7 @@ namespace mx
             record.amount = amount;
             record.timeBefore = myCursor.tickTimePosition;
             record.cursorBefore = myCursor;
-            myCursor.tickTimePosition += amount;
+            myCursor.tickTimePosition = utility::saturatingInt( static_cast<long double>( myCursor.tickTimePosition ) + amount );
             record.cursorAfter = myCursor;
             record.timeAfter = myCursor.tickTimePosition;
             historyPush( record );
diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 807e8d6..0be266b 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -202,7 +202,7 @@ namespace mx
                 // calculate the distance between the two
                 if( isTupletStartFound && isTupletStopFound )
                 {
-                    const auto tickTimeDistance = ( tupletStopNote.tickTimePosition + tupletStopNote.durationData.durationTimeTicks ) - tupletStartNote.tickTimePosition;
+                    const auto tickTimeDistance = static_cast<int64_t>( tupletStopNote.tickTimePosition ) + tupletStopNote.durationData.durationTimeTicks - tupletStartNote.tickTimePosition;
 
                     if( tickTimeDistance > 0 && tupletStart.normalNumber != 0 && tupletStart.actualNumber != 0 )
                     {
diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 5b97989..ebe2e32 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/ScoreReader.h"
+#include "mx/utility/SaturatingInt.h"
 #include "mx/core/elements/BottomMargin.h"
 #include "mx/core/elements/Creator.h"
 #include "mx/core/elements/Divisions.h"
@@ -621,7 +622,7 @@ namespace mx
                         
                         const auto& divisions = *props.getDivisions();
                         const auto tempDiv = divisions.getValue().getValue();
-                        const int tempDivInt = static_cast<int>( std::ceil( tempDiv - 0.5 ) );
+                        const int tempDivInt = utility::saturatingInt( std::ceil( tempDiv - 0.5 ) );
                         if( tempDivInt > 0 )
                         {
                             foundDivisions.insert( tempDivInt );
diff --git a/Sourcecode/private/mx/utility/SaturatingInt.h b/Sourcecode/private/mx/utility/SaturatingInt.h
new file mode 100644
index 0000000..5d9886f
--- /dev/null
+++ b/Sourcecode/private/mx/utility/SaturatingInt.h
@@ -0,0 +1,33 @@
+// MusicXML Class Library
+// Copyright (c) by Matthew James Briggs
+// Distributed under the MIT License
+
+#pragma once
+
+#include <limits>
+
+namespace mx
+{
+    namespace utility
+    {
+        // converts to int like static_cast does, except that values which
+        // an int cannot represent become the closest one that it can
+        template <typename T>
+        int saturatingInt( T value )
+        {
+            const auto v = static_cast<long double>( value );
+
+            if( v >= static_cast<long double>( std::numeric_limits<int>::max() ) )
+            {
+                return std::numeric_limits<int>::max();
+            }
+
+            if( v <= static_cast<long double>( std::numeric_limits<int>::min() ) )
+            {
+                return std::numeric_limits<int>::min();
+            }
+
+            return v != v ? 0 : static_cast<int>( value );
+        }
+    }
+}
-- 
2.43.0


From 1a8d84a9a92a6b22dd2fd318938da9fc0f215647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 64/91] fix: move on by the length of the first note of a chord

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 9 ++++++++-
 Sourcecode/private/mx/impl/MeasureReader.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 55ed563..6613b3b 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -88,6 +88,7 @@ namespace mx
         , myOutMeasureData{}
         , myCurrentCursor{ cursor }
         , myPreviousMeasureCursor{ previousMeasureCursor }
+        , myLeadingNoteTicks{ 0 }
         , myHistory{}
         {
             HistoryRecord initialCursorRecord;
@@ -351,12 +352,18 @@ namespace mx
             
             myCurrentCursor.staffIndex = noteDataStaffIndex;
             
+            // the first note of a chord moves the cursor, the notes with a chord element may be shorter
+            if( !noteData.isChord )
+            {
+                myLeadingNoteTicks = noteData.durationData.durationTimeTicks;
+            }
+
             bool isThisNotePartOfAChord = noteData.isChord || isNextNotePartOfAChord;
             noteData.isChord = isThisNotePartOfAChord;
             
             if( !isThisNotePartOfAChord || !isNextNotePartOfAChord )
             {
-                advanceTickTimePosition( noteData.durationData.durationTimeTicks, "note" );
+                advanceTickTimePosition( myLeadingNoteTicks, "note" );
             }
             
             MX_ASSERT( noteDataStaffIndex >= 0 );
diff --git a/Sourcecode/private/mx/impl/MeasureReader.h b/Sourcecode/private/mx/impl/MeasureReader.h
index e076f49..49c0dfa 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.h
+++ b/Sourcecode/private/mx/impl/MeasureReader.h
@@ -55,6 +55,7 @@ namespace mx
             mutable api::MeasureData myOutMeasureData;
             mutable MeasureCursor myCurrentCursor;
             mutable MeasureCursor myPreviousMeasureCursor;
+            mutable int myLeadingNoteTicks;
 
             class HistoryRecord
             {
-- 
2.43.0


From d2e5b2585b4006f2db05d23c1b84b24efbcf0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 65/91] fix: do not write directions between the notes of a
 chord

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 7d28406..8dc4340 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -698,7 +698,6 @@ namespace mx
             const bool isFirstNote = !isLastNote && !isNotesEnd && ( inNoteIter == inNotesBegin );
             const bool isOnlyNote = inNoteIter == inNotesBegin && isLastNote;
             const auto previousNote = ( isFirstNote || isOnlyNote ) ? inNotesEnd : ( inNoteIter - 1 );
-            const auto nextNote = ( isLastNote || isNotesEnd ) ? inNotesEnd : ( inNoteIter + 1 );
             const bool isTickTimeSameAsPreviousNote = ( isFirstNote || isOnlyNote || isNotesEnd ) ? false : ( inNoteIter->tickTimePosition == previousNote->tickTimePosition );
             const bool isIndependentNote = !isTickTimeSameAsPreviousNote;
 
@@ -723,10 +722,9 @@ namespace mx
             }
             else
             {
-                const bool isLastNoteOfChord = !isNotesEnd && !isLastNote && ( inNoteIter->isChord && inNoteIter->tickTimePosition != nextNote->tickTimePosition );
                 const bool isChord = !isNotesEnd && inNoteIter->isChord;
 
-                if( isChord && !isLastNoteOfChord && !isIndependentNote )
+                if( isChord && !isIndependentNote && previousNote->isChord )
                 {
                     myHistory.log( "note writing any directions because we are in the midst of a chord" );
                     return;
-- 
2.43.0


From b8a2638087519f245e2ad8e63f91da6c3517e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 66/91] fix: keep the order and the length of every part when
 converting between partwise and timewise

---
 .../private/mx/core/ScoreConversions.cpp      | 80 ++++++++++---------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index a5364e8..04dacfe 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -13,6 +13,8 @@
 #include "mx/core/elements/PartGroupOrScorePart.h"
 
 #include <algorithm>
+#include <iterator>
+#include <vector>
 
 namespace mx
 {
@@ -55,32 +57,13 @@ namespace mx
                     score_new->addTimewiseMeasure( newMeasure );
                 }
                 
-                /* Create a simple list of parts from the score header */
-                std::vector<ScorePartPtr> partlist;
-                partlist.push_back( inScore->getScoreHeaderGroup()->getPartList()->getScorePart() );
-                for ( auto pgosp : inScore->getScoreHeaderGroup()->getPartList()->getPartGroupOrScorePartSet() )
-                {
-                    if ( pgosp->getChoice() == PartGroupOrScorePart::Choice::scorePart )
-                    {
-                        partlist.push_back( pgosp->getScorePart() );
-                    }
-                }
-                
                 /* First Nested Loop, for each Part */
                 bool isFirst = true;
-                for ( auto sp : partlist )
+                for ( auto part : inScore->getPartwisePartSet() )
                 {
-                    /* Find the Correct Part */
-                    auto partIter = std::find_if( inScore->getPartwisePartSet().cbegin(),
-                                  inScore->getPartwisePartSet().cend(),
-                                  [&]( const PartwisePartPtr& searchingForThis )
+                    if ( currentMeasureIndex < part->getPartwiseMeasureSet().size() )
                     {
-                        return searchingForThis->getAttributes()->id.getValue() == sp->getAttributes()->id.getValue();
-                    });
-                    if ( partIter != inScore->getPartwisePartSet().cend() &&
-                         currentMeasureIndex < (*partIter)->getPartwiseMeasureSet().size() )
-                    {
-                        auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
+                        auto measureIter = part->getPartwiseMeasureSet().cbegin();
                         /* Find the Correct Measure Within The Part */
                         for( Intz x = 0;
                             x < currentMeasureIndex;
@@ -98,7 +81,7 @@ namespace mx
                             newPart = makeTimewisePart();
                             newMeasure->addTimewisePart( newPart );
                         }
-                        newPart->getAttributes()->id = (*partIter)->getAttributes()->id;
+                        newPart->getAttributes()->id = part->getAttributes()->id;
                         newPart->setMusicDataGroup( (*measureIter)->getMusicDataGroup() );
                         newMeasure->setAttributes( (*measureIter)->getAttributes() );
                     }
@@ -116,29 +99,54 @@ namespace mx
             auto attr_new = score_new->getAttributes();
             attr_new->hasVersion = attr_old->hasVersion;
             attr_new->version = attr_old->version;
-            PartwisePartSet pwParts;
             
-            /* Create and add a ScorePartwisePart for each part in the main list */
-            auto firstPart = makePartwisePart();
-            firstPart->getAttributes()->id = inScore->getScoreHeaderGroup()->getPartList()->getScorePart()->getAttributes()->id;
-            score_new->addPartwisePart( firstPart );
-            score_new->removePartwisePart( score_new->getPartwisePartSet().cbegin() );
-            for ( auto pgosp : inScore->getScoreHeaderGroup()->getPartList()->getPartGroupOrScorePartSet() )
+            /* Create and add a ScorePartwisePart for each part, in the order in which they appear */
+            PartwisePartSet pwParts;
+            std::vector<TimewiseMeasureSet::size_type> measureCounts;
+            TimewiseMeasureSet::size_type measureNumber = 0;
+            for ( auto m : inScore->getTimewiseMeasureSet() )
             {
-                if ( pgosp->getChoice() == PartGroupOrScorePart::Choice::scorePart )
+                ++measureNumber;
+                for ( auto twPart : m->getTimewisePartSet() )
                 {
-                    auto additionalPart = makePartwisePart();
-                    additionalPart->getAttributes()->id = pgosp->getScorePart()->getAttributes()->id;
-                    score_new->addPartwisePart( additionalPart );
+                    auto partIter = std::find_if( pwParts.cbegin(),
+                                                  pwParts.cend(),
+                                                 [&]( const PartwisePartPtr& searchingForThis )
+                    {
+                        return searchingForThis->getAttributes()->id.getValue() == twPart->getAttributes()->id.getValue();
+                    });
+                    if ( partIter == pwParts.cend() )
+                    {
+                        auto newPart = makePartwisePart();
+                        newPart->getAttributes()->id = twPart->getAttributes()->id;
+                        pwParts.push_back( newPart );
+                        measureCounts.push_back( measureNumber );
+                        score_new->addPartwisePart( newPart );
+                        if ( pwParts.size() == 1 )
+                        {
+                            score_new->removePartwisePart( score_new->getPartwisePartSet().cbegin() );
+                        }
+                    }
+                    else
+                    {
+                        /* the part ends with the last measure in which it appears */
+                        measureCounts[static_cast<size_t>( std::distance( pwParts.cbegin(), partIter ) )] = measureNumber;
+                    }
                 }
             }
             /* outter loop: for each scorepart in score_new */
-            for ( auto p : score_new->getPartwisePartSet() )
+            auto measureCount = measureCounts.cbegin();
+            for ( auto p : pwParts )
             {
-                /* inner loop: for each measure in inScore */
+                /* inner loop: for each measure in inScore, until the part ends */
                 bool isFirst = true;
+                auto measuresLeft = *measureCount++;
                 for ( auto m : inScore->getTimewiseMeasureSet() )
                 {
+                    if ( measuresLeft-- == 0 )
+                    {
+                        break;
+                    }
                     PartwiseMeasurePtr newMeasure;
                     if ( isFirst )
                     {
-- 
2.43.0


From 0e5f150da52b953e8c6dd52c55696e1271cf5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 67/91] fix: read timewise documents without converting them

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index fe9f765..0d7429a 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -6,6 +6,9 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/core/Document.h"
+#include "mx/core/ScoreConversions.h"
+#include "mx/core/elements/ScorePartwise.h"
+#include "mx/core/elements/ScoreTimewise.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
 
@@ -189,21 +192,17 @@ namespace mx
                 return ScoreData{};
             }
             
-            bool wasTimewise = false;
+            // the document stays as it is, a timewise score is read through a partwise view of it
+            const bool isTimewise = it->second->getChoice() == core::DocumentChoice::timewise;
+            const auto scorePartwise = isTimewise ? core::timewisePartwise( it->second->getScoreTimewise() )
+                                                  : it->second->getScorePartwise();
 
-            if( it->second->getChoice() == core::DocumentChoice::timewise )
-            {
-                wasTimewise = true;
-                it->second->convertContents();
-            }
-
-            impl::ScoreReader reader{ *it->second->getScorePartwise() };
+            impl::ScoreReader reader{ *scorePartwise };
             auto score = reader.getScoreData();
 
-            if( wasTimewise )
+            if( isTimewise )
             {
                 score.musicXmlType = "timewise";
-                it->second->convertContents();
             }
             return score;
         }
-- 
2.43.0


From ff11ac0d4dfca49c158b33b4bb98e7a3cfb11f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:27 +0000
Subject: [PATCH 68/91] fix: read the whole text of an element when comments or
 CDATA sections divide it

---
 .../mx/ezxml/src/private/private/PugiElement.cpp      | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 00ec2ea..58bccc4 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -125,7 +125,16 @@ namespace ezxml
         }
         else
         {
-            return std::string{ myNode.text().as_string() };
+            // comments and cdata sections divide a text into several nodes
+            std::string value;
+            for( const auto& child : myNode.children() )
+            {
+                if( child.type() == pugi::node_pcdata || child.type() == pugi::node_cdata )
+                {
+                    value += child.value();
+                }
+            }
+            return value;
         }
     }
 
-- 
2.43.0


From e7649b23b1a86d318d7249d69cf0ddb86a5070a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:27 +0000
Subject: [PATCH 69/91] fix: keep the text of an element that is white space
 only

---
 Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index de22ba2..c8f5d54 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -11,7 +11,8 @@ namespace ezxml
 {
 
     static constexpr unsigned int standardOptions =
-            pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi;
+            pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi |
+            pugi::parse_ws_pcdata_single; // white space is the whole text of an element without children
 
 
     PugiDoc::PugiDoc()
-- 
2.43.0


From c35979e83514426862ff236b74a1c216a1110f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 70/91] fix: report a lack of memory while numbers and names
 are parsed

A string stream swallows std::bad_alloc and sets badbit, so the number was
taken for a malformed one (or the name came out short) and a document with
other contents was returned.
---
 Sourcecode/private/mx/core/Decimals.cpp         | 1 +
 Sourcecode/private/mx/core/ElementInterface.cpp | 1 +
 Sourcecode/private/mx/core/Integers.cpp         | 1 +
 3 files changed, 3 insertions(+)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 81b8baf..9e184f9 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -308,6 +308,7 @@ namespace mx
         bool Decimal::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.exceptions( std::ios_base::badbit ); // a lack of memory is not a malformed number
             DecimalType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
diff --git a/Sourcecode/private/mx/core/ElementInterface.cpp b/Sourcecode/private/mx/core/ElementInterface.cpp
index 6c11eec..6c04645 100644
--- a/Sourcecode/private/mx/core/ElementInterface.cpp
+++ b/Sourcecode/private/mx/core/ElementInterface.cpp
@@ -95,6 +95,7 @@ namespace mx
         const std::string ElementInterface::getElementName() const
         {
             std::stringstream ss;
+            ss.exceptions( std::ios_base::badbit ); // a lack of memory is reported instead of giving another name
             this->streamName( ss );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Integers.cpp b/Sourcecode/private/mx/core/Integers.cpp
index c13b327..ebe4d3c 100644
--- a/Sourcecode/private/mx/core/Integers.cpp
+++ b/Sourcecode/private/mx/core/Integers.cpp
@@ -37,6 +37,7 @@ namespace mx
         bool Integer::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.exceptions( std::ios_base::badbit ); // a lack of memory is not a malformed number
             IntType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
             {
-- 
2.43.0


From 7df449a21085a1aeff9f785ee85f1fc0280d80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 71/91] fix: read and write numbers the same way under every
 global locale

String streams take the global C++ locale, so a program that sets one with
digit grouping or a decimal comma got 1,024 for the divisions, lost decimals
and dates, and read other numbers than the file holds.
---
 Sourcecode/private/mx/api/Version.cpp               |  1 +
 Sourcecode/private/mx/core/Color.cpp                |  2 ++
 .../mx/core/CommaSeparatedPositiveIntegers.cpp      |  2 ++
 Sourcecode/private/mx/core/Date.cpp                 | 13 ++++++++++---
 Sourcecode/private/mx/core/Decimals.cpp             |  2 ++
 Sourcecode/private/mx/core/Document.cpp             |  1 +
 Sourcecode/private/mx/core/FontSize.cpp             |  1 +
 Sourcecode/private/mx/core/Integers.cpp             |  2 ++
 Sourcecode/private/mx/core/NumberOrNormal.cpp       |  1 +
 .../private/mx/core/PositiveIntegerOrEmpty.cpp      |  1 +
 Sourcecode/private/mx/core/YesNoNumber.cpp          |  1 +
 Sourcecode/private/mx/impl/PartWriter.cpp           |  1 +
 12 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/api/Version.cpp b/Sourcecode/private/mx/api/Version.cpp
index ad61597..7c5a283 100644
--- a/Sourcecode/private/mx/api/Version.cpp
+++ b/Sourcecode/private/mx/api/Version.cpp
@@ -54,6 +54,7 @@ namespace mx
         , myString{}
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             ss <<
             myMajor << "." <<
             myMinor << "." <<
diff --git a/Sourcecode/private/mx/core/Color.cpp b/Sourcecode/private/mx/core/Color.cpp
index 6f1f60d..00bbb98 100644
--- a/Sourcecode/private/mx/core/Color.cpp
+++ b/Sourcecode/private/mx/core/Color.cpp
@@ -143,6 +143,7 @@ namespace mx
             {
                 IntType val = 0;
                 std::stringstream ss( str.substr( static_cast<size_t>( startpos ), 2 ) );
+                ss.imbue( std::locale::classic() );
                 ss << std::hex;
                 ss << std::uppercase;
                 ss >> val;
@@ -236,6 +237,7 @@ namespace mx
         std::string toString( const Color& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index 550d048..daed894 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -88,6 +88,7 @@ namespace mx
                 if ( token.length() > 0 )
                 {
                     std::stringstream ss( token );
+                    ss.imbue( std::locale::classic() );
                     int value = 1;
                     ss >> value;
                     if ( value > 0 )
@@ -144,6 +145,7 @@ namespace mx
         StringType toString( const CommaSeparatedListOfPositiveIntegers& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 2f7b270..e40edbd 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -146,7 +146,9 @@ namespace mx
             bool parseStringYear( const std::string& value_in, int& year_out )
             {
                 year_out = -1;
-                std::stringstream( value_in.substr( 0, 4 ) ) >> year_out;
+                std::stringstream ss( value_in.substr( 0, 4 ) );
+                ss.imbue( std::locale::classic() );
+                ss >> year_out;
                 bool success = false;
                 if ( year_out >= 1 && year_out <= 9999 )
                 {
@@ -159,7 +161,9 @@ namespace mx
             bool parseStringMonth( const std::string& value_in, int& month_out )
             {
                 month_out = -1;
-                std::stringstream( value_in.substr( 5, 2 ) ) >> month_out;
+                std::stringstream ss( value_in.substr( 5, 2 ) );
+                ss.imbue( std::locale::classic() );
+                ss >> month_out;
                 bool success = false;
                 if ( month_out >= 1 && month_out <= 12 )
                 {
@@ -172,7 +176,9 @@ namespace mx
             bool parseStringDay( const std::string& value_in, int& day_out )
             {
                 day_out = -1;
-                std::stringstream( value_in.substr( 8, 2 ) ) >> day_out;
+                std::stringstream ss( value_in.substr( 8, 2 ) );
+                ss.imbue( std::locale::classic() );
+                ss >> day_out;
                 bool success = false;
                 if ( day_out >= 1 && day_out <= 31 )
                 {
@@ -798,6 +804,7 @@ namespace mx
         std::string toString( const Date& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 9e184f9..08405de 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -197,6 +197,7 @@ namespace mx
         std::string PreciseDecimal::toString() const
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss );
             return ss.str();
         }
@@ -308,6 +309,7 @@ namespace mx
         bool Decimal::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.imbue( std::locale::classic() );
             ss.exceptions( std::ios_base::badbit ); // a lack of memory is not a malformed number
             DecimalType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
diff --git a/Sourcecode/private/mx/core/Document.cpp b/Sourcecode/private/mx/core/Document.cpp
index c369e54..a65ddf0 100644
--- a/Sourcecode/private/mx/core/Document.cpp
+++ b/Sourcecode/private/mx/core/Document.cpp
@@ -137,6 +137,7 @@ namespace mx
         void Document::toXDoc( ::ezxml::XDoc& outXDoc ) const
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss );
             std::istringstream is( ss.str() );
             
diff --git a/Sourcecode/private/mx/core/FontSize.cpp b/Sourcecode/private/mx/core/FontSize.cpp
index ca39b1f..4306f1e 100644
--- a/Sourcecode/private/mx/core/FontSize.cpp
+++ b/Sourcecode/private/mx/core/FontSize.cpp
@@ -111,6 +111,7 @@ namespace mx
         std::string toString( const FontSize& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/Integers.cpp b/Sourcecode/private/mx/core/Integers.cpp
index ebe4d3c..adf2ec2 100644
--- a/Sourcecode/private/mx/core/Integers.cpp
+++ b/Sourcecode/private/mx/core/Integers.cpp
@@ -37,6 +37,7 @@ namespace mx
         bool Integer::parse( const std::string& value )
         {
             std::stringstream ss( value );
+            ss.imbue( std::locale::classic() );
             ss.exceptions( std::ios_base::badbit ); // a lack of memory is not a malformed number
             IntType temp = 0;
             if ( ( ss >> temp ).fail() || !( ss >> std::ws ).eof())
@@ -50,6 +51,7 @@ namespace mx
         std::string toString( const Integer& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/NumberOrNormal.cpp b/Sourcecode/private/mx/core/NumberOrNormal.cpp
index db52fb2..1c8660c 100644
--- a/Sourcecode/private/mx/core/NumberOrNormal.cpp
+++ b/Sourcecode/private/mx/core/NumberOrNormal.cpp
@@ -137,6 +137,7 @@ namespace mx
         std::string toString( const NumberOrNormal& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp b/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp
index 1f72902..a65002b 100644
--- a/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp
+++ b/Sourcecode/private/mx/core/PositiveIntegerOrEmpty.cpp
@@ -138,6 +138,7 @@ namespace mx
         std::string toString( const PositiveIntegerOrEmpty& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/core/YesNoNumber.cpp b/Sourcecode/private/mx/core/YesNoNumber.cpp
index 1826f40..69f8cda 100644
--- a/Sourcecode/private/mx/core/YesNoNumber.cpp
+++ b/Sourcecode/private/mx/core/YesNoNumber.cpp
@@ -111,6 +111,7 @@ namespace mx
         std::string toString( const YesNoNumber& value )
         {
             std::stringstream ss;
+            ss.imbue( std::locale::classic() );
             toStream( ss, value );
             return ss.str();
         }
diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 39412fb..276d0da 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -232,6 +232,7 @@ namespace mx
                 if( myPartData.instrumentData.uniqueId.size() == 0 )
                 {
                     std::stringstream ss;
+                    ss.imbue( std::locale::classic() );
                     ss << "ID";
                     ss << api::DocumentManager::getInstance().getUniqueId();
                     scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
-- 
2.43.0


From d66764d289df54d68e55e17d970c16ebbe2dd3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 72/91] fix: replace the whole text of an element when its
 value is set

---
 .../ezxml/src/private/private/PugiElement.cpp | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 58bccc4..2ee798d 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -53,7 +53,7 @@ namespace ezxml
             return XElementType::null;
         }
 
-        if( std::string{ myNode.text().as_string() }.length() > 0 )
+        if( !getIsProcessingInstruction() && !getValue().empty() )
         {
             return XElementType::text;
         }
@@ -158,26 +158,34 @@ namespace ezxml
         {
             return;
         }
-        XElementType xetype = getType();
 
-        if( xetype == XElementType::element )
+        if( getIsProcessingInstruction() )
+        {
+            myNode.set_value( value.c_str() );
+            return;
+        }
+
+        if( getType() == XElementType::element )
         {
             EZXML_THROW( "the object cannot hold both elements and text" );
         }
-        else if( xetype == XElementType::empty )
+
+        // the new text takes the place of all the nodes the old one is divided into
+        for( auto child = myNode.first_child(); child; )
         {
-            auto newnode = myNode.prepend_child( pugi::node_pcdata );
-            newnode.set_value( value.c_str() );
-            update();
-            return;
+            const auto next = child.next_sibling();
+            if( child.type() == pugi::node_pcdata || child.type() == pugi::node_cdata )
+            {
+                myNode.remove_child( child );
+            }
+            child = next;
         }
-        else if( xetype == XElementType::text )
+
+        if( !value.empty() )
         {
-            auto it = myNode.begin();
-            it->set_value( value.c_str() );
-            update();
-            return;
+            myNode.prepend_child( pugi::node_pcdata ).set_value( value.c_str() );
         }
+        update();
     }
 
 
-- 
2.43.0


From b26ce54d488a827de975a804eaf28ac139e05685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 73/91] fix: keep the documented promises about the parent and
 siblings of the root and the children of a text

---
 .../mx/ezxml/src/private/private/PugiElement.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 2ee798d..1dad02d 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -201,6 +201,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( myNode.parent().type() != pugi::node_element )
+        {
+            return XElementPtr{ new PugiElement{} };
+        }
         return XElementPtr{ new PugiElement{ myNode.parent(), myXDoc.lock() } };
     }
 
@@ -306,6 +310,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( getType() == XElementType::text )
+        {
+            EZXML_THROW( "the object cannot hold both elements and text" );
+        }
         const auto result = XElementPtr{ new PugiElement{ myNode.append_child( name.c_str() ), myXDoc.lock() } };
         update();
         return result;
@@ -317,6 +325,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( getType() == XElementType::text )
+        {
+            EZXML_THROW( "the object cannot hold both elements and text" );
+        }
         const auto result = XElementPtr{ new PugiElement{ myNode.prepend_child( name.c_str() ), myXDoc.lock() } };
         update();
         return result;
@@ -328,6 +340,10 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+        if( myNode.parent().type() != pugi::node_element )
+        {
+            EZXML_THROW( "the root element cannot have siblings" );
+        }
         auto newNode = myNode.parent().insert_child_after( newElementName.c_str(), myNode );
         const auto result = XElementPtr{ new PugiElement{ newNode, myXDoc.lock() } };
         update();
-- 
2.43.0


From dcaa749ea16881283dcf04594687d645516304f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 74/91] fix: do not touch the freed nodes of a destroyed
 document; remove elements only, by their name

---
 .../ezxml/src/private/private/PugiAttribute.cpp  | 16 ++++++++++++++++
 .../private/private/PugiAttributeIterImpl.cpp    | 10 ++++++++++
 .../mx/ezxml/src/private/private/PugiElement.cpp | 16 +++++++++++++---
 .../src/private/private/PugiElementIterImpl.cpp  | 10 ++++++++++
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
index 27a7a4f..de5f6d8 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttribute.cpp
@@ -46,6 +46,10 @@ namespace ezxml
     std::string
     PugiAttribute::getName() const
     {
+        if( getIsNull() )
+        {
+            return "";
+        }
         return myAttribute.name();
     }
 
@@ -53,6 +57,10 @@ namespace ezxml
     std::string
     PugiAttribute::getValue() const
     {
+        if( getIsNull() )
+        {
+            return "";
+        }
         return myAttribute.value();
     }
 
@@ -60,6 +68,10 @@ namespace ezxml
     void
     PugiAttribute::setName( const std::string& name )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         myAttribute.set_name( name.c_str() );
     }
 
@@ -67,6 +79,10 @@ namespace ezxml
     void
     PugiAttribute::setValue( const std::string& value )
     {
+        if( getIsNull() )
+        {
+            return;
+        }
         myAttribute.set_value( value.c_str() );
     }
 }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
index f4f5a6b..b2b2231 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiAttributeIterImpl.cpp
@@ -123,6 +123,11 @@ namespace ezxml
     const PugiAttributeIterImpl&
     PugiAttributeIterImpl::increment()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
+
         ++myIter;
         return *this;
     }
@@ -131,6 +136,11 @@ namespace ezxml
     const PugiAttributeIterImpl&
     PugiAttributeIterImpl::decrement()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
+
         --myIter;
         return *this;
     }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 1dad02d..379ea4a 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -354,9 +354,18 @@ namespace ezxml
     bool
     PugiElement::removeChild( const std::string& elementName )
     {
-        const auto result = myNode.remove_child( elementName.c_str() );
-        update();
-        return result;
+        EZXML_CHECK_NULL_NODE;
+        // a processing instruction may have the same name
+        for( const auto& child : myNode.children( elementName.c_str() ) )
+        {
+            if( child.type() == pugi::node_element )
+            {
+                const auto result = myNode.remove_child( child );
+                update();
+                return result;
+            }
+        }
+        return false;
     }
 
 
@@ -387,6 +396,7 @@ namespace ezxml
     void
     PugiElement::removeAttribute( const XAttributeIterator& iter )
     {
+        EZXML_CHECK_NULL_NODE;
         auto it = myNode.attributes_begin();
         auto e = myNode.attributes_end();
         for( ; it != e; ++it )
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
index 2225522..212a88f 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElementIterImpl.cpp
@@ -202,6 +202,11 @@ namespace ezxml
     const PugiElementIterImpl&
     PugiElementIterImpl::increment()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
+
         ++myIter;
 
         if( mySkipProcessingInstructions )
@@ -223,6 +228,11 @@ namespace ezxml
     const PugiElementIterImpl&
     PugiElementIterImpl::decrement()
     {
+        if( getIsPayloadNull() )
+        {
+            EZXML_THROW_XNULL;
+        }
+
         --myIter;
 
         if( mySkipProcessingInstructions )
-- 
2.43.0


From 8b9d96e9f3d9e43db7216c8f5ab12aa6b28cc31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 75/91] fix: an iterator that is assigned a null iterator is
 null

---
 .../mx/ezxml/src/private/private/XAttributeIterator.cpp      | 5 +----
 .../mx/ezxml/src/private/private/XElementIterator.cpp        | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp b/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp
index 20de4bc..643fbc9 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/XAttributeIterator.cpp
@@ -31,10 +31,7 @@ namespace ezxml
     XAttributeIterator&
     XAttributeIterator::operator=( const XAttributeIterator& other )
     {
-        if( other.myImpl )
-        {
-            myImpl = other.myImpl->clone();
-        }
+        myImpl = other.myImpl ? other.myImpl->clone() : nullptr;
         return *this;
     }
 
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp b/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
index d5b2550..3d17baf 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/XElementIterator.cpp
@@ -31,10 +31,7 @@ namespace ezxml
     XElementIterator&
     XElementIterator::operator=( const XElementIterator& other )
     {
-        if( other.myImpl )
-        {
-            myImpl = other.myImpl->clone();
-        }
+        myImpl = other.myImpl ? other.myImpl->clone() : nullptr;
         return *this;
     }
 
-- 
2.43.0


From 0a0992b9a6eb3f6d158338c74679ec587c021d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 76/91] fix: find the document type behind processing
 instructions

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 28 +++++--------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index c8f5d54..bb3f1c6 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -543,29 +543,15 @@ namespace ezxml
     pugi::xml_node
     PugiDoc::getDoctypeNode() const
     {
-        if( myDoc.empty() )
-        {
-            return pugi::xml_node{};
-        }
-
-        auto childrenIter = myDoc.begin();
-        if( childrenIter == myDoc.end() )
-        {
-            return pugi::xml_node{};
-        }
-        if( childrenIter->type() == pugi::node_declaration )
+        // processing instructions may stand before it
+        for( const auto& child : myDoc.children() )
         {
-            ++childrenIter;
-        }
-        if( childrenIter == myDoc.end() ||
-            childrenIter->type() != pugi::node_doctype )
-        {
-            return pugi::xml_node{};
-        }
-        else
-        {
-            return *childrenIter;
+            if( child.type() == pugi::node_doctype )
+            {
+                return child;
+            }
         }
+        return pugi::xml_node{};
     }
 
 
-- 
2.43.0


From 512068704cb357bde06c6b89775eb35361b489bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 77/91] fix: keep the white space beside cdata sections and
 comments in a text

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index bb3f1c6..af04ebe 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -5,6 +5,7 @@
 #include "private/Throw.h"
 #include "private/Parse.h"
 
+#include <cstring>
 #include <fstream>
 
 namespace ezxml
@@ -12,7 +13,44 @@ namespace ezxml
 
     static constexpr unsigned int standardOptions =
             pugi::parse_default | pugi::parse_declaration | pugi::parse_doctype | pugi::parse_pi |
-            pugi::parse_ws_pcdata_single; // white space is the whole text of an element without children
+            pugi::parse_ws_pcdata; // see removeLayout
+
+
+    // white space is text in an element without children and layout beside the children of an element
+    static void
+    removeLayout( const pugi::xml_node& top )
+    {
+        auto node = top;
+        while( node )
+        {
+            bool hasChildren = false;
+            for( const auto& child : node.children() )
+            {
+                hasChildren = hasChildren || child.type() == pugi::node_element || child.type() == pugi::node_pi;
+            }
+
+            for( auto child = node.first_child(); hasChildren && child; )
+            {
+                const auto next = child.next_sibling();
+                if( child.type() == pugi::node_pcdata && child.value()[std::strspn( child.value(), " \t\r\n" )] == 0 )
+                {
+                    node.remove_child( child );
+                }
+                child = next;
+            }
+
+            if( node.first_child() )
+            {
+                node = node.first_child();
+                continue;
+            }
+            while( node && node != top && !node.next_sibling() )
+            {
+                node = node.parent();
+            }
+            node = node == top ? pugi::xml_node{} : node.next_sibling();
+        }
+    }
 
 
     PugiDoc::PugiDoc()
@@ -104,7 +142,9 @@ namespace ezxml
 
             EZXML_THROW( ss.str() );
         }
-        else if( myDoc.begin() == myDoc.end() )
+        removeLayout( myDoc );
+
+        if( myDoc.begin() == myDoc.end() )
         {
             EZXML_THROW( "pugixml parse created an empty document" );
         }
-- 
2.43.0


From 5ff710401adf8a25be8375b9be3ea2a5dcee4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 78/91] fix: keep a decimal that is given NaN in its range

---
 Sourcecode/private/mx/core/Decimals.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 08405de..25b1c26 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -407,8 +407,14 @@ namespace mx
             return value;
         }
 
+        // what is not a number passes every comparison, take it for zero as PreciseDecimal does
+        static DecimalType numberOrZero( DecimalType value )
+        {
+            return value != value ? 0 : value;
+        }
+
         DecimalRange::DecimalRange( DecimalClamp min, DecimalClamp max, DecimalType value )
-        : Decimal{ min( max( value ) ) }
+        : Decimal{ min( max( numberOrZero( value ) ) ) }
         , myMinClamp{ min }
         , myMaxClamp{ max }
         {
@@ -417,7 +423,7 @@ namespace mx
 
         void DecimalRange::setValue( DecimalType value )
         {
-            Decimal::setValue( myMinClamp( myMaxClamp( value ) ) );
+            Decimal::setValue( myMinClamp( myMaxClamp( numberOrZero( value ) ) ) );
         }
 
 #define MXMINEX( minbound ) DecimalClamp( []( DecimalType value ){ return minExclusive( minbound, value ); } )
-- 
2.43.0


From d89a88d06cbf83d357aee5b1d8634af926c075c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 79/91] fix: do not round a decimal up past its largest number,
 which is positive

---
 Sourcecode/private/mx/core/Decimals.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 25b1c26..4215042 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -91,6 +91,13 @@ namespace mx
 
             if( decimalDigits > myMaxExpressibleDecimal )
             {
+                if( integer >= myMaxExpressibleInteger )
+                {
+                    myInteger = myMaxExpressibleInteger;
+                    myDecimal = myMaxExpressibleDecimal;
+                    return;
+                }
+
                 myInteger = integer + 1;
                 myDecimal = 0;
                 return;
@@ -112,7 +119,7 @@ namespace mx
 
         DecimalType PreciseDecimal::getMaxExpressibleNumber() const
         {
-            return express( myMaxExpressibleInteger, myMaxExpressibleDecimal, myMaxDecimalDigits, myIsNegative );
+            return express( myMaxExpressibleInteger, myMaxExpressibleDecimal, myMaxDecimalDigits, false );
         }
 
         DecimalType PreciseDecimal::getMinExpressibleNumber() const
-- 
2.43.0


From e22c0b8c0922fd158e86dec82a285053a7f3bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 80/91] fix: do not begin an id with a hyphen or a full stop

---
 Sourcecode/private/mx/core/XsID.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/XsID.cpp b/Sourcecode/private/mx/core/XsID.cpp
index 745041d..1a4f1b5 100644
--- a/Sourcecode/private/mx/core/XsID.cpp
+++ b/Sourcecode/private/mx/core/XsID.cpp
@@ -30,7 +30,7 @@ namespace mx
             {
                 scrubbed = "ID";
             }
-            else if ( isdigit( scrubbed[0] ) )
+            else if ( isdigit( scrubbed[0] ) || scrubbed[0] == '-' || scrubbed[0] == '.' )
             {
                 scrubbed = "ID" + scrubbed;
             }
-- 
2.43.0


From 3ced026fd5f2754b8d967d144378c2d89fcb697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 81/91] fix: keep the text of an open value that is called
 other

---
 Sourcecode/private/mx/core/Enums.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index 89ff18f..ab759f7 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -823,7 +823,7 @@ namespace mx
         void DistanceType::setValue( const std::string& value )
         {
             const auto temp = tryParseDistanceTypeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != DistanceTypeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -985,7 +985,7 @@ namespace mx
         void DynamicsValue::setValue( const std::string& value )
         {
             const auto temp = tryParseDynamicsEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != DynamicsEnum::otherDynamics )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -1971,7 +1971,7 @@ namespace mx
         void LineWidthType::setValue( const std::string& value )
         {
             const auto temp = tryParseLineWidthTypeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != LineWidthTypeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -2317,7 +2317,7 @@ namespace mx
         void ModeValue::setValue( const std::string& value )
         {
             const auto temp = tryParseModeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != ModeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
-- 
2.43.0


From eacc96064b4f787e7f6b7ae0f324edfa6dbe5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 82/91] fix: do not overflow when many years or months are
 added to a date

---
 Sourcecode/private/mx/core/Date.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index e40edbd..ecc82c3 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -441,8 +441,10 @@ namespace mx
             }
 
 
-            void addMonths( int months )
+            void addMonths( int months_in )
             {
+                // wide enough for the opposite of every int
+                long long months = months_in;
                 
                 // modulus math is hard to understand when negative numbers are involved
                 // store the sign of 'months' as an int and make months positive
@@ -458,11 +460,11 @@ namespace mx
                 
                 // figure out how many years to add
                 // note: int/int truncates
-                int new_year = getYear() + ( direction * ( months / 12 ) );
+                int new_year = getYear() + ( direction * static_cast<int>( months / 12 ) );
                 // if the year goes out of bounds, return min/max date
                 
                 // figure out how many months to add
-                int new_month = getMonth() + ( direction * ( months % 12 ) );
+                int new_month = getMonth() + ( direction * static_cast<int>( months % 12 ) );
                 
                 // if new_month equals 0 then direction must be -1
                 // the actual month should be December of the previous year.
@@ -535,7 +537,9 @@ namespace mx
 
             void addYears( int years )
             {
-                int new_year = getYear() + years;
+                // no date is more than 9999 years away from another
+                const int distance = years > 9999 ? 9999 : ( years < -9999 ? -9999 : years );
+                int new_year = getYear() + distance;
                 //year( ( year() + years ) );
                 
                 // if day was a leap day and the new year is not a leap year
-- 
2.43.0


From fb0f2541d2cebb46623afbb720576c80bf722d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:53 +0000
Subject: [PATCH 83/91] fix: define NoteheadText::getNoteheadTextChoice, which
 the header declares

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index c9ef69f..b9a66f3 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -89,6 +89,16 @@ namespace mx
         }
 
 
+        NoteheadTextChoicePtr NoteheadText::getNoteheadTextChoice( const NoteheadTextChoiceSetIterConst& setIterator ) const
+        {
+            if( setIterator != myNoteheadTextChoiceSet.cend() )
+            {
+                return *setIterator;
+            }
+            return NoteheadTextChoicePtr();
+        }
+
+
         bool NoteheadText::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
             bool isSuccess = true;
-- 
2.43.0


From 914ebd5d5c0bfc6c039f4613da6808166d74ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 84/91] fix: ignore a null time choice and note relation note

---
 .../mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp | 5 ++++-
 Sourcecode/private/mx/core/elements/Time.cpp                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
index 6dee9d5..5f61084 100644
--- a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
+++ b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
@@ -100,7 +100,10 @@ namespace mx
 
         void BeatUnitPerOrNoteRelationNoteChoice::setNoteRelationNote( const NoteRelationNotePtr& value )
         {
-            myNoteRelationNote = value;
+            if ( value )
+            {
+                myNoteRelationNote = value;
+            }
         }
 
 
diff --git a/Sourcecode/private/mx/core/elements/Time.cpp b/Sourcecode/private/mx/core/elements/Time.cpp
index ebb7e62..74a2940 100644
--- a/Sourcecode/private/mx/core/elements/Time.cpp
+++ b/Sourcecode/private/mx/core/elements/Time.cpp
@@ -77,7 +77,10 @@ namespace mx
 
         void Time::setTimeChoice( const TimeChoicePtr& value )
         {
-            myChoice = value;
+            if ( value )
+            {
+                myChoice = value;
+            }
         }
 
 
-- 
2.43.0


From 5568ea2e5107ada345e931d519666ce16d0244b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 85/91] fix: keep at least one of the required elements when
 they are removed or cleared

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp    | 5 ++++-
 Sourcecode/private/mx/core/elements/TimeChoice.cpp      | 5 ++++-
 Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp | 6 +++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index b9a66f3..e09c30b 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -68,7 +68,10 @@ namespace mx
         {
             if ( value != myNoteheadTextChoiceSet.cend() )
             {
-                myNoteheadTextChoiceSet.erase( value );
+                if ( myNoteheadTextChoiceSet.size() > 1 )
+                {
+                    myNoteheadTextChoiceSet.erase( value );
+                }
             }
         }
         
diff --git a/Sourcecode/private/mx/core/elements/TimeChoice.cpp b/Sourcecode/private/mx/core/elements/TimeChoice.cpp
index 59fa17a..8fd2234 100644
--- a/Sourcecode/private/mx/core/elements/TimeChoice.cpp
+++ b/Sourcecode/private/mx/core/elements/TimeChoice.cpp
@@ -94,7 +94,10 @@ namespace mx
         {
             if ( value != myTimeSignatureGroupSet.cend() )
             {
-                myTimeSignatureGroupSet.erase( value );
+                if ( myTimeSignatureGroupSet.size() > 1 )
+                {
+                    myTimeSignatureGroupSet.erase( value );
+                }
             }
         }
         
diff --git a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
index bd546f5..ac06009 100644
--- a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
+++ b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
@@ -98,7 +98,10 @@ namespace mx
         {
             if ( value != myTimewisePartSet.cend() )
             {
-                myTimewisePartSet.erase( value );
+                if ( myTimewisePartSet.size() > 1 )
+                {
+                    myTimewisePartSet.erase( value );
+                }
             }
         }
 
@@ -106,6 +109,7 @@ namespace mx
         void TimewiseMeasure::clearTimewisePartSet()
         {
             myTimewisePartSet.clear();
+            myTimewisePartSet.push_back( makeTimewisePart() );
         }
 
 
-- 
2.43.0


From ef5b45e1a069f846db82343ea2b1cc6c7d2b085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 86/91] fix: write carriage returns as references, as they are
 they are read as line feeds

---
 Sourcecode/private/mx/core/XsString.cpp                     | 5 +++++
 Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index d566811..b411384 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -75,6 +75,11 @@ namespace mx
                         os << "&quot;";
                         break;
                         
+                    case '\r':
+                        // as it is, it would be read as the end of a line
+                        os << "&#13;";
+                        break;
+                        
                     default:
                         os << c;
                         break;
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
index 90c48b2..3c5f6f2 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
@@ -1860,7 +1860,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32, &, <, ", '
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1869,7 +1869,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  2,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  1,  0,     // 48-63
-- 
2.43.0


From 10e6b8946bef95d7f49d0ffc734a5fa3ba41e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 87/91] fix: read a key mode other than major and minor as
 unsupported

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 6613b3b..be6a3f2 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -542,7 +542,7 @@ namespace mx
                     {
                         keyData.mode = api::KeyMode::minor;
                     }
-                    else if( coreMode == core::ModeEnum::minor )
+                    else
                     {
                         keyData.mode = api::KeyMode::unsupported;
                     }
-- 
2.43.0


From bb460ae74e52ba68e6597cca737bd44aa992c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 88/91] fix: guess each side of a tuplet from the same side of
 the time modification

---
 Sourcecode/private/mx/impl/TupletReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/TupletReader.cpp b/Sourcecode/private/mx/impl/TupletReader.cpp
index 2f63fd8..6b1b8d5 100644
--- a/Sourcecode/private/mx/impl/TupletReader.cpp
+++ b/Sourcecode/private/mx/impl/TupletReader.cpp
@@ -139,7 +139,7 @@ namespace mx
                 return;
             }
             const auto& timeMod = *myNote.getTimeModification();
-            outTupletStart.actualNumber = timeMod.getActualNotes()->getValue().getValue();
+            outTupletStart.normalNumber = timeMod.getNormalNotes()->getValue().getValue();
             
             Converter converter;
             if( timeMod.getHasNormalTypeNormalDotGroup() )
@@ -164,7 +164,7 @@ namespace mx
                 return;
             }
             const auto& timeMod = *myNote.getTimeModification();
-            outTupletStart.normalNumber = timeMod.getNormalNotes()->getValue().getValue();
+            outTupletStart.actualNumber = timeMod.getActualNotes()->getValue().getValue();
             
             Converter converter;
             if( timeMod.getHasNormalTypeNormalDotGroup() )
-- 
2.43.0


From 9cf2c06ebcbc1dc0613b62db55bfdf9f191c13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 89/91] fix: read no rehearsal mark from a damp-all element

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index ac1a4af..132694c 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -269,7 +269,7 @@ namespace mx
                 }
                 case core::DirectionType::Choice::dampAll:
                 {
-                    parseRehearsal( directionType );
+                    parseDampAll( directionType );
                     break;
                 }
                 case core::DirectionType::Choice::eyeglasses:
-- 
2.43.0


From 3b9c13e405cfaf30ecfb18e465ab7ba3ac0536d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 90/91] fix: read the processing instructions of a harmony
 element once

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 132694c..080ad38 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -782,12 +782,17 @@ namespace mx
                 }
             }
 
-            for ( const auto& pi : inHarmony.getProcessingInstructions() )
+            // the processing instructions belong to the harmony element as a whole, if every one
+            // of its chords had them they would be written again for each chord
+            if( myOutDirectionData.chords.empty() )
             {
-                mx::api::MiscData misc;
-                misc.name = pi.getName();
-                misc.data = pi.getData();
-                chord.miscData.push_back( misc );
+                for ( const auto& pi : inHarmony.getProcessingInstructions() )
+                {
+                    mx::api::MiscData misc;
+                    misc.name = pi.getName();
+                    misc.data = pi.getData();
+                    chord.miscData.push_back( misc );
+                }
             }
 
             const auto& attr = *inHarmony.getAttributes();
-- 
2.43.0


From 819ecbe131da7b081ab32c175989faff73f85e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 91/91] fix: give an instrument without an id one id of its own

A score-instrument without midi data was written with the id "ID" in every
part, and with midi data the id was counted up with every write while the
midi-instrument referred to another one. Both now get the same id, made from
the id of the part, which no other part or instrument of the score has.
---
 Sourcecode/private/mx/impl/PartWriter.cpp | 53 +++++++++++++++--------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 276d0da..7a43cf2 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -46,14 +46,45 @@
 #include "mx/impl/MeasureWriter.h"
 #include "mx/impl/MeasureCursor.h"
 #include "mx/impl/ScoreWriter.h"
-#include "mx/api/DocumentManager.h"
 
-#include <sstream>
+#include <algorithm>
+#include <string>
 
 namespace mx
 {
     namespace impl
     {
+        namespace
+        {
+            // the id which the part's score-instrument and midi-instrument share, when
+            // the user has not given one it is made from the part's id and is not used
+            // by any other part or instrument of the score
+            std::string findInstrumentId( const api::PartData& inPart, const api::ScoreData& inScore )
+            {
+                if( !inPart.instrumentData.uniqueId.empty() )
+                {
+                    return inPart.instrumentData.uniqueId;
+                }
+
+                const std::string prefix = core::XsID{ inPart.uniqueId }.getValue() + "-I";
+
+                for( int i = 1; ; ++i )
+                {
+                    const std::string id = prefix + std::to_string( i );
+                    const auto isUsed = [&]( const api::PartData& part )
+                    {
+                        return core::XsID{ part.uniqueId }.getValue() == id || core::XsID{ part.instrumentData.uniqueId }.getValue() == id;
+                    };
+
+                    if( std::none_of( inScore.parts.cbegin(), inScore.parts.cend(), isUsed ) )
+                    {
+                        return id;
+                    }
+                }
+            }
+        }
+
+
         PartWriter::PartWriter( const api::PartData& inPartData, int inPartIndex, int inTicksPerQuarter, const ScoreWriter& inScoreWriter )
         : myPartData{ inPartData }
         , myPartIndex{ inPartIndex }
@@ -102,7 +133,8 @@ namespace mx
             }
             auto scoreIntstrument = core::makeScoreInstrument();
             bool addScoreInstrument = false;
-            scoreIntstrument->getAttributes()->id = core::XsID{ myPartData.instrumentData.uniqueId };
+            const core::XsID instrumentId{ findInstrumentId( myPartData, myScoreWriter.getScoreData() ) };
+            scoreIntstrument->getAttributes()->id = instrumentId;
             if( myPartData.instrumentData.name.size() > 0 )
             {
                 addScoreInstrument = true;
@@ -159,7 +191,7 @@ namespace mx
             auto midiGroup = core::makeMidiDeviceInstrumentGroup();
             auto& midiDevice = *midiGroup->getMidiDevice();
             auto& midiInstrument = *midiGroup->getMidiInstrument();
-            midiInstrument.getAttributes()->id = core::XsID{ myPartData.instrumentData.uniqueId };
+            midiInstrument.getAttributes()->id = instrumentId;
             
             if( myPartData.instrumentData.midiData.device.size() > 0 )
             {
@@ -229,19 +261,6 @@ namespace mx
             }
             if( addMidiElement && !addScoreInstrument )
             {
-                if( myPartData.instrumentData.uniqueId.size() == 0 )
-                {
-                    std::stringstream ss;
-                    ss.imbue( std::locale::classic() );
-                    ss << "ID";
-                    ss << api::DocumentManager::getInstance().getUniqueId();
-                    scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
-                }
-                else
-                {
-                    scoreIntstrument->getAttributes()->id = core::XsID{ myPartData.instrumentData.uniqueId };
-                }
-
                 myOutScorePart->addScoreInstrument( scoreIntstrument );
             }
             return myOutScorePart;
-- 
2.43.0

