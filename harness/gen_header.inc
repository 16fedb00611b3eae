    void partInfo( PartData& p )
    {
        p.name = opt() ? text() : std::string();
        p.abbreviation = maybeText(); p.displayName = maybeText(); p.displayAbbreviation = maybeText();
        auto& i = p.instrumentData; auto& m = i.midiData;
        if( opt() ) i.name = text();
        if( opt() ) i.abbreviation = text();
        if( opt() ) i.soundID = en<SoundID>( { SoundID::unspecified, SoundID::errorBadString } );
        if( opt() ) i.soloOrEnsemble = en<SoloOrEnsemble>( { SoloOrEnsemble::unspecified } );
        if( opt() ) m.virtualLibrary = text();
        if( opt() ) m.virtualName = text();
        if( opt() ) m.device = text();
        if( opt() ) m.name = text();
        if( opt() ) m.bank = r.range( 1, 16384 );
        if( opt() ) m.channel = r.range( 1, 16 );
        if( opt() ) m.program = r.range( 1, 128 );
        if( opt() ) m.unpitched = r.range( 1, 128 );
        if( opt() ) { m.isVolumeSpecified = true; m.volume = r.range( 0, 800 ) / 8.0L; }
        if( opt() ) { m.isPanSpecified = true; m.pan = r.range( -1440, 1440 ) / 8.0L; }
        if( opt() ) { m.isElevationSpecified = true; m.elevation = r.range( -1440, 1440 ) / 8.0L; }
        const bool any = !i.name.empty() || !i.abbreviation.empty() || i.soundID != SoundID::unspecified || i.soloOrEnsemble != SoloOrEnsemble::unspecified
            || !m.virtualLibrary.empty() || !m.virtualName.empty() || !m.device.empty() || !m.name.empty() || m.bank >= 0 || m.channel >= 0
            || m.program >= 0 || m.unpitched >= 0 || m.isVolumeSpecified || m.isPanSpecified || m.isElevationSpecified;
        if( any && !( k.anonymousInstruments && r.chance( 1, 3 ) ) ) i.uniqueId = p.uniqueId + ( k.anonymousInstruments ? "-N1" : "-I1" ); // an instrument is named by its id
        if( opt() ) { TransposeData t{ r.range( -12, 12 ), r.range( -7, 7 ) }; if( t.isUsed() ) p.transposition = t; }
    }
    MarginsData marginsData() { return MarginsData{ posTenths(), posTenths(), posTenths(), posTenths() }; }
    PageLayoutData pageLayout()
    {
        PageLayoutData p;
        if( !opt() ) return p;
        p.size = SizeData{ posTenths(), posTenths() }; // MusicXML and the core class need a size for any page layout
        if( opt() ) p.margins.odd = marginsData();
        if( opt() ) { if( p.margins.odd && r.flip() ) p.margins.even = p.margins.odd; else p.margins.even = marginsData(); }
        return p;
    }
    SystemLayoutData systemLayout()
    {
        SystemLayoutData s;
        if( opt() ) s.margins = LeftRight{ tenths(), tenths() };
        if( opt() ) s.systemDistance = posTenths();
        if( opt() ) s.topSystemDistance = posTenths();
        if( opt() ) s.staffDistance = posTenths();
        return s;
    }
    PageTextData pageText()
    {
        PageTextData p;
        p.text = text(); p.description = maybeText(); p.pageNumber = opt() ? r.range( 1, 40 ) : 0;
        p.fontData = font(); p.positionData = position( true );
        return p;
    }
    void header( ScoreData& s )
    {
        s.musicXmlVersion = opt() ? MusicXmlVersion::ThreePointZero : MusicXmlVersion::unspecified;
        s.workTitle = maybeText(); s.workNumber = maybeText(); s.movementTitle = maybeText(); s.movementNumber = maybeText();
        s.composer = maybeText(); s.lyricist = maybeText(); s.arranger = maybeText(); s.publisher = maybeText(); s.copyright = maybeText();
        auto& e = s.encoding;
        if( opt() )
        {
            e.encodingDate.year = r.range( 1, 9999 ); e.encodingDate.month = r.range( 1, 12 );
            static const int days[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
            const bool leap = e.encodingDate.year % 4 == 0 && ( e.encodingDate.year % 100 != 0 || e.encodingDate.year % 400 == 0 );
            e.encodingDate.day = r.range( 1, days[e.encodingDate.month - 1] + ( leap && e.encodingDate.month == 2 ) );
        }
        e.encoder = maybeText(); e.encodingDescription = maybeText();
        if( opt() ) for( int i = r.range( 1, 3 ); i > 0; --i ) e.software.push_back( text() );
        if( opt() ) for( int i = r.range( 1, 3 ); i > 0; --i )
        {
            static const std::vector<std::string> el{ "print", "accidental", "beam", "stem" }, at{ "new-page", "new-system" };
            SupportedItem it; it.elementName = r.pick( el ); it.isSupported = r.flip();
            if( opt() ) it.attributeName = r.pick( at );
            if( opt() ) it.specificValue = r.flip() ? "yes" : text();
            e.supportedItems.push_back( it );
        }
        if( opt() ) for( int i = r.range( 1, 3 ); i > 0; --i ) e.miscelaneousFields.emplace_back( text(), text() );
        if( opt() ) for( int i = r.range( 1, 3 ); i > 0; --i ) s.pageTextItems.push_back( pageText() );
        auto& d = s.defaults;
        if( opt() ) { d.scalingMillimeters = r.range( 1, 400 ) / 16.0L; d.scalingTenths = r.range( 1, 400 ) / 16.0L; }
        d.pageLayout = pageLayout();
        d.systemLayout = systemLayout();
        if( opt() ) for( int i = r.range( 1, 5 ); i > 0; --i )
        {
            static const std::vector<std::string> lw{ "beam", "bracket", "dashes", "enclosure", "ending", "extend", "heavy barline", "leger", "light barline", "octave shift", "pedal",
                "slur middle", "slur tip", "staff", "stem", "tie middle", "tie tip", "tuplet bracket", "wedge", "a custom line" },
                ns{ "cue", "grace", "large" }, di{ "hyphen", "beam", "a custom distance" };
            AppearanceData a;
            a.appearanceType = en<AppearanceType>();
            a.appearanceSubType = a.appearanceType == AppearanceType::LineWidth ? r.pick( lw ) : a.appearanceType == AppearanceType::NoteSize ? r.pick( ns )
                : a.appearanceType == AppearanceType::Distance ? r.pick( di ) : text();
            a.value = a.appearanceType == AppearanceType::NoteSize ? posTenths() : tenths();
            d.appearance.push_back( a );
        }
    }
    void groups( ScoreData& s )
    {
        if( !opt() ) return;
        int n = r.range( 1, 4 ), parts = (int)s.parts.size();
        for( int i = 0; i < n; ++i )
        {
            PartGroupData g;
            g.number = i + 1; // overlapping groups are told apart by their numbers
            g.firstPartIndex = r.range( 0, parts - 1 ); g.lastPartIndex = r.range( g.firstPartIndex, parts - 1 );
            g.name = maybeText(); g.abbreviation = maybeText();
            if( opt() ) g.bracketType = en<BracketType>( { BracketType::unspecified } );
            s.partGroups.push_back( g );
        }
        for( size_t i = s.partGroups.size(); i > 1; --i ) std::swap( s.partGroups[i - 1], s.partGroups[r.below( i )] );
    }
    void layout( ScoreData& s, int measures )
    {
        for( int m = 0; m < measures; ++m ) if( opt() )
        {
            LayoutData l;
            l.system.newSystem = ynu(); l.system.layout = systemLayout();
            l.page.newPage = ynu(); l.page.pageLayoutData = pageLayout();
            if( opt() ) l.page.pageNumber = r.flip() ? std::to_string( r.range( 1, 99 ) ) : text();
            if( l.isUsed() ) s.layout[m] = l;
        }
    }
