    void measure( MeasureData& me, int index, int partIndex, const ScoreData& s, TimeSignatureData& time )
    {
        if( index == 0 || r.chance( 1, 4 ) )
        {
            static const std::vector<std::pair<int,int>> ts{ { 4, 4 }, { 3, 4 }, { 2, 2 }, { 6, 8 }, { 5, 4 }, { 7, 8 }, { 12, 8 } };
            auto t = r.pick( ts );
            time.beats = t.first; time.beatType = t.second; time.isImplicit = false;
            me.timeSignature = time;
        }
        else { me.timeSignature = time; me.timeSignature.isImplicit = true; }
        int length = std::max( 1, time.beats * 4 * s.ticksPerQuarter / time.beatType );
        for( size_t st = 0; st < me.staves.size(); ++st )
        {
            if( k.notes )
            {
                int nv = r.range( 0, k.maxVoices );
                if( st == 0 && nv == 0 ) nv = 1;
                for( int v = 0; v < nv; ++v ) voice( me.staves[st].voices[v].notes, length, s.ticksPerQuarter );
            }
        }
        if( k.attributes ) { attributes( me, length, index ); if( !me.timeSignature.isImplicit ) time = me.timeSignature; }
        if( k.directions ) for( auto& st : me.staves ) directions( st, length );
    }
    int tickIn( int length, bool mayEnd = true ) { return r.chance( 1, 3 ) ? 0 : r.range( 0, mayEnd ? length : length - 1 ); }
    KeyData key()
    {
        KeyData kd;
        if( r.chance( 1, 5 ) )
        {
            int n = r.range( 1, 4 );
            for( int i = 0; i < n; ++i )
            {
                KeyComponent c; c.step = (Step)r.below( 7 ); c.alter = r.range( -2, 2 ); c.cents = rare() ? r.range( -49, 49 ) : 0;
                c.accidental = opt() ? en<Accidental>() : Accidental::none;
                kd.nonTraditional.push_back( c );
            }
            return kd;
        }
        kd.fifths = r.range( -7, 7 );
        kd.cancel = opt() ? r.range( -7, 7 ) : 0;
        kd.mode = opt() ? ( r.flip() ? KeyMode::major : KeyMode::minor ) : KeyMode::unspecified;
        return kd;
    }
    void attributes( MeasureData& me, int length, int index )
    {
        if( !me.timeSignature.isImplicit )
        {
            if( opt() ) me.timeSignature.symbol = r.flip() ? TimeSignatureSymbol::common : TimeSignatureSymbol::cut;
            if( opt() ) me.timeSignature.display = yn();
        }
        if( opt() ) me.width = posTenths();
        me.implicit = ynu(); me.nonControlling = ynu();
        if( opt() ) me.number = r.flip() ? std::to_string( index + 100 ) : text();
        if( rare() ) me.multiMeasureRest = r.range( 1, 40 );
        const bool many = me.staves.size() > 1;
        // the keys of the measure, in the order of their time; those after the beginning need music to hang on
        auto later = [&]( int t ) { int u = r.range( t, length ); return u; };
        if( opt() )
        {
            int n = r.range( 1, 3 ), t = 0;
            for( int i = 0; i < n; ++i )
            {
                KeyData kd = key();
                if( opt() ) t = later( t );
                kd.tickTimePosition = t;
                if( many && opt() ) kd.staffIndex = (int)r.below( me.staves.size() );
                me.keys.push_back( kd );
            }
        }
        for( auto& st : me.staves ) if( opt() )
        {
            int n = r.range( 1, 3 ), t = 0;
            for( int i = 0; i < n; ++i )
            {
                ClefData c; c.symbol = en<ClefSymbol>(); c.line = r.range( 1, 5 ); c.octaveChange = opt() ? r.range( -2, 2 ) : 0;
                if( opt() ) t = later( t );
                c.tickTimePosition = t;
                c.location = t > 0 ? ClefLocation::midMeasure : en<ClefLocation>( { ClefLocation::midMeasure } );
                st.clefs.push_back( c );
            }
        }
        auto bar = [&] {
            BarlineData b;
            b.barlineType = en<BarlineType>( { BarlineType::unsupported } );
            if( opt() ) { b.endingType = en<EndingType>(); if( b.endingType != EndingType::none ) b.endingNumber = r.range( 1, 12 ); }
            b.repeat = opt();
            return b;
        };
        if( opt() ) { auto b = bar(); b.tickTimePosition = 0; b.location = opt() ? HorizontalAlignment::left : HorizontalAlignment::unspecified; me.barlines.push_back( b ); }
        if( rare() ) { auto b = bar(); b.tickTimePosition = r.range( 1, length ); b.location = HorizontalAlignment::center; b.repeat = false; b.endingType = EndingType::none; b.endingNumber = 0; me.barlines.push_back( b ); }
        if( opt() ) { auto b = bar(); b.tickTimePosition = TICK_TIME_INFINITY; b.location = opt() ? HorizontalAlignment::right : HorizontalAlignment::unspecified; me.barlines.push_back( b ); }
    }
    SpannerStart spanStart( int tick, bool align = false ) { (void)align; SpannerStart s; s.numberLevel = level(); s.tickTimePosition = tick; s.positionData = position(); return s; }
    SpannerStop spanStop( int tick ) { SpannerStop s; s.numberLevel = level(); s.tickTimePosition = tick; s.positionData = position(); return s; }
    ChordData chord()
    {
        ChordData c;
        c.root = (Step)r.below( 7 ); c.rootAlter = opt() ? r.range( -2, 2 ) : 0; c.chordKind = en<ChordKind>( { ChordKind::unspecified } );
        c.text = maybeText(); c.useSymbols = ynu();
        if( opt() ) { c.bass = (Step)r.below( 7 ); c.bassAlter = opt() ? r.range( -2, 2 ) : 0; } else { c.bass = Step::unspecified; c.bassAlter = 0; }
        int n = opt() ? r.range( 1, 3 ) : 0;
        for( int i = 0; i < n; ++i )
        {
            Extension e; e.extensionType = en<ExtensionType>(); e.extensionAlter = en<ExtensionAlter>(); e.extensionNumber = en<ExtensionNumber>(); e.printObject = ynu();
            c.extensions.push_back( e );
        }
        c.positionData = position();
        if( k.misc && rare() ) for( int i = r.range( 1, 3 ); i > 0; --i ) // processing instructions in the harmony element
        {
            static const std::vector<std::string> names{ "app", "my-app", "a.b_c", "x1" };
            MiscData m; m.name = r.pick( names ); m.data = opt() ? word() : opt() ? "key=\"a & b\" <x>" : "";
            c.miscData.push_back( m );
        }
        return c;
    }
    DurationName beatUnit() { return en<DurationName>( { DurationName::unspecified } ); }
    void directions( StaffData& st, int length )
    {
        int n = opt() ? r.range( 1, 5 ) : 0, t = 0;
        for( int i = 0; i < n; ++i )
        {
            if( r.chance( 2, 3 ) ) t = r.range( t, length + 1 );
            DirectionData d;
            d.tickTimePosition = t;
            if( opt() ) d.placement = en<Placement>( { Placement::unspecified } );
            auto some = [&]( int max ) { return rare() || r.chance( 1, 8 ) ? r.range( 1, max ) : 0; };
            if( r.chance( 1, 4 ) )  // chord symbols stand alone in a direction
            {
                d.chords.push_back( chord() );
                for( int q = r.range( 0, 2 ); q > 0 && opt(); --q ) { d.chords.push_back( chord() ); d.chords.back().positionData = d.chords.front().positionData; d.chords.back().miscData.clear(); } // the instructions belong to the one harmony element
                if( opt() ) for( auto& c : d.chords ) { c.positionData.placement = d.placement; }
                for( auto& c : d.chords ) c.positionData.placement = d.placement;
                st.directions.push_back( d );
                continue;
            }
            for( int q = some( 2 ); q > 0; --q )
            {
                if( r.chance( 1, 3 ) )
                {
                    MarkData m{ r.flip() ? MarkType::pedal : MarkType::damp }; m.tickTimePosition = t; m.positionData = position(); m.positionData.placement = d.placement;
                    d.marks.push_back( m );
                }
                else
                {
                    MarkType mt; do mt = r.pick( noteMarks() ); while( !isMarkDynamic( mt ) );
                    d.marks.push_back( mark( mt, t ) );
                }
            }
            for( int q = some( 2 ); q > 0; --q ) { WedgeStop w; w.numberLevel = level(); w.positionData = position(); if( opt() ) { w.isSpreadSpecified = true; w.spread = posTenths(); } d.wedgeStops.push_back( w ); }
            for( int q = some( 2 ); q > 0; --q ) { WedgeStart w; w.numberLevel = level(); w.positionData = position(); w.wedgeType = r.flip() ? WedgeType::crescendo : WedgeType::diminuendo; w.lineData = line( false ); if( opt() ) { w.isSpreadSpecified = true; w.spread = posTenths(); } d.wedgeStarts.push_back( w ); }
            for( int q = some( 2 ); q > 0; --q ) d.ottavaStops.push_back( spanStop( t ) );
            for( int q = some( 2 ); q > 0; --q ) { OttavaStart o; o.ottavaType = en<OttavaType>( { OttavaType::unspecified } ); o.spannerStart = spanStart( t ); o.spannerStart.printData.fontData = font( false ); o.spannerStart.lineData = line( false ); o.spannerStart.lineData.lineType = LineType::unspecified; d.ottavaStarts.push_back( o ); }
            for( int q = some( 2 ); q > 0; --q ) d.bracketStops.push_back( spanStop( t ) );
            for( int q = some( 2 ); q > 0; --q ) { auto b = spanStart( t ); b.lineData = line( true ); b.lineData.lineHook = en<LineHook>( { LineHook::unspecified } ); if( opt() ) { b.printData.isColorSpecified = true; b.printData.color = color(); } d.bracketStarts.push_back( b ); }
            for( int q = some( 2 ); q > 0; --q )
            {
                TempoData m; m.isParenthetical = ynu(); m.positionData = position(); m.printData = print( false );
                switch( r.below( 3 ) )
                {
                    case 0: m.tempoType = TempoType::beatsPerMinute; m.beatsPerMinute.durationName = beatUnit(); m.beatsPerMinute.dots = r.range( 0, 2 ); m.beatsPerMinute.beatsPerMinute = r.range( 1, 400 ); break;
                    case 1: m.tempoType = TempoType::metricModulation; m.metricModulation.leftDurationName = beatUnit(); m.metricModulation.leftDots = r.range( 0, 2 ); m.metricModulation.rightDurationName = beatUnit(); m.metricModulation.rightDots = r.range( 0, 2 ); break;
                    default: m.tempoType = TempoType::tempoText; m.beatsPerMinute.durationName = beatUnit(); m.beatsPerMinute.dots = r.range( 0, 2 ); m.tempoText.tempoText = "ca. " + text(); break;
                }
                d.tempos.push_back( m );
            }
            for( int q = some( 3 ); q > 0; --q ) { WordsData w; w.text = text(); w.positionData = position( true ); w.positionData.verticalAlignment = VerticalAlignment::unspecified; w.fontData = font(); d.words.push_back( w ); }
            for( int q = some( 2 ); q > 0; --q ) { RehearsalData w; w.text = text(); w.positionData = position( true ); w.positionData.verticalAlignment = VerticalAlignment::unspecified; w.fontData = font(); d.rehearsals.push_back( w ); }
            for( int q = some( 2 ); q > 0; --q ) { SegnoData w; w.positionData = position( true ); if( opt() ) { w.isColorSpecified = true; w.colorData = color(); } d.segnos.push_back( w ); }
            for( int q = some( 2 ); q > 0; --q ) { CodaData w; w.positionData = position( true ); if( opt() ) { w.isColorSpecified = true; w.colorData = color(); } d.codas.push_back( w ); }
            if( d.marks.empty() && d.wedgeStops.empty() && d.wedgeStarts.empty() && d.ottavaStops.empty() && d.ottavaStarts.empty() && d.bracketStops.empty() && d.bracketStarts.empty()
                && d.tempos.empty() && d.words.empty() && d.rehearsals.empty() && d.segnos.empty() && d.codas.empty() ) { WordsData w; w.text = text(); d.words.push_back( w ); }
            st.directions.push_back( d );
        }
    }
