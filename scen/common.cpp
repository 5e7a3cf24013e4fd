namespace scn { int gapRelocation = 0; bool reportGaps = false; }
