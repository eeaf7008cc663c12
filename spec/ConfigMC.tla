------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Integers, Sequences, Settings, TLC, Json
Names == {"48bits", "49bits", "50bits", "51bits", "52bits", "53bits", "54bits", "55bits",
          "56bits", "57bits", "58bits", "59bits", "60bits", "61bits", "62bits", "63bits"}
\* "@nonutf8" stands for a value that is not text
Odd == {"unset", "", "64bits", "47bits", "48", " 48bits", "48BITS", "48bits ", "48bit", "48Bits",
        "048bits", "+48bits", "48 bits", "48bits48bits", "bits", "0bits", "560bits", "5", "-52bits",
        "304bits", "316bits", "0x34bits", "52bits\n", "@nonutf8"}
ASSUME PrintT("ODD " \o ToJson(Odd))
MCSettings == Names \cup Odd
VARIABLES setting, built, seen, hist
CONSTANTS Tracked, Depth
INSTANCE Config WITH Settings <- MCSettings, WidthOf <- WidthOf
=============================================================================
